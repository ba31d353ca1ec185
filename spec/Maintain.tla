------------------------------ MODULE Maintain ------------------------------
(***************************************************************************)
(* What happens to weights besides updates: decay, power-law drift,        *)
(* diffusion, clipping, resetting columns, and how the per-crosspoint      *)
(* (hidden) parameters steer it; all across copies and checkpoints.        *)
(* kinds: "fp" floating point tile, "ideal" (floating point update of an   *)
(*   analog tile), "const" pulsed device, "vec" two pulsed devices, summed *)
(* wn: the pulsed device has write noise: A are the persistent weights, W   *)
(*   what is seen of them, up to the noise                                 *)
(* Weights are integers (unit 1/16384).  L: lifetime (0 none), drift: nu=1 *)
(*   with offset off and unit of time t0, rb: reset value, df: diffusion   *)
(* State, per device k and crosspoint: A weight (meaningless if unknown,   *)
(*   un, after random diffusion), hp hidden parameters: hi, lo bounds,     *)
(*   sc decay scale in halves, rb reset value, df diffuses;                *)
(*   dr drift: ti time of last change, w0 value then, pv value the drift   *)
(*   left behind.  t: the drift clock (-1 before the first call)           *)
(***************************************************************************)
EXTENDS Mat, TLC

Map2(c, F(_, _)) == [i \in 1..c.D |-> [j \in 1..c.X |-> F(i, j)]]
K2(c, F(_, _, _)) == [k \in 1..c.n |-> Map2(c, LAMBDA i, j : F(k, i, j))]
Float(c) == c.kind \in {"fp", "ideal"}
Bd(c, P, k, i, j, w) == IF Float(c) THEN w ELSE Clip(w, P[k][i][j].lo, P[k][i][j].hi)
Known(s, A) == [s EXCEPT !.A = A, !.un = [k \in 1..Len(A) |-> [i \in 1..Len(A[k]) |-> [j \in 1..Len(A[k][i]) |-> FALSE]]]]

P0(c) == K2(c, LAMBDA k, i, j : [hi |-> c.hi[k], lo |-> c.lo[k], sc |-> IF c.L = 0 THEN 2 ELSE IF c.L = 1 THEN 0 ELSE 1,
                                 rb |-> c.rb, df |-> IF c.df THEN 1 ELSE 0])
SetW(c, s, w) == Known(s, K2(c, LAMBDA k, i, j : Bd(c, s.hp, k, i, j, w[k][i][j])))
InitSt(c) == SetW(c, [A |-> <<>>, un |-> <<>>, hp |-> P0(c), t |-> -1,
                      dr |-> K2(c, LAMBDA k, i, j : [ti |-> 0, w0 |-> 0, pv |-> 0])], c.W0)

(* -------------------------------------------------------- the operations *)
\* scale in quarters of a decay with strength a2 / 2
Quart(c, s, k, i, j, a2) ==
   IF Float(c) THEN (IF c.L <= 1 THEN 4 ELSE 4 - a2) ELSE 4 + a2 * (s.hp[k][i][j].sc - 2)
RB(c, s, k, i, j) == IF Float(c) THEN 0 ELSE s.hp[k][i][j].rb
Decay(c, s, a2) ==
   [s EXCEPT !.A = K2(c, LAMBDA k, i, j : LET q == Quart(c, s, k, i, j, a2) r == RB(c, s, k, i, j) IN
                       IF q = 0 THEN Bd(c, s.hp, k, i, j, r)
                       ELSE IF s.un[k][i][j] THEN 0 ELSE Bd(c, s.hp, k, i, j, TDiv((s.A[k][i][j] - r) * q, 4) + r)),
             !.un = K2(c, LAMBDA k, i, j : s.un[k][i][j] /\ Quart(c, s, k, i, j, a2) # 0)]
DecayOk(c, s, a2) == \A k \in 1..c.n : \A i \in 1..c.D : \A j \in 1..c.X :
   s.un[k][i][j] \/ (AbsI(s.A[k][i][j] - RB(c, s, k, i, j)) * Quart(c, s, k, i, j, a2)) % 4 = 0

\* the clock advances; what has changed since the last call starts to drift anew
T1(c, s, dt) == (IF s.t < 0 THEN 0 ELSE s.t) + dt
Dr0(c, s) == IF s.t >= 0 THEN s.dr ELSE K2(c, LAMBDA k, i, j : LET v == s.A[k][i][j] IN
                                                  [ti |-> 0, w0 |-> v, pv |-> v])
Fresh(c, s, k, i, j) == Dr0(c, s)[k][i][j].pv # s.A[k][i][j]
Drifted(c, s, dt, k, i, j) == LET d == Dr0(c, s)[k][i][j] IN
   TDiv(d.w0 + c.off, MaxI(T1(c, s, dt) - d.ti, 1)) - c.off
Drift(c, s, dt) ==
   IF ~c.drift THEN s ELSE
   LET t == T1(c, s, dt)
       w == K2(c, LAMBDA k, i, j : IF Fresh(c, s, k, i, j) THEN s.A[k][i][j]
                                   ELSE Drifted(c, s, dt, k, i, j))
       B == K2(c, LAMBDA k, i, j : Bd(c, s.hp, k, i, j, w[k][i][j]))
       old == Dr0(c, s)
   IN [s EXCEPT !.A = B, !.t = t,
         !.dr = K2(c, LAMBDA k, i, j :
            IF Fresh(c, s, k, i, j) THEN [ti |-> t, w0 |-> s.A[k][i][j], pv |-> B[k][i][j]]
            ELSE [old[k][i][j] EXCEPT !.pv = B[k][i][j]])]
\* (only drift known weights, by factors which stay on the grid)
DriftOk(c, s, dt) == ~c.drift \/ \A k \in 1..c.n : \A i \in 1..c.D : \A j \in 1..c.X :
   ~s.un[k][i][j] /\ (Fresh(c, s, k, i, j) \/ LET d == Dr0(c, s)[k][i][j] IN
      AbsI(d.w0 + c.off) % MaxI(T1(c, s, dt) - d.ti, 1) = 0)

Diffuse(c, s) ==
   IF Float(c) THEN (IF c.df THEN [s EXCEPT !.un = K2(c, LAMBDA k, i, j : TRUE)] ELSE s)
   ELSE [s EXCEPT !.un = K2(c, LAMBDA k, i, j : @[k][i][j] \/ s.hp[k][i][j].df = 1)]
InCols(c, a, j) == IF a.n < 0 THEN TRUE ELSE \E k \in 0..(a.n - 1) : (a.from + k) % c.X = j - 1
HasReset(c) == ~Float(c)

Step(c, s, a) ==
  CASE a.op = "set"   -> {SetW(c, s, a.w)}
    \* n unit steps on one crosspoint (each device)
    [] a.op = "upd"   -> {[s EXCEPT !.A = K2(c, LAMBDA k, i, j : IF i = a.i /\ j = a.j /\ ~s.un[k][i][j]
                                          THEN Bd(c, s.hp, k, i, j, @[k][i][j] + a.v * c.u) ELSE @[k][i][j])]}
    [] a.op = "decay" -> {Decay(c, s, a.v)}
    [] a.op = "drift" -> {Drift(c, s, a.v)}
    [] a.op = "diffuse" -> {Diffuse(c, s)}
    [] a.op = "post"  -> {LET m == IF c.df THEN Diffuse(c, s) ELSE s IN IF c.L = 0 THEN m ELSE Decay(c, m, 2)}
    [] a.op = "reset" -> {IF a.p = 0 THEN s ELSE
          [s EXCEPT !.A = K2(c, LAMBDA k, i, j : IF InCols(c, a, j) THEN Bd(c, s.hp, k, i, j, s.hp[k][i][j].rb) ELSE @[k][i][j]),
                    !.un = K2(c, LAMBDA k, i, j : ~InCols(c, a, j) /\ @[k][i][j])]}
    [] a.op = "clip"  -> {[s EXCEPT !.A = K2(c, LAMBDA k, i, j : IF s.un[k][i][j] THEN 0
                                           ELSE Bd(c, s.hp, k, i, j, Clip(@[k][i][j], -a.v, a.v)))]}
    \* one hidden parameter of one crosspoint
    [] a.op = "hp"    -> {LET P == [s.hp EXCEPT ![a.k][a.i][a.j][a.what] = a.v] IN
          [s EXCEPT !.hp = P, !.A = K2(c, LAMBDA k, i, j : IF s.un[k][i][j] THEN 0 ELSE Bd(c, P, k, i, j, @[k][i][j]))]}
    [] a.op = "copy"  -> {s}

Obs(c, s) == [A |-> K2(c, LAMBDA k, i, j : IF s.un[k][i][j] THEN 0 ELSE s.A[k][i][j]),
              W |-> Map2(c, LAMBDA i, j : IF \E k \in 1..c.n : s.un[k][i][j] THEN 0 ELSE Sum([k \in 1..c.n |-> s.A[k][i][j]])),
              inb |-> "yes"]

(* ------------------------------------------------------------ properties *)
Inv(c, s) == \A k \in 1..c.n : \A i \in 1..c.D : \A j \in 1..c.X :
    Float(c) \/ s.un[k][i][j] \/ s.A[k][i][j] \in s.hp[k][i][j].lo..s.hp[k][i][j].hi
StepOk(c, s, a, n) == \A k \in 1..c.n : \A i \in 1..c.D : \A j \in 1..c.X :
    LET w == s.A[k][i][j] v == n.A[k][i][j] r == RB(c, s, k, i, j) IN
    (~s.un[k][i][j] /\ ~n.un[k][i][j]) =>
       \* decay never moves a weight away from its reset value; (bounded) drift without offset never away from zero
       /\ (a.op = "decay" /\ Float(c)) => AbsI(v - r) <= AbsI(w - r)
       /\ (a.op = "drift" /\ c.off = 0 /\ Fresh(c, s, k, i, j)) => v = w
       /\ (a.op = "drift" /\ s.t >= 0 /\ ~Fresh(c, s, k, i, j) /\ c.off = 0) => AbsI(v) <= AbsI(w)
       /\ a.op \in {"copy", "diffuse"} => v = w
       /\ (a.op = "reset" /\ ~InCols(c, a, j)) => v = w
       /\ a.op = "clip" => (AbsI(v) <= MaxI(a.v, 0) \/ v = n.hp[k][i][j].lo \/ v = n.hp[k][i][j].hi)

(* --------------------------------------------------------- bounded model *)
Base == [name |-> "const", kind |-> "const", X |-> 3, D |-> 1, n |-> 1, lo |-> <<-6720>>, hi |-> <<8400>>, L |-> 2, drift |-> TRUE,
         off |-> 0, t0 |-> 1, rb |-> 0, df |-> FALSE, wn |-> FALSE, u |-> 840, W0 |-> <<<<<<5040, -3360, 9240>>>>>>]
Cfgs0 == {Base, [Base EXCEPT !.name = "wn", !.wn = TRUE, !.rb = 840], [Base EXCEPT !.name = "rb", !.rb = 840, !.off = 1680, !.t0 = 2],
   [Base EXCEPT !.name = "df", !.df = TRUE, !.L = 1],
   \* weights cut at their bound while drifting, which go on when the bound is widened
   [Base EXCEPT !.name = "sat", !.off = 1680, !.lo = <<-420>>, !.W0 = <<<<<<0, 1680, -420>>>>>>],
   [Base EXCEPT !.name = "nodrift", !.drift = FALSE, !.rb = -840, !.D = 2, !.X = 2, !.W0 = <<<<<<5040, -3360>>, <<840, 1680>>>>>>],
   [Base EXCEPT !.name = "fp", !.kind = "fp"], [Base EXCEPT !.name = "ideal", !.kind = "ideal", !.drift = FALSE],
   [Base EXCEPT !.name = "vec", !.kind = "vec", !.n = 2, !.lo = <<-6720, -3360>>, !.hi = <<8400, 4200>>, !.X = 2,
                !.W0 = <<<<<<5040, -3360>>>>, <<<<840, 5040>>>>>>]}
OkAct(c, s, a) == CASE a.op = "decay" -> DecayOk(c, s, a.v) [] a.op = "drift" -> DriftOk(c, s, a.v)
                    [] a.op = "post" -> c.L = 0 \/ DecayOk(c, s, 2)
                    [] a.op = "reset" -> HasReset(c) [] a.op = "hp" -> ~Float(c) [] OTHER -> TRUE
Acts(c, s) == {a \in IF c.name = "sat" THEN
   {[op |-> "drift", v |-> 1], [op |-> "drift", v |-> 2], [op |-> "hp", k |-> 1, i |-> 1, j |-> 1, what |-> "lo", v |-> -6720],
    [op |-> "hp", k |-> 1, i |-> 1, j |-> 2, what |-> "hi", v |-> 420], [op |-> "copy", how |-> "sd"]} ELSE
   {[op |-> "set", w |-> [k \in 1..c.n |-> Map2(c, LAMBDA i, j : 1680 * (k + i) - 5040 * (j - 1))]],
    [op |-> "upd", i |-> c.D, j |-> 1, v |-> 2], [op |-> "upd", i |-> 1, j |-> c.X, v |-> -1],
    [op |-> "decay", v |-> 2], [op |-> "decay", v |-> 1],
    [op |-> "drift", v |-> 1], [op |-> "drift", v |-> 2], [op |-> "post"], [op |-> "diffuse"],
    [op |-> "reset", from |-> c.X - 1, n |-> 2, p |-> 1], [op |-> "reset", from |-> 0, n |-> -1, p |-> 1],
    [op |-> "clip", v |-> 2520],
    [op |-> "hp", k |-> c.n, i |-> 1, j |-> 2, what |-> "hi", v |-> 1680],
    [op |-> "hp", k |-> 1, i |-> c.D, j |-> 1, what |-> "df", v |-> IF c.df THEN 0 ELSE 1],
    [op |-> "hp", k |-> 1, i |-> c.D, j |-> 1, what |-> "sc", v |-> 2], [op |-> "hp", k |-> 1, i |-> c.D, j |-> 1, what |-> "rb", v |-> 2520],
    [op |-> "copy", how |-> "sd"], [op |-> "copy", how |-> "deepcopy"]} : OkAct(c, s, a)}
Cfgs1 == {[c EXCEPT !.name = @ \o "L"] : c \in Cfgs0}
=============================================================================
