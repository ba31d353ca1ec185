------------------------------ MODULE Mapping ------------------------------
(***************************************************************************)
(* Mapping of the logical weights L (and bias) of a layer onto a tile:     *)
(*   L = w * mu * lam   (w on the tile, mu mapping scales, lam learned     *)
(* output scales).  Whatever is set, scaled, remapped, programmed, read,   *)
(* copied or reloaded: forward, backward and weight readout work with L,   *)
(* and only the operations that say so change L.                           *)
(* kind: "fp", "ideal", "inf", "tinf"; bias 0 none 1 tile 2 digital;       *)
(* om: 1/omega of the configuration (0: no scaling); cw column-wise;       *)
(* weights are multiples of 1/K (so are the scales);                       *)
(* learn: 0 none, 1 scalar, 2 per output; comp: lr compensation            *)
(***************************************************************************)
EXTENDS Mat, TLC

M(c) == Len(c.W0)
N(c) == Len(c.W0[1])
OnesV(c) == [i \in 1..M(c) |-> 1]
\* how many units is one
One(c) == IF "K" \in DOMAIN c THEN c.K ELSE 1
Unscaled(c) == [i \in 1..M(c) |-> One(c)]
AbsRow(c, w, b, i) == LET r == [j \in 1..N(c) |-> AbsI(w[i][j])] IN
    IF c.bias = 1 THEN MaxI(MaxSeq(r), AbsI(b[i])) ELSE MaxSeq(r)
Nz(c, x) == IF x = 0 THEN One(c) ELSE x
\* scales resulting from mapping the maximum to 1/om
Mu(c, w, b, om) ==
    IF om = 0 THEN Unscaled(c)
    ELSE IF c.cw THEN [i \in 1..M(c) |-> Nz(c, AbsRow(c, w, b, i) * om)]
    ELSE LET mx == MaxSeq([i \in 1..M(c) |-> AbsRow(c, w, b, i)])
         IN [i \in 1..M(c) |-> Nz(c, mx * om)]

NoRef == [w |-> <<>>, b |-> <<>>, s |-> <<>>]
Put(c, s, w, b, om) ==
    [s EXCEPT !.L = w, !.b = b, !.fz = FALSE, !.mu = Mu(c, w, b, om), !.lam = OnesV(c), !.ref = NoRef]
\* fz: weights resulted from float arithmetic, zeros are only close to zero
InitSt(c) == Put(c, [L |-> <<>>, b |-> <<>>, mu |-> <<>>, lam |-> <<>>, ref |-> NoRef,
                     y |-> <<>>, gx |-> <<>>, rd |-> <<>>, fz |-> FALSE], c.W0, c.B0, c.om)

Sc(s) == [i \in 1..Len(s.mu) |-> s.mu[i] * s.lam[i]]
Out(c, s, X) == LET Y == XWt(X, s.L) IN
    IF c.bias = 0 THEN Y ELSE [k \in 1..Len(Y) |-> VAdd(Y[k], s.b)]
Quiet(s) == [s EXCEPT !.y = <<>>, !.gx = <<>>, !.rd = <<>>]
\* rows multiplied
RScale(v, A) == [i \in 1..Len(A) |-> VScale(v[i], A[i])]
VMul(u, v) == [i \in 1..Len(u) |-> u[i] * v[i]]
VDiv(u, v) == [i \in 1..Len(u) |-> TDiv(u[i], v[i])]

Train(c, s, X, G, lr) ==
    LET f == [i \in 1..M(c) |-> lr * s.lam[i] * s.lam[i]]
        s1 == [Quiet(s) EXCEPT !.y = Out(c, s, X), !.gx = DW(G, s.L, N(c))]
    IN [s1 EXCEPT !.fz = TRUE, !.L = MSub(s.L, RScale(f, OuterSum(G, X, M(c), N(c)))),
                  !.b = IF c.bias # 1 THEN @ ELSE VSub(@, VMul(f, ColSum(G, M(c))))]

\* programming: the tile has the reference weights again (the weights on the
\* tile when first programmed after they were set)
Program(c, s, fromref) ==
    LET s0 == IF s.ref = NoRef \/ ~fromref
              THEN [s EXCEPT !.ref = [w |-> s.L, b |-> s.b, s |-> Sc(s)]] ELSE s
        q == Sc(s0)
    IN [Quiet(s0) EXCEPT !.fz = TRUE,
          !.L = [i \in 1..M(c) |-> [j \in 1..N(c) |-> TDiv(s0.ref.w[i][j] * q[i], s0.ref.s[i])]],
          !.b = IF c.bias # 1 THEN @ ELSE [i \in 1..M(c) |-> TDiv(s0.ref.b[i] * q[i], s0.ref.s[i])]]

Scale(c, s, k, sc) == \* all scales replaced: w stays
    [Quiet(s) EXCEPT !.L = RScale([i \in 1..M(c) |-> k], @), !.mu = [i \in 1..M(c) |-> k * sc[i]],
                     !.lam = OnesV(c), !.b = IF c.bias = 1 THEN VScale(k, @) ELSE @]

Step(c, s, a) ==
  CASE a.op = "set"    -> {Put(c, Quiet(s), a.w, a.b, c.om)}
    [] a.op = "setom"  -> {Put(c, Quiet(s), a.w, a.b, a.om)}
    [] a.op = "setraw" -> \* tile weights given directly: scales stay
         {[Quiet(s) EXCEPT !.L = RScale(Sc(s), a.w), !.ref = NoRef, !.fz = FALSE,
                           !.b = IF c.bias = 1 THEN VMul(Sc(s), a.b) ELSE a.b]}
    [] a.op = "remap"  -> {Put(c, Quiet(s), s.L, s.b, IF a.om < 0 THEN c.om ELSE a.om)}
    [] a.op = "learn"  -> \* the learned output scales are multiplied
         {[Quiet(s) EXCEPT !.lam = VMul(a.r, @), !.L = RScale(a.r, @),
                           !.b = IF c.bias = 1 THEN VMul(a.r, @) ELSE @]}
    [] a.op = "scale"  -> {Scale(c, s, a.k, Sc(s))}
    [] a.op = "train"  -> {Train(c, s, a.x, a.g, a.lr)}
    [] a.op = "fwd"    -> {[Quiet(s) EXCEPT !.y = Out(c, s, a.x)]}
    [] a.op = "read"   -> {[Quiet(s) EXCEPT !.rd = s.L \o (IF c.bias = 0 THEN <<>> ELSE <<s.b>>)]}
    [] a.op = "program" -> {Program(c, s, a.fromref)}
    [] a.op = "dtype"  -> {[Quiet(s) EXCEPT !.mu = Sc(s), !.lam = OnesV(c)]}
    [] a.op \in {"copy", "reload", "pickle", "replace"} -> {Quiet(s)}

Obs(c, s) == [L |-> s.L, b |-> IF c.bias = 0 THEN <<>> ELSE s.b, mu |-> s.mu, sc |-> Sc(s),
              w |-> s.L, y |-> s.y, gx |-> s.gx, rd |-> s.rd]

(* ------------------------------------------------------------ properties *)
Inv(c, s) == \A i \in 1..M(c) : s.mu[i] > 0 /\ s.lam[i] > 0
Keeps == {"remap", "fwd", "read", "dtype", "copy", "reload", "pickle", "replace"}
StepOk(c, s, a, n) ==
    /\ a.op \in Keeps => n.L = s.L /\ n.b = s.b
    /\ (a.op = "remap" /\ a.om > 0) =>
          \A i \in 1..M(c) : \A j \in 1..N(c) : AbsI(n.L[i][j]) * a.om <= n.mu[i]
    /\ (a.op = "program" /\ ~a.fromref) => n.L = s.L
    /\ a.op \in {"train", "program", "fwd", "read"} => n.mu = s.mu /\ n.lam = s.lam

(* --------------------------------------------------------- bounded model *)
Mk(k, bi, om, cw, le, co) ==
   [K |-> 1, kind |-> k, bias |-> bi, om |-> om, cw |-> cw, learn |-> le, comp |-> co,
    W0 |-> <<<<1, -2>>, <<4, 0>>>>, B0 |-> <<1, -2>>]
Cfgs0 == {Mk("fp", 1, 1, FALSE, 1, FALSE), Mk("ideal", 2, 2, TRUE, 2, FALSE), Mk("inf", 2, 1, FALSE, 0, TRUE),
          Mk("tinf", 2, 2, TRUE, 1, FALSE), Mk("fp", 0, 0, FALSE, 2, FALSE),
          [Mk("inf", 2, 1, TRUE, 2, TRUE) EXCEPT !.K = 1024]}
Cfgs1 == {Mk(k, bi, om, cw, le, FALSE) : k \in {"fp", "ideal", "inf"}, bi \in {0, 1, 2}, om \in {0, 1, 4},
             cw \in BOOLEAN, le \in {0, 1, 2}}
         \cup {Mk("tinf", bi, om, cw, le, FALSE) : bi \in {0, 2}, om \in {0, 2}, cw \in BOOLEAN, le \in {0, 1, 2}}
\* a remap which depends on an inexact zero
Shaky(c, s) == /\ s.fz
               /\ IF c.cw THEN \E i \in 1..M(c) : AbsRow(c, s.L, s.b, i) = 0
                  ELSE \A i \in 1..M(c) : AbsRow(c, s.L, s.b, i) = 0
Big(c, s) == MaxSeq(Flat(s.L)) > 2000 \/ MinSeq(Flat(s.L)) < -2000 \/ MaxSeq(Sc(s)) > 500 * One(c)
Acts(c, s) ==
   LET big == Big(c, s) IN
   {[op |-> "set", w |-> <<<<2, 1>>, <<-1, 0>>>>, b |-> <<0, 4>>], [op |-> "setom", w |-> <<<<1, 1>>, <<0, 0>>>>, b |-> <<0, 0>>, om |-> 2],
    [op |-> "fwd", x |-> <<<<1, 2>>, <<0, -1>>>>], [op |-> "read", x |-> TRUE, sc |-> TRUE], [op |-> "copy"], [op |-> "reload"],
    [op |-> "dtype"]}
   \cup (IF Shaky(c, s) THEN {} ELSE {[op |-> "remap", om |-> -1], [op |-> "remap", om |-> 1], [op |-> "remap", om |-> 0]})
   \cup (IF big THEN {} ELSE
    {[op |-> "setraw", w |-> <<<<1, 0>>, <<0, 1>>>>, b |-> <<1, 1>>],
     [op |-> "scale", k |-> 2, f |-> FALSE],
     [op |-> "train", x |-> <<<<1, 2>>>>, g |-> <<<<1, -1>>>>, lr |-> 1]}
    \cup (IF c.learn = 0 THEN {} ELSE {[op |-> "learn", r |-> IF c.learn = 1 THEN <<2, 2>> ELSE <<2, 1>>]})
    \cup (IF c.kind \notin {"fp", "ideal"} THEN {} ELSE {[op |-> "program", fromref |-> TRUE, x |-> FALSE]}))
=============================================================================
