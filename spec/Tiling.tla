------------------------------- MODULE Tiling -------------------------------
(***************************************************************************)
(* A logical layer on an array of tiles: the weight matrix is divided into *)
(* balanced blocks of at most maxin columns and maxout rows, each block on  *)
(* a tile of its own, which is a Mapping.tla machine (own mapping scales,   *)
(* own learned scales, own programming reference); the bias is digital and  *)
(* belongs to the layer.  Whatever happens to the tiles, the layer computes *)
(* and differentiates with the assembled logical weights, and what is done  *)
(* to one tile does not reach another one.                                  *)
(* mapped: AnalogLinearMapped (array in any case), otherwise AnalogLinear   *)
(* takes an array only if the weight does not fit                           *)
(***************************************************************************)
EXTENDS Mat, TLC

Mp == INSTANCE Mapping

M(c) == Len(c.W0)
N(c) == Len(c.W0[1])
\* balanced sizes
Split(n, mx) == IF mx <= 0 THEN <<n>> ELSE
    LET k == (n + mx - 1) \div mx IN [i \in 1..k |-> (n \div k) + (IF i - 1 < n % k THEN 1 ELSE 0)]
Arr(c) == c.mapped \/ ((c.maxin > 0 \/ c.maxout > 0) /\ (c.maxin < N(c) \/ c.maxout < M(c)))
InS(c) == IF Arr(c) THEN Split(N(c), c.maxin) ELSE <<N(c)>>
OutS(c) == IF Arr(c) THEN Split(M(c), c.maxout) ELSE <<M(c)>>
Start(sz, i) == Sum(SubSeq(sz, 1, i - 1))
Cols(c, A, p) == [r \in 1..Len(A) |-> SubSeq(A[r], Start(InS(c), p) + 1, Start(InS(c), p) + InS(c)[p])]
Rows(c, v, q) == SubSeq(v, Start(OutS(c), q) + 1, Start(OutS(c), q) + OutS(c)[q])
Block(c, A, p, q) == Cols(c, Rows(c, A, q), p)
Grid(c, F(_, _)) == [p \in 1..Len(InS(c)) |-> [q \in 1..Len(OutS(c)) |-> F(p, q)]]
Zb(c) == [i \in 1..M(c) |-> 0]
\* configuration of one tile
TC(c, p, q) == [W0 |-> Block(c, c.W0, p, q), B0 |-> Rows(c, Zb(c), q), bias |-> 0, om |-> c.om, cw |-> c.cw, learn |-> c.learn]

RECURSIVE Cat(_, _)
Cat(f, n) == IF n = 0 THEN <<>> ELSE Cat(f, n - 1) \o f[n]
\* assembled: rows of the matrix from the grid of matrices
Asm(c, G) == Cat([q \in 1..Len(OutS(c)) |-> [r \in 1..OutS(c)[q] |->
                     Cat([p \in 1..Len(InS(c)) |-> G[p][q][r]], Len(InS(c)))]], Len(OutS(c)))
Lg(c, s) == Asm(c, Grid(c, LAMBDA p, q : s.t[p][q].L))

InitSt(c) == [t |-> Grid(c, LAMBDA p, q : Mp!InitSt(TC(c, p, q))), b |-> c.B0, y |-> <<>>, gx |-> <<>>, gb |-> <<>>]
Out(c, s, X) == LET Y == XWt(X, Lg(c, s)) IN IF c.bias = 0 THEN Y ELSE [k \in 1..Len(Y) |-> VAdd(Y[k], s.b)]
Quiet(s) == [s EXCEPT !.y = <<>>, !.gx = <<>>, !.gb = <<>>]
One(c, s, p, q, S) == [Quiet(s) EXCEPT !.t[p][q] = S]
All(c, s, F(_, _)) == [Quiet(s) EXCEPT !.t = Grid(c, F)]
\* the one successor of a deterministic operation on one tile
Do(c, s, p, q, a) == CHOOSE n \in Mp!Step(TC(c, p, q), s.t[p][q], a) : TRUE
Zr(c, q) == Rows(c, Zb(c), q)

Step(c, s, a) ==
  CASE a.op = "set"   -> {[All(c, s, LAMBDA p, q : Do(c, s, p, q, [op |-> "set", w |-> Block(c, a.w, p, q), b |-> Zr(c, q)]))
                             EXCEPT !.b = IF c.bias = 0 THEN @ ELSE a.b]}
    [] a.op = "setom" -> {[All(c, s, LAMBDA p, q : Do(c, s, p, q, [op |-> "setom", om |-> a.om, w |-> Block(c, a.w, p, q), b |-> Zr(c, q)]))
                             EXCEPT !.b = IF c.bias = 0 THEN @ ELSE a.b]}
    [] a.op = "setraw" -> {[All(c, s, LAMBDA p, q : Do(c, s, p, q, [op |-> "setraw", w |-> Block(c, a.w, p, q), b |-> Zr(c, q)]))
                             EXCEPT !.b = IF c.bias = 0 THEN @ ELSE a.b]}
    [] a.op = "remap" -> {All(c, s, LAMBDA p, q : Do(c, s, p, q, [op |-> "remap", om |-> a.om]))}
    \* on the tile p, q only
    [] a.op = "tset"  -> {One(c, s, a.p, a.q, Do(c, s, a.p, a.q, [op |-> "set", w |-> a.w, b |-> Zr(c, a.q)]))}
    [] a.op = "tremap" -> {One(c, s, a.p, a.q, Do(c, s, a.p, a.q, [op |-> "remap", om |-> a.om]))}
    [] a.op = "tscale" -> {One(c, s, a.p, a.q, Do(c, s, a.p, a.q, [op |-> "scale", k |-> a.k]))}
    [] a.op = "tlearn" -> {One(c, s, a.p, a.q, Do(c, s, a.p, a.q, [op |-> "learn", r |-> a.r]))}
    [] a.op = "program" -> {All(c, s, LAMBDA p, q : Do(c, s, p, q, [op |-> "program", fromref |-> TRUE]))}
    \* a training step; the tiles in fr (and with c.bias the bias, if fb) are frozen
    [] a.op = "train" ->
         {LET t1 == All(c, s, LAMBDA p, q : IF <<p, q>> \in {a.fr[i] : i \in 1..Len(a.fr)} THEN Mp!Quiet(s.t[p][q])
                                ELSE Do(c, s, p, q, [op |-> "train", lr |-> a.lr, x |-> Cols(c, a.x, p), g |-> [k \in 1..Len(a.g) |-> Rows(c, a.g[k], q)]]))
          IN [t1 EXCEPT !.y = Out(c, s, a.x), !.gx = DW(a.g, Lg(c, s), N(c)), !.gb = IF c.bias = 0 \/ a.fb THEN <<>> ELSE ColSum(a.g, M(c)),
                 !.b = IF c.bias = 0 \/ a.fb THEN @ ELSE VSub(@, VScale(a.lr, ColSum(a.g, M(c))))]}
    [] a.op = "fwd"   -> {[Quiet(s) EXCEPT !.y = Out(c, s, a.x)]}
    [] a.op \in {"copy", "reload", "pickle", "replace", "read"} -> {[Quiet(s) EXCEPT !.t = Grid(c, LAMBDA p, q : Mp!Quiet(s.t[p][q]))]}

Obs(c, s) == [L |-> Lg(c, s), raw |-> Lg(c, s), b |-> IF c.bias = 0 THEN <<>> ELSE s.b, y |-> s.y, gx |-> s.gx, gb |-> s.gb,
              tl |-> Grid(c, LAMBDA p, q : s.t[p][q].L),
              mu |-> Grid(c, LAMBDA p, q : s.t[p][q].mu), sc |-> Grid(c, LAMBDA p, q : Mp!Sc(s.t[p][q]))]

(* ------------------------------------------------------------ properties *)
Inv(c, s) == /\ \A p \in 1..Len(InS(c)) : \A q \in 1..Len(OutS(c)) : Mp!Inv(TC(c, p, q), s.t[p][q])
             /\ Sum(InS(c)) = N(c) /\ Sum(OutS(c)) = M(c)
             /\ MaxSeq(InS(c)) - MinSeq(InS(c)) <= 1 /\ MaxSeq(OutS(c)) - MinSeq(OutS(c)) <= 1
             /\ (c.maxin > 0 /\ Arr(c)) => MaxSeq(InS(c)) <= c.maxin
             /\ (c.maxout > 0 /\ Arr(c)) => MaxSeq(OutS(c)) <= c.maxout
StepOk(c, s, a, n) ==
    /\ a.op \in {"remap", "tremap", "fwd", "copy", "reload", "pickle", "replace", "read"} => Lg(c, n) = Lg(c, s) /\ n.b = s.b
    /\ a.op \in {"tset", "tremap", "tscale", "tlearn"} => n.b = s.b /\ \A p \in 1..Len(InS(c)) : \A q \in 1..Len(OutS(c)) :
          <<p, q>> # <<a.p, a.q>> => n.t[p][q] = s.t[p][q]
    /\ a.op \in {"set", "setom"} => Lg(c, n) = a.w
    \* without output scales an array is trained as a single tile
    /\ (a.op = "train" /\ c.learn = 0 /\ a.fr = <<>>) => Lg(c, n) = MSub(Lg(c, s), MScale(a.lr, OuterSum(a.g, a.x, M(c), N(c))))

(* --------------------------------------------------------- bounded model *)
Mk(k, mp, mi, mo, bi, om, cw, le) ==
   [kind |-> k, mapped |-> mp, maxin |-> mi, maxout |-> mo, bias |-> bi, om |-> om, cw |-> cw, learn |-> le, comp |-> FALSE,
    W0 |-> <<<<1, -2, 4>>, <<4, 0, -1>>, <<2, 1, 0>>>>, B0 |-> <<1, -2, 0>>]
Cfgs0 == {Mk("fp", FALSE, 2, 2, 2, 1, FALSE, 1), Mk("ideal", FALSE, 2, 0, 2, 2, TRUE, 2), Mk("inf", TRUE, 0, 2, 2, 1, FALSE, 0),
          Mk("tinf", FALSE, 1, 2, 2, 2, TRUE, 1), Mk("custom", TRUE, 2, 2, 0, 1, FALSE, 0), Mk("fp", FALSE, 4, 3, 2, 1, TRUE, 2)}
Cfgs1 == {Mk(k, mp, x, 2, bi, om, TRUE, le) : k \in {"fp", "ideal", "inf", "tinf", "custom"}, mp \in BOOLEAN, x \in {0, 1, 2},
             bi \in {0, 2}, om \in {0, 2}, le \in {0, 1, 2}}
Big(c, s) == LET L == Flat(Lg(c, s)) IN MaxSeq(L) > 1000 \/ MinSeq(L) < -1000
               \/ \E p \in 1..Len(InS(c)) : \E q \in 1..Len(OutS(c)) : MaxSeq(Mp!Sc(s.t[p][q])) > 200
Shaky(c, s, p, q) == Mp!Shaky(TC(c, p, q), s.t[p][q])
AnyShaky(c, s) == \E p \in 1..Len(InS(c)) : \E q \in 1..Len(OutS(c)) : Shaky(c, s, p, q)
Acts(c, s) ==
   LET P == Len(InS(c)) Q == Len(OutS(c))
       x == <<<<1, 2, -1>>, <<0, -1, 2>>>> g == <<<<1, -1, 0>>, <<0, 1, 1>>>> IN
   {[op |-> "set", w |-> <<<<2, 1, 0>>, <<-1, 0, 4>>, <<0, 0, 1>>>>, b |-> <<0, 4, 1>>], [op |-> "fwd", x |-> x], [op |-> "copy"], [op |-> "reload"],
    [op |-> "tset", p |-> P, q |-> 1, w |-> [i \in 1..OutS(c)[1] |-> [j \in 1..InS(c)[P] |-> i - 2 * j]]]}
   \cup (IF AnyShaky(c, s) THEN {} ELSE {[op |-> "remap", om |-> 1], [op |-> "remap", om |-> -1], [op |-> "tremap", p |-> 1, q |-> Q, om |-> 2]})
   \cup (IF Big(c, s) THEN {} ELSE
     {[op |-> "tscale", p |-> 1, q |-> Q, k |-> 2],
      [op |-> "train", x |-> x, g |-> g, lr |-> 1, fr |-> <<>>, fb |-> FALSE],
      [op |-> "train", x |-> x, g |-> g, lr |-> 1, fr |-> <<<<P, Q>>>>, fb |-> TRUE]}
     \cup (IF c.learn = 0 THEN {} ELSE {[op |-> "tlearn", p |-> P, q |-> 1, r |-> [i \in 1..OutS(c)[1] |-> 2]]})
     \cup (IF c.kind \notin {"fp", "ideal"} THEN {} ELSE {[op |-> "program"]}))
=============================================================================
