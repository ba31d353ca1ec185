-------------------------------- MODULE Conv -------------------------------
(***************************************************************************)
(* Analog convolutions (1, 2 and 3 dimensional, on one tile or mapped to   *)
(* an array of tiles): whatever the history of image shapes, outputs,      *)
(* gradients and updates are the ones of a convolution.                    *)
(* All images are three dimensional here (leading sizes of 1).             *)
(* kind "fp", "ideal": analog update of the tile at step()                 *)
(* kind "inf", "tinf": the weight is a torch parameter                     *)
(* bias: 0 none, 1 on the tile, 2 digital parameter                        *)
(***************************************************************************)
EXTENDS Mat, TLC

TypeA(c) == c.kind \in {"fp", "ideal"}
KN(c) == c.k[1] * c.k[2] * c.k[3]
OutSz(c, sh) == [i \in 1..3 |-> (sh[i] + 2 * c.p[i] - c.dil[i] * (c.k[i] - 1) - 1) \div c.s[i] + 1]
P3(v) == v[1] * v[2] * v[3]
\* digits of the (zero based) index n in an array of sizes v
At3(v, n) == <<n \div (v[2] * v[3]), (n \div v[3]) % v[2], n % v[3]>>
\* index of the input (0: padding) of weight ck at output position pos
Index(c, sh, pos, ck) ==
   LET o == At3(OutSz(c, sh), pos - 1) q == At3(c.k, (ck - 1) % KN(c)) ch == (ck - 1) \div KN(c)
       i == [m \in 1..3 |-> o[m] * c.s[m] - c.p[m] + q[m] * c.dil[m]]
   IN IF \E m \in 1..3 : i[m] < 0 \/ i[m] >= sh[m] THEN 0
      ELSE ch * P3(sh) + (i[1] * sh[2] + i[2]) * sh[3] + i[3] + 1
Table(c, sh) == [pos \in 1..P3(OutSz(c, sh)) |-> [ck \in 1..(c.C * KN(c)) |-> Index(c, sh, pos, ck)]]
\* rows: positions of all samples
Unfold(tab, x) == [r \in 1..(Len(x) * Len(tab)) |->
   LET smp == x[(r - 1) \div Len(tab) + 1] row == tab[((r - 1) % Len(tab)) + 1]
   IN [ck \in 1..Len(row) |-> IF row[ck] = 0 THEN 0 ELSE smp[row[ck]]]]
\* gradients of the outputs (sample, channel and position) by row
Rows(c, n, g) == [r \in 1..(Len(g) * n) |-> [o \in 1..c.O |-> g[(r - 1) \div n + 1][(o - 1) * n + ((r - 1) % n) + 1]]]

Forward(c, s, sh, x) ==
   LET tab == Table(c, sh) n == Len(tab) Y == XWt(Unfold(tab, x), s.W)
   IN [b \in 1..Len(x) |-> [j \in 1..(c.O * n) |->
         Y[(b - 1) * n + ((j - 1) % n) + 1][(j - 1) \div n + 1] + (IF c.bias = 0 THEN 0 ELSE s.b[(j - 1) \div n + 1])]]
Fold(c, tab, D, nb, nin) ==  \* D: gradients of the unfolded inputs
   LET hit == [i \in 1..nin |-> SetToSeq({e \in (1..Len(tab)) \X (1..(c.C * KN(c))) : tab[e[1]][e[2]] = i})]
   IN [b \in 1..nb |-> [i \in 1..nin |->
         Sum([m \in 1..Len(hit[i]) |-> D[(b - 1) * Len(tab) + hit[i][m][1]][hit[i][m][2]]])]]
FwdBwd(c, s, sh, x, g, xg) ==
   LET tab == Table(c, sh) R == Rows(c, Len(tab), g) U == Unfold(tab, x)
   IN [s EXCEPT !.gW = MAdd(@, OuterSum(R, U, c.O, c.C * KN(c))),
                !.gb = IF c.bias = 0 THEN @ ELSE VAdd(@, ColSum(R, c.O)),
                !.y = Forward(c, s, sh, x),
                !.gx = IF xg THEN Fold(c, tab, DW(R, s.W, c.C * KN(c)), Len(x), c.C * P3(sh)) ELSE <<>>]

ZeroW(c) == MZero(c.O, c.C * KN(c))
BiasA(c) == c.bias = 1 /\ TypeA(c)
DoStep(c, s) ==
   [s EXCEPT !.W = MSub(@, s.gW), !.b = VSub(@, s.gb), !.gW = IF TypeA(c) THEN ZeroW(c) ELSE @,
             !.gb = IF BiasA(c) THEN VZero(c.O) ELSE @]
Zero(c, s) == [s EXCEPT !.gW = IF TypeA(c) THEN @ ELSE ZeroW(c), !.gb = IF BiasA(c) THEN @ ELSE VZero(c.O)]
NoPending(c, s) == s.gW = ZeroW(c) /\ s.gb = VZero(c.O)

\* sizes of the tiles: [inputs, outputs] of each tile; whole kernels if mapped
Splits(n, m) == IF m <= 0 THEN <<n>> ELSE LET k == (n + m - 1) \div m IN [i \in 1..k |-> (n \div k) + (IF i <= n % k THEN 1 ELSE 0)]
Tiles(c) == LET G == IF c.mapped THEN KN(c) ELSE 1
                ins == IF c.array THEN Splits((c.C * KN(c)) \div G, c.maxin \div G) ELSE <<(c.C * KN(c)) \div G>>
                outs == IF c.array THEN Splits(c.O, c.maxout) ELSE <<c.O>>
            IN [t \in 1..(Len(ins) * Len(outs)) |-> <<ins[(t - 1) \div Len(outs) + 1] * G, outs[((t - 1) % Len(outs)) + 1]>>]

InitSt(c) == [W |-> c.W0, b |-> c.B0, gW |-> ZeroW(c), gb |-> VZero(c.O), y |-> <<>>, gx |-> <<>>]
Quiet(s) == [s EXCEPT !.y = <<>>, !.gx = <<>>]
Step(c, s0, a) == LET s == Quiet(s0) IN
  CASE a.op = "fb"   -> {FwdBwd(c, s, a.sh, a.x, a.g, a.xg)}
    \* two graphs alive at once: forward, forward, backward (first), backward (second)
    [] a.op = "fbfb" -> {LET m == FwdBwd(c, s, a.sh, a.x, a.g, TRUE) n == FwdBwd(c, m, a.sh2, a.x2, a.g2, TRUE) IN
                         [n EXCEPT !.y = m.y \o n.y, !.gx = m.gx \o n.gx]}
    [] a.op = "fwd"  -> {[s EXCEPT !.y = Forward(c, s, a.sh, a.x)]}
    [] a.op = "step" -> {DoStep(c, s)}
    [] a.op = "zero" -> {Zero(c, s)}
    [] a.op = "set"  -> {[s EXCEPT !.W = a.w, !.b = IF c.bias = 0 THEN @ ELSE a.b]}
    [] a.op \in {"copy", "read"} -> {s}
Obs(c, s) == [W |-> s.W, b |-> IF c.bias = 0 THEN <<>> ELSE s.b, y |-> s.y, gx |-> s.gx, tiles |-> Tiles(c)]

(* ------------------------------------------------------------ properties *)
Inv(c, s) == /\ Len(s.W) = c.O /\ \A o \in 1..c.O : Len(s.W[o]) = c.C * KN(c)
             /\ LET T == Tiles(c) IN
                  /\ Sum([t \in 1..Len(T) |-> T[t][1] * T[t][2]]) = c.O * c.C * KN(c)
                  /\ (c.array => \A t \in 1..Len(T) : (c.maxin > 0 => T[t][1] <= c.maxin) /\ (c.maxout > 0 => T[t][2] <= c.maxout))
\* <gx, x> = <g, y - bias>: the gradient of the input is the adjoint of the convolution
Adjoint(c, s, a, n) ==
   LET m == P3(OutSz(c, a.sh)) IN
   Sum([b \in 1..Len(a.x) |-> Dot(n.gx[b], a.x[b])]) =
   Sum([b \in 1..Len(a.x) |-> Sum([j \in 1..Len(n.y[b]) |->
          a.g[b][j] * (n.y[b][j] - (IF c.bias = 0 THEN 0 ELSE s.b[(j - 1) \div m + 1]))])])
StepOk(c, s, a, n) ==
   /\ a.op \notin {"step", "set"} => n.W = s.W /\ n.b = s.b
   /\ (a.op = "step" /\ NoPending(c, s)) => n.W = s.W /\ n.b = s.b
   /\ (a.op = "fb" /\ a.xg) => Adjoint(c, s, a, n)

(* --------------------------------------------------------- bounded model *)
Z3 == <<0, 0, 0>>
O3 == <<1, 1, 1>>
RampW(o, n) == [i \in 1..o |-> [j \in 1..n |-> ((i * 3 + j * 2) % 5) - 2]]
Mk(nm, cls, kind, C, O, k, st, p, dil, bias, idx) ==
   [name |-> nm, cls |-> cls, kind |-> kind, C |-> C, O |-> O, k |-> k, s |-> st, p |-> p, dil |-> dil, bias |-> bias,
    idx |-> idx, mapped |-> FALSE, array |-> FALSE, maxin |-> 0, maxout |-> 0,
    W0 |-> RampW(O, C * P3(k)), B0 |-> [o \in 1..O |-> o]]
Cfgs0 == {Mk("1d", "conv1d", "fp", 2, 2, <<1, 1, 2>>, <<1, 1, 2>>, <<0, 0, 1>>, O3, 1, TRUE),
   Mk("1di", "conv1d", "inf", 1, 2, <<1, 1, 3>>, O3, Z3, O3, 2, TRUE),
   Mk("2d", "conv2d", "ideal", 1, 2, <<1, 2, 2>>, O3, <<0, 1, 0>>, <<1, 1, 2>>, 2, FALSE),
   Mk("2dx", "conv2d", "fp", 2, 1, <<1, 2, 1>>, <<1, 2, 1>>, <<0, 0, 1>>, O3, 1, TRUE),
   Mk("2dt", "conv2d", "tinf", 1, 1, <<1, 1, 2>>, O3, Z3, O3, 0, FALSE),
   Mk("3d", "conv3d", "fp", 1, 1, <<2, 1, 2>>, O3, <<1, 0, 0>>, O3, 0, TRUE),
   [Mk("2dm", "conv2d", "ideal", 3, 3, <<1, 1, 2>>, O3, Z3, O3, 2, TRUE) EXCEPT !.mapped = TRUE, !.array = TRUE, !.maxin = 4, !.maxout = 2],
   [Mk("2da", "conv2d", "inf", 2, 2, <<1, 2, 2>>, O3, Z3, O3, 2, FALSE) EXCEPT !.array = TRUE, !.maxin = 3, !.maxout = 1]}
Img(c, sh, f) == [i \in 1..(c.C * P3(sh)) |-> (((i * f) % 5)) - 2]
G1(c, sh) == [j \in 1..(c.O * P3(OutSz(c, sh))) |-> ((j * 2) % 3) - 1]
ShA(c) == IF c.cls = "conv1d" THEN <<1, 1, 4>> ELSE IF c.cls = "conv2d" THEN <<1, 2, 6>> ELSE <<2, 1, 4>>
ShB(c) == IF c.cls = "conv1d" THEN <<1, 1, 5>> ELSE IF c.cls = "conv2d" THEN <<1, 3, 4>> ELSE <<2, 2, 2>>
Acts(c, s) ==
   LET A == ShA(c) B == ShB(c)
       big == MaxSeq(Flat(s.W)) > 300 \/ MinSeq(Flat(s.W)) < -300 \/ MaxSeq(Flat(s.gW)) > 300 \/ MinSeq(Flat(s.gW)) < -300 IN
   (IF big THEN {} ELSE
      {[op |-> "fb", sh |-> A, x |-> <<Img(c, A, 2)>>, g |-> <<G1(c, A)>>, xg |-> TRUE],
       [op |-> "fb", sh |-> B, x |-> <<Img(c, B, 3), Img(c, B, 1)>>, g |-> <<G1(c, B), G1(c, B)>>, xg |-> FALSE],
       [op |-> "fbfb", sh |-> A, x |-> <<Img(c, A, 1)>>, g |-> <<G1(c, A)>>, sh2 |-> B, x2 |-> <<Img(c, B, 3)>>, g2 |-> <<G1(c, B)>>]})
   \cup {[op |-> "fwd", mode |-> "eval", sh |-> B, x |-> <<Img(c, B, 2)>>], [op |-> "fwd", mode |-> "train", sh |-> A, x |-> <<Img(c, A, 2)>>],
         [op |-> "step"], [op |-> "zero"], [op |-> "set", w |-> RampW(c.O, c.C * KN(c)), b |-> VZero(c.O)]}
   \cup (IF NoPending(c, s) THEN {[op |-> "copy", how |-> "sd"], [op |-> "copy", how |-> "deepcopy"], [op |-> "copy", how |-> "dig"], [op |-> "read"]} ELSE {})
Cfgs1 == {[c EXCEPT !.name = @ \o "L"] : c \in Cfgs0}
=============================================================================
