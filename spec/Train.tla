------------------------------- MODULE Train -------------------------------
(***************************************************************************)
(* Training protocol of a two layer model under an analog-aware optimizer: *)
(* what forward, backward, step, zero_grad, freezing, learning rate        *)
(* changes, regrouping and reloading do to the weights of the layers.      *)
(* Kinds of layer:                                                         *)
(*   "fp","ideal","map"  analog update of the tile at step() (type A)      *)
(*   "inf","tinf","dig"  weight is a torch parameter (type T)              *)
(* bias: 0 none, 1 on the tile, 2 digital parameter of the layer           *)
(***************************************************************************)
EXTENDS Mat, TLC

TypeA(k) == k \in {"fp", "ideal", "map"}
BiasA(c, i) == c.bias[i] = 1 /\ c.kinds[i] \in {"fp", "ideal"}
L(c) == Len(c.kinds)

Zeros(c) == [i \in 1..L(c) |-> MZeroLike(c.W0[i])]
ZeroB(c) == [i \in 1..L(c) |-> VZero(Len(c.B0[i]))]

InitSt(c) == [W |-> c.W0, b |-> c.B0, gW |-> Zeros(c), gb |-> ZeroB(c),
              lr |-> c.lr, fz |-> [i \in 1..L(c) |-> FALSE], tr |-> TRUE,
              y |-> <<>>, gx |-> <<>>]

Nin(c, i) == Len(c.W0[i][1])
Nout(c, i) == Len(c.W0[i])

Lin(c, s, i, X) == LET Y == XWt(X, s.W[i]) IN
    IF c.bias[i] = 0 THEN Y ELSE [k \in 1..Len(Y) |-> VAdd(Y[k], s.b[i])]

\* a frozen layer accumulates nothing, whatever its inputs are
Acc(c, s, i, D, X) ==
    IF s.fz[i] THEN s
    ELSE [s EXCEPT !.gW[i] = MAdd(@, OuterSum(D, X, Nout(c, i), Nin(c, i))),
                   !.gb[i] = IF c.bias[i] = 0 THEN @ ELSE VAdd(@, ColSum(D, Nout(c, i)))]

Forward(c, s, X) == Lin(c, s, 2, Lin(c, s, 1, X))

\* forward + backward of sum(y * G)
FwdBwd(c, s, X, G, xg) ==
    LET H  == Lin(c, s, 1, X)
        DH == DW(G, s.W[2], Nin(c, 2))
        s1 == Acc(c, Acc(c, s, 2, G, H), 1, DH, X)
    IN  [s1 EXCEPT !.y = Lin(c, s, 2, H), !.gx = IF xg THEN DW(DH, s.W[1], Nin(c, 1)) ELSE <<>>]

\* one optimizer step: every accumulated gradient is used exactly once by
\* type A tiles; torch gradients stay until zero_grad
DoStep(c, s) ==
    LET upd(i) == MSub(s.W[i], MScale(s.lr[i], s.gW[i]))
        updb(i) == VSub(s.b[i], VScale(s.lr[i], s.gb[i]))
    IN [s EXCEPT !.W = [i \in 1..L(c) |-> upd(i)],
                 !.b = [i \in 1..L(c) |-> updb(i)],
                 !.gW = [i \in 1..L(c) |-> IF TypeA(c.kinds[i]) THEN MZeroLike(s.gW[i]) ELSE s.gW[i]],
                 !.gb = [i \in 1..L(c) |-> IF BiasA(c, i) THEN VZero(Len(s.gb[i])) ELSE s.gb[i]],
                 !.y = <<>>, !.gx = <<>>]

ZeroT(c, s) ==
    [s EXCEPT !.gW = [i \in 1..L(c) |-> IF TypeA(c.kinds[i]) THEN s.gW[i] ELSE MZeroLike(s.gW[i])],
              !.gb = [i \in 1..L(c) |-> IF BiasA(c, i) THEN s.gb[i] ELSE VZero(Len(s.gb[i]))],
              !.y = <<>>, !.gx = <<>>]

Quiet(s) == [s EXCEPT !.y = <<>>, !.gx = <<>>]
NoPending(c, s) == s.gW = Zeros(c) /\ s.gb = ZeroB(c)

Step(c, s, a) ==
  CASE a.op = "fb"    -> {FwdBwd(c, s, a.x, a.g, a.xg)}
    [] a.op = "fbfb"  -> {FwdBwd(c, FwdBwd(c, s, a.x, a.g, a.xg), a.x2, a.g2, a.xg)}  \* two graphs alive at once
    [] a.op = "fwd"   -> {[s EXCEPT !.y = Forward(c, s, a.x), !.gx = <<>>]}
    [] a.op = "step"  -> {DoStep(c, s)}
    [] a.op = "cstep" -> {DoStep(c, FwdBwd(c, ZeroT(c, s), a.x, a.g, FALSE))}
    [] a.op = "zero"  -> {ZeroT(c, s)}
    [] a.op = "lr"    -> {[Quiet(s) EXCEPT !.lr[a.i] = a.v]}
    [] a.op = "lrall" -> {[Quiet(s) EXCEPT !.lr = [i \in 1..L(c) |-> a.v]]}
    [] a.op = "mode"  -> {[Quiet(s) EXCEPT !.tr = a.v]}
    [] a.op = "freeze" -> {[Quiet(s) EXCEPT !.fz[a.i] = a.v]}
    [] a.op = "set"   -> {[Quiet(s) EXCEPT !.W[a.i] = a.w, !.b[a.i] = a.b]}
    [] a.op \in {"regroup", "reload"} -> {Quiet(s)}

Obs(c, s) == [W |-> s.W, b |-> [i \in 1..L(c) |-> IF c.bias[i] = 0 THEN <<>> ELSE s.b[i]],
              y |-> s.y, gx |-> s.gx, tr |-> s.tr]

(* ------------------------------------------------------------ properties *)
\* a forward or backward pass never changes a weight; only step()/set do
Inv(c, s) == /\ Len(s.W) = L(c)
             /\ \A i \in 1..L(c) : Len(s.W[i]) = Nout(c, i)
StepOk(c, s, a, n) ==
    /\ a.op \notin {"step", "cstep", "set"} => n.W = s.W /\ n.b = s.b
    /\ a.op \in {"step", "cstep"} =>
         \A i \in 1..L(c) :
            /\ (s.lr[i] = 0 => n.W[i] = s.W[i])
            /\ (TypeA(c.kinds[i]) => n.gW[i] = MZeroLike(s.W[i]))
    /\ (a.op = "step" /\ NoPending(c, s)) => n.W = s.W /\ n.b = s.b
    /\ (a.op = "fb" => \A i \in 1..L(c) : s.fz[i] => n.gW[i] = s.gW[i])

(* --------------------------------------------------------- bounded model *)
Mk(nm, k1, k2, b1, b2) ==
   [name |-> nm, kinds |-> <<k1, k2>>, bias |-> <<b1, b2>>,
    W0 |-> <<<<<<1, -1>>, <<2, 1>>>>, <<<<1, 2>>>>>>,
    B0 |-> <<<<1, 0>>, <<-1>>>>, lr |-> <<1, 2>>, opt |-> "sgd", sh |-> 0]
Cfgs0 == {Mk("fpfp", "fp", "fp", 0, 1), Mk("fpdig", "fp", "dig", 2, 2), Mk("infid", "inf", "ideal", 1, 2),
          Mk("tinfmap", "tinf", "map", 2, 1)}
Cfgs1 == {Mk("c", k1, k2, b1, b2) : k1 \in {"fp", "ideal", "inf", "tinf", "dig", "map"},
             k2 \in {"fp", "ideal", "inf", "tinf", "dig", "map"}, b1 \in {0, 1, 2}, b2 \in {0, 1, 2}}
X1 == <<<<1, 2>>>>
X2 == <<<<0, 1>>, <<-1, 1>>>>
Acts(c, s) ==
   LET big == \E i \in 1..2 : MaxSeq(Flat(s.W[i])) > 2000 \/ MinSeq(Flat(s.W[i])) < -2000 IN
   (IF big THEN {} ELSE
     {[op |-> "fb", x |-> X1, g |-> <<<<1>>>>, xg |-> TRUE], [op |-> "fb", x |-> X2, g |-> <<<<-1>>, <<2>>>>, xg |-> FALSE],
      [op |-> "fbfb", x |-> X1, g |-> <<<<-1>>>>, x2 |-> X2, g2 |-> <<<<1>>, <<1>>>>, xg |-> TRUE],
      [op |-> "cstep", x |-> X1, g |-> <<<<1>>>>], [op |-> "fwd", x |-> X2]})
   \cup {[op |-> "step"], [op |-> "zero"], [op |-> "mode", v |-> ~s.tr], [op |-> "regroup"]}
   \cup {[op |-> "lr", i |-> i, v |-> IF s.lr[i] = 0 THEN 1 ELSE 0] : i \in 1..2}
   \cup {[op |-> "freeze", i |-> i, v |-> ~s.fz[i]] : i \in {j \in 1..2 : s.fz[j] \/ ~s.fz[3 - j]}}
   \cup (IF NoPending(c, s) THEN {[op |-> "reload"]} ELSE {})
=============================================================================
