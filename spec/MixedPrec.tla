----------------------------- MODULE MixedPrec -----------------------------
(***************************************************************************)
(* Mixed precision training: the rank update is accumulated in a digital   *)
(* matrix chi and transferred row by row to the analog device.             *)
(* Weights are multiples of the device step dw, the learning rate K is in  *)
(* dw.  Configuration: X inputs, D outputs, bnd device bound,              *)
(*   hx, hd  half of the number of bins of activation and error (0: off)   *)
(*   sx, sd  stochastic rounding of these, te transfer_every, nr rows per  *)
(*   transfer (-1: all), rnd random row, g granularity in dw (gs: taken    *)
(*   from the device if FALSE), t transfer_lr.                             *)
(* chi is in multiples of dw / (Q(c)).                                     *)
(***************************************************************************)
EXTENDS Mat, TLC

Q(c) == MaxI(c.hx, 1) * MaxI(c.hd, 1)
VMax(v) == MaxSeq([i \in 1..Len(v) |-> AbsI(v[i])])

\* possible values (times max(h, 1)) of one quantized entry; m is the largest magnitude, ties go to the even bin
RoundSet(num, den) ==
  LET lo == num \div den  r == 2 * (num % den)
  IN IF r < den THEN {lo} ELSE IF r > den THEN {lo + 1} ELSE {IF lo % 2 = 0 THEN lo ELSE lo + 1}
Quant(v, h, sto, m) ==
  IF h = 0 THEN {v} ELSE IF m = 0 THEN {0}
  ELSE {m * n : n \in IF sto THEN (IF (v * h) % m = 0 THEN {(v * h) \div m} ELSE {(v * h) \div m, (v * h) \div m + 1})
                      ELSE RoundSet(v * h, m)}
\* all quantized vectors
RECURSIVE QVecs(_, _, _, _, _)
QVecs(v, h, sto, m, k) == IF k > Len(v) THEN {<<>>}
    ELSE {<<e>> \o w : e \in Quant(v[k], h, sto, m), w \in QVecs(v, h, sto, m, k + 1)}
QV(v, h, sto) == QVecs(v, h, sto, VMax(v), 1)

ClipM(c, M) == [i \in 1..c.D |-> [j \in 1..c.X |-> Clip(M[i][j], -c.bnd, c.bnd)]]
SetW(c, s, w) == [s EXCEPT !.W = ClipM(c, w), !.chi = MZero(c.D, c.X), !.row = 0, !.cnt = 0, !.y = <<>>]
InitSt(c) == SetW(c, [W |-> <<>>, chi |-> <<>>, row |-> 0, cnt |-> 0, K |-> c.K, y |-> <<>>], c.W0)

Rows(c) == IF c.nr < 0 THEN c.D ELSE MinI(c.nr, c.D)
InRows(c, r, i) == \E k \in 0..(Rows(c) - 1) : (r + k) % c.D = i - 1
N(c, s, i, j) == TDiv(s.chi[i][j], c.g * Q(c))
TransferAt(c, s, r) ==
  [s EXCEPT !.W = ClipM(c, [i \in 1..c.D |-> [j \in 1..c.X |-> @[i][j] - (IF InRows(c, r, i) THEN c.t * c.g * N(c, s, i, j) ELSE 0)]]),
            !.chi = [i \in 1..c.D |-> [j \in 1..c.X |-> @[i][j] - (IF InRows(c, r, i) THEN c.g * Q(c) * N(c, s, i, j) ELSE 0)]],
            !.row = (r + Rows(c)) % c.D]
Transfer(c, s) == IF c.nr = 0 \/ c.t = 0 THEN {s}
                  ELSE IF c.rnd /\ Rows(c) < c.D THEN {TransferAt(c, s, r) : r \in 0..(c.D - 1)}
                  ELSE {TransferAt(c, s, s.row)}

Due(c, s, B) == c.te > 0 /\ s.cnt > 0 /\ s.cnt % (c.te * B) = 0
One(c, s, x, d, B) ==
  LET acc == {[s EXCEPT !.chi = [i \in 1..c.D |-> [j \in 1..c.X |-> @[i][j] + s.K * qd[i] * qx[j]]]]
              : qx \in QV(x, c.hx, c.sx), qd \in QV(d, c.hd, c.sd)}
  IN {[u EXCEPT !.cnt = @ + 1] : u \in UNION {IF Due(c, s, B) THEN Transfer(c, v) ELSE {v} : v \in acc}}

RECURSIVE Update(_, _, _, _, _)
Update(c, S, X, Dv, k) == IF k > Len(X) THEN S
    ELSE Update(c, UNION {One(c, s, X[k], Dv[k], Len(X)) : s \in S}, X, Dv, k + 1)

Quiet(s) == [s EXCEPT !.y = <<>>]
Step(c, s, a) ==
  CASE a.op = "update" -> IF s.K = 0 THEN {Quiet(s)} ELSE Update(c, {Quiet(s)}, a.x, a.d, 1)
    [] a.op = "lr"     -> {[Quiet(s) EXCEPT !.K = a.v]}
    [] a.op = "set"    -> {SetW(c, s, a.w)}
    [] a.op = "fwd"    -> {[s EXCEPT !.y = XWt(a.x, s.W)]}

Obs(c, s) == [W |-> s.W, chi |-> s.chi, y |-> s.y]

(* ------------------------------------------------------------ properties *)
Inv(c, s) == /\ \A i \in 1..c.D : \A j \in 1..c.X : s.W[i][j] \in (-c.bnd)..c.bnd
             /\ s.row \in 0..(c.D - 1)
Inside(c, M) == \A i \in 1..c.D : \A j \in 1..c.X : AbsI(M[i][j]) < c.bnd
StepOk(c, s, a, n) ==
    \* a transfer moves, it neither creates nor loses: weight minus accumulator is conserved
    /\ \A u \in Transfer(c, s) : (c.t = 1 /\ Inside(c, u.W)) =>
          MSub(MScale(Q(c), u.W), u.chi) = MSub(MScale(Q(c), s.W), s.chi)
    \* what remains of a transferred row is below the granularity
    /\ \A u \in Transfer(c, s) : (c.t # 0 /\ Rows(c) = c.D) =>
          \A i \in 1..c.D : \A j \in 1..c.X : AbsI(u.chi[i][j]) < c.g * Q(c)
    \* exact accumulation when nothing is due
    /\ (a.op = "update" /\ Len(a.x) = 1 /\ ~Due(c, s, 1)) => n.W = s.W
    /\ (a.op = "update" /\ s.K = 0) => n = Quiet(s)
    /\ a.op = "set" => n.chi = MZero(c.D, c.X)
    /\ a.op \in {"lr", "fwd"} => n.W = s.W /\ n.chi = s.chi

(* --------------------------------------------------------- bounded model *)
Base == [name |-> "base", X |-> 2, D |-> 3, bnd |-> 20, hx |-> 0, hd |-> 0, sx |-> FALSE, sd |-> FALSE, te |-> 1, nr |-> -1,
         rnd |-> FALSE, g |-> 1, gs |-> FALSE, t |-> 1, K |-> 1, W0 |-> <<<<1, -2>>, <<3, 0>>, <<0, 25>>>>]
Cfgs0 == {
   Base, [Base EXCEPT !.name = "rows", !.nr = 2, !.g = 4, !.gs = TRUE, !.K = 2],
   [Base EXCEPT !.name = "every", !.te = 2, !.nr = 1, !.g = 2, !.gs = TRUE, !.t = 2],
   [Base EXCEPT !.name = "wide", !.X = 4, !.D = 2, !.hd = 2, !.W0 = <<<<1, -2, 0, 4>>, <<3, 0, 30, -8>>>>],
   [Base EXCEPT !.name = "binx", !.hx = 2, !.nr = 1],
   [Base EXCEPT !.name = "bins", !.hx = 2, !.hd = 1, !.g = 2, !.gs = TRUE],
   [Base EXCEPT !.name = "bins2", !.hx = 1, !.hd = 4, !.X = 3, !.D = 2, !.W0 = <<<<1, -2, 0>>, <<3, 0, 30>>>>, !.K = 2],
   [Base EXCEPT !.name = "never", !.te = 0], [Base EXCEPT !.name = "zero", !.t = 0]}
VX(c, k) == [j \in 1..c.X |-> ((j * j + k) % 5) - 2]
VD(c, k) == [j \in 1..c.D |-> ((3 * j + k) % 4) - 1]
Acts(c, s) ==
   {[op |-> "update", x |-> <<VX(c, 0)>>, d |-> <<VD(c, 1)>>],
    [op |-> "update", x |-> <<VX(c, 1), VX(c, 0)>>, d |-> <<VScale(2, VD(c, 0)), VD(c, 2)>>],
    [op |-> "update", x |-> <<VX(c, 2), VZero(c.X), VX(c, 4)>>, d |-> <<VD(c, 0), VScale(-2, VD(c, 0)), VD(c, 3)>>],
    [op |-> "lr", v |-> IF s.K = 0 THEN 2 ELSE 0],
    [op |-> "set", w |-> [i \in 1..c.D |-> [j \in 1..c.X |-> 6 * j - 7 * i]]],
    [op |-> "fwd", x |-> <<VX(c, 0), VX(c, 1)>>]}
Cfgs1 == {[c EXCEPT !.name = @ \o "L"] : c \in Cfgs0}
=============================================================================
