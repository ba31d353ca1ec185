---------------------------- MODULE TorchTransfer ----------------------------
(***************************************************************************)
(* The transfer tile implemented in python (TorchTransferTile): gradients   *)
(* are accumulated on a fast tile A, every so often one column (row) k of   *)
(* it is read and accumulated in a digital buffer H, whole steps of which   *)
(* are written to the slow tile W that computes the layer's output.         *)
(* Weights are integers (multiples of 1/64, the step of the fast device;    *)
(* the step of the slow device is r).  Configuration:                       *)
(*   dyn (AGAD: reads are relative to a reference ref, the mean of the past *)
(*   chopper phase), X, D, bnd (bound), cols, te2 (transfer every, halves), *)
(*   mb (in mini-batches), F (fast learning rate), as (auto scale), G       *)
(*   (buffer granularity), auto (auto granularity), corr (correct gradient  *)
(*   magnitudes), mom2 (momentum, halves), forget, st (step), bl (pulses of *)
(*   a transfer), pin (chopper: 0 none, 1 every read, 2 every ns-th cycle,  *)
(*   3 random), sm (1 / weight of the mean), ms (scale of buffers), au (scale *)
(*   of weights; if not 1, weights decay by half after each batch)           *)
(***************************************************************************)
EXTENDS Mat, TLC

In(c) == IF c.cols THEN c.X ELSE c.D
Out(c) == IF c.cols THEN c.D ELSE c.X
Z(c) == MZero(c.D, c.X)
ZT(c) == MZero(In(c), Out(c))
ClipM(c, M) == [i \in 1..c.D |-> [j \in 1..c.X |-> Clip(M[i][j], -c.bnd * c.au, c.bnd * c.au)]]
VMax(v) == MaxSeq([i \in 1..Len(v) |-> AbsI(v[i])])
CDiv(a, b) == (a + b - 1) \div b

InitSt(c) == [A |-> Z(c), W |-> ClipM(c, MScale(c.au, c.W0)), H |-> ZT(c), past |-> ZT(c), ref |-> ZT(c), ch |-> [i \in 1..In(c) |-> 1], k |-> 0, cnt |-> 0, cc |-> 0,
              L |-> c.L0, ck |-> <<>>, y |-> <<>>, g |-> <<>>]

(* ---------------------------------------------------------- fast tile -- *)
Sg(c, s, i, j) == IF c.cols THEN s.ch[j] ELSE s.ch[i]
\* learning rate of the fast tile is F / Den
Den(c, x, d) == IF c.as /\ VMax(x) > 0 /\ VMax(d) > 0 THEN VMax(x) * VMax(d) ELSE 1
RECURSIVE Fast(_, _, _, _, _)
Fast(c, s, X, Dv, b) ==
   IF b > Len(X) THEN s ELSE
   LET x == X[b] d == Dv[b] den == Den(c, x, d)
       A == [i \in 1..c.D |-> [j \in 1..c.X |-> s.A[i][j] - (c.au * TDiv(Sg(c, s, i, j) * c.F * d[i] * x[j], den))]]
   IN Fast(c, [s EXCEPT !.A = ClipM(c, A)], X, Dv, b + 1)

(* ----------------------------------------------------------- transfer -- *)
\* slice k (from 0) of a weight matrix, and written back
Vec(c, M, k) == [o \in 1..Out(c) |-> IF c.cols THEN M[o][k + 1] ELSE M[k + 1][o]]
Add(c, M, k, v) == ClipM(c, [i \in 1..c.D |-> [j \in 1..c.X |->
                      IF c.cols THEN M[i][j] + (IF j = k + 1 THEN v[i] ELSE 0) ELSE M[i][j] + (IF i = k + 1 THEN v[j] ELSE 0)]])
\* buffers are in units of 1 / (Thr / scale)
Thr(c) == c.ms * c.G * (IF c.corr THEN c.F * c.r ELSE 1)
Lim(c) == IF c.bl = 1 THEN 1 ELSE IF c.bl = 64 THEN (IF c.st = 4 THEN 4 ELSE 8) ELSE (IF c.st = 4 THEN 32 ELSE 64)
Switch(c, cc) == CASE c.pin = 0 -> {FALSE} [] c.pin = 1 -> {TRUE} [] c.pin = 2 -> {cc = 0} [] c.pin = 3 -> BOOLEAN
Transfer(c, s, den) ==
   LET k == (s.k + 1) % In(c)
       om == Vec(c, s.A, k)
       H == [o \in 1..Out(c) |-> s.H[k + 1][o] + s.L * (IF c.corr THEN den ELSE 1) * s.ch[k + 1] * (om[o] * (c.ms \div c.au) - (IF c.dyn THEN s.ref[k + 1][o] ELSE 0))]
       n == [o \in 1..Out(c) |-> Clip(TDiv(H[o], Thr(c)), -c.bl, c.bl)]
       rest == [o \in 1..Out(c) |-> IF n[o] = 0 THEN H[o] ELSE IF c.forget THEN (H[o] * c.mom2) \div 2 ELSE H[o] - (((2 - c.mom2) * n[o] * Thr(c)) \div 2)]
       past == IF c.dyn THEN [o \in 1..Out(c) |-> ((c.sm - 1) * s.past[k + 1][o] + om[o] * (c.ms \div c.au)) \div c.sm] ELSE s.past[k + 1]
       cc == IF c.pin = 2 /\ k = 0 THEN (s.cc + 1) % c.ns ELSE s.cc
   IN {[s EXCEPT !.k = k, !.cc = cc, !.H[k + 1] = rest, !.past[k + 1] = past,
                 !.W = Add(c, @, k, [o \in 1..Out(c) |-> c.au * c.r * c.st * Sgn(n[o]) * MinI(AbsI(n[o]), Lim(c))]),
                 !.ch[k + 1] = IF sw THEN -@ ELSE @,
                 !.ref[k + 1] = IF sw /\ c.dyn THEN past ELSE @] : sw \in Switch(c, cc)}

(* ----------------------------------------------------------- schedule -- *)
Every(c, B) == CDiv(c.te2 * (IF c.mb THEN B ELSE 1), 2)
Rest(c, s, B) == (s.cnt % Every(c, B)) + B      \* before the update
Due(c, s, B) == Every(c, B) > 0 /\ Rest(c, s, B) >= Every(c, B)
\* at most one transfer for each batch
Can(c, s, B) == Every(c, B) = 0 \/ Rest(c, s, B) < 2 * Every(c, B)
Train(c, s, X, Dv) ==
   LET B == Len(X)
       f == Fast(c, [s EXCEPT !.cnt = @ + B], X, Dv, 1)
       o == IF Due(c, s, B) THEN Transfer(c, f, IF c.as THEN Den(c, X[1], Dv[1]) ELSE 1) ELSE {f}
       fin(u) == [u EXCEPT !.y = XWt(X, s.W), !.g = DW(Dv, s.W, c.X)]
       half(M) == [i \in 1..c.D |-> [j \in 1..c.X |-> M[i][j] \div 2]]
       dec(u) == IF c.au = 1 THEN u ELSE [u EXCEPT !.A = half(@), !.W = half(@)]
   IN {dec(fin(u)) : u \in IF s.L = 0 THEN {s} ELSE o}

Quiet(s) == [s EXCEPT !.y = <<>>, !.g = <<>>]
Core(s) == [s EXCEPT !.ck = <<>>, !.y = <<>>, !.g = <<>>, !.L = 0]
Step(c, s, a) ==
   CASE a.op = "train" -> Train(c, Quiet(s), a.x, a.d)
     [] a.op = "fwd" -> {[Quiet(s) EXCEPT !.y = XWt(a.x, s.W)]}
     [] a.op = "lr" -> {[Quiet(s) EXCEPT !.L = a.v]}
     [] a.op = "set" -> {[Quiet(s) EXCEPT !.W = ClipM(c, MScale(c.au, a.w))]}
     [] a.op = "put" -> {[Quiet(s) EXCEPT !.A = ClipM(c, MScale(c.au, a.A)), !.W = ClipM(c, MScale(c.au, a.w)), !.H = a.H]}
     [] a.op = "save" -> {[Quiet(s) EXCEPT !.ck = <<Core(s)>>]}
     [] a.op = "load" -> {[Core(s.ck[1]) EXCEPT !.L = s.L, !.ck = s.ck]}
     [] a.op = "copy" -> {Quiet(s)}
Obs(c, s) == [A |-> s.A, W |-> s.W, H |-> s.H, past |-> IF c.dyn THEN s.past ELSE <<>>, ref |-> IF c.dyn THEN s.ref ELSE <<>>, ch |-> s.ch,
              y |-> s.y, g |-> s.g]

(* --------------------------------------------------------- properties -- *)
InBnd(c, M) == \A i \in 1..c.D : \A j \in 1..c.X : M[i][j] \in (-c.bnd * c.au)..(c.bnd * c.au)
Inv(c, s) ==
   /\ InBnd(c, s.A) /\ InBnd(c, s.W)
   /\ s.k \in 0..(In(c) - 1)

StepOk(c, s, a, t) ==
   /\ (a.op = "train" /\ c.au = 1) =>
        LET B == Len(a.x) due == s.L > 0 /\ Due(c, s, B) IN
        \* the output is the slow tile's
        /\ t.y = XWt(a.x, s.W)
        \* without transfer only the fast tile changes
        /\ ~due => Core([t EXCEPT !.A = s.A, !.cnt = s.cnt]) = Core(s)
        /\ s.L = 0 => Core(t) = Core(s)
        \* a transfer changes one slice, in whole steps, in the direction of the buffer
        /\ due => \A i \in 0..(In(c) - 1) : i # t.k => t.H[i + 1] = s.H[i + 1] /\ t.ch[i + 1] = s.ch[i + 1] /\ Vec(c, t.W, i) = Vec(c, s.W, i)
        \* nothing is lost: what left the buffer was written
        /\ (due /\ ~c.forget /\ c.mom2 = 0 /\ ~c.dyn /\ ~c.corr /\ c.bl = 4096 /\ c.st = 1 /\ c.ms = 1) =>
              \A o \in 1..Out(c) : LET w == Vec(c, t.W, t.k)[o] v == Vec(c, s.W, t.k)[o] IN
                 AbsI(w) < c.bnd /\ AbsI(w - v) < 64 * c.r =>
                    t.H[t.k + 1][o] * c.r + (w - v) * c.G = s.H[t.k + 1][o] * c.r + c.r * s.L * s.ch[t.k + 1] * Vec(c, t.A, t.k)[o]
   /\ a.op \in {"fwd", "lr", "save", "copy"} => Core(t) = Core(s)
   /\ a.op = "set" => [Core(t) EXCEPT !.W = s.W] = Core(s)

(* ------------------------------------------------------- bounded model -- *)
Base == [name |-> "base", dyn |-> FALSE, X |-> 2, D |-> 3, bnd |-> 40, cols |-> TRUE, te2 |-> 2, mb |-> FALSE, F |-> 1, as |-> FALSE, G |-> 2, auto |-> FALSE,
         corr |-> FALSE, mom2 |-> 0, forget |-> FALSE, st |-> 1, bl |-> 4096, pin |-> 0, ns |-> 2, sm |-> 1, ms |-> 1, au |-> 1, r |-> 1, L0 |-> 1,
         W0 |-> <<<<1, -2>>, <<3, 0>>, <<0, 5>>>>]
Cfgs0 == {Base, [Base EXCEPT !.name = "rows", !.cols = FALSE, !.pin = 2, !.ns = 2, !.r = 2],
          [Base EXCEPT !.name = "chop", !.pin = 1, !.forget = TRUE, !.L0 = 3, !.bl = 1],
          [Base EXCEPT !.name = "batch", !.mb = TRUE, !.te2 = 1, !.mom2 = 1, !.L0 = 4, !.bl = 64, !.st = 4],
          [Base EXCEPT !.name = "corr", !.corr = TRUE, !.F = 4, !.r = 2, !.L0 = 3, !.pin = 2, !.ns = 1, !.te2 = 4],
          [Base EXCEPT !.name = "decay", !.au = 64, !.ms = 256, !.bl = 64],
          [Base EXCEPT !.name = "never", !.te2 = 0],
          [Base EXCEPT !.name = "agad", !.dyn = TRUE, !.pin = 2, !.L0 = 2, !.auto = TRUE],
          [Base EXCEPT !.name = "agadrows", !.dyn = TRUE, !.cols = FALSE, !.D = 1, !.W0 = <<<<1, -2>>>>, !.pin = 1, !.as = TRUE, !.corr = TRUE, !.F = 2]}
Cfgs1 == Cfgs0
VX(c, k) == [j \in 1..c.X |-> IF (j + k) % 3 = 0 THEN 0 ELSE IF (j + k) % 3 = 1 THEN 2 ELSE -2]
VD(c, k) == [j \in 1..c.D |-> IF (j + k) % 4 = 0 THEN 0 ELSE IF (j + k) % 2 = 1 THEN 1 ELSE -1]
Acts(c, s) ==
   {a \in {[op |-> "train", x |-> <<VX(c, 0)>>, d |-> <<VD(c, 1)>>], [op |-> "train", x |-> <<VX(c, 1)>>, d |-> <<VD(c, 2)>>],
           [op |-> "train", x |-> <<VX(c, 1), VX(c, 0)>>, d |-> <<VScale(2, VD(c, 0)), VD(c, 2)>>]} : Can(c, s, Len(a.x)) /\ (c.as => Len(a.x) = 1) /\ (c.au > 1 => s.cnt < 6)}
   \cup (IF c.au > 1 THEN {} ELSE {[op |-> "lr", v |-> IF s.L = 0 THEN 2 ELSE 0]})
   \cup {[op |-> "set", w |-> [i \in 1..c.D |-> [j \in 1..c.X |-> (20 * j) - 15 * i]]],
         [op |-> "save"], [op |-> "copy", how |-> "deepcopy"], [op |-> "fwd", x |-> <<VX(c, 0), VX(c, 1)>>]}
   \cup (IF s.ck = <<>> THEN {} ELSE {[op |-> "load"]})
=============================================================================
