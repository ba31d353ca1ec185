-------------------------------- MODULE Qmgr --------------------------------
(***************************************************************************)
(* Quantization manager: a uniform quantizer of q.nb bits whose range is   *)
(* estimated, fixed or learned.                                            *)
(* q: nb, sym, pc (range per channel, the rows), est "cur", "all", "run"   *)
(*   (running average of weight 1/2), pct (quartiles instead of extremes)  *)
(*   st "est" (estimate always), "tr" (in training), "fix", "learn"        *)
(*   d, zn, zd: step and zero point zn/zd per channel, empty before the    *)
(*   first estimate; sg signed grid; xn, xx estimated range; tr trainable  *)
(* Values are integers in a unit in which every step is one as well.       *)
(***************************************************************************)
EXTENDS Mat, TLC

Pow2(n) == 2^n
QInit(nb, sym, pc, est, pct, f64) == [nb |-> nb, f64 |-> f64, sym |-> sym, pc |-> pc, est |-> est, pct |-> pct, st |-> "tr", d |-> <<>>, zn |-> <<>>, zd |-> <<>>,
                            sg |-> FALSE, xn |-> <<>>, xx |-> <<>>, tr |-> FALSE, k |-> 0]
IMin(q) == IF q.sym /\ q.sg THEN -Pow2(q.nb - 1) ELSE 0
IMax(q) == IF q.sym /\ q.sg THEN Pow2(q.nb - 1) - 1 ELSE Pow2(q.nb) - 1
\* n / d rounded, half to even
Round(n, d) == LET r == FDiv((2 * n) + d, 2 * d) IN IF ((2 * n) + d) % (2 * d) = 0 /\ r % 2 = 1 THEN r - 1 ELSE r

(* ---------------------------------------------------------- estimation -- *)
Chan(q, x) == IF q.pc THEN x ELSE <<Flat(x)>>
Quart(v, up) == LET w == SortSeq(v, LAMBDA a, b : a < b) IN w[IF up THEN Len(v) - (Len(v) \div 4) ELSE 1 + (Len(v) \div 4)]
Lo(q, x) == [i \in 1..Len(Chan(q, x)) |-> IF q.pct THEN Quart(Chan(q, x)[i], FALSE) ELSE MinSeq(Chan(q, x)[i])]
Hi(q, x) == [i \in 1..Len(Chan(q, x)) |-> IF q.pct THEN Quart(Chan(q, x)[i], TRUE) ELSE MaxSeq(Chan(q, x)[i])]
Upd(q, old, new, F(_, _)) == IF old = <<>> \/ q.est = "cur" THEN new
                             ELSE [i \in 1..Len(new) |-> IF q.est = "all" THEN F(old[i], new[i]) ELSE (old[i] + new[i]) \div 2]
SetRange(q, xn, xx) ==
   LET n == Len(xn) lo == [i \in 1..n |-> MinI(xn[i], 0)] hi == [i \in 1..n |-> MaxI(xx[i], 0)]
       p == [q EXCEPT !.xn = xn, !.xx = xx, !.sg = q.sym /\ \E i \in 1..n : lo[i] < 0] m == IMax(p)
   IN IF q.sym THEN [p EXCEPT !.d = [i \in 1..n |-> MaxI(-lo[i], hi[i]) \div m]]
      ELSE [p EXCEPT !.d = [i \in 1..n |-> (hi[i] - lo[i]) \div m], !.zn = [i \in 1..n |-> (-lo[i]) * m], !.zd = [i \in 1..n |-> MaxI(hi[i] - lo[i], 1)]]
Estimates(q, tm) == q.st = "est" \/ (q.st = "tr" /\ tm)
QEst(q, x, tm) == IF Estimates(q, tm) THEN [SetRange(q, Upd(q, q.xn, Lo(q, x), MinI), Upd(q, q.xx, Hi(q, x), MaxI)) EXCEPT !.k = @ + 1] ELSE q
Ready(q) == q.d # <<>>

(* -------------------------------------------------------- quantization -- *)
Ch(q, i) == IF Len(q.d) = 1 THEN 1 ELSE i
Zero(q, k) == IF q.sym THEN 0 ELSE Clip(Round(q.zn[k], q.zd[k]), IMin(q), IMax(q))
\* an asymmetric range includes a very small positive number, seen in double precision only: values in the middle are rounded to the larger one
Mid(q, x, k) == q.f64 /\ ~q.sym /\ q.xx[k] <= 0 /\ (2 * AbsI(x)) % (2 * q.d[k]) = q.d[k]
\* unclipped integer; the step of an empty range is next to nothing
Raw(q, x, k) == (IF q.d[k] = 0 THEN 1000 * Sgn(x) ELSE IF Mid(q, x, k) THEN TDiv(x, q.d[k]) ELSE Round(x, q.d[k])) + Zero(q, k)
Qz(q, x, k) == (Clip(Raw(q, x, k), IMin(q), IMax(q)) - Zero(q, k)) * q.d[k]
In(q, x, k) == Raw(q, x, k) >= IMin(q) /\ Raw(q, x, k) <= IMax(q)
QM(q, x) == [i \in 1..Len(x) |-> [j \in 1..Len(x[i]) |-> Qz(q, x[i][j], Ch(q, i))]]
\* straight through inside of the range
GM(q, x, g) == [i \in 1..Len(x) |-> [j \in 1..Len(x[i]) |-> IF In(q, x[i][j], Ch(q, i)) THEN g[i][j] ELSE 0]]
\* gradient of the step (times the step) and of the zero point
Terms(q, x, g, F(_, _, _)) == LET h == [i \in 1..Len(x) |-> Sum([j \in 1..Len(x[i]) |-> g[i][j] * F(q, x[i][j], Ch(q, i))])]
                              IN IF Len(q.d) = 1 THEN <<Sum(h)>> ELSE h
GStep(q, x, g) == IF q.tr THEN Terms(q, x, g, LAMBDA p, v, k : IF p.d[k] = 0 THEN 0 ELSE Qz(p, v, k) - (IF In(p, v, k) THEN v ELSE 0)) ELSE <<>>
ZIn(q, k) == Round(q.zn[k], q.zd[k]) \in IMin(q)..IMax(q)
GZero(q, x, g) == IF q.tr /\ ~q.sym THEN Terms(q, x, g, LAMBDA p, v, k : IF In(p, v, k) \/ ~ZIn(p, k) THEN 0 ELSE -p.d[k]) ELSE <<>>

(* -------------------------------------------------------------- states -- *)
To(q, st) == IF st \in {"fix", "learn"} /\ ~Ready(q) THEN q ELSE [q EXCEPT !.st = st, !.tr = (st = "learn")]
Reset(q) == [QInit(q.nb, q.sym, q.pc, q.est, q.pct, q.f64) EXCEPT !.st = "tr"]
\* an optimizer doubles what is trainable
Nudge(q) == IF q.tr THEN [q EXCEPT !.d = VScale(2, @), !.zn = VScale(2, @)] ELSE q
\* what a state dict holds
Vals(q) == [d |-> q.d, zn |-> q.zn, zd |-> q.zd, sg |-> q.sg, xn |-> q.xn, xx |-> q.xx, k |-> q.k]
Put(q, v) == [q EXCEPT !.d = v.d, !.zn = v.zn, !.zd = v.zd, !.sg = v.sg, !.xn = v.xn, !.xx = v.xx, !.k = v.k]
QObs(q) == [st |-> q.st, d |-> q.d, z |-> IF q.sym THEN <<>> ELSE [i \in 1..Len(q.zn) |-> Round(q.zn[i], q.zd[i])], sg |-> q.sg, xn |-> q.xn, xx |-> q.xx, tr |-> q.tr]

(* ---------------------------------------------------------- properties -- *)
QInv(q) == /\ q.tr <=> q.st = "learn"
           /\ q.st \in {"fix", "learn"} => Ready(q)
           /\ Ready(q) <=> q.xn # <<>>
           /\ \A i \in 1..Len(q.d) : q.d[i] >= 0 /\ q.xn[i] <= q.xx[i]
           /\ (q.sym => q.zn = <<>>)
\* outputs are on the grid, within the range, next to the input when that is inside, and in order
QOk(q, x, y) == \A i \in 1..Len(x) : \A j \in 1..Len(x[i]) :
   LET k == Ch(q, i) d == q.d[k] v == x[i][j] w == y[i][j] IN
   /\ d = 0 => w = 0
   /\ d # 0 => /\ w % d = 0
               /\ (w \div d) + Zero(q, k) \in IMin(q)..IMax(q)
               /\ In(q, v, k) => 2 * AbsI(w - v) <= d
               /\ w * v >= 0 
=============================================================================
