------------------------------- MODULE Pulsed -------------------------------
(***************************************************************************)
(* Pulsed update of a single resistive device per crosspoint: from inputs  *)
(* x, errors d and learning rate to pulse trains, from coincidences to     *)
(* weight steps of the device models, always within the device bounds.     *)
(* Learning rate K: K device steps per unit of x d.  Configuration:        *)
(*  X, D sizes; h: inputs are x/h, errors d/h (the learning rate is then   *)
(*    K h h steps)                                                         *)
(*  pt pulse type: "det" (deterministic implicit), "mean" (mean count),    *)
(*    "sto", "stoc" (stochastic, compressed), "none", "nonedev"            *)
(*  BL desired (or maximal) length, um, ublm update (BL) management,       *)
(*  fixed (fixed BL), an gradient scale in halves, rx, rd number of levels *)
(*    of the probabilities (0: continuous)                                 *)
(*  dev device model, in the unit 1/One:                                   *)
(*    "const" steps up, dn                                                 *)
(*    "lin"   step * (1 - g/4 * w/bound): up, dn, g (4: soft bounds)       *)
(*    "pow"   step * (distance to the bound / range) ^ g                   *)
(*    "piece" step * linear interpolation between nodes pu, pd             *)
(*    "ref"   soft bounds, weight relative to the reference r (which       *)
(*            contains the subtracted symmetry point sp)                   *)
(*    "noisy" direction and bounds only                                    *)
(*  lo, hi bounds (of w, or of w + r)                                      *)
(***************************************************************************)
EXTENDS Mat, TLC

One == 1048576
VMax(v) == MaxSeq([i \in 1..Len(v) |-> AbsI(v[i])])
RECURSIVE Isq(_, _)
Isq(n, r) == IF r * r >= n THEN r ELSE Isq(n, r + 1)      \* smallest r with r r >= n
IsSq(n) == Isq(n, 0) * Isq(n, 0) = n

(* ------------------------------------------------- pulse probabilities *)
\* a probability is <<numerator, denominator>>, clipped to 1
P(n, d) == IF n >= d THEN <<1, 1>> ELSE <<n, d>>
Alpha2(c) == IF c.um \/ c.ublm THEN c.an ELSE 2
\* length of the pulse train (0: no update)
K2(c, K, xm, dm) == K * xm * dm * Alpha2(c)            \* twice the pulses of the largest entry
Length(c, K, xm, dm) ==
   IF (c.um \/ c.ublm) /\ (xm = 0 \/ dm = 0) THEN 0
   ELSE IF c.ublm THEN MinI((K2(c, K, xm, dm) + 1) \div 2, c.BL)
   ELSE IF c.fixed \/ K * c.h * c.h <= c.BL THEN c.BL ELSE K * c.h * c.h
Long(c, K, xm, dm) == K2(c, K, xm, dm) >= 2 * c.BL      \* saturates the train
\* the probabilities are rational numbers (otherwise the specification does not apply)
Rational(c, K, xm, dm) ==
   IF xm = 0 \/ dm = 0 THEN TRUE
   ELSE IF c.ublm THEN (K * xm * dm * c.an) % 2 = 0
   ELSE IF c.um THEN c.an = 2 /\ (c.fixed \/ K * c.h * c.h <= c.BL) /\ (Long(c, K, xm, dm) \/ IsSq(K * xm * dm * c.BL))
   ELSE IsSq(K * c.BL) \/ (~c.fixed /\ K * c.h * c.h > c.BL)
PX(c, K, xm, dm, x) ==
   LET n == AbsI(x) IN
   IF n = 0 THEN <<0, 1>>
   ELSE IF c.ublm \/ (c.um /\ Long(c, K, xm, dm)) THEN P(n, xm)
   ELSE IF c.um THEN P(n * Isq(K * xm * dm * c.BL, 0), xm * c.BL)
   ELSE IF ~c.fixed /\ K * c.h * c.h > c.BL THEN P(n, c.h)
   ELSE P(n * Isq(K * c.BL, 0), c.BL)
PD(c, K, xm, dm, d) ==
   LET n == AbsI(d) IN
   IF n = 0 THEN <<0, 1>>
   ELSE IF (c.um \/ c.ublm) /\ Long(c, K, xm, dm) THEN P(n * K * xm, c.BL)
   ELSE IF c.ublm THEN P(2 * n, c.an * dm)
   ELSE IF c.um THEN P(n * Isq(K * xm * dm * c.BL, 0), dm * c.BL)
   ELSE IF ~c.fixed /\ K * c.h * c.h > c.BL THEN P(n, c.h)
   ELSE P(n * Isq(K * c.BL, 0), c.BL)

\* nearest integers to n / d; at a tie (up to rounding errors) either
Near(n, d) == LET q == n \div d  r == 2 * (n % d)
              IN IF r < d THEN {q} ELSE IF r > d THEN {q + 1} ELSE {q, q + 1}
Levels(p, r) == IF r = 0 THEN {p} ELSE {<<n, r>> : n \in Near(p[1] * r, p[2])}

(* ---------------------------------------------------------- coincidences *)
\* sets of functions: every element choice
RECURSIVE Choose1(_, _)
Choose1(sets, k) == IF k > Len(sets) THEN {<<>>} ELSE {<<e>> \o r : e \in sets[k], r \in Choose1(sets, k + 1)}

\* coincidence matrices (numbers of pulses, unsigned)
DetC(L, ps, qs) ==
   LET sets(i) == [j \in 1..Len(ps) |-> Near(L * ps[j][1] * qs[i][1], ps[j][2] * qs[i][2])]
   IN Choose1([i \in 1..Len(qs) |-> Choose1(sets(i), 1)], 1)
MeanN(L, p) == {MinI(n, L) : n \in Near(L * p[1], p[2])}
MeanC(L, ps, qs) ==
   LET cx == Choose1([j \in 1..Len(ps) |-> MeanN(L, ps[j])], 1)
       cd == Choose1([i \in 1..Len(qs) |-> MeanN(L, qs[i])], 1)
       mat(a, b) == LET sets(i) == [j \in 1..Len(a) |-> Near(a[j] * b[i], L)]
                    IN Choose1([i \in 1..Len(b) |-> Choose1(sets(i), 1)], 1)
   IN UNION {mat(a, b) : a \in cx, b \in cd}
Trains(L, p) == IF p[1] = 0 THEN {{}} ELSE IF p[1] >= p[2] THEN {1..L} ELSE SUBSET (1..L)
StoC(L, ps, qs) ==
   {[i \in 1..Len(qs) |-> [j \in 1..Len(ps) |-> Cardinality(a[j] \cap b[i])]]
      : a \in Choose1([j \in 1..Len(ps) |-> Trains(L, ps[j])], 1), b \in Choose1([i \in 1..Len(qs) |-> Trains(L, qs[i])], 1)}

\* exact product rule of the deterministic pulses when nothing is clipped
Plain(c, K, x, d) == [i \in 1..Len(d) |-> [j \in 1..Len(x) |-> K * AbsI(x[j]) * AbsI(d[i])]]
Unclipped(c, K, xm, dm) ==
   c.pt = "det" /\ c.rx = 0 /\ c.rd = 0 /\ c.an = 2
   /\ (IF c.um \/ c.ublm THEN K * xm * dm <= c.BL /\ (c.ublm \/ K * c.h * c.h <= c.BL)
       ELSE K * xm * xm <= c.BL /\ K * dm * dm <= c.BL /\ K * c.h * c.h <= c.BL)
Applies(c, K, x, d) == LET xm == VMax(x) dm == VMax(d) IN
   c.pt \in {"none", "nonedev"} \/ c.dev = "noisy" \/ Unclipped(c, K, xm, dm) \/ Rational(c, K, xm, dm)

Coinc(c, K, x, d) ==
   LET xm == VMax(x)  dm == VMax(d)  L == Length(c, K, xm, dm)
       PsSet == Choose1([j \in 1..Len(x) |-> Levels(PX(c, K, xm, dm, x[j]), c.rx)], 1)
       QsSet == Choose1([i \in 1..Len(d) |-> Levels(PD(c, K, xm, dm, d[i]), c.rd)], 1)
   IN IF xm = 0 \/ dm = 0 \/ L = 0 THEN {[i \in 1..Len(d) |-> [j \in 1..Len(x) |-> 0]]}
      ELSE IF Unclipped(c, K, xm, dm) THEN {Plain(c, K, x, d)}
      ELSE UNION {CASE c.pt = "det" -> DetC(L, ps, qs) [] c.pt = "mean" -> MeanC(L, ps, qs) [] OTHER -> StoC(L, ps, qs)
                  : ps \in PsSet, qs \in QsSet}

(* ----------------------------------------------------------- device steps *)
\* w * n / m, exact (the marker Bad if it is not a multiple of the unit)
Bad == 1000000000
MulDiv0(w, n, m) == IF n = 0 THEN 0 ELSE IF w % m = 0 THEN (w \div m) * n
                    ELSE IF m % n = 0 /\ w % (m \div n) = 0 THEN w \div (m \div n) ELSE Bad
MulDiv(w, n, m) == IF (n < 0) = (m < 0) THEN MulDiv0(w, AbsI(n), AbsI(m)) ELSE MulDiv0(-w, AbsI(n), AbsI(m))
\* step * (1 - g/4 * w/b)
LinStep(step, g, w, b) == LET q == MulDiv(w, step, b) IN
    IF q = Bad \/ (q * g) % 4 # 0 THEN Bad ELSE step - ((q * g) \div 4)
PowStep(step, g, a, range) == IF g = 1 THEN MulDiv(a, step, range)
    ELSE LET f == MulDiv(a, 1024, range) IN          \* fraction of the range in 1/1024
         IF f = Bad \/ f > 1024 THEN Bad ELSE MulDiv(f * f, step, One)
\* nodes pu[1..n+1] between lo and hi (the section width is a power of two)
PieceStep(step, nodes, w, lo, hi) ==
    LET n == Len(nodes) - 1  wid == (hi - lo) \div n  k == MinI((w - lo) \div wid, n - 1)  t == (w - lo) - k * wid
        q == MulDiv(t, step, wid)
    IN IF q = Bad THEN Bad ELSE step * nodes[k + 1] + q * (nodes[k + 2] - nodes[k + 1])
StepUp(c, w) == CASE c.dev = "const" -> c.up
   [] c.dev = "lin" -> LinStep(c.up, c.g, w, c.hi)
   [] c.dev = "pow" -> PowStep(c.up, c.g, c.hi - w, c.hi - c.lo)
   [] c.dev = "ref" -> LinStep(c.up, 4, w + c.r, c.hi)
   [] c.dev = "piece" -> PieceStep(c.up, c.pu, w, c.lo, c.hi)
StepDn(c, w) == CASE c.dev = "const" -> c.dn
   [] c.dev = "lin" -> LinStep(c.dn, c.g, w, c.lo)
   [] c.dev = "pow" -> PowStep(c.dn, c.g, w - c.lo, c.hi - c.lo)
   [] c.dev = "ref" -> LinStep(c.dn, 4, w + c.r, c.lo)
   [] c.dev = "piece" -> PieceStep(c.dn, c.pd, w, c.lo, c.hi)
R0(c) == IF c.dev = "ref" THEN c.r ELSE 0
ClipD(c, w) == Clip(w, c.lo - R0(c), c.hi - R0(c))
\* n pulses in direction g (+1 increases the weight)
RECURSIVE Pulse(_, _, _, _)
Pulse(c, w, n, g) == IF n = 0 \/ w = Bad THEN w ELSE
    LET e == IF g > 0 THEN StepUp(c, w) ELSE StepDn(c, w)
    IN IF e = Bad THEN Bad ELSE Pulse(c, ClipD(c, w + g * e), n - 1, g)
Apply(c, W, C, x, d) == [i \in 1..c.D |-> [j \in 1..c.X |-> Pulse(c, W[i][j], C[i][j], -Sgn(x[j]) * Sgn(d[i]))]]

(* ----------------------------------------------------------- transitions *)
\* writing is limited by the bounds of the weight (not of weight plus reference)
ClipM(c, M) == IF c.pt = "none" THEN M ELSE [i \in 1..c.D |-> [j \in 1..c.X |-> Clip(M[i][j], c.lo, c.hi)]]
InitSt(c) == [W |-> IF c.dev = "noisy" THEN MZero(c.D, c.X) ELSE ClipM(c, MScale(One \div 64, c.W0)), K |-> c.K, y |-> <<>>]

\* floating point update, in device steps of the model (step: dwmin)
FP(c, s, x, d) == LET V == [i \in 1..c.D |-> [j \in 1..c.X |-> s.W[i][j] - s.K * x[j] * d[i] * c.dw]]
                  IN ClipM(c, V)
Dirs(c, s, x, d) == Choose1([i \in 1..c.D |-> Choose1([j \in 1..c.X |->
                        IF s.K = 0 \/ x[j] * d[i] = 0 THEN {0} ELSE {0, -10 * Sgn(x[j]) * Sgn(d[i])}], 1)], 1)
One1(c, s, x, d) ==
   IF c.dev = "noisy" THEN {[s EXCEPT !.W = V] : V \in Dirs(c, s, x, d)}
   ELSE IF c.pt \in {"none", "nonedev"} THEN {[s EXCEPT !.W = FP(c, s, x, d)]}
   ELSE {[s EXCEPT !.W = Apply(c, s.W, C, x, d)] : C \in Coinc(c, s.K, x, d)}
RECURSIVE Update(_, _, _, _, _)
Update(c, S, X, Dv, k) == IF k > Len(X) THEN S ELSE Update(c, UNION {One1(c, s, X[k], Dv[k]) : s \in S}, X, Dv, k + 1)

Quiet(c, s) == [s EXCEPT !.y = <<>>, !.W = IF c.dev = "noisy" THEN MZero(c.D, c.X) ELSE @]
Step(c, s, a) ==
  CASE a.op = "update" -> IF s.K = 0 THEN {Quiet(c, s)} ELSE Update(c, {Quiet(c, s)}, a.x, a.d, 1)
    [] a.op = "lr"  -> {[Quiet(c, s) EXCEPT !.K = a.v]}
    [] a.op = "set" -> {[Quiet(c, s) EXCEPT !.W = IF c.dev = "noisy" THEN @ ELSE ClipM(c, MScale(One \div 64, a.w))]}
    [] a.op = "fwd" -> {[Quiet(c, s) EXCEPT !.y = IF c.dev = "noisy" THEN <<>> ELSE XWt(a.x, s.W)]}
Obs(c, s) == [W |-> s.W, inb |-> TRUE, y |-> s.y]

(* ------------------------------------------------------------ properties *)
Exact(W) == \A i \in 1..Len(W) : \A j \in 1..Len(W[i]) : W[i][j] # Bad
Inv(c, s) == (c.pt # "none" /\ c.dev \notin {"noisy", "ref"}) => ClipM(c, s.W) = s.W
StepOk(c, s, a, t) ==
   \* a single vector moves every entry at most in the direction of its gradient
   /\ (a.op = "update" /\ Len(a.x) = 1 /\ c.dev \notin {"noisy", "ref"}) =>
         \A i \in 1..c.D : \A j \in 1..c.X :
            Sgn(t.W[i][j] - s.W[i][j]) \in {0, -Sgn(a.x[1][j]) * Sgn(a.d[1][i])}
   /\ (a.op = "update" /\ s.K = 0) => t = Quiet(c, s)
   \* symmetric steps without saturation implement the gradient exactly
   /\ (a.op = "update" /\ Len(a.x) = 1 /\ c.dev = "const" /\ c.up = c.dn /\ c.pt = "det" /\ s.K > 0
        /\ Unclipped(c, s.K, VMax(a.x[1]), VMax(a.d[1]))) =>
         t.W = ClipM(c, [i \in 1..c.D |-> [j \in 1..c.X |-> s.W[i][j] - s.K * c.up * a.x[1][j] * a.d[1][i]]])
   /\ a.op \in {"lr", "fwd"} => t.W = Quiet(c, s).W

(* --------------------------------------------------------- bounded model *)
M20 == One \div 64
Base == [name |-> "base", X |-> 2, D |-> 2, h |-> 1, pt |-> "det", BL |-> 31, um |-> TRUE, ublm |-> TRUE, fixed |-> FALSE, an |-> 2,
         rx |-> 0, rd |-> 0, dev |-> "const", up |-> M20, dn |-> M20, dw |-> M20, g |-> 4, r |-> 0, sp |-> 0, pu |-> <<>>,
         pd |-> <<>>, lo |-> -20 * M20, hi |-> 30 * M20, K |-> 1, W0 |-> <<<<1, -2>>, <<3, 40>>>>, preset |-> ""]
Soft == [Base EXCEPT !.lo = -One, !.hi = One, !.up = One \div 4, !.dn = One \div 4, !.dw = One \div 4, !.W0 = <<<<0, -32>>, <<16, 8>>>>]
Cfgs0 == {
  Base, [Base EXCEPT !.name = "sat", !.BL = 3, !.K = 2], [Base EXCEPT !.name = "um", !.ublm = FALSE],
  [Base EXCEPT !.name = "plain", !.ublm = FALSE, !.um = FALSE, !.BL = 16], [Base EXCEPT !.name = "half", !.h = 2, !.ublm = FALSE, !.um = FALSE, !.BL = 2],
  [Base EXCEPT !.name = "fixed", !.ublm = FALSE, !.um = FALSE, !.BL = 4, !.fixed = TRUE, !.h = 2, !.K = 4],
  [Base EXCEPT !.name = "asym", !.up = M20 \div 2, !.K = 2], [Base EXCEPT !.name = "alpha", !.an = 1, !.K = 2],
  [Base EXCEPT !.name = "mean", !.pt = "mean", !.BL = 8], [Base EXCEPT !.name = "meanplain", !.pt = "mean", !.ublm = FALSE, !.um = FALSE, !.BL = 16, !.K = 1],
  [Base EXCEPT !.name = "res", !.rx = 4, !.rd = 2, !.pt = "det", !.BL = 8], [Base EXCEPT !.name = "resmean", !.rx = 3, !.rd = 3, !.pt = "mean", !.BL = 8],
  [Base EXCEPT !.name = "none", !.pt = "none"], [Base EXCEPT !.name = "nonedev", !.pt = "nonedev", !.K = 4],
  [Base EXCEPT !.name = "sto", !.pt = "sto", !.K = 2], [Base EXCEPT !.name = "stoc", !.pt = "stoc", !.BL = 3],
  [Soft EXCEPT !.name = "soft", !.dev = "lin"], [Soft EXCEPT !.name = "lin", !.dev = "lin", !.g = 2, !.lo = -One \div 2],
  [Soft EXCEPT !.name = "pow1", !.dev = "pow", !.g = 1, !.dw = One \div 8], [Soft EXCEPT !.name = "pow2", !.dev = "pow", !.g = 2, !.dw = One \div 16],
  [Soft EXCEPT !.name = "piece", !.dev = "piece", !.pu = <<3, 2, 1>>, !.pd = <<1, 1, 2>>, !.up = One \div 16, !.dn = One \div 16, !.dw = One \div 8],
  [Soft EXCEPT !.name = "ref", !.dev = "ref", !.r = One \div 4],
  [Soft EXCEPT !.name = "refsub", !.dev = "ref", !.r = One \div 4, !.sp = One \div 4, !.lo = -One \div 2, !.dn = One \div 8]}
V1(c, n, k) == [j \in 1..n |-> IF (j + k) % 3 = 0 THEN 0 ELSE IF (j + k) % 3 = 1 THEN 1 ELSE -1]
V2(c, n, k) == [j \in 1..n |-> ((2 * j + k) % 5) - 2]
AllActs(c, s) ==
   {[op |-> "update", x |-> <<V1(c, c.X, 0)>>, d |-> <<V1(c, c.D, 1)>>],
    [op |-> "update", x |-> <<V2(c, c.X, 1)>>, d |-> <<V2(c, c.D, 2)>>],
    [op |-> "update", x |-> <<V2(c, c.X, 3)>>, d |-> <<V1(c, c.D, 0)>>],
    [op |-> "update", x |-> <<V1(c, c.X, 2), V1(c, c.X, 0)>>, d |-> <<V1(c, c.D, 0), V2(c, c.D, 3)>>],
    [op |-> "lr", v |-> IF s.K = 0 THEN 4 ELSE 0],
    [op |-> "set", w |-> [i \in 1..c.D |-> [j \in 1..c.X |-> 16 * (3 * j - 3 * i + 1)]]],
    [op |-> "fwd", x |-> <<V1(c, c.X, 0), V1(c, c.X, 1)>>]}
\* only updates with a single, exactly representable outcome are replayed
Certain(c, K, x, d) == LET xm == VMax(x) dm == VMax(d) IN
   c.pt \in {"sto", "stoc"} => /\ \A j \in 1..Len(x) : LET p == PX(c, K, xm, dm, x[j]) IN p[1] \in {0, p[2]}
                               /\ \A i \in 1..Len(d) : LET p == PD(c, K, xm, dm, d[i]) IN p[1] \in {0, p[2]}
Ok(c, s, a) == a.op # "update" \/
   /\ \A k \in 1..Len(a.x) : Certain(c, s.K, a.x[k], a.d[k])
   /\ \A k \in 1..Len(a.x) : Applies(c, s.K, a.x[k], a.d[k])
   /\ LET S == Step(c, s, a) IN Cardinality(S) = 1 /\ \A t \in S : Exact(t.W)
Acts(c, s) == {a \in AllActs(c, s) : Ok(c, s, a)}
Cfgs1 == {[c EXCEPT !.name = @ \o "L"] : c \in Cfgs0}
=============================================================================
