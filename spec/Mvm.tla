--------------------------------- MODULE Mvm ---------------------------------
(***************************************************************************)
(* The analog matrix-vector product of a tile with its periphery: noise    *)
(* management, input discretization and bounds, one or two analog passes   *)
(* with their non-idealities, output discretization and bounds, bound      *)
(* management and the digital scaling.  Values of the analog domain are    *)
(* integers in units of 1/c.u, inputs are integers.                        *)
(* Everything noise free.  Results which are not exactly representable or  *)
(* depend on the rounding of floats are BAD; such actions are not explored.*)
(* c: kind "cpp" / "inf" rpucuda, "torch" / "custom" torch; tr transposed  *)
(*   inputs and outputs; W0; f, b parameters of forward and backward pass: *)
(*   mv "ideal", "one", "pns" (both polarities summed in analog), "pnd"    *)
(*   (in digital); nm noise management, th threshold; ib, ob bounds (0:    *)
(*   none); iq, oq quanta (0: none); ia, oa asymmetries (1/4) of negative  *)
(*   values; bm bound management, mf, mr maximal factor, factor * quantum, *)
(*   ng also tests the negative bound; os scale; wx assumed maximum (1/4); *)
(*   v offsets (1/4) of the outputs, wm reference; wa factors (1/2) of the *)
(*   weights for negative inputs; nl, sl nonlinearity, its calibration     *)
(*   (1/4); ir: IR drop; dc decay of the average noise management (1/4)    *)
(* State: W, ax running averages of forward and backward pass (units 1/16) *)
(***************************************************************************)
EXTENDS Mat, TLC

BAD == 0 - 99999999
IsBad(v) == v = BAD
Cpp(c) == c.kind \in {"cpp", "inf"}
RECURSIVE P2(_)
P2(n) == n = 1 \/ (n > 1 /\ n % 2 = 0 /\ P2(n \div 2))
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* reduced rational
Rat(n, d) == LET g == Gcd(AbsI(n), d) IN [n |-> n \div g, d |-> d \div g]
RMul(a, b) == LET g == Gcd(AbsI(a.n), b.d) h == Gcd(AbsI(b.n), a.d) IN [n |-> (a.n \div g) * (b.n \div h), d |-> (a.d \div h) * (b.d \div g)]
\* n / d (n >= 0, d > 0) rounded, half to even
RoundP(n, d) == LET k == n \div d r == n % d IN IF 2 * r > d \/ (2 * r = d /\ k % 2 = 1) THEN k + 1 ELSE k
Round(n, d) == IF n < 0 THEN 0 - RoundP(0 - n, d) ELSE RoundP(n, d)
NearTie(n, d) == AbsI((2 * (AbsI(n) % d)) - d) <= d \div 300
\* discretized value of the rational v; ex: v is exact in floats
Discr(v, q, ex) ==
   IF q = 0 THEN IF ex /\ v.d = 1 THEN v.n ELSE BAD
   ELSE IF ~(ex /\ P2(v.d)) /\ NearTie(v.n, v.d * q) THEN BAD ELSE q * Round(v.n, v.d * q)
Bounded(v, b) == IF b = 0 \/ IsBad(v) THEN v ELSE Clip(v, 0 - b, b)
AnyBad(v) == \E i \in 1..Len(v) : IsBad(v[i])

(* --------------------------------------------------- noise management ---- *)
AMax(x) == MaxSeq([i \in 1..Len(x) |-> AbsI(x[i])])
Thr(p, v) == IF p.th > 0 THEN MinI(v, p.th) ELSE v
PSum(x) == MaxI(Sum([i \in 1..Len(x) |-> MaxI(x[i], 0)]), Sum([i \in 1..Len(x) |-> MaxI(0 - x[i], 0)]))
\* worst case of equal weights
NpSum(c, p, x) ==
   LET a == Thr(p, AMax(x)) ob == IF p.ob = 0 THEN c.u ELSE p.ob
       s == [n |-> PSum(x) * p.wx * c.u, d |-> 4 * ob]
       t == IF p.iq > 0 /\ a * p.mr * s.d < s.n * p.iq THEN [n |-> a * p.mr, d |-> p.iq] ELSE s
   IN IF a * t.d >= t.n THEN [n |-> a, d |-> 1] ELSE Rat(t.n, t.d)
\* [n, d, ax]: scale of an input vector
NmScale(c, p, nm, x, ax) ==
   CASE nm = "none" -> [n |-> 1, d |-> 1, ax |-> ax]
     [] nm = "absmax" -> [n |-> Thr(p, AMax(x)), d |-> 1, ax |-> ax]
     [] nm = "const" -> [n |-> IF p.th > 0 THEN p.th ELSE 1, d |-> 1, ax |-> ax]
     [] nm = "max" -> [n |-> Thr(p, MaxSeq(x)), d |-> 1, ax |-> ax]
     [] nm = "npsum" -> LET r == NpSum(c, p, x) IN [n |-> r.n, d |-> r.d, ax |-> ax]
     [] nm = "avg" -> LET e == (ax * (4 - p.dc)) + (16 * p.dc * AMax(x))
                          a == IF ax < 0 THEN 16 * AMax(x) ELSE IF e % 4 = 0 THEN e \div 4 ELSE BAD
                          r == IF IsBad(a) THEN [n |-> BAD, d |-> 1] ELSE Rat(a, 16)
                      IN [n |-> r.n, d |-> r.d, ax |-> a]

(* ------------------------------------------------------- analog passes ---- *)
\* inputs of the array: scaled with d / (n * red), discretized, bounded
Inp(c, p, x, n, d, red) ==
   [j \in 1..Len(x) |->
      LET v == Rat(x[j] * c.u * d, n * red)
          w == Bounded(Discr(v, p.iq, P2((n * red) \div Gcd(n * red, d))), p.ib)
      IN IF IsBad(w) THEN BAD ELSE IF w < 0 /\ p.ia # 0 THEN IF (w * (4 - p.ia)) % 4 # 0 THEN BAD ELSE (w * (4 - p.ia)) \div 4 ELSE w]
\* one pass, results are rationals
Pass(c, p, W, z) ==
   LET y == XWt(<<z>>, W)[1] nx == Len(z) xa == Sum(z) IN
   [i \in 1..Len(W) |->
      LET \* IR drop: with a = current / 2, c = a (a (a/20 - 1/5) + 1/2)
          cur == Sum([j \in 1..nx |-> AbsI(W[i][j]) * AbsI(z[j])]) D == 2 * c.u
          cn == (cur * cur * cur) - (4 * cur * cur * D) + (10 * cur * D * D)
          zz == Sum([j \in 1..nx |-> W[i][j] * z[j] * ((nx * nx) - ((nx - j + 1) * (nx - j + 1)))])
          a0 == IF p.ir THEN RMul(Rat(cn, 20 * D * D * D), Rat(zz, nx * nx)) ELSE [n |-> 0, d |-> 1]
          a1 == [n |-> (y[i] * a0.d) - a0.n, d |-> a0.d]
          k == p.v[i]
      IN IF p.v = <<>> THEN a1 ELSE Rat((a1.n * (4 - k)) - (2 * k * p.wm * xa * a1.d), a1.d * 4)]
RAdd(u, v) == [i \in 1..Len(u) |-> LET g == Gcd(u[i].d, v[i].d) IN Rat((u[i].n * (v[i].d \div g)) + (v[i].n * (u[i].d \div g)), (u[i].d \div g) * v[i].d)]
\* output stage: [y, ok]
Final(c, p, r) ==
   LET ob == IF p.ob = 0 THEN c.u ELSE p.ob
       s1(v) == IF p.nl = 0 THEN v
                ELSE LET f == 16 + (p.nl * p.sl) IN RMul(Rat(v.n * 4 * ob, (4 * ob * v.d) + (p.nl * AbsI(v.n))), Rat(f * f, 256))
       s2(v) == IF v.n < 0 /\ p.oa # 0 THEN Rat(v.n * (4 - p.oa), 4 * v.d) ELSE v
       y == [i \in 1..Len(r) |-> Discr(s2(s1(r[i])), p.oq, p.nl = 0 /\ ~p.ir)]
   IN [y |-> [i \in 1..Len(r) |-> Bounded(y[i], p.ob)],
       ok |-> p.ob = 0 \/ \A i \in 1..Len(r) : ~(y[i] > p.ob) /\ (~p.ng \/ ~(~IsBad(y[i]) /\ y[i] < 0 - p.ob))]
Part(z, sg) == [j \in 1..Len(z) |-> IF z[j] * sg > 0 THEN z[j] ELSE 0]
NegW(p, W) == IF p.wa = <<>> THEN W ELSE [i \in 1..Len(W) |-> [j \in 1..Len(W[1]) |-> W[i][j] * p.wa[i][j]]]
Analog(c, p, W, x, n, d, red) ==
   LET z == Inp(c, p, x, n, d, red) IN
   IF AnyBad(z) THEN [y |-> [i \in 1..Len(W) |-> BAD], ok |-> TRUE]
   ELSE IF p.mv = "one" THEN Final(c, p, Pass(c, p, W, z))
   ELSE LET pos == Pass(c, p, W, Part(z, 1))
            \* (wa is in halves)
            ng1 == Pass(c, [p EXCEPT !.wm = IF p.wa = <<>> THEN @ ELSE 2 * @], NegW(p, W), Part(z, 0 - 1))
            neg == IF p.wa = <<>> THEN ng1 ELSE [i \in 1..Len(W) |-> Rat(ng1[i].n, 2 * ng1[i].d)]
            fp == Final(c, p, pos) fn == Final(c, p, neg)
        IN IF p.mv = "pns" THEN Final(c, p, RAdd(pos, neg))
           ELSE [y |-> [i \in 1..Len(W) |-> IF IsBad(fp.y[i]) \/ IsBad(fn.y[i]) THEN BAD ELSE fp.y[i] + fn.y[i]], ok |-> fp.ok /\ fn.ok]
\* digital scaling back
Back(p, y, n, d, red) == [i \in 1..Len(y) |-> IF IsBad(y[i]) \/ (y[i] * p.os * red * n) % d # 0 THEN BAD ELSE (y[i] * p.os * red * n) \div d]
Stop(p, red) == red > p.mf \/ (p.iq > 0 /\ red * p.iq > p.mr)

(* -------------------------------------------------------------- rpucuda -- *)
RECURSIVE Rounds(_, _, _, _, _, _, _)
Rounds(c, p, W, x, nm, red, rnd) ==
   LET r == Analog(c, p, W, x, nm.n, nm.d, red)
       wc == rnd = 0 /\ p.bm = "worst" /\ p.nm # "npsum"
   IN IF p.bm = "none" \/ r.ok \/ AnyBad(r.y) \/ Stop(p, red) THEN Back(p, r.y, nm.n, nm.d, red)
      ELSE IF wc THEN Rounds(c, p, W, x, IF p.nm = "none" THEN nm ELSE NmScale(c, p, "npsum", x, 0), 1, 1)
      ELSE Rounds(c, p, W, x, nm, 2 * red, rnd + 1)
\* [y, ax] of one input vector
Vector(c, p, W, x, ax) ==
   LET nm == NmScale(c, p, p.nm, x, ax) IN
   IF p.mv = "ideal" THEN [y |-> VScale(c.u, XWt(<<x>>, W)[1]), ax |-> ax]
   ELSE IF IsBad(nm.n) THEN [y |-> [i \in 1..Len(W) |-> BAD], ax |-> 0]
   ELSE IF nm.n <= 0 THEN [y |-> VZero(Len(W)), ax |-> nm.ax]
   ELSE [y |-> Rounds(c, p, W, x, nm, 1, 0), ax |-> nm.ax]
RECURSIVE Batch(_, _, _, _, _)
\* the vectors of a batch one after the other
Batch(c, p, W, X, r) ==
   IF Len(r.y) = Len(X) THEN r
   ELSE LET v == Vector(c, p, W, X[Len(r.y) + 1], r.ax) IN Batch(c, p, W, X, [y |-> Append(r.y, v.y), ax |-> v.ax])

(* ---------------------------------------------------------------- torch -- *)
\* (bound management takes the batch as a whole)
TNm(c, p, X) == [b \in 1..Len(X) |-> LET s == NmScale(c, p, p.nm, X[b], 0) IN [s EXCEPT !.n = IF @ <= 0 THEN 1 ELSE @]]
TZero(c, p, X) == p.nm \in {"absmax", "max"} /\ \A b \in 1..Len(X) : NmScale(c, p, p.nm, X[b], 0).n = 0
RECURSIVE TRed(_, _, _, _, _, _)
\* final reduction
TRed(c, p, W, X, nm, red) ==
   LET r == [b \in 1..Len(X) |-> Analog(c, p, W, X[b], nm[b].n, 1, red)] IN
   IF p.bm = "none" \/ (\A b \in 1..Len(X) : r[b].ok) \/ (\E b \in 1..Len(X) : AnyBad(r[b].y)) \/ Stop(p, red) THEN red
   ELSE TRed(c, p, W, X, nm, 2 * red)
TBatch(c, p, W, X) ==
   LET nm == TNm(c, p, X) red == TRed(c, p, W, X, nm, 1) IN
   IF p.mv = "ideal" THEN [b \in 1..Len(X) |-> VScale(c.u, XWt(<<X[b]>>, W)[1])]
   ELSE IF TZero(c, p, X) THEN [b \in 1..Len(X) |-> VZero(Len(W))]
   ELSE [b \in 1..Len(X) |-> Back(p, Analog(c, p, W, X[b], nm[b].n, 1, red).y, nm[b].n, 1, red)]

Mm(c, p, W, X, ax) == IF Cpp(c) THEN Batch(c, p, W, X, [y |-> <<>>, ax |-> ax]) ELSE [y |-> TBatch(c, p, W, X), ax |-> ax]

\* gradients of the torch tile: straight through the discretizations, none through the bounds
\* (gx in units 1/16, gw in units 1/(4 u); gx not with scales depending on x)
Grad(c, s, X, D) ==
   LET p == c.f W == s.W nm == TNm(c, p, X) red == TRed(c, p, W, X, nm, 1)
       m == Len(W) n == Len(W[1]) id == p.mv = "ideal" B == Len(X)
       z == [b \in 1..B |-> IF id THEN VScale(c.u, X[b]) ELSE Inp(c, p, X[b], nm[b].n, 1, red)]
       zi == [b \in 1..B |-> Inp(c, [p EXCEPT !.ib = 0, !.ia = 0], X[b], nm[b].n, 1, red)]
       raw == [b \in 1..B |-> XWt(<<z[b]>>, W)[1]]
       pre == [b \in 1..B |-> Final(c, [p EXCEPT !.ob = 0], Pass(c, p, W, z[b])).y]
       go == [b \in 1..B |-> [i \in 1..m |-> IF id THEN 4 * D[b][i] ELSE
                D[b][i] * p.os * (IF p.ob > 0 /\ AbsI(pre[b][i]) > p.ob THEN 0 ELSE IF raw[b][i] < 0 THEN 4 - p.oa ELSE 4)]]
       gi == [b \in 1..B |-> [j \in 1..n |-> Sum([i \in 1..m |-> W[i][j] * go[b][i]]) * (IF id THEN 4
                ELSE IF p.ib > 0 /\ AbsI(zi[b][j]) > p.ib THEN 0 ELSE IF z[b][j] < 0 THEN 4 - p.ia ELSE 4)]]
       gw == OuterSum([b \in 1..B |-> VScale(IF id THEN 1 ELSE red * nm[b].n, go[b])], z, m, n)
   IN IF ~id /\ TZero(c, p, X) THEN [gx |-> [b \in 1..B |-> VZero(n)], gw |-> MZero(m, n)]
      ELSE [gx |-> IF ~id /\ p.nm \in {"absmax", "max"} THEN <<>> ELSE gi, gw |-> gw]

(* -------------------------------------------------------- state machine -- *)
InitSt(c) == [W |-> c.W0, ax |-> <<0 - 1, 0 - 1>>, y |-> <<>>, gx |-> <<>>, gw |-> <<>>]
Quiet(s) == [s EXCEPT !.y = <<>>, !.gx = <<>>, !.gw = <<>>]
Step(c, s, a) ==
   CASE a.op = "set" -> {[Quiet(s) EXCEPT !.W = a.w]}
     [] a.op = "fwd" -> LET r == Mm(c, c.f, s.W, a.x, s.ax[1]) IN {[Quiet(s) EXCEPT !.y = r.y, !.ax[1] = r.ax]}
     [] a.op = "bwd" -> LET r == Mm(c, c.b, Transp(s.W, Len(s.W[1])), a.d, s.ax[2]) IN {[Quiet(s) EXCEPT !.gx = r.y, !.ax[2] = r.ax]}
     [] a.op = "grad" -> LET g == Grad(c, s, a.x, a.d) IN {[Quiet(s) EXCEPT !.y = TBatch(c, c.f, s.W, a.x), !.gx = g.gx, !.gw = g.gw]}
     \* a copy goes on where the tile was
     [] a.op = "copy" -> {Quiet(s)}
Obs(c, s) == [W |-> s.W, y |-> s.y, gx |-> s.gx, gw |-> s.gw]
Fine(s) == ~AnyBad(Flat(s.y)) /\ ~AnyBad(Flat(s.gx)) /\ \A i \in 1..2 : ~IsBad(s.ax[i])

(* ------------------------------------------------------------ properties -- *)
Fwd(c, X, p, s, y) == \A b \in 1..Len(X) : \A i \in 1..Len(s.W) :
   LET e == c.u * Dot(s.W[i], X[b]) IN
   \* nothing is lost without discretization, bounds and non-idealities
   (p.mv = "ideal" \/ (p.iq = 0 /\ p.oq = 0 /\ p.ib = 0 /\ p.ob = 0 /\ p.ia = 0 /\ p.oa = 0 /\ p.v = <<>> /\ p.nl = 0 /\ ~p.ir /\ p.os = 1 /\ p.nm = "none" /\ p.wa = <<>>))
      => y[b][i] = e
Inv(c, s) == Fine(s) => s.ax[1] >= 0 - 1 /\ s.ax[2] >= 0 - 1
StepOk(c, s, a, n) ==
   /\ a.op # "set" => n.W = s.W
   /\ a.op # "fwd" => n.ax[1] = s.ax[1]
   /\ a.op # "bwd" => n.ax[2] = s.ax[2]
   /\ (a.op = "fwd" /\ Fine(n)) => Fwd(c, a.x, c.f, s, n.y)
   \* one vector at a time is the same (rpucuda)
   /\ (a.op = "fwd" /\ Cpp(c) /\ c.f.nm # "avg") => \A b \in 1..Len(a.x) : n.y[b] = Mm(c, c.f, s.W, <<a.x[b]>>, 0 - 1).y[1]

(* --------------------------------------------------------- bounded model -- *)
P0 == [mv |-> "one", nm |-> "none", th |-> 0, ib |-> 0, ob |-> 0, iq |-> 0, oq |-> 0, ia |-> 0, oa |-> 0, bm |-> "none", mf |-> 8, mr |-> 9999,
       ng |-> TRUE, os |-> 1, wx |-> 4, v |-> <<>>, wm |-> 1, wa |-> <<>>, nl |-> 0, sl |-> 0, ir |-> FALSE, dc |-> 2]
WA == <<<<1, -2>>, <<2, 1>>>>
Mk(k, u, f, b) == [kind |-> k, tr |-> FALSE, st |-> FALSE, u |-> u, W0 |-> WA, f |-> f, b |-> b]
Bm(k, ob, oq, ng) == [P0 EXCEPT !.bm = k, !.ob = ob, !.oq = oq, !.ng = ng]
Nm(p, k, th, iq) == [p EXCEPT !.nm = k, !.th = th, !.iq = iq, !.ib = 64]
\* u = 64
Fs == {[P0 EXCEPT !.ib = 128, !.iq = 16, !.ob = 192, !.oq = 16, !.os = 2], Bm("iter", 128, 8, TRUE), Bm("iter", 64, 0, FALSE),
       Nm(Bm("iter", 64, 4, FALSE), "absmax", 0, 4), Nm(P0, "absmax", 2, 16), Nm([P0 EXCEPT !.os = 3], "const", 2, 0), Nm(P0, "max", 0, 16),
       [Nm(Bm("iter", 32, 4, TRUE), "absmax", 0, 8) EXCEPT !.mr = 16], [Bm("iter", 16, 0, TRUE) EXCEPT !.mf = 2, !.ia = 2, !.oa = 1, !.ib = 512, !.iq = 16, !.oq = 8]}
\* (torch always tests both bounds)
FsT == {[f EXCEPT !.ng = TRUE] : f \in Fs}
FsC == {[P0 EXCEPT !.mv = "pns", !.ia = 2, !.ob = 96, !.oq = 8, !.ib = 512, !.iq = 16], [P0 EXCEPT !.mv = "pnd", !.ob = 96, !.oq = 8, !.wa = <<<<1, 3>>, <<4, 2>>>>],
        Nm(Bm("worst", 64, 8, TRUE), "absmax", 0, 8), Nm(Bm("worst", 64, 8, TRUE), "npsum", 0, 8), [Nm(Bm("none", 64, 8, TRUE), "npsum", 3, 8) EXCEPT !.mr = 16],
        Nm(Bm("iter", 64, 8, TRUE), "avg", 0, 8), [P0 EXCEPT !.v = <<1, -2>>, !.ib = 512, !.iq = 16, !.ob = 2048, !.oq = 8], [P0 EXCEPT !.v = <<2, 1>>, !.wm = 0, !.mv = "pns", !.ib = 512, !.iq = 16, !.ob = 2048, !.oq = 8],
        [Bm("iter", 128, 16, TRUE) EXCEPT !.nl = 2, !.sl = 2, !.ib = 512, !.iq = 16], [Bm("worst", 32, 8, TRUE) EXCEPT !.mv = "pnd", !.nl = 4, !.ib = 512, !.iq = 16]}
Bs == {P0, Nm([P0 EXCEPT !.ob = 96, !.oq = 16], "absmax", 0, 16), [P0 EXCEPT !.os = 2, !.ia = 1, !.oa = 2, !.iq = 16, !.oq = 16, !.ib = 128, !.ob = 256]}
BsC == {Nm([P0 EXCEPT !.mv = "pnd", !.ob = 96, !.oq = 16], "avg", 0, 16), [P0 EXCEPT !.mv = "pns", !.wa = <<<<1, 3>>, <<4, 2>>>>, !.ob = 2048, !.oq = 8], Nm(P0, "npsum", 0, 16)}
Id == [P0 EXCEPT !.mv = "ideal"]
Ir == [P0 EXCEPT !.ir = TRUE, !.ib = 64, !.iq = 2, !.oq = 2, !.ob = 32]
Pair(S, T) == {<<f, b>> : f \in S, b \in T}
Some(S) == CHOOSE x \in S : TRUE
Cfgs0 == {Mk("cpp", 64, f, Some(Bs)) : f \in FsC} \cup {Mk("cpp", 64, Some(Fs), b) : b \in BsC} \cup {Mk("inf", 64, f, Id) : f \in Fs}
         \cup {[Mk("torch", 64, f, Id) EXCEPT !.st = TRUE] : f \in FsT} \cup {Mk("custom", 64, Some(FsT), b) : b \in Bs}
         \cup {[Mk("cpp", 64, Id, Id) EXCEPT !.tr = TRUE], Mk("torch", 64, Id, Id), Mk("cpp", 8, Ir, Ir),
               Mk("cpp", 64, Nm(Bm("none", 64, 8, TRUE), "avg", 0, 8), Nm([P0 EXCEPT !.ob = 96, !.oq = 16], "avg", 0, 16))}
Cfgs1 == {[Mk(k, 64, f, b) EXCEPT !.tr = (k = "cpp")] : k \in {"cpp", "inf"}, f \in Fs \cup FsC, b \in Bs \cup BsC}
         \cup {Mk("custom", 64, f, b) : f \in FsT, b \in Bs} \cup {Mk("torch", 64, f, Id) : f \in FsT}
         \cup {Mk("cpp", 8, [Ir EXCEPT !.mv = m, !.bm = bm], Ir) : m \in {"one", "pns", "pnd"}, bm \in {"none", "iter"}}
Small(c) == c.u = 8
Xs(c) == IF Small(c) THEN {<<<<1, 1>>>>, <<<<-1, 2>>, <<1, 0>>>>}
         ELSE {<<<<1, 2>>>>, <<<<-2, 1>>, <<0, 0>>, <<3, -4>>>>, <<<<4, -6>>, <<-1, -1>>>>, <<<<0, 8>>>>}
Ds(c) == IF Small(c) THEN {<<<<1, -1>>>>} ELSE {<<<<2, -1>>, <<0, 0>>>>, <<<<-3, 6>>>>}
All(c, s) ==
   {[op |-> "set", w |-> <<<<2, -1>>, <<0, -2>>>>], [op |-> "copy", how |-> "sd"], [op |-> "copy", how |-> "deepcopy"]}
   \cup {[op |-> "fwd", x |-> x] : x \in Xs(c)}
   \cup (IF c.kind = "torch" THEN {[op |-> "grad", x |-> <<<<1, 2>>, <<-4, 1>>>>, d |-> <<<<1, -1>>, <<2, 0>>>>]} ELSE {})
   \cup (IF c.kind \in {"cpp", "custom"} THEN {[op |-> "bwd", d |-> d] : d \in Ds(c)} ELSE {})
Acts(c, s) == {a \in All(c, s) : \A n \in Step(c, s, a) : Fine(n)}
=============================================================================
