------------------------------ MODULE Transfer ------------------------------
(***************************************************************************)
(* Tiki-Taka compounds: gradients are written to a fast device, whose      *)
(* columns (rows) are periodically read and transferred towards the last   *)
(* device.  kinds: "plain" (TransferCompound), "buffered" (Buffered-),     *)
(* "chopped" (Chopped-), "dynamic" (DynamicTransferCompound).              *)
(* Weights are integer multiples of the device step; learning rate K means *)
(* K steps per unit of outer product.  Configuration:                      *)
(*   n devices, X inputs, D outputs, bnd (device bound), gam (n weights)   *)
(*   te2 (transfer_every in halves), ev2 (transfer_every_vec in halves, or *)
(*   <<>>), noself, mb (units in mini-batch), nr (reads per transfer),     *)
(*   cols (columns or rows), L / scaleL (transfer lr), F / scaleF (fast lr)*)
(*   reset (column is reset once read), rsel (random selection)            *)
(*   G (buffer threshold), mom2 (momentum in halves), forget, st (step)    *)
(*   pin (in chopper: 0 none, 1 every read, 2 every ns-th, 3 random), ns   *)
(*   pout (out chopper: 0 none, 1 each full cycle, 2 random), nobuf, corr, *)
(*   auto (auto granularity), ascale (auto scale), aev (auto every)        *)
(*   cap (buffer cap), sm (1/momentum of the mean), ms (scale of means),   *)
(*   cacc (correct accumulation)                                           *)
(***************************************************************************)
EXTENDS Mat, TLC

In(c) == IF c.cols THEN c.X ELSE c.D
Out(c) == IF c.cols THEN c.D ELSE c.X
Hidden(c) == c.gam[c.n] = 1 /\ \A k \in 1..(c.n - 1) : c.gam[k] = 0
Z(c) == MZero(c.D, c.X)
Chop(c) == c.kind \in {"chopped", "dynamic"}
\* chopper sign of element i, j of the fast device
Sg(c, s, i, j) == LET a == IF c.cols THEN s.ci[j] ELSE s.ci[i]
                      b == IF c.cols THEN s.co[i] ELSE s.co[j]
                  IN IF a # b THEN -1 ELSE 1
NBuf(c) == IF c.kind = "plain" THEN 0 ELSE c.n - 1

W(c, s) == IF Hidden(c) THEN s.A[c.n] ELSE
    [i \in 1..c.D |-> [j \in 1..c.X |->
        Sum([k \in 1..c.n |-> c.gam[k] * s.A[k][i][j] * (IF k = 1 /\ Chop(c) THEN Sg(c, s, i, j) ELSE 1)])]]

ClipM(c, M) == [i \in 1..c.D |-> [j \in 1..c.X |-> Clip(M[i][j], -c.bnd, c.bnd)]]

SetW(c, s, w) ==
    [s EXCEPT !.A = [k \in 1..c.n |-> IF k = c.n THEN ClipM(c, [i \in 1..c.D |-> [j \in 1..c.X |-> TDiv(w[i][j], c.gam[c.n])]])
                                      ELSE Z(c)],
              !.cnt = 0, !.sl = [k \in 1..c.n |-> 0], !.y = <<>>]

InitSt(c) ==
    SetW(c, [A |-> <<>>, buf |-> [k \in 1..NBuf(c) |-> Z(c)], mean |-> Z(c), past |-> Z(c), sl |-> <<>>, cnt |-> 0, K |-> c.K,
             kc |-> 0, ci |-> [i \in 1..In(c) |-> FALSE], co |-> [i \in 1..Out(c) |-> FALSE],
             sw |-> [i \in 1..In(c) |-> FALSE], tc |-> 0, y |-> <<>>], c.W0)

(* ---------------------------------------------------------- fast update *)
VMax(v) == MaxSeq([i \in 1..Len(v) |-> AbsI(v[i])])
\* pulses per unit of x d (the maxima divide exactly)
FastK(c, s) == IF c.F = 0 THEN s.K ELSE IF c.scaleF THEN c.F * s.K ELSE c.F
Fast(c, s, x, d) ==
    LET k == FastK(c, s)
        den == IF c.ascale /\ c.F > 0 THEN MaxI(VMax(x), 1) * MaxI(VMax(d), 1) ELSE 1
        p(i, j) == TDiv(k * x[j] * d[i], den) * (IF Chop(c) THEN Sg(c, s, i, j) ELSE 1)
    IN [s EXCEPT !.A[1] = ClipM(c, [i \in 1..c.D |-> [j \in 1..c.X |-> @[i][j] - p(i, j)]]), !.kc = k]

(* ------------------------------------------------------------ transfers *)
At(c, M, sl, o) == IF c.cols THEN M[o][sl + 1] ELSE M[sl + 1][o]   \* o-th output of slice sl
Vec(c, M, sl) == [o \in 1..Out(c) |-> At(c, M, sl, o)]
Put(c, M, sl, v) == [i \in 1..c.D |-> [j \in 1..c.X |->
    IF c.cols /\ j = sl + 1 THEN v[i] ELSE IF ~c.cols /\ i = sl + 1 THEN v[j] ELSE M[i][j]]]
AddClip(c, M, sl, v) == Put(c, M, sl, [o \in 1..Out(c) |-> Clip(At(c, M, sl, o) + v[o], -c.bnd, c.bnd)])

\* transfer learning rate in units of the device step
LrT(c, s, f) ==
    LET l == IF c.corr \/ ~c.scaleL THEN c.L ELSE c.L * s.K
        t == f + 1
    IN IF c.kind # "plain" /\ c.gam[f] > 0 /\ c.gam[t] > 0 THEN l * (c.gam[f] \div c.gam[t]) ELSE l

Quot(a, b) == TDiv(a, b)
\* steps written for n crossed thresholds (bounded by the pulse train)
Steps(c, n) == c.st * Sgn(n) * MinI(AbsI(n), IF c.st = 4 THEN 4 ELSE 8)
After(c, om, n, g) == IF n = 0 THEN om ELSE IF c.forget THEN (om * c.mom2) \div 2 ELSE om - ((2 - c.mom2) * n * g) \div 2

ReadPlain(c, s, f, sl) ==
    LET v == Vec(c, s.A[f], sl)
        s1 == IF c.reset THEN [s EXCEPT !.A[f] = Put(c, @, sl, VZero(Out(c)))] ELSE s
    IN [s1 EXCEPT !.A[f + 1] = AddClip(c, @, sl, VScale(LrT(c, s, f), v))]

ReadBuf(c, s, f, sl) ==
    LET om == [o \in 1..Out(c) |-> At(c, s.buf[f], sl, o) + AbsI(LrT(c, s, f)) * At(c, s.A[f], sl, o)]
        n == [o \in 1..Out(c) |-> Clip(Quot(om[o], c.G), -64, 64)]
    IN [s EXCEPT !.buf[f] = Put(c, @, sl, [o \in 1..Out(c) |-> After(c, om[o], n[o], c.G)]),
                 !.A[f + 1] = AddClip(c, @, sl, [o \in 1..Out(c) |-> Steps(c, n[o])])]

\* choppers switch after the slice was read; set of successors
Toggle(s, sl) == [s EXCEPT !.ci[sl + 1] = ~@, !.sw[sl + 1] = TRUE]
InChop(c, s, sl, tc) ==
    LET due == (tc % c.ns) + 1 = c.ns IN
    IF c.kind = "dynamic" THEN
        (CASE c.pin = 1 -> {Toggle(s, sl)}
           [] c.pin = 3 -> IF due THEN {Toggle(s, sl)} ELSE {s, Toggle(s, sl)}
           [] OTHER -> IF due THEN {Toggle(s, sl)} ELSE {s})
    ELSE (CASE c.pin = 0 -> {s}
            [] c.pin = 1 -> {Toggle(s, sl)}
            [] c.pin = 2 -> IF due THEN {Toggle(s, sl)} ELSE {s}
            [] c.pin = 3 -> {s, Toggle(s, sl)})
OutChop(c, s, sl) ==
    IF sl # In(c) - 1 \/ c.pout = 0 \/ c.kind = "dynamic" THEN {s}
    ELSE IF c.pout = 1 THEN {[s EXCEPT !.co = [o \in 1..Out(c) |-> ~@[o]]]}
    ELSE {[s EXCEPT !.co = v] : v \in [1..Out(c) -> BOOLEAN]}
Cycle(c, s, sl) == IF sl = In(c) - 1 THEN [s EXCEPT !.tc = @ + 1] ELSE s

ReadChop(c, s, sl) ==
    LET sg(o) == IF s.ci[sl + 1] # s.co[o] THEN -1 ELSE 1
        om == [o \in 1..Out(c) |-> (IF c.nobuf THEN 0 ELSE At(c, s.buf[1], sl, o))
                                   + sg(o) * AbsI(LrT(c, s, 1)) * At(c, s.A[1], sl, o)]
        n == [o \in 1..Out(c) |-> Clip(Quot(om[o], c.G), -64, 64)]
        s1 == [s EXCEPT !.buf[1] = Put(c, @, sl, [o \in 1..Out(c) |-> After(c, om[o], n[o], c.G)]),
                        !.A[2] = AddClip(c, @, sl, [o \in 1..Out(c) |-> Steps(c, n[o])])]
    IN {Cycle(c, s3, sl) : s3 \in UNION {OutChop(c, s2, sl) : s2 \in InChop(c, s1, sl, s.tc)}}

\* the reference of a chopper phase is the mean of the previous phase
ReadDyn(c, s, sl) ==
    LET was == s.sw[sl + 1]
        past == IF was THEN Put(c, s.past, sl, Vec(c, s.mean, sl)) ELSE s.past
        sg(o) == IF s.ci[sl + 1] # s.co[o] THEN -1 ELSE 1
        div == IF c.cacc THEN MinI((s.tc % c.ns) + 1, 64) ELSE 1
        g == c.G * c.ms
        val(o) == At(c, s.A[1], sl, o)
        om == [o \in 1..Out(c) |-> At(c, s.buf[1], sl, o)
                 + TDiv(sg(o) * AbsI(LrT(c, s, 1)) * (val(o) * c.ms - At(c, past, sl, o)), div)]
        n == [o \in 1..Out(c) |-> Clip(Quot(om[o], g), -64, 64)]
        capd(o, v) == IF n[o] # 0 /\ ~c.forget /\ c.cap > 0 THEN Clip(v, -c.cap * g, c.cap * g) ELSE v
        mean == [o \in 1..Out(c) |-> LET m == At(c, s.mean, sl, o) IN
                    (m * (c.sm - 1)) \div c.sm + (val(o) * c.ms) \div c.sm]
        s1 == [s EXCEPT !.buf[1] = Put(c, @, sl, [o \in 1..Out(c) |-> capd(o, After(c, om[o], n[o], g))]),
                        !.past = past, !.mean = Put(c, @, sl, mean), !.sw[sl + 1] = FALSE,
                        !.A[2] = IF s.tc > c.ns THEN AddClip(c, @, sl, [o \in 1..Out(c) |-> Steps(c, n[o])]) ELSE @]
    IN {Cycle(c, s2, sl) : s2 \in InChop(c, s1, sl, s.tc)}

ReadOne(c, s, f, sl) ==
    IF f = c.n \/ LrT(c, s, f) = 0 THEN {s}
    ELSE CASE c.kind = "plain" -> {ReadPlain(c, s, f, sl)}
           [] c.kind = "buffered" -> {ReadBuf(c, s, f, sl)}
           [] c.kind = "chopped" -> ReadChop(c, s, sl)
           [] c.kind = "dynamic" -> ReadDyn(c, s, sl)

RECURSIVE ReadN(_, _, _, _, _)
ReadN(c, s, f, sl, k) == IF k = 0 THEN {s}
    ELSE UNION {ReadN(c, s1, f, (sl + 1) % In(c), k - 1) : s1 \in ReadOne(c, s, f, sl)}

TransferFrom(c, s, f) ==
    LET k == MinI(c.nr, In(c))
        from(sl) == {[s1 EXCEPT !.sl[f] = (sl + k) % In(c)] : s1 \in ReadN(c, s, f, sl, k)}
    IN IF c.rsel THEN UNION {from(sl) : sl \in 0..(In(c) - 1)} ELSE from(s.sl[f])

(* ------------------------------------------------------------- schedule *)
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
CDiv(a, b) == (a + b - 1) \div b
RDiv(a, b) == (2 * a + b) \div (2 * b)
Every(c, f, B) ==
    LET num == IF c.ev2 # <<>> THEN c.ev2[f] ELSE IF f = c.n /\ c.noself THEN 0 ELSE c.te2 * Pow(In(c), f - 1)
        den == 2 * (IF c.ev2 # <<>> THEN 1 ELSE Pow(MinI(c.nr, In(c)), f - 1))
    IN IF c.aev THEN MaxI(1, RDiv(2 * c.bnd * c.te2, 2 * In(c)))
       ELSE IF c.mb THEN CDiv(num * B, den) ELSE RDiv(num, den)

RECURSIVE Cascade(_, _, _, _)
Cascade(c, S, f, B) ==
    IF f > c.n THEN S ELSE
    LET e == Every(c, f, B)
        go(s) == IF e > 0 /\ s.cnt % e = 0 THEN TransferFrom(c, s, f) ELSE {s}
    IN Cascade(c, UNION {go(s) : s \in S}, f + 1, B)

RECURSIVE Update(_, _, _, _, _)
Update(c, S, X, Dv, k) ==
    IF k > Len(X) THEN S ELSE
    LET one(s) == LET s1 == Fast(c, s, X[k], Dv[k]) IN Cascade(c, {[s1 EXCEPT !.cnt = @ + 1]}, 1, Len(X))
    IN Update(c, UNION {one(s) : s \in S}, X, Dv, k + 1)

Quiet(s) == [s EXCEPT !.y = <<>>]
Step(c, s, a) ==
  CASE a.op = "update" -> IF s.K = 0 THEN {Quiet(s)} ELSE Update(c, {Quiet(s)}, a.x, a.d, 1)
    [] a.op = "lr"     -> {[Quiet(s) EXCEPT !.K = a.v]}
    [] a.op = "set"    -> {SetW(c, s, a.w)}
    [] a.op = "fwd"    -> {[s EXCEPT !.y = XWt(a.x, W(c, s))]}

Obs(c, s) == [W |-> W(c, s), A |-> [k \in 1..(IF Hidden(c) THEN c.n - 1 ELSE c.n) |-> s.A[k]], buf |-> s.buf,
              mean |-> IF c.kind = "dynamic" THEN s.mean ELSE <<>>, past |-> IF c.kind = "dynamic" THEN s.past ELSE <<>>,
              y |-> s.y]

(* ------------------------------------------------------------ properties *)
Inv(c, s) ==
    /\ \A k \in 1..c.n : \A i \in 1..c.D : \A j \in 1..c.X : s.A[k][i][j] \in (-c.bnd)..c.bnd
    /\ \A k \in 1..c.n : s.sl[k] \in 0..(In(c) - 1)
Every1(c, a) == Every(c, 1, Len(a.x))
StepOk(c, s, a, t) ==
    \* without a transfer only the fast device changes; nothing without learning rate
    /\ a.op = "update" /\ s.K = 0 => t.A = s.A /\ t.cnt = s.cnt
    /\ a.op = "update" /\ s.K > 0 => t.cnt = s.cnt + Len(a.x)
    /\ (a.op = "update" /\ (\A f \in 1..(c.n - 1) : Every(c, f, Len(a.x)) = 0)) => \A k \in 2..c.n : t.A[k] = s.A[k]
    /\ a.op \in {"lr", "fwd"} => [t EXCEPT !.y = <<>>, !.K = 0] = [s EXCEPT !.y = <<>>, !.K = 0]
    \* without saturation and with exact reads, a plain transfer of unit rate conserves nothing but the last device gains what was read
    /\ a.op = "set" => t.cnt = 0 /\ t.A[1] = Z(c)

(* --------------------------------------------------------- bounded model *)
Base == [name |-> "base", kind |-> "plain", n |-> 2, X |-> 2, D |-> 3, bnd |-> 40, gam |-> <<0, 1>>, te2 |-> 2, ev2 |-> <<>>,
         noself |-> TRUE, mb |-> FALSE, nr |-> 1, cols |-> TRUE, L |-> 1, scaleL |-> FALSE, F |-> 0, scaleF |-> FALSE,
         reset |-> FALSE, rsel |-> FALSE, G |-> 4, mom2 |-> 0, forget |-> FALSE, st |-> 1, pin |-> 0, ns |-> 2, pout |-> 0,
         nobuf |-> FALSE, corr |-> FALSE, auto |-> FALSE, ascale |-> FALSE, aev |-> FALSE, cap |-> 0, sm |-> 1, ms |-> 1,
         cacc |-> FALSE, K |-> 1, W0 |-> <<<<1, -2>>, <<3, 0>>, <<0, 5>>>>]
Cfgs0 == {
   Base, [Base EXCEPT !.name = "rows", !.cols = FALSE, !.nr = 2, !.K = 2],
   [Base EXCEPT !.name = "three", !.n = 3, !.gam = <<2, 1, 1>>, !.te2 = 1, !.mb = TRUE],
   [Base EXCEPT !.name = "three2", !.n = 3, !.gam = <<0, 0, 1>>, !.ev2 = <<2, 3, 1>>, !.nr = 2, !.reset = TRUE, !.L = 2],
   [Base EXCEPT !.name = "fast", !.F = 2, !.scaleL = TRUE, !.gam = <<1, 2>>, !.W0 = <<<<2, -2>>, <<4, 0>>, <<0, 6>>>>],
   [Base EXCEPT !.name = "buf", !.kind = "buffered", !.nr = 2, !.G = 4, !.mom2 = 1],
   [Base EXCEPT !.name = "bufrows", !.kind = "buffered", !.cols = FALSE, !.X = 3, !.D = 2, !.W0 = <<<<1, -2, 0>>, <<3, 0, 1>>>>,
                !.forget = TRUE, !.n = 3, !.gam = <<2, 2, 1>>, !.G = 2, !.st = 4],
   [Base EXCEPT !.name = "chop", !.kind = "chopped", !.pin = 2, !.pout = 1, !.gam = <<1, 1>>],
   [Base EXCEPT !.name = "choprows", !.kind = "chopped", !.cols = FALSE, !.pin = 1, !.forget = TRUE, !.gam = <<1, 1>>, !.corr = TRUE,
                !.scaleL = TRUE, !.G = 2],
   [Base EXCEPT !.name = "chopauto", !.kind = "chopped", !.auto = TRUE, !.ascale = TRUE, !.F = 3, !.nobuf = TRUE, !.pin = 1, !.G = 2],
   [Base EXCEPT !.name = "dyn", !.kind = "dynamic", !.pin = 2, !.D = 2, !.W0 = <<<<1, -2>>, <<3, 0>>>>, !.mb = TRUE, !.te2 = 1],
   [Base EXCEPT !.name = "dyncap", !.kind = "dynamic", !.pin = 2, !.cols = FALSE, !.D = 1, !.W0 = <<<<1, -2>>>>, !.cap = 1,
                !.sm = 2, !.ms = 256, !.cacc = TRUE, !.mom2 = 1]}
VX(c, k) == [j \in 1..c.X |-> IF (j + k) % 3 = 0 THEN 0 ELSE IF (j + k) % 3 = 1 THEN 1 ELSE -1]
VD(c, k) == [j \in 1..c.D |-> IF (j + k) % 4 = 0 THEN 0 ELSE IF (j + k) % 2 = 1 THEN 1 ELSE -1]
UpdActs(c) == {[op |-> "update", x |-> <<VX(c, 0)>>, d |-> <<VD(c, 1)>>],
               [op |-> "update", x |-> <<VX(c, 1), VX(c, 0)>>, d |-> <<VScale(2, VD(c, 0)), VD(c, 2)>>],
               [op |-> "update", x |-> <<VX(c, 2), VX(c, 0), VX(c, 1)>>, d |-> <<VD(c, 0), VD(c, 0), VD(c, 3)>>]}
OneActs(c) == {[op |-> "update", x |-> <<VX(c, k)>>, d |-> <<VD(c, m)>>] : k \in {0, 1}, m \in {1, 2}}
Acts(c, s) ==
   IF c.ascale \/ (c.kind = "dynamic" /\ c.sm > 1) THEN OneActs(c) ELSE
   UpdActs(c) \cup {[op |-> "lr", v |-> IF s.K = 0 THEN 2 ELSE 0], [op |-> "set", w |-> [i \in 1..c.D |-> [j \in 1..c.X |-> c.gam[c.n] * (20 * j - 15 * i)]]],
                    [op |-> "fwd", x |-> <<VX(c, 0), VX(c, 1)>>]}
\* a long schedule: many updates in a row
Cfgs1 == {[c EXCEPT !.name = @ \o "L"] : c \in Cfgs0}
=============================================================================
