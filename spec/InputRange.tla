------------------------------ MODULE InputRange ------------------------------
(***************************************************************************)
(* Input ranges of the tiles: initialized from the data of the first       *)
(* training batches, learned with gradients, set by the user or calibrated *)
(* after training.  A network of one or two analog layers (c.W weights).   *)
(* Inputs and ranges are integers in units of 1/12, gradients of the range *)
(* in units of 1/48.  Not exactly representable results are BAD; such      *)
(* actions are not explored.                                               *)
(* c: tile "cpp" / "single" rpucuda (inference, training), "torch" /       *)
(*   "quant"; en per layer enabled; learn; init, ifd batches from data,    *)
(*   alpha; dec decay (1/4), pct minimal percentage (1/4), rel, gs scale   *)
(*   (1/4); perf perfect forward pass; ob bound of the outputs (of the     *)
(*   tile), moc, opct (1/4) output clipping; nm noise management;          *)
(*   evl first layer is kept in evaluation mode; ls: 4 / learning rate     *)
(* State, per layer: ir (0 none), idx number of averaged, en, lrn, ifd,    *)
(*   al alpha, pf, nm, inf, iv (initial value in the config), g gradient,  *)
(*   fz: the range is the result of a computation (rounded in reality)     *)
(***************************************************************************)
EXTENDS Mat, TLC

BAD == 0 - 99999
NL(c) == Len(c.W)
Cpp(c) == c.tile \in {"cpp", "single"}
Div(n, d) == IF n % d = 0 THEN n \div d ELSE BAD
ISqrt(v) == IF \E r \in 0..1500 : r * r = v THEN CHOOSE r \in 0..1500 : r * r = v ELSE BAD
Ok1(v) == v > 0 /\ v < 1000

\* standard deviation of all elements (BAD: not an integer, 0 for single elements)
Std(X) == LET f == Flat(X) n == Len(f) s == Sum(f) q == Sum([i \in 1..n |-> f[i] * f[i]])
              v == (n * q) - (s * s) IN
          IF n = 1 THEN 0 ELSE IF v % (n * (n - 1)) # 0 THEN BAD ELSE ISqrt(v \div (n * (n - 1)))
\* average of the idx values so far with another one
Avg(old, idx, v) == IF old = BAD \/ v = BAD THEN BAD ELSE Div((old * idx) + v, idx + 1)
Mags(X) == LET f == Flat(X) IN SortSeq([i \in 1..Len(f) |-> AbsI(f[i])], LAMBDA a, b : a < b)
\* k / 4 quantile of the magnitudes (linear interpolation)
Quant(X, k) == LET m == Mags(X) p == k * (Len(m) - 1) i == p \div 4 r == p % 4 IN
               IF r = 0 THEN m[i + 1] ELSE LET e == r * (m[i + 2] - m[i + 1]) IN IF e % 4 # 0 THEN BAD ELSE m[i + 1] + (e \div 4)
MaxAbs(X) == LET m == Mags(X) IN m[Len(m)]
Rows(X) == SelectSeq(X, LAMBDA r : \E j \in 1..Len(r) : r[j] # 0)

ClipM(X, v) == [b \in 1..Len(X) |-> [j \in 1..Len(X[1]) |-> Clip(X[b][j], 0 - v, v)]]
\* output of a layer with input range ir (0: none), perfect or bounded
LayIn(ir, X) == IF ir = 0 \/ ir = BAD THEN X ELSE ClipM(X, ir)
Bounded(c, pf) == ~pf /\ c.ob > 0
OutB(c, ir) == c.ob * (IF ir = 0 THEN 12 ELSE ir)
Lay(c, k, pf, ir, X) == IF ir = BAD THEN [b \in 1..Len(X) |-> [i \in 1..Len(c.W[k]) |-> 0]] ELSE LET y == XWt(LayIn(ir, X), c.W[k]) IN IF Bounded(c, pf) THEN ClipM(y, OutB(c, ir)) ELSE y

InitSt(c) == [ir |-> [k \in 1..NL(c) |-> IF c.en[k] THEN c.init ELSE 0], idx |-> [k \in 1..NL(c) |-> 0], en |-> c.en,
              lrn |-> [k \in 1..NL(c) |-> c.learn], ifd |-> [k \in 1..NL(c) |-> c.ifd], al |-> [k \in 1..NL(c) |-> c.alpha],
              pf |-> [k \in 1..NL(c) |-> c.perf], nm |-> [k \in 1..NL(c) |-> c.nm], inf |-> [k \in 1..NL(c) |-> "-"],
              iv |-> [k \in 1..NL(c) |-> c.init], g |-> [k \in 1..NL(c) |-> 0], fz |-> [k \in 1..NL(c) |-> FALSE], y |-> <<>>, gx |-> <<>>, gw |-> <<>>, err |-> FALSE]
Out(s, y, gx, gw) == [s EXCEPT !.y = y, !.gx = gx, !.gw = gw, !.err = FALSE]

(* ---------------------------------------------- forward and backward ---- *)
\* a training batch reaches layer k: the first batches define the range
FromData(s, k, X) == IF s.en[k] /\ s.idx[k] < s.ifd[k]
   THEN LET sd == Std(X) IN
        IF sd = 0 THEN s
        ELSE [s EXCEPT !.ir[k] = Avg(@, s.idx[k], IF sd = BAD THEN BAD ELSE s.al[k] * sd), !.idx[k] = @ + 1, !.fz[k] = TRUE] ELSE s
Train(c, k) == ~(c.evl /\ k = 1)
RECURSIVE Forw(_, _, _, _, _)
\* [s, xs]: inputs of all layers and the output
Forw(c, s, k, xs, mode) ==
   IF k > NL(c) THEN [s |-> s, xs |-> xs]
   ELSE LET X == xs[Len(xs)] s1 == IF mode = "train" /\ Train(c, k) THEN FromData(s, k, X) ELSE s IN
        Forw(c, s1, k + 1, Append(xs, Lay(c, k, s1.pf[k], s1.ir[k], X)), mode)

\* gradient of the range: inputs at or beyond the range pull it outwards, only; it decays if (almost) nothing is clipped
IrGrad(c, s, k, X, G, clipped, nout) ==
   LET ir == s.ir[k] n == Len(X) * Len(X[1])
       up == Sum(Flat([b \in 1..Len(X) |-> [j \in 1..Len(X[1]) |-> IF X[b][j] >= ir THEN MinI(0, G[b][j]) ELSE 0]]))
       lo == Sum(Flat([b \in 1..Len(X) |-> [j \in 1..Len(X[1]) |-> IF X[b][j] <= 0 - ir THEN MaxI(0, G[b][j]) ELSE 0]]))
       g1 == (up - lo) * c.gs * (IF c.rel THEN ir ELSE 12)
       inside == Sum(Flat([b \in 1..Len(X) |-> [j \in 1..Len(X[1]) |-> IF AbsI(X[b][j]) < ir THEN 1 ELSE 0]]))
       dc == IF 4 * inside > c.pct * n THEN c.dec * ir ELSE 0
       oc == IF c.moc /\ 4 * (nout - clipped) < c.opct * nout THEN Div(4 * clipped * ir, nout) ELSE 0
   IN IF oc = BAD THEN BAD ELSE g1 + dc - oc

RECURSIVE Back(_, _, _, _, _, _)
\* [s, G, gw]
Back(c, s, xs, k, G, gw) ==
   IF k = 0 THEN [s |-> s, G |-> G, gw |-> gw]
   ELSE LET X == xs[k] ir == s.ir[k] Y == xs[k + 1] ob == OutB(c, ir)
            isb == [b \in 1..Len(Y) |-> [i \in 1..Len(Y[1]) |-> Bounded(c, s.pf[k]) /\ AbsI(Y[b][i]) >= ob]]
            cl == Sum(Flat([b \in 1..Len(Y) |-> [i \in 1..Len(Y[1]) |-> IF isb[b][i] THEN 1 ELSE 0]]))
            Gm == [b \in 1..Len(Y) |-> [i \in 1..Len(Y[1]) |-> IF isb[b][i] THEN 0 ELSE G[b][i]]]
            D == DW(Gm, c.W[k], Len(X[1]))
            Din == IF Cpp(c) \/ ir = 0 THEN D ELSE [b \in 1..Len(X) |-> [j \in 1..Len(X[1]) |-> IF AbsI(X[b][j]) > ir THEN 0 ELSE D[b][j]]]
            w == OuterSum(G, LayIn(ir, X), Len(Y[1]), Len(X[1]))
            ig == IF ir = 0 \/ ~s.lrn[k] THEN 0 ELSE IrGrad(c, s, k, X, D, cl, Len(Y) * Len(Y[1]))
        IN Back(c, [s EXCEPT !.g[k] = IF ig = BAD THEN BAD ELSE @ + ig], xs, k - 1, Din, <<w>> \o gw)

PassA(c, s, a) ==
   LET f == Forw(c, s, 1, <<a.x>>, a.mode) y == f.xs[NL(c) + 1] IN
   IF a.mode = "eval" THEN Out(f.s, y, <<>>, <<>>)
   ELSE IF \E k \in 1..NL(c) : f.s.ir[k] = BAD THEN f.s
   ELSE LET b == Back(c, f.s, f.xs, NL(c), a.d, <<>>) IN Out(b.s, y, b.G, IF c.tile = "single" THEN <<>> ELSE b.gw)
Opt(c, s) == Out([s EXCEPT !.ir = [k \in 1..NL(c) |-> IF s.ir[k] = 0 \/ ~s.lrn[k] THEN s.ir[k]
                        ELSE LET e == Div(s.g[k], c.ls) IN IF e = BAD THEN BAD ELSE s.ir[k] - e],
                     !.fz = [k \in 1..NL(c) |-> s.fz[k] \/ s.g[k] # 0], !.g = [k \in 1..NL(c) |-> 0]], <<>>, <<>>, <<>>)

(* ---------------------------------------------------------- calibration - *)
Cal1(c, s, a, k) == a.force \/ s.en[k]
\* before the data: [ranges are enabled, noise management off, perfect]
Prep(c, s, a) == [s EXCEPT
   !.en = [k \in 1..NL(c) |-> s.en[k] \/ a.force], !.lrn = [k \in 1..NL(c) |-> IF s.en[k] \/ ~a.force THEN s.lrn[k] ELSE FALSE],
   !.ir = [k \in 1..NL(c) |-> IF s.en[k] \/ ~a.force THEN s.ir[k] ELSE s.iv[k]],
   !.idx = [k \in 1..NL(c) |-> IF Cal1(c, s, a, k) THEN 0 ELSE s.idx[k]],
   !.ifd = [k \in 1..NL(c) |-> IF Cal1(c, s, a, k) THEN 0 ELSE s.ifd[k]],
   !.al = [k \in 1..NL(c) |-> IF Cal1(c, s, a, k) /\ a.alpha > 0 THEN a.alpha ELSE s.al[k]],
   !.nm = [k \in 1..NL(c) |-> IF Cal1(c, s, a, k) THEN FALSE ELSE s.nm[k]],
   !.pf = [k \in 1..NL(c) |-> IF Cal1(c, s, a, k) /\ a.type \in {"max", "cache"} THEN TRUE ELSE s.pf[k]]]
Seen1(a, s, k, R) ==
   IF R = <<>> \/ s.ir[k] = BAD THEN s
   ELSE IF a.type = "mq" \/ (a.type = "mstd" /\ s.idx[k] < a.ms)
     THEN LET v0 == IF a.type = "mq" THEN Quant(R, a.q) ELSE Std(R)
              v == IF v0 = BAD \/ a.type = "mq" THEN v0 ELSE s.al[k] * v0 IN
          IF v = 0 THEN s ELSE [s EXCEPT !.ir[k] = Avg(@, s.idx[k], v), !.idx[k] = @ + 1]
   ELSE s
RECURSIVE CalB(_, _, _, _, _, _)
\* one batch through the layers; seen: all non-zero rows per layer
CalB(c, s, a, cal, k, st) ==
   IF k > NL(c) THEN st
   ELSE LET R == Rows(st.X) s1 == IF cal[k] THEN Seen1(a, st.s, k, R) ELSE st.s IN
        CalB(c, s, a, cal, k + 1, [s |-> s1, X |-> Lay(c, k, s1.pf[k], s1.ir[k], st.X), seen |-> [st.seen EXCEPT ![k] = @ \o R]])
RECURSIVE CalAll(_, _, _, _, _)
CalAll(c, a, cal, i, st) ==
   IF i > Len(a.B) THEN st ELSE CalAll(c, a, cal, i + 1, CalB(c, st.s, a, cal, 1, [st EXCEPT !.X = a.B[i]]))
Info == [max |-> "Max", cache |-> "CacheQuantile", mstd |-> "MovingStd", mq |-> "MovingQuantile"]
Calib(c, s, a) ==
   LET cal == [k \in 1..NL(c) |-> Cal1(c, s, a, k)]
       r == CalAll(c, a, cal, 1, [s |-> Prep(c, s, a), X |-> <<>>, seen |-> [k \in 1..NL(c) |-> <<>>]])
       n == r.s
       fin(k) == IF ~cal[k] THEN n.ir[k] ELSE
                 IF a.type = "max" /\ r.seen[k] # <<>> THEN MaxAbs(r.seen[k])
                 ELSE IF a.type = "cache" /\ r.seen[k] # <<>> THEN (IF Quant(r.seen[k], a.q) = 0 THEN BAD ELSE Quant(r.seen[k], a.q))
                 ELSE n.ir[k]
       done(k) == cal[k] /\ (n.idx[k] > 0 \/ (a.type \in {"max", "cache"} /\ r.seen[k] # <<>>))
       fzs == [k \in 1..NL(c) |-> s.fz[k] \/ (cal[k] /\ ~(a.type = "max" /\ k = 1))]
       irs == [k \in 1..NL(c) |-> fin(k)]
   IN IF ~a.force /\ \E k \in 1..NL(c) : s.en[k] /\ s.nm[k] THEN [Out(s, <<>>, <<>>, <<>>) EXCEPT !.err = TRUE]
      ELSE Out([n EXCEPT !.ir = irs, !.fz = fzs, !.pf = s.pf, !.inf = [k \in 1..NL(c) |-> IF done(k) THEN Info[a.type] ELSE s.inf[k]],
                   !.iv = [k \in 1..NL(c) |-> IF done(k) THEN irs[k] ELSE s.iv[k]]], <<>>, <<>>, <<>>)

Step(c, s, a) ==
  CASE a.op = "pass" -> {PassA(c, s, a)}
    [] a.op = "opt"  -> {Opt(c, s)}
    [] a.op = "set"  -> {IF s.en[a.k] THEN Out([s EXCEPT !.ir[a.k] = AbsI(a.v), !.fz[a.k] = FALSE], <<>>, <<>>, <<>>)
                         ELSE [Out(s, <<>>, <<>>, <<>>) EXCEPT !.err = TRUE]}
    [] a.op = "cal"  -> {Calib(c, s, a)}
    [] a.op = "copy" -> {[Out(s, <<>>, <<>>, <<>>) EXCEPT !.g = [k \in 1..NL(c) |-> 0]]}

Obs(c, s) == [y |-> s.y, gx |-> s.gx, gw |-> s.gw, ir |-> s.ir, idx |-> s.idx, g |-> s.g, en |-> s.en, pf |-> s.pf, nm |-> s.nm,
              inf |-> s.inf, iv |-> s.iv, lrn |-> [k \in 1..NL(c) |-> s.en[k] /\ s.lrn[k]],
              modes |-> <<TRUE>> \o [k \in 1..NL(c) |-> ~(c.evl /\ k = 1)], err |-> s.err]

(* ------------------------------------------------------------ properties *)
Inv(c, s) == \A k \in 1..NL(c) : s.en[k] = (s.ir[k] # 0)
StepOk(c, s, a, n) ==
  \* evaluation changes nothing but the outputs; the forward mode is what it was after a calibration
  /\ (a.op = "pass" /\ a.mode = "eval") => n.ir = s.ir /\ n.idx = s.idx /\ n.g = s.g
  /\ n.pf = s.pf
  \* only the first training batches define the range
  /\ (a.op = "pass" /\ a.mode = "train") => \A k \in 1..NL(c) : (n.ir[k] = s.ir[k] /\ n.idx[k] = s.idx[k]) \/ (s.idx[k] < c.ifd /\ n.idx[k] = s.idx[k] + 1)
  \* clipping never shrinks a range, except by decay
  /\ (a.op = "opt" /\ c.dec = 0) => \A k \in 1..NL(c) : n.ir[k] >= s.ir[k]
  \* outputs of a single layer are those of the clipped inputs
  /\ (a.op = "pass" /\ NL(c) = 1 /\ c.perf) => n.y = XWt(LayIn(n.ir[1], a.x), c.W[1])
  \* a calibration with the maximum clips nothing (first layer); disabled layers stay so if not forced
  /\ (a.op = "cal" /\ a.type = "max" /\ n.inf[1] = "Max" /\ ~n.err /\ n.en[1]) => \A i \in 1..Len(a.B) : LayIn(n.ir[1], a.B[i]) = a.B[i]
  /\ (a.op = "cal" /\ ~a.force) => n.en = s.en
  /\ (a.op = "cal" /\ ~n.err) => \A k \in 1..NL(c) : Cal1(c, s, a, k) => n.ifd[k] = 0

(* --------------------------------------------------------- bounded model *)
Base == [name |-> "cpp", tile |-> "cpp", W |-> <<<<<<1, 0, 2>>, <<-1, 1, 0>>>>>>, en |-> <<TRUE>>, learn |-> TRUE, init |-> 24, ifd |-> 2, alpha |-> 2,
         dec |-> 1, pct |-> 2, rel |-> TRUE, gs |-> 4, perf |-> TRUE, ob |-> 0, moc |-> FALSE, opct |-> 3, nm |-> FALSE, evl |-> FALSE, ls |-> 4]
W2 == <<<<<<0, 1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>, <<<<2, -1, 1>>>>>>
Two == [Base EXCEPT !.name = "two", !.W = W2, !.en = <<TRUE, TRUE>>]
Bnd == [Base EXCEPT !.name = "bound", !.perf = FALSE, !.ob = 1, !.moc = TRUE, !.ifd = 0, !.dec = 0]
Cfgs0 == {Base, [Base EXCEPT !.name = "torch", !.tile = "torch"], [Base EXCEPT !.name = "single", !.tile = "single", !.rel = FALSE, !.gs = 2],
   [Two EXCEPT !.name = "twotorch", !.tile = "torch", !.evl = TRUE, !.rel = FALSE, !.gs = 8], Two, [Two EXCEPT !.name = "mixed", !.en = <<TRUE, FALSE>>, !.perf = FALSE],
   [Two EXCEPT !.name = "mixed2", !.en = <<FALSE, TRUE>>, !.tile = "torch", !.perf = FALSE, !.ifd = 0],
   Bnd, [Bnd EXCEPT !.name = "bound2", !.W = W2, !.en = <<TRUE, TRUE>>, !.opct = 4],
   [Base EXCEPT !.name = "nolearn", !.learn = FALSE, !.nm = TRUE, !.perf = FALSE, !.evl = TRUE], [Two EXCEPT !.name = "off", !.en = <<FALSE, FALSE>>, !.tile = "quant", !.nm = TRUE, !.perf = FALSE]}
D1(c, n) == [b \in 1..n |-> [i \in 1..Len(c.W[NL(c)]) |-> IF (b + i) % 2 = 0 THEN 1 ELSE 0 - 2]]
Xs == {<<<<12, -12, 0>>>>, <<<<0, 36, -36>>>>, <<<<60, 12, -24>>, <<24, -48, -12>>>>, <<<<0, 0, 0>>>>}
Bs == {<< <<<<12, 24, -48>>, <<0, 0, 0>>>>, <<<<-60, -12, 0>>>> >>, << <<<<0, 0, 0>>>> >>, << <<<<24, -24, 0>>>>, <<<<0, 0, 0>>>>, <<<<48, 0, -48>>>> >>}
Fine(c, t) == \A k \in 1..NL(c) : t.ir[k] < 1000 /\ t.ir[k] >= 0 /\ t.g[k] # BAD /\ AbsI(t.g[k]) < 100000
\* inputs are exactly at the border of a range which is only known up to rounding
Border(c, f) == \E k \in 1..NL(c) : f.s.ir[k] # 0 /\ (k > 1 \/ f.s.fz[k] \/ f.s.ir[k] % 12 # 0)
                   /\ \E b \in 1..Len(f.xs[k]) : \E j \in 1..Len(f.xs[k][1]) : AbsI(f.xs[k][b][j]) = f.s.ir[k]
OkAct(c, s, a) == \A t \in Step(c, s, a) : Fine(c, t)
              /\ (a.op = "pass" => \A k \in 1..NL(c) : OutB(c, t.ir[k]) < 900 /\ (a.mode = "eval" \/ ~(c.nm /\ \E j \in 1..NL(c) : s.nm[j])))
              /\ ((a.op = "pass" /\ a.mode = "train") => ~Border(c, Forw(c, s, 1, <<a.x>>, a.mode)))
              /\ (a.op = "opt" => \A k \in 1..NL(c) : s.en[k] => t.ir[k] > 0)
Acts(c, s) == {a \in
   {[op |-> "pass", mode |-> m, x |-> x, d |-> D1(c, Len(x))] : m \in {"train", "eval"}, x \in Xs} \cup
   {[op |-> "opt"], [op |-> "set", k |-> NL(c), v |-> -36], [op |-> "copy", how |-> "pickle"], [op |-> "copy", how |-> "sd"]} \cup
   {[op |-> "cal", type |-> t, B |-> b, q |-> 3, alpha |-> 0, force |-> t = "max" \/ Len(b) > 2, ms |-> 2] : t \in {"max", "cache", "mstd", "mq"}, b \in Bs}
   : OkAct(c, s, a)}
Cfgs1 == {[c EXCEPT !.name = @ \o "L"] : c \in Cfgs0}
=============================================================================
