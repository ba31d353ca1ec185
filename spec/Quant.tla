-------------------------------- MODULE Quant --------------------------------
(***************************************************************************)
(* Quantized layers: the weights and activations of a digital layer on a   *)
(* low precision grid (Qmgr), in all quantization states, with the cached  *)
(* weights of the evaluation, checkpoints and calibration.                 *)
(* c: kind "lin", "conv" (one row of pixels), "emb", "ln"; wb, ab, ib bits *)
(*   of weights, outputs, inputs (0: not quantized); ws, as, is symmetric; *)
(*   we, ae, ie estimators; pc per channel; pct; W0, b0 (empty: none);     *)
(*   conv: pm padding mode, p padding, s stride; f64 double precision      *)
(* State: W, b; wq, aq, iq managers; tm training mode; qw, qa quantize;    *)
(*   cg caching; fz frozen; ca cached weights; ck checkpoint               *)
(* Units: weights 1/16, quantized inputs 1/16, quantized outputs 1/16 of   *)
(* their product.                                                          *)
(***************************************************************************)
EXTENDS Qmgr

XU(c) == IF c.ib > 0 THEN 16 ELSE 1
AU(c) == IF c.ab > 0 THEN 16 ELSE 1
None == <<"none">>

(* --------------------------------------------------------------- layer -- *)
\* pixel of the padded row, 0: zero
Pix(c, n, t) ==
   IF t >= 1 /\ t <= n THEN t
   ELSE CASE c.pm = "zeros" -> 0
          [] c.pm = "circular" -> ((t - 1 + n) % n) + 1
          [] c.pm = "reflect" -> IF t < 1 THEN 2 - t ELSE (2 * n) - t
          [] c.pm = "replicate" -> IF t < 1 THEN 1 ELSE n
NPos(c, n) == ((n + (2 * c.p) - Len(c.W0[1])) \div c.s) + 1
\* index of the input pixel under weight k at position t
Src(c, n, t, k) == Pix(c, n, ((t - 1) * c.s) + k - c.p)
At(x, i) == IF i = 0 THEN 0 ELSE x[i]
\* outputs of a sample x for weights W, in units of W times x
LayF(c, W, b, x) ==
   CASE c.kind = "lin" -> [o \in 1..Len(W) |-> Dot(W[o], x) + b[o]]
     [] c.kind = "conv" -> Flat([o \in 1..Len(W) |-> [t \in 1..NPos(c, Len(x)) |-> Sum([k \in 1..Len(W[o]) |-> W[o][k] * At(x, Src(c, Len(x), t, k))]) + b[o]]])
     [] c.kind = "emb" -> Flat([t \in 1..Len(x) |-> W[x[t] + 1]])
     [] c.kind = "ln" -> [o \in 1..2 |-> (W[o][1] * Sgn(x[o])) + b[o]]
\* gradients of the input, the weights and the bias for the output gradient g
LayBx(c, W, x, g) ==
   CASE c.kind = "lin" -> [i \in 1..Len(x) |-> Sum([o \in 1..Len(W) |-> W[o][i] * g[o]])]
     [] c.kind = "conv" -> [i \in 1..Len(x) |-> Sum(Flat([o \in 1..Len(W) |-> Flat([t \in 1..NPos(c, Len(x)) |-> [k \in 1..Len(W[o]) |->
                               IF Src(c, Len(x), t, k) = i THEN W[o][k] * g[((o - 1) * NPos(c, Len(x))) + t] ELSE 0]])]))]
     [] OTHER -> <<>>
LayBw(c, W, x, g) ==
   CASE c.kind = "lin" -> [o \in 1..Len(W) |-> [i \in 1..Len(x) |-> g[o] * x[i]]]
     [] c.kind = "conv" -> [o \in 1..Len(W) |-> [k \in 1..Len(W[o]) |-> Sum([t \in 1..NPos(c, Len(x)) |-> g[((o - 1) * NPos(c, Len(x))) + t] * At(x, Src(c, Len(x), t, k))])]]
     [] c.kind = "emb" -> [r \in 1..Len(W) |-> [j \in 1..Len(W[r]) |-> Sum([t \in 1..Len(x) |-> IF x[t] + 1 = r THEN g[((t - 1) * Len(W[r])) + j] ELSE 0])]]
     [] c.kind = "ln" -> [o \in 1..Len(W) |-> <<g[o] * Sgn(x[o])>>]
LayBb(c, m, g) == CASE c.kind = "conv" -> [o \in 1..m |-> Sum([t \in 1..(Len(g) \div m) |-> g[((o - 1) * (Len(g) \div m)) + t]])]
                    [] OTHER -> g
MSum(ms) == FoldLeft(MAdd, ms[1], Tail(ms))

(* -------------------------------------------------------------- forward -- *)
Affine(c) == c.W0 # <<>>
Ones(n) == [i \in 1..n |-> <<16>>]
\* result of a forward pass with batch x and output gradients g (empty: no gradient)
Fwd(c, s, x, g) ==
   LET X0 == IF c.kind \in {"emb", "ln"} THEN x ELSE MScale(XU(c), x)
       iq == IF c.ib > 0 /\ s.qi THEN QEst(s.iq, X0, s.tm) ELSE s.iq
       qi == c.ib > 0 /\ s.qi
       e1 == qi /\ ~Ready(iq)
       X == IF qi /\ ~e1 THEN QM(iq, X0) ELSE X0
       \* the cached weights do not hide that the range is still estimated
       ca0 == IF s.qw /\ s.wq.st = "est" THEN None ELSE s.ca
       hit == ~s.tm /\ ca0 # None
       quw == s.qw /\ Affine(c)
       wq == IF ~hit /\ quw THEN QEst(s.wq, s.W, s.tm) ELSE s.wq
       e2 == ~hit /\ quw /\ ~Ready(wq)
       Wq == IF hit THEN ca0[1] ELSE IF ~Affine(c) THEN Ones(2) ELSE IF quw THEN QM(wq, s.W) ELSE s.W
       b0 == IF hit THEN ca0[2] ELSE s.b
       ca == IF s.cg /\ ~s.tm /\ ca0 = None THEN <<Wq, b0>> ELSE ca0
       b == IF b0 = <<>> THEN VZero(IF Affine(c) THEN Len(s.W) ELSE 2) ELSE VScale((IF c.kind = "ln" THEN 1 ELSE XU(c)) * 16, b0)
       Y0 == TLCEval([k \in 1..Len(x) |-> VScale(AU(c), LayF(c, Wq, b, X[k]))])
       qa == s.qa /\ c.ab > 0 /\ c.kind # "emb"
       aq == IF qa THEN QEst(s.aq, Y0, s.tm) ELSE s.aq
       e3 == qa /\ ~Ready(aq)
       Y == IF qa THEN QM(aq, Y0) ELSE Y0
       N0 == [s EXCEPT !.y = <<>>, !.gx = <<>>, !.gw = <<>>, !.gb = <<>>, !.gd = <<>>, !.err = TRUE]
       \* backward
       gy == IF qa THEN GM(aq, Y0, g) ELSE g
       gX == [k \in 1..Len(x) |-> LayBx(c, Wq, X[k], gy[k])]
       gx == IF qi THEN GM(iq, X0, gX) ELSE gX
       gWq == MSum([k \in 1..Len(x) |-> LayBw(c, Wq, X[k], gy[k])])
       gW == IF quw THEN GM(wq, s.W, gWq) ELSE gWq
       nz(v) == IF hit \/ s.fz THEN <<>> ELSE v
       N == [N0 EXCEPT !.err = FALSE, !.iq = iq, !.wq = wq, !.aq = aq, !.ca = ca, !.y = Y]
   IN IF e1 THEN [N0 EXCEPT !.iq = iq]
      ELSE IF e2 THEN [N0 EXCEPT !.iq = iq, !.wq = wq, !.ca = ca0]
      ELSE IF e3 THEN [N0 EXCEPT !.iq = iq, !.wq = wq, !.aq = aq, !.ca = ca]
      ELSE IF g = <<>> THEN N
      ELSE [N EXCEPT !.gx = IF c.kind \in {"emb", "ln"} THEN <<>> ELSE gx,
                     !.gw = IF ~Affine(c) THEN <<>> ELSE nz(gW),
                     !.gb = IF s.b = <<>> THEN <<>> ELSE nz(FoldLeft(VAdd, LayBb(c, Len(s.W), gy[1]), [k \in 1..(Len(x) - 1) |-> LayBb(c, Len(s.W), gy[k + 1])])),
                     !.gd = <<IF qi THEN <<GStep(iq, X0, gX), GZero(iq, X0, gX)>> ELSE <<>>,
                              IF quw /\ ~hit /\ ~s.fz THEN <<GStep(wq, s.W, gWq), GZero(wq, s.W, gWq)>> ELSE <<>>,
                              IF qa THEN <<GStep(aq, Y0, g), GZero(aq, Y0, g)>> ELSE <<>>>>]

(* -------------------------------------------------------- state machine -- *)
HasI(c) == c.ib > 0
HasA(c) == c.ab > 0 /\ c.kind # "emb"
InitSt(c) == [W |-> MScale(16, c.W0), b |-> c.b0, wq |-> QInit(c.wb, c.ws, c.pc, c.we, c.pct, c.f64), aq |-> QInit(c.ab, c.as, FALSE, c.ae, FALSE, c.f64),
              iq |-> QInit(c.ib, c.is, FALSE, c.ie, FALSE, c.f64), tm |-> TRUE, qw |-> c.wb > 0, qa |-> c.ab > 0, qi |-> c.ib > 0, cg |-> TRUE, fz |-> FALSE, ca |-> None, ck |-> None,
              y |-> <<>>, gx |-> <<>>, gw |-> <<>>, gb |-> <<>>, gd |-> <<>>, err |-> FALSE]
Quiet(s) == [s EXCEPT !.y = <<>>, !.gx = <<>>, !.gw = <<>>, !.gb = <<>>, !.gd = <<>>, !.err = FALSE]
Saved(s) == <<s.W, s.b, Vals(s.wq), Vals(s.aq), Vals(s.iq)>>
Load(s, k) == [s EXCEPT !.W = k[1], !.b = k[2], !.wq = Put(@, k[3]), !.aq = Put(@, k[4]), !.iq = Put(@, k[5]), !.ca = None]
Sel(q, which, st, me) == IF which \in {"all", me} THEN To(q, st) ELSE q
States(s, which, st) == [s EXCEPT !.wq = Sel(@, which, st, "w"), !.aq = Sel(@, which, st, "a"), !.iq = Sel(@, which, st, "a")]
RECURSIVE FwdAll(_, _, _)
FwdAll(c, s, xs) == IF xs = <<>> THEN s ELSE FwdAll(c, Fwd(c, s, Head(xs), <<>>), Tail(xs))
Step(c, s, a) ==
   CASE a.op = "fwd" -> {TLCEval(Fwd(c, s, a.x, a.g))}
     [] a.op = "mode" -> {[Quiet(s) EXCEPT !.tm = a.tm, !.ca = IF a.tm THEN None ELSE @]}
     [] a.op = "state" -> {States(Quiet(s), a.which, a.st)}
     [] a.op = "reset" -> {[Quiet(s) EXCEPT !.aq = IF HasA(c) THEN Reset(@) ELSE @, !.iq = IF HasI(c) THEN Reset(@) ELSE @]}
     [] a.op = "quant" -> {[Quiet(s) EXCEPT !.qw = a.w, !.qa = a.a, !.qi = a.a, !.ca = None]}
     [] a.op = "enable" -> {[Quiet(s) EXCEPT !.qw = c.wb > 0, !.qa = c.ab > 0, !.qi = c.ib > 0, !.ca = None]}
     [] a.op = "freeze" -> {[Quiet(s) EXCEPT !.fz = a.on]}
     [] a.op = "cache" -> {[Quiet(s) EXCEPT !.cg = a.on, !.ca = IF a.on THEN @ ELSE None]}
     [] a.op = "setw" -> {[Quiet(s) EXCEPT !.W = MScale(16, a.W), !.b = a.b]}
     [] a.op = "nudge" -> {[Quiet(s) EXCEPT !.wq = Nudge(@), !.aq = Nudge(@), !.iq = Nudge(@)]}
     [] a.op = "save" -> {[Quiet(s) EXCEPT !.ck = Saved(s)]}
     [] a.op = "load" -> {Load(Quiet(s), s.ck)}
     [] a.op = "reload" -> {[Load(InitSt(c), Saved(s)) EXCEPT !.ck = s.ck]}
     [] a.op \in {"copy", "twin"} -> {Quiet(s)}
     [] a.op = "calib" ->
          {LET e == States([Quiet(s) EXCEPT !.tm = FALSE], "all", "est") IN
           Quiet(States(TLCEval(FwdAll(c, e, SubSeq(a.xs, 1, MinI(a.n, Len(a.xs))))), "all", "fix"))}
Live(c, s) == [w |-> IF c.wb > 0 THEN QObs(s.wq) ELSE <<>>, a |-> IF HasA(c) THEN QObs(s.aq) ELSE <<>>, i |-> IF HasI(c) THEN QObs(s.iq) ELSE <<>>]
Obs(c, s) == [W |-> s.W, fz |-> s.fz /\ c.W0 # <<>>, b |-> s.b, q |-> Live(c, s), y |-> s.y, gx |-> s.gx, gw |-> s.gw, gb |-> s.gb, gd |-> IF c.f64 THEN s.gd ELSE <<>>, err |-> s.err]

(* ---------------------------------------------------------- properties -- *)
\* the cache is what the layer would compute
CacheOk(c, s) == s.ca # None =>
   s.ca = <<IF ~Affine(c) THEN Ones(2) ELSE IF s.qw THEN QM(s.wq, s.W) ELSE s.W, s.b>>
Inv(c, s) == QInv(s.wq) /\ QInv(s.aq) /\ QInv(s.iq) /\ CacheOk(c, s) /\ (s.tm => s.ca = None)
StepOk(c, s, a, n) ==
   \* ranges change only while they are estimated
   /\ a.op = "fwd" => \A p \in {<<s.wq, n.wq>>, <<s.aq, n.aq>>, <<s.iq, n.iq>>} : ~Estimates(p[1], s.tm) => p[1] = p[2]
   /\ a.op \in {"mode", "quant", "enable", "cache", "freeze", "setw", "save", "copy", "twin", "fwd", "nudge"} =>
        \A p \in {<<s.wq, n.wq>>, <<s.aq, n.aq>>, <<s.iq, n.iq>>} : p[1].st = p[2].st /\ (p[1].st = "fix" => p[1] = p[2])
   /\ (a.op = "fwd" /\ ~n.err /\ n.qa /\ HasA(c)) => \A k \in 1..Len(n.y) : \A i \in 1..Len(n.y[k]) :
        IF n.aq.d[1] = 0 THEN n.y[k][i] = 0 ELSE n.y[k][i] % n.aq.d[1] = 0
   /\ (a.op = "fwd" /\ ~n.err /\ n.qw /\ Affine(c) /\ c.wb > 0) => QOk(n.wq, n.W, QM(n.wq, n.W))
   \* evaluation twice
   /\ (a.op = "fwd" /\ ~n.err /\ ~s.tm /\ \A q \in {n.wq, n.aq, n.iq} : q.st # "est") => Fwd(c, n, a.x, <<>>).y = n.y
   /\ (a.op = "reload" /\ ~s.tm /\ \A q \in {s.wq, s.aq, s.iq} : Ready(q) /\ q.st # "est") =>
        LET m == [n EXCEPT !.tm = FALSE, !.qw = s.qw, !.qa = s.qa, !.qi = s.qi] IN m.wq.d = s.wq.d /\ m.aq.d = s.aq.d

(* -------------------------------------------------------- bounded model -- *)
Base == [kind |-> "lin", wb |-> 3, ab |-> 3, ib |-> 0, ws |-> TRUE, as |-> TRUE, is |-> TRUE, we |-> "cur", ae |-> "run", ie |-> "run", pc |-> FALSE, pct |-> FALSE,
         W0 |-> <<<<21, -21, 5>>, <<-42, 10, 42>>>>, b0 |-> <<21, 0>>, pm |-> "zeros", p |-> 0, s |-> 1, f64 |-> TRUE]
Cfgs0 == {Base, [Base EXCEPT !.as = FALSE, !.ws = FALSE, !.pc = TRUE, !.ae = "all", !.wb = 2],
          [Base EXCEPT !.f64 = FALSE, !.ab = 0, !.ib = 3, !.is = FALSE, !.we = "run", !.ie = "run"],
          [Base EXCEPT !.kind = "conv", !.W0 = <<<<21, -42>>, <<-21, 0>>>>, !.pm = "circular", !.p = 1, !.pc = TRUE, !.ae = "cur", !.ab = 2],
          [Base EXCEPT !.kind = "emb", !.W0 = <<<<21, -21>>, <<-42, 0>>, <<42, 21>>>>, !.b0 = <<>>, !.ws = FALSE],
          [Base EXCEPT !.kind = "ln", !.W0 = <<<<42>>, <<-21>>>>, !.b0 = <<3, -2>>, !.ab = 0],
          [Base EXCEPT !.kind = "ln", !.W0 = <<>>, !.b0 = <<>>, !.ab = 0],
          [Base EXCEPT !.pct = TRUE, !.ab = 0, !.W0 = <<<<21, -21, 84, 42, 0>>>>, !.b0 = <<21>>]}
Cfgs1 == Cfgs0 \cup {[Base EXCEPT !.ws = ws, !.as = as, !.we = we, !.ae = ae, !.pc = pc, !.wb = wb, !.ab = ab] :
            ws \in BOOLEAN, as \in BOOLEAN, we \in {"cur", "all", "run"}, ae \in {"cur", "all", "run"}, pc \in BOOLEAN, wb \in {0, 2, 3}, ab \in {2, 3}}
Xs(c) == IF c.kind = "emb" THEN {<<<<0, 2>>>>, <<<<1, 1>>, <<2, 0>>>>}
         ELSE IF c.kind = "ln" THEN {<<<<3, -3>>, <<-5, 5>>>>}
         ELSE LET u == 21 n == IF c.kind = "conv" THEN 4 ELSE Len(c.W0[1]) IN
              {<<[i \in 1..n |-> u * (IF i = 1 THEN 1 ELSE IF i = 2 THEN k ELSE 0)], [i \in 1..n |-> IF i = n THEN -21 ELSE u]>> : k \in {-2, 1}}
              \cup {<<[i \in 1..n |-> u * ((i % 3) - 2)]>>}
NOut(c) == CASE c.kind = "conv" -> Len(c.W0) * NPos(c, 4) [] c.kind = "emb" -> 2 * Len(c.W0[1]) [] c.kind = "ln" -> 2 [] OTHER -> Len(c.W0)
Gs(c, x) == {[k \in 1..Len(x) |-> [i \in 1..NOut(c) |-> (((k + (2 * i)) % 4) - 1)]]}
Ws(c) == IF c.W0 = <<>> THEN {} ELSE {[i \in 1..Len(c.W0) |-> [j \in 1..Len(c.W0[1]) |-> IF i = 1 /\ j = Len(c.W0[1]) THEN -42 ELSE 21 * ((i + j) % 2)]]}
Keys(c, s) == <<Ready(s.wq), Ready(s.aq), Ready(s.iq)>>
KeysK(k) == <<k[3].d # <<>>, k[4].d # <<>>, k[5].d # <<>>>>
Few(c, s) == \A q \in {s.wq, s.aq, s.iq} : q.est = "run" => q.k <= 4
Can(c, s, a) ==
   /\ a.op = "quant" => (a.w => c.wb > 0) /\ (a.a => c.ab > 0)
   /\ a.op \in {"setw", "nudge"} => (s.tm \/ s.ca = None)
   /\ a.op = "nudge" => \A q \in {s.wq, s.aq, s.iq} : q.tr => \A i \in 1..Len(q.d) : q.d[i] < 2 * MaxI(1, MaxI(-q.xn[i], q.xx[i]))
   /\ a.op = "load" => s.ck # None /\ KeysK(s.ck) = Keys(c, s)
   /\ a.op \in {"fwd"} => Few(c, s)
   /\ a.op = "calib" => \A q \in {s.wq, s.aq, s.iq} : q.est = "run" => q.k <= 3
Acts(c, s) == {a \in
   {[op |-> "fwd", x |-> x, g |-> g] : x \in Xs(c), g \in {<<>>}}
   \cup UNION {{[op |-> "fwd", x |-> x, g |-> g] : g \in Gs(c, x)} : x \in {CHOOSE z \in Xs(c) : Len(z) = 2}}
   \cup {[op |-> "mode", tm |-> ~s.tm]}
   \cup {[op |-> "state", which |-> w, st |-> st] : w \in {"all"}, st \in {"est", "fix", "learn", "tr"}}
   \cup {[op |-> "state", which |-> "a", st |-> "est"], [op |-> "state", which |-> "a", st |-> "fix"], [op |-> "state", which |-> "w", st |-> "fix"]}
   \cup {[op |-> "reset"], [op |-> "enable"], [op |-> "nudge"], [op |-> "save"], [op |-> "load"], [op |-> "reload"], [op |-> "copy", how |-> "pickle"]}
   \cup {[op |-> "quant", w |-> w, a |-> z] : w \in BOOLEAN, z \in BOOLEAN}
   \cup {[op |-> "setw", W |-> W, b |-> c.b0] : W \in Ws(c)}
   \cup {[op |-> "calib", xs |-> <<x, x, x>>, n |-> 2] : x \in {CHOOSE z \in Xs(c) : Len(z) = 2}}
   \cup {[op |-> "twin", x |-> x] : x \in {CHOOSE z \in Xs(c) : TRUE}}
   \cup {[op |-> "cache", on |-> ~s.cg], [op |-> "freeze", on |-> ~s.fz]} : Can(c, s, a)}
=============================================================================
