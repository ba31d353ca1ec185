-------------------------------- MODULE QTile --------------------------------
(***************************************************************************)
(* Analog layer with quantized periphery: the digital scales of every tile  *)
(* (input range times mapping scale times output scale) and the bias are    *)
(* quantized, and so are the outputs of the tiles and of the whole array.   *)
(* c: W0, b0 (empty: none), arr array of tiles (ni by no of equal size), nb *)
(*   bits of scales and bias (0: not quantized), sym; ab bits of outputs,   *)
(*   as symmetric, ae estimator; learn the quantization after `after'       *)
(*   batches; ls output scales; ir input range (0: none); conv              *)
(* State: W, b; t tiles with sq, si scale quantizer and batches counted, oq *)
(*   output quantizer, al output scales; bq, bi bias quantizer; mq output   *)
(*   quantizer of the array; tm mode; qa quantize outputs; ck checkpoint    *)
(* Units: outputs 1/16.                                                     *)
(***************************************************************************)
EXTENDS Qmgr

AU(c) == IF c.ab > 0 THEN 16 ELSE 1
NI(c) == Len(c.W0[1]) \div c.ni
NO(c) == Len(c.W0) \div c.no
NT(c) == c.ni * c.no
\* first column and row of tile j, less one
Col(c, j) == ((j - 1) \div c.no) * NI(c)
Row(c, j) == ((j - 1) % c.no) * NO(c)
Block(c, W, j) == [o \in 1..NO(c) |-> SubSeq(W[Row(c, j) + o], Col(c, j) + 1, Col(c, j) + NI(c))]
Map(B) == [o \in 1..Len(B) |-> MaxSeq([i \in 1..Len(B[o]) |-> AbsI(B[o][i])])]
Sign(B) == [o \in 1..Len(B) |-> [i \in 1..Len(B[o]) |-> Sgn(B[o][i])]]
Many(c) == c.arr

(* ------------------------------------------------------------ quantizers -- *)
\* periphery quantizer q with cnt batches for the values v: quantizer, batches and values
Peri(c, q, cnt, v, tm) ==
   IF c.nb = 0 THEN [q |-> q, k |-> cnt, v |-> v]
   ELSE LET n == IF c.learn /\ tm /\ q.st # "learn" THEN cnt + 1 ELSE cnt
            p == IF ~tm THEN (IF Ready(q) THEN QEst(q, <<v>>, FALSE) ELSE To(QEst(To(q, "est"), <<v>>, FALSE), "fix"))
                 ELSE QEst(IF ~c.learn THEN To(q, "tr") ELSE IF q.st = "learn" THEN q ELSE IF n > c.after THEN To(q, "learn") ELSE To(q, "tr"), <<v>>, TRUE)
        IN [q |-> p, k |-> n, v |-> QM(p, <<v>>)[1]]
\* output quantizer
Out(c, s, q, y) == IF c.ab > 0 /\ s.qa THEN LET p == QEst(q, y, s.tm) IN [q |-> p, e |-> ~Ready(p), y |-> IF Ready(p) THEN QM(p, y) ELSE <<>>]
                   ELSE [q |-> q, e |-> FALSE, y |-> y]
Scale(c, s, j) == LET m == Map(Block(c, s.W, j)) IN [o \in 1..NO(c) |-> MaxI(c.ir, 1) * m[o] * s.t[j].al[o]]
XIn(c, x) == [k \in 1..Len(x) |-> [i \in 1..Len(x[k]) |-> IF c.ir = 0 THEN x[k][i] ELSE TDiv(Clip(x[k][i], -c.ir, c.ir), c.ir)]]
Acc(c, x, B, j) == [k \in 1..Len(x) |-> [o \in 1..NO(c) |-> Dot(Sign(B)[o], SubSeq(x[k], Col(c, j) + 1, Col(c, j) + NI(c)))]]

(* --------------------------------------------------------------- forward -- *)
Bias(c, s) == IF c.b0 = <<>> THEN [q |-> s.bq, k |-> s.bi, v |-> VZero(Len(s.W))] ELSE Peri(c, s.bq, s.bi, s.b, s.tm)
\* tile j of state s: new state s, outputs y, error e
Tile(c, s, x, j) ==
   LET P == TLCEval(Peri(c, s.t[j].sq, s.t[j].si, Scale(c, s, j), s.tm))
       B == IF c.arr THEN [q |-> s.bq, k |-> s.bi, v |-> VZero(Len(s.W))] ELSE Bias(c, s)
       A == TLCEval(Acc(c, x, Block(c, s.W, j), j))
       y == [k \in 1..Len(x) |-> [o \in 1..NO(c) |-> AU(c) * ((A[k][o] * P.v[o]) + (IF c.arr THEN 0 ELSE B.v[o]))]]
       O == TLCEval(Out(c, s, s.t[j].oq, y))
   IN [s |-> [s EXCEPT !.t[j] = [@ EXCEPT !.sq = P.q, !.si = P.k, !.oq = O.q], !.bq = B.q, !.bi = B.k], e |-> O.e, y |-> O.y, y0 |-> y, P |-> P, A |-> A]
RECURSIVE Tiles(_, _, _, _)
Tiles(c, R, x, j) ==
   IF j > NT(c) \/ R.e THEN R
   ELSE LET T == Tile(c, R.s, x, j) IN Tiles(c, [s |-> T.s, e |-> T.e, T |-> Append(R.T, T)], x, j + 1)
\* whole outputs of a sequence of outputs per tile
Join(c, ys, n) == [k \in 1..n |-> [r \in 1..Len(c.W0) |-> Sum([l \in 1..c.ni |->
                      LET j == ((l - 1) * c.no) + ((r - 1) \div NO(c)) + 1 IN ys[j][k][r - Row(c, j)]])]]
Fwd(c, s, x0, g) ==
   LET x == XIn(c, x0)
       R == TLCEval(Tiles(c, [s |-> s, e |-> FALSE, T |-> <<>>], x, 1))
       n == Len(x)
       Y == Join(c, [j \in 1..NT(c) |-> R.T[j].y], n)
       B == IF c.arr THEN Bias(c, R.s) ELSE [q |-> R.s.bq, k |-> R.s.bi, v |-> VZero(Len(s.W))]
       Yb == IF c.arr THEN [k \in 1..n |-> VAdd(Y[k], VScale(AU(c), B.v))] ELSE Y
       O == IF Many(c) THEN TLCEval(Out(c, s, s.mq, Yb)) ELSE [q |-> s.mq, e |-> FALSE, y |-> Yb]
       N == [R.s EXCEPT !.y = <<>>, !.gx = <<>>, !.gb = <<>>, !.ga = <<>>, !.err = TRUE]
       F == [N EXCEPT !.bq = B.q, !.bi = B.k, !.mq = O.q]
       \* backward
       qa == c.ab > 0 /\ s.qa
       gm == IF Many(c) /\ qa THEN GM(O.q, Yb, g) ELSE g
       gt(j) == LET G == [k \in 1..n |-> SubSeq(gm[k], Row(c, j) + 1, Row(c, j) + NO(c))] IN IF qa THEN GM(R.T[j].s.t[j].oq, R.T[j].y0, G) ELSE G
       gts == [j \in 1..NT(c) |-> TLCEval(gt(j))]
       gx == [k \in 1..n |-> [i \in 1..Len(x[k]) |-> Sum([j \in 1..NT(c) |-> LET l == i - Col(c, j) IN
                 IF l < 1 \/ l > NI(c) THEN 0 ELSE Sum([o \in 1..NO(c) |-> gts[j][k][o] * R.T[j].P.v[o] * Sgn(s.W[Row(c, j) + o][i])])])]]
       on(q, v) == IF c.nb = 0 \/ In(q, v, 1) THEN 1 ELSE 0
       gb == LET G == IF c.arr THEN gm ELSE gts[1] IN [o \in 1..Len(s.b) |-> on(B.q, s.b[o]) * Sum([k \in 1..n |-> G[k][o]])]
       ga == [j \in 1..NT(c) |-> [o \in 1..NO(c) |-> on(R.T[j].P.q, Scale(c, s, j)[o]) * MaxI(c.ir, 1) * Map(Block(c, s.W, j))[o]
                                       * Sum([k \in 1..n |-> gts[j][k][o] * R.T[j].A[k][o]])]]
   IN IF R.e THEN N ELSE IF O.e THEN F
      ELSE [F EXCEPT !.err = FALSE, !.y = O.y, !.gx = IF g = <<>> \/ c.ir > 0 THEN <<>> ELSE gx, !.gb = IF g = <<>> THEN <<>> ELSE gb,
                     !.ga = IF g = <<>> \/ ~c.ls THEN <<>> ELSE ga]

(* --------------------------------------------------------- state machine -- *)
Sq(c) == QInit(c.nb, c.sym, FALSE, "cur", FALSE, FALSE)
Oq(c) == QInit(c.ab, c.as, FALSE, c.ae, FALSE, FALSE)
InitSt(c) == [W |-> c.W0, b |-> c.b0, t |-> [j \in 1..NT(c) |-> [sq |-> Sq(c), si |-> 0, oq |-> Oq(c), al |-> [o \in 1..NO(c) |-> 1]]],
              bq |-> Sq(c), bi |-> 0, mq |-> Oq(c), tm |-> TRUE, qa |-> TRUE, ck |-> <<"none">>, y |-> <<>>, gx |-> <<>>, gb |-> <<>>, ga |-> <<>>, err |-> FALSE]
Quiet(s) == [s EXCEPT !.y = <<>>, !.gx = <<>>, !.gb = <<>>, !.ga = <<>>, !.err = FALSE]
HasB(c) == c.nb > 0 /\ c.b0 # <<>>
\* apply F to all quantizers, G to those of outputs
All(c, s, F(_), G(_)) == [s EXCEPT !.t = [j \in 1..NT(c) |-> [s.t[j] EXCEPT !.sq = IF c.nb > 0 THEN F(@) ELSE @, !.oq = IF c.ab > 0 THEN G(@) ELSE @]],
                                   !.bq = IF HasB(c) THEN F(@) ELSE @, !.mq = IF c.ab > 0 /\ Many(c) THEN G(@) ELSE @]
Saved(c, s) == <<s.W, s.b, [j \in 1..NT(c) |-> <<Vals(s.t[j].sq), s.t[j].si, Vals(s.t[j].oq), s.t[j].al>>], Vals(s.bq), s.bi, Vals(s.mq)>>
Load(c, s, v) == [s EXCEPT !.W = v[1], !.b = v[2], !.t = [j \in 1..NT(c) |-> [s.t[j] EXCEPT !.sq = Put(@, v[3][j][1]), !.si = v[3][j][2], !.oq = Put(@, v[3][j][3]), !.al = v[3][j][4]]],
                           !.bq = Put(@, v[4]), !.bi = v[5], !.mq = Put(@, v[6])]
Keys(c, s) == <<[j \in 1..NT(c) |-> <<Ready(s.t[j].sq), Ready(s.t[j].oq)>>], Ready(s.bq), Ready(s.mq)>>
KeysV(c, v) == <<[j \in 1..NT(c) |-> <<v[3][j][1].d # <<>>, v[3][j][3].d # <<>>>>], v[4].d # <<>>, v[6].d # <<>>>>
Step(c, s, a) ==
   CASE a.op = "fwd" -> {TLCEval(Fwd(c, s, a.x, a.g))}
     [] a.op = "mode" -> {[Quiet(s) EXCEPT !.tm = a.tm]}
     [] a.op = "state" -> {All(c, Quiet(s), LAMBDA q : To(q, a.st), LAMBDA q : To(q, a.st))}
     [] a.op = "quant" -> {[Quiet(s) EXCEPT !.qa = a.on]}
     [] a.op = "nudge" -> {All(c, Quiet(s), Nudge, Nudge)}
     [] a.op = "setb" -> {[Quiet(s) EXCEPT !.b = a.b]}
     [] a.op = "setw" -> {[Quiet(s) EXCEPT !.W = a.W, !.b = a.b]}
     [] a.op = "seta" -> {[Quiet(s) EXCEPT !.t[a.j].al = a.al]}
     [] a.op = "save" -> {[Quiet(s) EXCEPT !.ck = Saved(c, s)]}
     [] a.op = "load" -> {Load(c, Quiet(s), s.ck)}
     [] a.op = "reload" -> {[Load(c, InitSt(c), Saved(c, s)) EXCEPT !.ck = s.ck]}
     [] a.op = "copy" -> {Quiet(s)}
ObsQ(on, q) == IF on THEN QObs(q) ELSE <<>>
Obs(c, s) == [t |-> [j \in 1..NT(c) |-> [s |-> ObsQ(c.nb > 0, s.t[j].sq), k |-> IF c.nb > 0 /\ c.learn THEN s.t[j].si ELSE 0, o |-> ObsQ(c.ab > 0, s.t[j].oq),
                                         al |-> IF c.ls THEN s.t[j].al ELSE <<>>]],
              b |-> ObsQ(HasB(c), s.bq), k |-> IF HasB(c) /\ c.learn THEN s.bi ELSE 0, m |-> ObsQ(c.ab > 0 /\ Many(c), s.mq), bv |-> s.b,
              y |-> s.y, gx |-> s.gx, gb |-> s.gb, ga |-> s.ga, err |-> s.err]

(* ------------------------------------------------------------ properties -- *)
Qs(c, s) == {s.t[j].sq : j \in 1..NT(c)} \cup {s.t[j].oq : j \in 1..NT(c)} \cup {s.bq, s.mq}
Peris(c, s) == <<s.bq>> \o [j \in 1..NT(c) |-> s.t[j].sq]
Inv(c, s) == /\ \A q \in Qs(c, s) : QInv(q)
             \* all tiles count the same batches
             /\ \A j \in 1..NT(c) : s.t[j].si >= 0
StepOk(c, s, a, n) ==
   /\ a.op = "fwd" => \A j \in 1..(NT(c) + 1) : LET p == Peris(c, s)[j] q == Peris(c, n)[j] IN
        \* an evaluation does not change given ranges unless they are estimated all the time
        /\ (~s.tm /\ Ready(p) /\ p.st # "est") => p = q
        \* learned ranges are only changed by the optimizer
        /\ (c.learn /\ p.st = "learn") => p = q
        \* a number of batches is enough
        /\ (c.nb > 0 /\ s.tm /\ c.learn /\ ~n.err /\ j > 1 /\ s.t[j - 1].si >= c.after) => q.st = "learn"
   /\ (a.op = "fwd" /\ ~n.err /\ ~s.tm /\ \A q \in Qs(c, n) : q.st # "est") => Fwd(c, n, a.x, <<>>).y = n.y
   \* the function survives a checkpoint
   /\ (a.op = "reload" /\ s.qa /\ \A q \in Qs(c, s) : q.nb > 0 => Ready(q)) =>
        LET x == <<[i \in 1..Len(c.W0[1]) |-> 441 * (i - 2)]>> ev(z) == [z EXCEPT !.tm = FALSE] f(z) == All(c, z, LAMBDA q : To(q, "fix"), LAMBDA q : To(q, "fix"))
        IN Fwd(c, f(ev(n)), x, <<>>).y = Fwd(c, f(ev(s)), x, <<>>).y

(* --------------------------------------------------------- bounded model -- *)
Base == [W0 |-> <<<<21, -21, 0, 21>>, <<105, 0, 105, -105>>>>, b0 |-> <<441, -882>>, arr |-> FALSE, ni |-> 1, no |-> 1, nb |-> 3, sym |-> TRUE, ab |-> 3, as |-> TRUE,
         ae |-> "cur", learn |-> FALSE, after |-> 1, ls |-> FALSE, ir |-> 0, conv |-> FALSE]
Cfgs0 == {Base, [Base EXCEPT !.arr = TRUE, !.ni = 2, !.nb = 2, !.ae = "all", !.as = FALSE], [Base EXCEPT !.learn = TRUE, !.ab = 0, !.ls = TRUE],
          [Base EXCEPT !.arr = TRUE, !.no = 2, !.learn = TRUE, !.ab = 2, !.sym = FALSE, !.conv = TRUE],
          [Base EXCEPT !.ir = 21, !.nb = 2, !.sym = FALSE, !.ae = "all", !.ls = TRUE], [Base EXCEPT !.arr = TRUE, !.no = 2, !.ni = 2, !.nb = 0, !.b0 = <<>>, !.conv = TRUE]}
Cfgs1 == {[Base EXCEPT !.arr = ni * no > 1, !.nb = nb, !.sym = sym, !.ab = ab, !.as = as, !.ae = IF ae = "run" /\ ni * no > 1 /\ ab > 0 THEN "all" ELSE ae, !.learn = learn, !.after = 2, !.ls = ~learn, !.ni = ni, !.no = no] :
             nb \in {2, 3}, sym \in BOOLEAN, ab \in {0, 3}, as \in BOOLEAN, ae \in {"cur", "run"}, learn \in BOOLEAN, ni \in {1, 2}, no \in {1, 2}}
Xs(c) == LET n == Len(c.W0[1]) u == IF c.ir > 0 THEN c.ir ELSE IF c.arr /\ c.ab > 0 THEN 441 ELSE 21 IN
         {<<[i \in 1..n |-> u * ((i % 3) - 1)], [i \in 1..n |-> u * (IF i = 1 THEN 2 ELSE 1)]>>, <<[i \in 1..n |-> -u * (i % 2)]>>}
Gs(c, x) == {[k \in 1..Len(x) |-> [o \in 1..Len(c.W0) |-> ((k + o) % 3) - 1]]}
Few(c, s) == \A q \in Qs(c, s) : q.est = "run" => q.k <= 4
Can(c, s, a) ==
   /\ a.op = "load" => s.ck # <<"none">> /\ KeysV(c, s.ck) = Keys(c, s)
   /\ a.op = "fwd" => Few(c, s)
   /\ a.op = "nudge" => \A q \in Qs(c, s) : q.tr => q.d[1] < 2 * MaxI(1, MaxI(-q.xn[1], q.xx[1]))
   /\ a.op \in {"setw"} => ~c.ls
   /\ a.op \in {"setb"} => c.b0 # <<>>
   /\ a.op = "seta" => c.ls
Acts(c, s) == {a \in
   {[op |-> "fwd", x |-> x, g |-> g] : x \in Xs(c), g \in {<<>>}}
   \cup UNION {{[op |-> "fwd", x |-> x, g |-> g] : g \in Gs(c, x)} : x \in {CHOOSE z \in Xs(c) : Len(z) = 2}}
   \cup {[op |-> "mode", tm |-> ~s.tm], [op |-> "nudge"], [op |-> "save"], [op |-> "load"], [op |-> "reload"], [op |-> "copy"]}
   \cup {[op |-> "state", st |-> st] : st \in {"est", "fix", "learn", "tr"}} \cup {[op |-> "quant", on |-> on] : on \in BOOLEAN}
   \cup {[op |-> "setb", b |-> <<-441, 441>>], [op |-> "seta", j |-> 1, al |-> [o \in 1..NO(c) |-> IF o = 1 THEN -1 ELSE 2]]}
   \cup {[op |-> "setw", W |-> <<<<63, 63, -63, 0>>, <<-42, 0, 42, 42>>>>, b |-> c.b0]} : Can(c, s, a)}
=============================================================================
