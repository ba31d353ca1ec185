--------------------------------- MODULE Rnn ---------------------------------
(***************************************************************************)
(* Recurrent networks on analog tiles: cells, layers over sequences, both  *)
(* directions, stacked layers, states carried from one sequence to the     *)
(* next, and training through time.                                        *)
(* The data flow is what matters here, so the activations are replaced in  *)
(* the execution by integer ones with derivative 1: tanh by the sign and   *)
(* the sigmoid by sign + 1.                                                *)
(* c: cell "van", "lstm", "lstmc" (combined weight), "gru"; I, H sizes;    *)
(*   kind of the linear layers; bias; bd both directions; dr everything    *)
(*   between layers is dropped in training; W0 [layer][direction]: record  *)
(*   of wi, wh (gates x inputs / hidden), bi, bh (empty without bias)      *)
(* State: W; st [layer][direction][sample] record of h, c; age number of   *)
(* time steps since the zero state                                         *)
(***************************************************************************)
EXTENDS Mat, TLC

Th(v) == [i \in 1..Len(v) |-> Sgn(v[i])]
Sg(v) == [i \in 1..Len(v) |-> Sgn(v[i]) + 1]
Mul(u, v) == [i \in 1..Len(u) |-> u[i] * v[i]]
Lin(W, b, x) == [i \in 1..Len(W) |-> Dot(W[i], x) + (IF b = <<>> THEN 0 ELSE b[i])]
Chunk(v, k, H) == SubSeq(v, ((k - 1) * H) + 1, k * H)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Lstm(c) == c.cell \in {"lstm", "lstmc"}
NG(c) == IF c.cell = "van" THEN 1 ELSE IF c.cell = "gru" THEN 3 ELSE 4
Dirs(c) == IF c.bd THEN 2 ELSE 1

(* --------------------------------------------------------------- cells --- *)
\* one time step of one sample: input x, state s, new state n and the gates
CellF(c, w, x, s) ==
   LET gi == Lin(w.wi, w.bi, x) gh == Lin(w.wh, w.bh, s.h) g == VAdd(gi, gh) H == c.H IN
   CASE c.cell = "van" -> [x |-> x, s |-> s, n |-> [h |-> Th(g), c |-> <<>>]]
     [] Lstm(c) ->
          LET i == Sg(Chunk(g, 1, H)) f == Sg(Chunk(g, 2, H)) u == Th(Chunk(g, 3, H)) o == Sg(Chunk(g, 4, H))
              cn == VAdd(Mul(f, s.c), Mul(i, u))
          IN [x |-> x, s |-> s, n |-> [h |-> Mul(o, Th(cn)), c |-> cn], i |-> i, f |-> f, u |-> u, o |-> o]
     [] c.cell = "gru" ->
          LET r == Sg(Chunk(g, 1, H)) i == Sg(Chunk(g, 2, H)) hn == Chunk(gh, 3, H)
              u == Th(VAdd(Chunk(gi, 3, H), Mul(r, hn)))
          IN [x |-> x, s |-> s, n |-> [h |-> VAdd(u, Mul(i, VSub(s.h, u))), c |-> <<>>], r |-> r, i |-> i, hn |-> hn, u |-> u]
\* its gradients with respect to the gates (inputs, hidden) and directly to the state
CellB(c, t, dh, dc) ==
   CASE c.cell = "van" -> [gi |-> dh, gh |-> dh, dh |-> VZero(c.H), dc |-> <<>>]
     [] Lstm(c) ->
          LET d == VAdd(dc, Mul(dh, t.o)) g == Mul(d, t.u) \o Mul(d, t.s.c) \o Mul(d, t.i) \o Mul(dh, Th(t.n.c))
          IN [gi |-> g, gh |-> g, dh |-> VZero(c.H), dc |-> Mul(d, t.f)]
     [] c.cell = "gru" ->
          LET dn == VSub(dh, Mul(dh, t.i)) di == Mul(dh, VSub(t.s.h, t.u)) dr == Mul(dn, t.hn)
          IN [gi |-> dr \o di \o dn, gh |-> dr \o di \o Mul(dn, t.r), dh |-> Mul(dh, t.i), dc |-> <<>>]

(* ------------------------------------------------------------ sequences -- *)
RECURSIVE SeqF(_, _, _, _)
SeqF(c, w, xs, s) == IF xs = <<>> THEN <<>> ELSE LET t == TLCEval(CellF(c, w, Head(xs), s)) IN <<t>> \o SeqF(c, w, Tail(xs), t.n)
Outer(u, v) == [i \in 1..Len(u) |-> [j \in 1..Len(v) |-> u[i] * v[j]]]
TMul(W, g, n) == [j \in 1..n |-> Sum([i \in 1..Len(W) |-> W[i][j] * g[i]])]
WZero(w) == [wi |-> MZeroLike(w.wi), wh |-> MZeroLike(w.wh), bi |-> VZero(Len(w.bi)), bh |-> VZero(Len(w.bh))]
WAdd(u, v) == [wi |-> MAdd(u.wi, v.wi), wh |-> MAdd(u.wh, v.wh), bi |-> VAdd(u.bi, v.bi), bh |-> VAdd(u.bh, v.bh)]
WSub(u, v) == [wi |-> MSub(u.wi, v.wi), wh |-> MSub(u.wh, v.wh), bi |-> VSub(u.bi, v.bi), bh |-> VSub(u.bh, v.bh)]
RECURSIVE SeqB(_, _, _, _, _)
\* from the last time step to the first; a = [dh, dc, g, dx]
SeqB(c, w, ts, dys, a) ==
   IF ts = <<>> THEN a
   ELSE LET k == Len(ts) t == ts[k] b == TLCEval(CellB(c, t, VAdd(a.dh, dys[k]), a.dc))
            g == [wi |-> Outer(b.gi, t.x), wh |-> Outer(b.gh, t.s.h), bi |-> IF w.bi = <<>> THEN <<>> ELSE b.gi, bh |-> IF w.bh = <<>> THEN <<>> ELSE b.gh]
        IN SeqB(c, w, SubSeq(ts, 1, k - 1), dys,
                TLCEval([dh |-> VAdd(b.dh, TMul(w.wh, b.gh, c.H)), dc |-> b.dc, g |-> WAdd(a.g, g), dx |-> <<TMul(w.wi, b.gi, Len(t.x))>> \o a.dx]))

(* ------------------------------------------------------ layers, network -- *)
\* the second direction sees the sequence reversed, its outputs are reversed back
LayF(c, W, xs, s) == TLCEval([d \in 1..Dirs(c) |-> SeqF(c, W[d], IF d = 2 THEN Rev(xs) ELSE xs, s[d])])
Ys(c, tp) == LET T == Len(tp[1]) IN
             TLCEval(IF c.bd THEN [t \in 1..T |-> tp[1][t].n.h \o tp[2][T + 1 - t].n.h] ELSE [t \in 1..T |-> tp[1][t].n.h])
RECURSIVE NetF(_, _, _, _, _)
\* tapes of all layers for one sample
NetF(c, W, xs, s, train) ==
   IF W = <<>> THEN <<>>
   ELSE LET tp == LayF(c, W[1], xs, s[1]) y == Ys(c, tp)
            nx == IF train /\ c.dr THEN [t \in 1..Len(y) |-> VZero(Len(y[t]))] ELSE y
        IN <<tp>> \o NetF(c, Tail(W), nx, Tail(s), train)
LastOf(tp) == [d \in 1..Len(tp) |-> tp[d][Len(tp[d])].n]
RECURSIVE NetB(_, _, _, _, _)
\* gradients of all layers and of the input, for outputs dys; e: of each final state
NetB(c, W, tps, dys, e) ==
   LET l == Len(W) ev == [i \in 1..c.H |-> e] T == Len(dys)
       dy(d) == [t \in 1..T |-> Chunk(dys[t], d, c.H)]
       b == TLCEval([d \in 1..Dirs(c) |-> SeqB(c, W[l][d], tps[l][d], TLCEval(IF d = 2 THEN Rev(dy(d)) ELSE dy(d)), [dh |-> ev, dc |-> IF Lstm(c) THEN ev ELSE <<>>, g |-> WZero(W[l][d]), dx |-> <<>>])])
       dx == TLCEval(IF c.bd THEN [t \in 1..T |-> VAdd(b[1].dx[t], b[2].dx[T + 1 - t])] ELSE b[1].dx)
       g == [d \in 1..Dirs(c) |-> b[d].g]
   IN IF l = 1 THEN [g |-> <<g>>, dx |-> dx]
      ELSE LET r == NetB(c, SubSeq(W, 1, l - 1), SubSeq(tps, 1, l - 1), IF c.dr THEN [t \in 1..T |-> VZero(Len(dx[t]))] ELSE dx, e)
           IN [g |-> r.g \o <<g>>, dx |-> r.dx]

(* -------------------------------------------------------- state machine -- *)
Z(c) == [h |-> VZero(c.H), c |-> IF Lstm(c) THEN VZero(c.H) ELSE <<>>]
Zero(c, B) == [l \in 1..Len(c.W0) |-> [d \in 1..Dirs(c) |-> [b \in 1..B |-> Z(c)]]]
Bt(x) == Len(x[1])
\* tapes of the samples of a batch; x [time][sample]
Tapes(c, s, x, st, train) ==
   TLCEval([b \in 1..Bt(x) |-> NetF(c, s.W, [t \in 1..Len(x) |-> x[t][b]], [l \in 1..Len(s.W) |-> [d \in 1..Dirs(c) |-> st[l][d][b]]], train)])
Out(c, tps) == LET L == Len(tps[1]) T == Len(tps[1][L][1]) y == TLCEval([b \in 1..Len(tps) |-> Ys(c, tps[b][L])]) IN
               [t \in 1..T |-> [b \in 1..Len(tps) |-> y[b][t]]]
States(c, tps) == [l \in 1..Len(tps[1]) |-> [d \in 1..Dirs(c) |-> [b \in 1..Len(tps) |-> LastOf(tps[b][l])[d]]]]
InitSt(c) == [W |-> c.W0, st |-> <<>>, age |-> 0, y |-> <<>>, gx |-> <<>>]
Quiet(s) == [s EXCEPT !.y = <<>>, !.gx = <<>>]
From(c, s, a) == IF a.carry THEN s.st ELSE Zero(c, Bt(a.x))
RECURSIVE GSum(_)
GSum(gs) == IF Len(gs) = 1 THEN gs[1] ELSE LET r == GSum(Tail(gs)) IN [l \in 1..Len(r) |-> [d \in 1..Len(r[l]) |-> WAdd(gs[1][l][d], r[l][d])]]
Step(c, s, a) ==
   CASE a.op = "fwd" ->
          LET tps == Tapes(c, s, a.x, From(c, s, a), a.tm) IN
          {[Quiet(s) EXCEPT !.y = Out(c, tps), !.st = States(c, tps), !.age = (IF a.carry THEN @ ELSE 0) + Len(a.x)]}
     [] a.op = "train" ->
          LET tps == Tapes(c, s, a.x, From(c, s, a), TRUE)
              b == TLCEval([k \in 1..Bt(a.x) |-> NetB(c, s.W, tps[k], [t \in 1..Len(a.d) |-> a.d[t][k]], a.e)])
              g == GSum([k \in 1..Len(b) |-> b[k].g])
          IN {[Quiet(s) EXCEPT !.y = Out(c, tps), !.st = States(c, tps), !.age = (IF a.carry THEN @ ELSE 0) + Len(a.x),
                               !.W = [l \in 1..Len(@) |-> [d \in 1..Dirs(c) |-> WSub(@[l][d], g[l][d])]],
                               !.gx = [t \in 1..Len(a.x) |-> [k \in 1..Len(b) |-> b[k].dx[t]]]]}
     [] a.op = "set" -> {[Quiet(s) EXCEPT !.W[a.l][a.d] = a.w]}
     [] a.op = "copy" -> {Quiet(s)}
Obs(c, s) == [W |-> s.W, st |-> s.st, y |-> s.y, gx |-> s.gx]

(* ------------------------------------------------------------ properties -- *)
Inv(c, s) == s.st # <<>> => \A l \in 1..Len(s.W) : \A d \in 1..Dirs(c) : \A b \in 1..Len(s.st[l][d]) :
   LET q == s.st[l][d][b] IN
   /\ c.cell = "van" => \A i \in 1..c.H : AbsI(q.h[i]) <= 1
   /\ Lstm(c) => \A i \in 1..c.H : AbsI(q.h[i]) <= 2 /\ (q.h[i] = 0 \/ Sgn(q.h[i]) = Sgn(q.c[i]))
StepOk(c, s, a, n) ==
   /\ a.op # "train" /\ a.op # "set" => n.W = s.W
   \* a sequence in two parts with the state carried is the whole sequence
   /\ (a.op = "fwd" /\ Len(a.x) > 1 /\ ~c.bd) =>
        LET p == CHOOSE q \in Step(c, s, [a EXCEPT !.x = <<a.x[1]>>]) : TRUE
            q == CHOOSE q \in Step(c, p, [a EXCEPT !.x = Tail(a.x), !.carry = TRUE]) : TRUE
        IN n.y = p.y \o q.y /\ n.st = q.st
   \* samples of a batch do not see each other
   /\ (a.op = "fwd" /\ ~a.carry) => \A b \in 1..Bt(a.x) :
        LET p == CHOOSE q \in Step(c, s, [a EXCEPT !.x = [t \in 1..Len(a.x) |-> <<a.x[t][b]>>]]) : TRUE IN
        \A t \in 1..Len(a.x) : n.y[t][b] = p.y[t][1]
   \* nothing below a dropped layer learns from the outputs
   /\ (a.op = "train" /\ c.dr /\ Len(s.W) > 1 /\ a.e = 0) => n.W[1] = s.W[1]
   \* one layer: the reverse direction is the forward direction of the reversed sequence
   /\ (a.op = "fwd" /\ c.bd /\ Len(s.W) = 1) => \A t \in 1..Len(a.x) : \A b \in 1..Bt(a.x) :
        LET k == SeqF(c, s.W[1][2], Rev([u \in 1..Len(a.x) |-> a.x[u][b]]), From(c, s, a)[1][2][b])
        IN Chunk(n.y[t][b], 2, c.H) = k[Len(a.x) + 1 - t].n.h

(* --------------------------------------------------------- bounded model -- *)
Pick(i, j, k) == ((((i * 5) + (j * 3) + (k * 7)) % 5) - 2)
Wt(c, l, d) ==
   LET m == NG(c) * c.H n == IF l = 1 THEN c.I ELSE Dirs(c) * c.H k == (2 * l) + d IN
   [wi |-> [i \in 1..m |-> [j \in 1..n |-> Pick(i, j, k)]], wh |-> [i \in 1..m |-> [j \in 1..c.H |-> Pick(i, j + 4, k + 1)]],
    bi |-> IF c.bias THEN [i \in 1..m |-> Pick(i, 0, k + 2)] ELSE <<>>, bh |-> IF c.bias /\ c.cell # "lstmc" THEN [i \in 1..m |-> Pick(i, 1, k + 3)] ELSE <<>>]
Mk(cell, kind, bias, bd, dr, L, I, H) ==
   LET c == [cell |-> cell, kind |-> kind, bias |-> bias, bd |-> bd, dr |-> dr, I |-> I, H |-> H]
   IN [cell |-> cell, kind |-> kind, bias |-> bias, bd |-> bd, dr |-> dr, I |-> I, H |-> H, W0 |-> [l \in 1..L |-> [d \in 1..Dirs(c) |-> Wt(c, l, d)]]]
Cfgs0 == {Mk("van", "fp", TRUE, TRUE, FALSE, 2, 1, 2), Mk("van", "torch", FALSE, FALSE, TRUE, 2, 2, 1), Mk("lstm", "fp", TRUE, TRUE, FALSE, 1, 1, 2),
          Mk("lstm", "dig", FALSE, FALSE, FALSE, 2, 1, 1), Mk("lstmc", "fp", TRUE, FALSE, FALSE, 1, 2, 1), Mk("lstmc", "torch", FALSE, TRUE, FALSE, 2, 1, 1),
          Mk("gru", "fp", TRUE, FALSE, FALSE, 2, 1, 1), Mk("gru", "torch", TRUE, TRUE, FALSE, 1, 1, 2), Mk("van", "dig", TRUE, FALSE, FALSE, 1, 1, 2)}
Cfgs1 == {Mk(cell, kind, bias, bd, dr, L, 1, 2) : cell \in {"van", "lstm", "lstmc"}, kind \in {"fp", "torch", "dig"}, bias \in BOOLEAN, bd \in BOOLEAN, dr \in BOOLEAN, L \in {1, 2}}
         \cup {Mk("gru", kind, bias, bd, dr, L, 2, 1) : kind \in {"fp", "torch"}, bias \in BOOLEAN, bd \in BOOLEAN, dr \in BOOLEAN, L \in {1, 2}}
Xs(c) == {[t \in 1..T |-> [b \in 1..B |-> [j \in 1..c.I |-> Pick(t, b, j + k)]]] : T \in 1..3, B \in 1..2, k \in 0..1}
Dd(c, x, k) == [t \in 1..Len(x) |-> [b \in 1..Bt(x) |-> [j \in 1..(Dirs(c) * c.H) |-> Sgn(Pick(t, b, j + k))]]]
Small(s) == \A l \in 1..Len(s.W) : \A d \in 1..Len(s.W[l]) : \A w \in {Flat(s.W[l][d].wi), Flat(s.W[l][d].wh), s.W[l][d].bi, s.W[l][d].bh} : \A i \in 1..Len(w) : AbsI(w[i]) <= 3
All(c, s) ==
   {[op |-> "fwd", x |-> x, carry |-> ca, tm |-> tm] : tm \in (IF c.dr THEN BOOLEAN ELSE {FALSE}), x \in Xs(c), ca \in {z \in BOOLEAN : z => s.st # <<>>}}
   \cup (IF Small(s) THEN {[op |-> "train", x |-> x, carry |-> ca, d |-> Dd(c, x, k), e |-> e] :
             x \in {z \in Xs(c) : Len(z) = 2}, ca \in {z \in BOOLEAN : z => s.st # <<>> /\ s.age <= 2}, k \in 0..1, e \in {0, 1}} ELSE {})
   \cup {[op |-> "copy", how |-> h] : h \in {"sd", "deepcopy"}}
   \cup {[op |-> "set", l |-> l, d |-> d, w |-> Wt(c, l, d + 3)] : l \in 1..Len(s.W), d \in 1..Dirs(c)}
\* the batch of the carried state
Fits(c, s, a) == ~(a.op \in {"fwd", "train"}) \/ ~a.carry \/ (Len(s.st[1][1]) = Bt(a.x) /\ s.age + Len(a.x) <= 6)
Acts(c, s) == {a \in All(c, s) : Fits(c, s, a)}
=============================================================================
