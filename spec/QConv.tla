-------------------------------- MODULE QConv --------------------------------
(***************************************************************************)
(* Conversion of models to quantized ones.                                  *)
(* A model is a graph of modules nd: type t, children ch (names n, nodes k; *)
(* the same node may be registered several times), parameters p (index into *)
(* P, tied layers share them).  Types: lin, ana (analog layer), act, id,    *)
(* seq; of quantized models: ql (quantized linear), qb (wrapper quantizing  *)
(* the output), qi (wrapper quantizing the input).  wb, ab: bits.           *)
(* Map m: types and instances (by full name) to convert, excluded names and *)
(* input quantizers.  The original is left alone; with the quantizers off   *)
(* the quantized model computes the same function.                          *)
(***************************************************************************)
EXTENDS Mat, TLC

Full(pre, nm) == IF pre = "" THEN nm ELSE pre \o "." \o nm
MaxOf(S) == CHOOSE i \in S : \A j \in S : j <= i
SetOf(q) == {q[i] : i \in 1..Len(q)}
Node(t, ch, p, wb, ab) == [t |-> t, ch |-> ch, p |-> p, wb |-> wb, ab |-> ab]
Ch1(k) == <<[n |-> "module", k |-> k]>>
Has(M) == M.r # 0

(* ------------------------------------------------------------- traversal -- *)
RECURSIVE Walk(_, _, _), WalkCh(_, _, _, _)
Walk(nd, k, pre) == <<[p |-> pre, k |-> k]>> \o WalkCh(nd, k, 1, pre)
WalkCh(nd, k, j, pre) == IF j > Len(nd[k].ch) THEN <<>> ELSE Walk(nd, nd[k].ch[j].k, Full(pre, nd[k].ch[j].n)) \o WalkCh(nd, k, j + 1, pre)
FirstOf(wk, F(_), v) == CHOOSE i \in 1..Len(wk) : F(wk[i].k) = v /\ \A l \in 1..(i - 1) : F(wk[l].k) # v
Shape(M) ==
   LET wk == TLCEval(Walk(M.nd, M.r, "")) IN
   [i \in 1..Len(wk) |-> LET n == M.nd[wk[i].k] pr == n.p > 0 IN
      [p |-> wk[i].p, t |-> n.t, wb |-> n.wb, ab |-> n.ab, obj |-> FirstOf(wk, LAMBDA k : k, wk[i].k),
       par |-> IF pr THEN FirstOf(wk, LAMBDA k : M.nd[k].p, n.p) ELSE 0,
       W |-> IF pr THEN M.P[n.p].W ELSE <<>>, b |-> IF pr THEN M.P[n.p].b ELSE <<>>, fz |-> pr /\ M.P[n.p].fz]]
RECURSIVE Fwd(_, _, _), FwdCh(_, _, _, _)
Fwd(M, k, x) == LET n == M.nd[k] IN
   CASE n.p > 0 -> [o \in 1..Len(M.P[n.p].W) |-> Dot(M.P[n.p].W[o], x) + (IF M.P[n.p].b = <<>> THEN 0 ELSE M.P[n.p].b[o])]
     [] n.t = "act" -> [i \in 1..Len(x) |-> MaxI(0, x[i])]
     [] OTHER -> FwdCh(M, k, 1, x)
FwdCh(M, k, j, x) == IF j > Len(M.nd[k].ch) THEN x ELSE FwdCh(M, k, j + 1, Fwd(M, M.nd[k].ch[j].k, x))

(* ------------------------------------------------------------ conversion -- *)
RECURSIVE Conv(_, _, _, _), ConvCh(_, _, _, _, _, _)
New(M, n) == [M |-> [M EXCEPT !.nd = Append(@, n)], r |-> Len(M.nd) + 1]
\* result r = 0: to be left alone
Conv(M, k, path, m) ==
   LET n == M.nd[k]
       ins == {e \in SetOf(m.inst) : e.p = path}
       typ == {e \in SetOf(m.mods) : e.t = n.t}
   IN IF path \in SetOf(m.ex) THEN [M |-> M, r |-> 0]
      ELSE IF ins \cup typ = {} THEN ConvCh(M, k, 1, path, m, <<>>)
      ELSE LET e == CHOOSE e \in (IF ins # {} THEN ins ELSE typ) : TRUE IN
           IF e.wb = 0 /\ e.ab = 0 THEN [M |-> M, r |-> k]
           ELSE IF n.t = "lin" THEN New(M, Node("ql", <<>>, n.p, e.wb, e.ab))
           ELSE IF n.t = "ana" THEN New([M EXCEPT !.P = Append(@, [M.P[n.p] EXCEPT !.fz = FALSE])], Node("ql", <<>>, Len(M.P) + 1, e.wb, e.ab))
           ELSE New(M, Node("qb", Ch1(k), 0, 0, e.ab))
\* children of k, done: what the modules became
ConvCh(M, k, j, path, m, done) ==
   IF j > Len(M.nd[k].ch) THEN [M |-> M, r |-> k]
   ELSE LET c == M.nd[k].ch[j] full == Full(path, c.n)
            old == {i \in 1..Len(done) : done[i][1] = c.k}
            same == old # {} /\ ~\E e \in SetOf(m.inst) : e.p = full
            R == IF same THEN [M |-> M, r |-> done[MaxOf(old)][2]] ELSE Conv(M, c.k, full, m)
            inp == {e \in SetOf(m.inp) : e.p = full}
            S == IF R.r # 0 /\ inp # {} THEN New(R.M, Node("qi", Ch1(R.r), 0, 0, (CHOOSE e \in inp : TRUE).ab)) ELSE R
        IN IF full \in SetOf(m.ex) THEN ConvCh(M, k, j + 1, path, m, done)
           ELSE ConvCh(IF S.r = 0 THEN S.M ELSE [S.M EXCEPT !.nd[k].ch[j].k = S.r], k, j + 1, path, m, Append(done, <<c.k, R.r>>))

(* --------------------------------------------------------- state machine -- *)
Orig(c) == [nd |-> [i \in 1..Len(c.nodes) |-> LET n == c.nodes[i] IN Node(n.t, [j \in 1..Len(n.ch) |-> [n |-> c.names[j], k |-> n.ch[j]]], n.p, 0, 0)],
            P |-> c.P, r |-> 1]
InitSt(c) == [org |-> Orig(c), new |-> Orig(c), y |-> <<>>]
Params(M) == LET wk == Walk(M.nd, M.r, "") IN {M.nd[wk[i].k].p : i \in 1..Len(wk)} \ {0}
Put(M, i, W) == LET wk == Walk(M.nd, M.r, "") IN [M EXCEPT !.P[M.nd[wk[i].k].p].W = W]
Step(c, s, a) ==
   CASE a.op = "conv" -> LET M == IF a.src = "org" THEN s.org ELSE s.new R == TLCEval(Conv(M, M.r, "", a)) IN {[s EXCEPT !.new = [R.M EXCEPT !.r = R.r], !.y = <<>>]}
     [] a.op = "edit" -> {IF a.on = "org" THEN [s EXCEPT !.org = Put(@, a.i, a.W), !.y = <<>>] ELSE [s EXCEPT !.new = Put(@, a.i, a.W), !.y = <<>>]}
     [] a.op = "fwd" -> {[s EXCEPT !.y = LET M == IF a.on = "org" THEN s.org ELSE s.new IN Fwd(M, M.r, a.x)]}
Obs(c, s) == [org |-> Shape(s.org), new |-> Shape(s.new), y |-> s.y]

(* ------------------------------------------------------------ properties -- *)
Probe == <<1, -2>>
Inv(c, s) == Has(s.org) /\ Has(s.new)
StepOk(c, s, a, n) ==
   a.op = "conv" =>
      LET M == IF a.src = "org" THEN s.org ELSE s.new N == n.new IN
      \* same function, and the original is as it was
      /\ Fwd(N, N.r, Probe) = Fwd(M, M.r, Probe)
      /\ n.org = s.org
      \* excluded modules stay (with one name, below modules that stay)
      /\ LET wm == Walk(M.nd, M.r, "") wn == Walk(N.nd, N.r, "") IN
         (a.inst = <<>> /\ a.inp = <<>> /\ Len(wm) = Len(wn) /\ \A i \in 1..Len(wm) : \A l \in 1..Len(wm) : wm[i].k = wm[l].k => i = l) =>
            \A i \in 1..Len(wm) : wm[i].p \in SetOf(a.ex) => N.nd[wn[i].k].t = M.nd[wm[i].k].t
      \* nothing else becomes quantized
      /\ (a.mods = <<>> /\ a.inst = <<>> /\ a.inp = <<>>) => Shape(N) = Shape(M)

(* -------------------------------------------------------- bounded model -- *)
ND(t, ch, p) == [t |-> t, ch |-> ch, p |-> p]
P2 == <<[W |-> <<<<1, 2>>, <<0, -1>>>>, b |-> <<1, 0>>, fz |-> FALSE], [W |-> <<<<-1, 0>>, <<2, 1>>>>, b |-> <<>>, fz |-> TRUE]>>
Nums == <<"0", "1", "2", "3">>
Cfgs0 == {[P |-> P2, names |-> Nums, nodes |-> <<ND("seq", <<2, 3, 4, 3>>, 0), ND("lin", <<>>, 1), ND("act", <<>>, 0), ND("lin", <<>>, 2)>>],
          [P |-> P2, names |-> Nums, nodes |-> <<ND("seq", <<2, 3, 2>>, 0), ND("seq", <<4, 5>>, 0), ND("ana", <<>>, 1), ND("lin", <<>>, 2), ND("id", <<>>, 0)>>],
          [P |-> P2, names |-> Nums, nodes |-> <<ND("seq", <<2, 3, 2, 4>>, 0), ND("lin", <<>>, 1), ND("lin", <<>>, 1), ND("seq", <<2, 2>>, 0)>>],
          [P |-> P2, names |-> Nums, nodes |-> <<ND("lin", <<>>, 2)>>],
          [P |-> P2, names |-> <<"0", "00", "2", "02">>, nodes |-> <<ND("seq", <<2, 3, 4>>, 0), ND("lin", <<>>, 1), ND("seq", <<2, 4>>, 0), ND("lin", <<>>, 2)>>]}
Cfgs1 == Cfgs0
Md(t, wb, ab) == [t |-> t, wb |-> wb, ab |-> ab]
Is(p, wb, ab) == [p |-> p, wb |-> wb, ab |-> ab]
Mods == {<<>>, <<Md("lin", 4, 8)>>, <<Md("lin", 0, 6), Md("ana", 5, 0), Md("act", 0, 3)>>, <<Md("lin", 0, 0), Md("id", 2, 2)>>}
Acts(c, s) ==
   {[op |-> "conv", src |-> src, mods |-> mods, inst |-> inst, ex |-> ex, inp |-> inp] :
      src \in {"org", "new"}, mods \in Mods, inst \in {<<>>, <<Is("0", 2, 7)>>, <<Is("2", 3, 0), Is("0.0", 0, 5)>>},
      ex \in {<<>>, <<"0">>, <<"0.1", "2">>}, inp \in {<<>>, <<[p |-> "0", ab |-> 4]>>, <<[p |-> "2", ab |-> 6], [p |-> "0.1", ab |-> 3]>>}}
   \cup {[op |-> "fwd", on |-> on, x |-> Probe] : on \in {"org", "new"}}
   \cup {[op |-> "edit", on |-> on, i |-> i, W |-> <<<<3, 0>>, <<1, 1>>>>] : on \in {"org", "new"},
            i \in {j \in 1..Len(Walk(s.org.nd, s.org.r, "")) : j \in {i \in 1..Len(Walk(s.new.nd, s.new.r, "")) : s.new.nd[Walk(s.new.nd, s.new.r, "")[i].k].p > 0}
                         /\ s.org.nd[Walk(s.org.nd, s.org.r, "")[j].k].p > 0}}
=============================================================================
