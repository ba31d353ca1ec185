------------------------------- MODULE Convert -------------------------------
(***************************************************************************)
(* Conversion of whole models between digital and analog.                   *)
(* A model is a graph of modules: node 1 is the root, a node has a type t,  *)
(* children ch (nodes, the same node may be registered several times), and, *)
(* as layer, weights.  k = 0: digital, k > 0: analog with configuration k.  *)
(* Types: lin, sub (a user's subclass of lin), act, and the containers seq, *)
(* ml (list, called by its parent), net and ngt (two user classes of the    *)
(* same name; ngt negates its result).                                      *)
(* Whatever is converted, excluded, converted again and converted back: the *)
(* model computes the same function, with the same structure, names, shared *)
(* modules, weights and modes, and only the modules asked for change class. *)
(***************************************************************************)
EXTENDS Mat, TLC

Letters == <<"fa", "fb", "fc", "fd", "fe", "ff">>
NameOf(t, j) == IF t \in {"net", "ngt"} THEN Letters[j] ELSE ToString(j - 1)
IsLeaf(t) == t \in {"lin", "sub"}
Full(pre, nm) == IF pre = "" THEN nm ELSE pre \o "." \o nm

RECURSIVE Walk(_, _, _, _), WalkCh(_, _, _, _, _)
\* all paths to modules, in order; not below the nodes in ex
Walk(nd, k, pre, ex) == IF k \in ex THEN <<>> ELSE <<[p |-> pre, k |-> k]>> \o WalkCh(nd, k, 1, pre, ex)
WalkCh(nd, k, j, pre, ex) ==
    IF j > Len(nd[k].ch) THEN <<>>
    ELSE Walk(nd, nd[k].ch[j], Full(pre, NameOf(nd[k].t, j)), ex) \o WalkCh(nd, k, j + 1, pre, ex)
First(wk, i) == \A l \in 1..(i - 1) : wk[l].k # wk[i].k
Firsts(wk, P(_)) == SelectSeq([i \in 1..Len(wk) |-> IF First(wk, i) /\ P(wk[i].k) THEN wk[i] ELSE [p |-> "", k |-> 0]], LAMBDA e : e.k > 0)
Reach(nd, ex) == LET wk == Walk(nd, 1, "", ex) IN {wk[i].k : i \in 1..Len(wk)}

RECURSIVE Fwd(_, _, _), FwdCh(_, _, _, _)
Fwd(nd, k, x) ==
    CASE IsLeaf(nd[k].t) -> [i \in 1..Len(nd[k].W) |-> Dot(nd[k].W[i], x) + (IF nd[k].bias THEN nd[k].b[i] ELSE 0)]
      [] nd[k].t = "act" -> [i \in 1..Len(x) |-> MaxI(0, x[i])]
      [] nd[k].t = "ngt" -> VScale(-1, FwdCh(nd, k, 1, x))
      [] OTHER -> FwdCh(nd, k, 1, x)
FwdCh(nd, k, j, x) == IF j > Len(nd[k].ch) THEN x ELSE FwdCh(nd, k, j + 1, Fwd(nd, nd[k].ch[j], x))

InitSt(c) == [nd |-> [i \in 1..Len(c.nodes) |-> c.nodes[i] @@ [k |-> 0, tr |-> TRUE]], wrap |-> FALSE, calls |-> <<>>]
Quiet(s) == [s EXCEPT !.calls = <<>>]

InMap(map, t) == t = "lin" \/ (t = "seq" /\ map # "noseq") \/ (t = "sub" /\ map = "sub")
SetOf(q) == {q[i] : i \in 1..Len(q)}
RootAna(s) == s.wrap \/ s.nd[1].k > 0

ToAna(c, s, a) ==
    LET ex == SetOf(a.ex)
        new == {k \in Reach(s.nd, ex) : InMap(a.map, s.nd[k].t) /\ s.nd[k].k = 0 /\ ~(k = 1 /\ s.wrap)}
        nd == [i \in 1..Len(s.nd) |-> IF i \notin new THEN s.nd[i]
                  ELSE [s.nd[i] EXCEPT !.k = IF @ = 0 /\ i \in SetOf(a.sp) /\ IsLeaf(s.nd[i].t) THEN 2 ELSE 1,
                                       !.t = IF @ = "sub" THEN "lin" ELSE @]]
        fs == Firsts(Walk(s.nd, 1, "", ex), LAMBDA k : k \in new)
    IN [s EXCEPT !.nd = nd, !.wrap = @ \/ nd[1].k = 0, !.calls = [i \in 1..Len(fs) |-> fs[i].p]]
ToDig(c, s, a) ==
    [s EXCEPT !.wrap = FALSE, !.calls = <<>>,
       !.nd = [i \in 1..Len(s.nd) |-> IF s.nd[i].k > 0 /\ (IsLeaf(s.nd[i].t) \/ a.map = "all") THEN [s.nd[i] EXCEPT !.k = 0] ELSE s.nd[i]]]
AddTo(n, v) == IF ~IsLeaf(n.t) THEN n ELSE
    [n EXCEPT !.W = [i \in 1..Len(@) |-> [j \in 1..Len(@[i]) |-> @[i][j] + v]], !.b = IF n.bias THEN [i \in 1..Len(@) |-> @[i] + v] ELSE @]
Mode(s, k, tr) == LET R == LET wk == Walk(s.nd, k, "", {}) IN {wk[i].k : i \in 1..Len(wk)}
    IN [Quiet(s) EXCEPT !.nd = [i \in 1..Len(s.nd) |-> IF i \in R THEN [s.nd[i] EXCEPT !.tr = tr] ELSE s.nd[i]]]

Step(c, s, a) ==
  CASE a.op = "ana" -> {ToAna(c, s, a)}
    [] a.op = "dig" -> {ToDig(c, s, a)}
    \* weights of all analog layers
    [] a.op = "add" -> {[Quiet(s) EXCEPT !.nd = [i \in 1..Len(s.nd) |-> IF s.nd[i].k > 0 THEN AddTo(s.nd[i], a.v) ELSE s.nd[i]]]}
    \* parameters of all digital layers
    [] a.op = "dadd" -> {[Quiet(s) EXCEPT !.nd = [i \in 1..Len(s.nd) |-> IF s.nd[i].k = 0 THEN AddTo(s.nd[i], a.v) ELSE s.nd[i]]]}
    [] a.op = "mode" -> {Mode(s, a.k, a.tr)}
    [] a.op \in {"mutold", "copy", "reload"} -> {Quiet(s)}

ClsOf(n) == CASE n.t = "lin" -> IF n.k = 0 THEN "Linear" ELSE "AnalogLinear" \o ToString(n.k)
              [] n.t = "sub" -> "Sub"
              [] n.t = "act" -> "ReLU"
              [] n.t = "seq" -> IF n.k = 0 THEN "Sequential" ELSE "AnalogSequential"
              [] n.t = "ml" -> "ModuleList"
              [] OTHER -> "Net"
Obs(c, s) ==
   LET wk == Walk(s.nd, 1, "", {}) leaf == SelectSeq([i \in 1..Len(s.nd) |-> i], LAMBDA i : IsLeaf(s.nd[i].t))
       an == Firsts(wk, LAMBDA k : IsLeaf(s.nd[k].t) /\ s.nd[k].k > 0) IN
   [paths |-> [i \in 1..Len(wk) |-> <<wk[i].p, ClsOf(s.nd[wk[i].k]), IF s.nd[wk[i].k].tr THEN "t" ELSE "e">>],
    share |-> [i \in 1..Len(wk) |-> MinSeq(SelectSeq([j \in 1..Len(wk) |-> IF wk[j].k = wk[i].k THEN j ELSE 0], LAMBDA e : e > 0))],
    W |-> [i \in 1..Len(leaf) |-> s.nd[leaf[i]].W], b |-> [i \in 1..Len(leaf) |-> IF s.nd[leaf[i]].bias THEN s.nd[leaf[i]].b ELSE <<>>],
    y |-> Fwd(s.nd, 1, c.x), calls |-> s.calls, old |-> "same",
    root |-> IF s.wrap THEN "wrapped" ELSE IF s.nd[1].k > 0 THEN "analog" ELSE "plain",
    keys |-> IF ~RootAna(s) \/ IsLeaf(s.nd[1].t) THEN <<>> ELSE [i \in 1..Len(an) |-> an[i].p]]

(* ------------------------------------------------------------ properties *)
Inv(c, s) == \A i \in 1..Len(s.nd) : s.nd[i].t \in {"act", "ml", "net", "ngt", "sub"} => s.nd[i].k = 0
StepOk(c, s, a, n) ==
    /\ a.op \in {"ana", "dig", "mutold", "copy", "reload", "mode"} => Fwd(n.nd, 1, c.x) = Fwd(s.nd, 1, c.x)
    /\ a.op = "ana" => RootAna(n) /\ \A i \in SetOf(a.ex) : n.nd[i].k = s.nd[i].k
    /\ (a.op = "dig" /\ a.map = "all") => \A i \in 1..Len(n.nd) : n.nd[i].k = 0
    /\ \A i \in 1..Len(n.nd) : n.nd[i].ch = s.nd[i].ch /\ (a.op # "mode" => n.nd[i].tr = s.nd[i].tr)

(* --------------------------------------------------------- bounded model *)
L2(W, bi) == [t |-> "lin", ch |-> <<>>, bias |-> bi, W |-> W, b |-> <<1, -1>>]
Su(W) == [t |-> "sub", ch |-> <<>>, bias |-> TRUE, W |-> W, b |-> <<0, 2>>]
Co(t, ch) == [t |-> t, ch |-> ch, bias |-> FALSE, W |-> <<>>, b |-> <<>>]
A1 == <<<<1, -1>>, <<0, 2>>>>
A2 == <<<<1, 2>>, <<-1, 1>>>>
G1 == <<Co("seq", <<2, 3, 4, 3, 2>>), L2(A1, TRUE), Co("act", <<>>), L2(A2, FALSE)>>
G2 == <<Co("net", <<2, 3, 5>>), L2(A1, FALSE), Co("seq", <<4, 5>>), Su(A2), L2(A2, TRUE)>>
G3 == <<Co("ngt", <<2, 4>>), Co("ml", <<3, 4>>), Co("net", <<5, 6>>), L2(A1, TRUE), L2(A2, TRUE), Co("act", <<>>)>>
G4 == <<L2(A2, TRUE)>>
G5 == <<Co("seq", <<2, 4, 2>>), Co("seq", <<3, 3>>), L2(A1, TRUE), Co("ngt", <<5>>), L2(A2, FALSE)>>
Cfgs0 == {[nodes |-> g, x |-> <<1, 2>>] : g \in {G1, G2, G3, G4, G5}}
Cfgs1 == {[nodes |-> g, x |-> <<-1, 2>>] : g \in {G1, G2, G3, G4, G5}}
Under(nd, k) == LET wk == Walk(nd, k, "", {}) IN {wk[i].k : i \in 1..Len(wk)}
\* exclusion is by name: a module excluded is not also part of the rest
Excl(nd) == {k \in 2..Len(nd) : Under(nd, k) \cap Reach(nd, {k}) = {}}
Small(s) == \A i \in 1..Len(s.nd) : s.nd[i].W = <<>> \/ MaxSeq(Flat(s.nd[i].W)) < 4
Acts(c, s) ==
   LET ks == {i \in 1..Len(s.nd) : IsLeaf(s.nd[i].t)} IN
   {[op |-> "ana", ex |-> <<>>, map |-> mp, sp |-> sp, inp |-> inp] : mp \in {"all", "noseq"}, sp \in {<<>>, <<CHOOSE k \in ks : TRUE>>}, inp \in {TRUE}}
   \cup {[op |-> "ana", ex |-> <<k>>, map |-> mp, sp |-> <<>>, inp |-> FALSE] : k \in Excl(s.nd), mp \in {"all", "sub"}}
   \cup {[op |-> "dig", map |-> mp, inp |-> mp = "lin"] : mp \in {"all", "lin"}}
   \cup {[op |-> "mode", k |-> k, tr |-> FALSE] : k \in {1, Len(s.nd)}}
   \cup {[op |-> o] : o \in {"mutold", "copy", "reload"}}
   \cup (IF Small(s) THEN {[op |-> "add", v |-> 1], [op |-> "dadd", v |-> 1]} ELSE {})
=============================================================================
