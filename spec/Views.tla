-------------------------------- MODULE Views --------------------------------
(***************************************************************************)
(* What a user can see of, and do with, the weights of an analog layer     *)
(* (a Mapping.tla machine): the modes of the analog parameter, and the     *)
(* tensors given to or taken from the layer.                               *)
(*   mode 0 placeholder: only metadata; values can neither be read nor     *)
(*   written; 1 data view: the present logical weights, read only;         *)
(*   2 buffer: a writable digital buffer of its own, starting with zeros   *)
(* hw, hb: tensors taken with get_weights; ho: tensor last given to        *)
(* set_weights.  Both belong to the user: they never change with the layer *)
(* and changing them does not change the layer.                            *)
(* arr: the layer is an array of tiles (no scales, analog parameters left  *)
(* alone)                                                                  *)
(***************************************************************************)
EXTENDS Mat, TLC
Mp == INSTANCE Mapping

M(c) == Len(c.W0)
N(c) == Len(c.W0[1])
Zb(c) == [i \in 1..M(c) |-> [j \in 1..N(c) |-> 0]]
Add(A, v) == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> A[i][j] + v]]
AddV(u, v) == [i \in 1..Len(u) |-> u[i] + v]

\* clipping (of the weights on the tile) and remapping after an update step
ClipTo(x, b) == MaxI(-b, MinI(b, x))
Clipped(c, m, v) == LET q == Mp!Sc(m) IN IF v = 0 THEN m ELSE
    [m EXCEPT !.L = [i \in 1..M(c) |-> [j \in 1..N(c) |-> ClipTo(@[i][j], v * q[i])]],
              !.b = IF c.bias = 1 THEN [i \in 1..M(c) |-> ClipTo(@[i], v * q[i])] ELSE @]
\* layer-wise: all scales are multiplied with the largest weight on the tile
TopRow(c, m) == LET q == Mp!Sc(m)  a(i) == Mp!AbsRow(c, m.L, m.b, i)
    IN CHOOSE k \in 1..M(c) : \A i \in 1..M(c) : a(i) * q[k] <= a(k) * q[i]
LayerMu(c, m) == LET q == Mp!Sc(m)  k == TopRow(c, m)  a == Mp!AbsRow(c, m.L, m.b, k)
    IN IF a = 0 THEN q ELSE [i \in 1..M(c) |-> (q[i] * a) \div q[k]]
\* (only if the scales stay integers)
LayerFits(c, m) == LET q == Mp!Sc(m)  k == TopRow(c, m)  a == Mp!AbsRow(c, m.L, m.b, k)
    IN \A i \in 1..M(c) : (q[i] * a) % q[k] = 0
Remapped(c, m, r) == IF r = 0 THEN m ELSE
    [m EXCEPT !.mu = IF r = 2 THEN Mp!Mu([c EXCEPT !.cw = TRUE], m.L, m.b, 1) ELSE LayerMu(c, m), !.lam = Mp!OnesV(c)]
Post(c, m, v, r) == [Mp!Quiet(Remapped(c, Clipped(c, m, v), r)) EXCEPT !.fz = TRUE]

InitSt(c) == [m |-> Mp!InitSt(c), mode |-> 0, buf |-> <<>>, hw |-> <<>>, hb |-> <<>>, ho |-> <<>>, err |-> "no"]
On(c, s, n) == [s EXCEPT !.m = n, !.err = "no"]
Keep == {"setom", "setraw", "remap", "learn", "scale", "train", "fwd", "program", "dtype", "set"}
Step(c, s, a) ==
  CASE a.op \in Keep -> {On(c, IF a.op \in {"set", "setraw", "setom"} THEN [s EXCEPT !.ho = a.w] ELSE s, n) : n \in Mp!Step(c, s.m, a)}
    \* (a copy has a parameter of its own, in the mode it is put to)
    [] a.op \in {"copy", "reload", "pickle", "replace"} ->
         {[On(c, s, n) EXCEPT !.mode = a.mode, !.buf = IF a.mode = 2 THEN Zb(c) ELSE <<>>] : n \in Mp!Step(c, s.m, a)}
    [] a.op = "post"  -> {On(c, s, Post(c, s.m, a.v, a.r))}
    [] a.op = "move"  -> {On(c, s, Mp!Quiet(s.m))}
    [] a.op = "mode"  -> {[On(c, s, Mp!Quiet(s.m)) EXCEPT !.mode = a.mode, !.buf = IF a.mode = 2 THEN Zb(c) ELSE <<>>]}
    \* in-place write to the parameter
    [] a.op = "write" -> {[On(c, s, Mp!Quiet(s.m)) EXCEPT !.err = IF s.mode = 2 THEN "no" ELSE "yes",
                                          !.buf = IF s.mode = 2 THEN Add(@, a.v) ELSE @]}
    [] a.op = "snap"  -> {[On(c, s, Mp!Quiet(s.m)) EXCEPT !.hw = s.m.L, !.hb = IF c.bias = 0 THEN <<>> ELSE s.m.b]}
    [] a.op = "mut"   -> {[On(c, s, Mp!Quiet(s.m)) EXCEPT !.hw = Add(@, a.v), !.hb = AddV(@, a.v), !.ho = Add(@, a.v)]}
    [] a.op = "mutother" -> {On(c, s, Mp!Quiet(s.m))}
    [] a.op = "setheld" -> {On(c, [s EXCEPT !.ho = s.hw], n) : n \in Mp!Step(c, s.m, [op |-> "set", w |-> s.hw, b |-> IF c.bias = 0 THEN s.m.b ELSE s.hb])}

Obs(c, s) == [L |-> s.m.L, b |-> IF c.bias = 0 THEN <<>> ELSE s.m.b, y |-> s.m.y, err |-> s.err, mode |-> s.mode,
              view |-> IF s.mode = 0 THEN <<>> ELSE IF s.mode = 1 THEN s.m.L ELSE s.buf, size |-> <<M(c), N(c)>>,
              hw |-> s.hw, hb |-> s.hb, ho |-> s.ho]

(* ------------------------------------------------------------ properties *)
Inv(c, s) == Mp!Inv(c, s.m) /\ (s.mode = 2) = (s.buf # <<>>)
StepOk(c, s, a, n) ==
    /\ a.op \notin {"snap", "mut"} => n.hw = s.hw /\ n.hb = s.hb
    /\ a.op \in {"mode", "write", "snap", "mut", "mutother", "move"} => n.m.L = s.m.L /\ n.m.b = s.m.b
    /\ (a.op \notin {"write", "mode", "copy", "reload", "pickle", "replace"}) => n.buf = s.buf /\ n.mode = s.mode

(* --------------------------------------------------------- bounded model *)
Mk(k, bi, om, cw, le) ==
   [kind |-> k, arr |-> FALSE, bias |-> bi, om |-> om, cw |-> cw, learn |-> le, comp |-> FALSE, W0 |-> <<<<1, -2>>, <<4, 0>>>>, B0 |-> <<1, -2>>]
Arr(c) == [c EXCEPT !.arr = TRUE]
Cfgs0 == {Mk("fp", 1, 1, FALSE, 1), Mk("ideal", 2, 2, TRUE, 2), Mk("inf", 2, 1, FALSE, 0),
          Mk("tinf", 2, 2, TRUE, 1), Mk("custom", 2, 0, FALSE, 0), Mk("const", 1, 1, TRUE, 0),
          Arr(Mk("fp", 2, 0, FALSE, 0)), Arr(Mk("tinf", 2, 0, FALSE, 0))}
Cfgs1 == {Mk(k, bi, om, TRUE, le) : k \in {"fp", "ideal", "inf", "tinf", "const"}, bi \in {0, 2}, om \in {0, 2}, le \in {0, 1, 2}}
         \cup {Arr(Mk(k, bi, 0, FALSE, 0)) : k \in {"fp", "ideal", "inf", "tinf", "const", "custom"}, bi \in {0, 2}}
IsHw(c) == c.kind \in {"inf", "tinf"}
CanTrain(c) == c.kind # "const"
ActsArr(c, s) ==
   {[op |-> "set", w |-> <<<<2, 1>>, <<-1, 0>>>>, b |-> <<0, 4>>], [op |-> "reload", mode |-> 0], [op |-> "copy", mode |-> 0],
    [op |-> "pickle", mode |-> 0], [op |-> "snap"], [op |-> "mutother"], [op |-> "move"], [op |-> "mut", v |-> 3]}
   \cup (IF s.hw = <<>> THEN {} ELSE {[op |-> "setheld"]})
   \cup (IF CanTrain(c) THEN {[op |-> "train", x |-> <<<<1, 2>>>>, g |-> <<<<1, -1>>>>, lr |-> 1]} ELSE {})
Acts(c, s) ==
   IF c.arr THEN ActsArr(c, s) ELSE
   LET big == Mp!Big(c, s.m) IN
   {[op |-> "set", w |-> <<<<2, 1>>, <<-1, 0>>>>, b |-> <<0, 4>>], [op |-> "reload", mode |-> 1], [op |-> "copy", mode |-> 2],
    [op |-> "mode", mode |-> 1], [op |-> "mode", mode |-> 2], [op |-> "mode", mode |-> 0], [op |-> "write", v |-> 2],
    [op |-> "snap"], [op |-> "mutother"], [op |-> "move"], [op |-> "dtype"]}
   \cup (IF s.hw = <<>> THEN {} ELSE {[op |-> "mut", v |-> 3], [op |-> "setheld"]})
   \cup (IF Mp!Shaky(c, s.m) THEN {} ELSE {[op |-> "remap", om |-> 1]})
   \cup (IF big THEN {} ELSE {[op |-> "scale", k |-> 2, f |-> FALSE]}
         \cup (IF CanTrain(c) THEN {[op |-> "train", x |-> <<<<1, 2>>>>, g |-> <<<<1, -1>>>>, lr |-> 1]} ELSE {})
         \cup (IF c.learn = 0 THEN {} ELSE {[op |-> "learn", r |-> IF c.learn = 1 THEN <<2, 2>> ELSE <<2, 1>>]})
         \cup (IF ~IsHw(c) THEN {} ELSE {[op |-> "post", v |-> 2, r |-> 0]}
                 \cup (IF c.om = 0 \/ ~c.cw \/ Mp!Shaky([c EXCEPT !.cw = TRUE], s.m) THEN {} ELSE {[op |-> "post", v |-> 0, r |-> 2]} \cup (IF LayerFits(c, s.m) THEN {[op |-> "post", v |-> 0, r |-> 1]} ELSE {}))))
=============================================================================
