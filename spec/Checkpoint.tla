----------------------------- MODULE Checkpoint -----------------------------
(***************************************************************************)
(* Saving and restoring at any point.  A session holds copies of a model   *)
(* (with their optimizers).  All the specification knows of a copy is the  *)
(* history of operations that shaped it: saving, restoring, copying and    *)
(* loading move histories around and never add to them.  Copies with the   *)
(* same history are indistinguishable, now and under every further         *)
(* operation; each copy only depends on its own history; and a model which *)
(* was never saved ("witness") agrees with every copy of that history.     *)
(***************************************************************************)
EXTENDS Mat, TLC

Slots == 3
InitSt(c) == [h |-> <<<<>>>>, lr |-> <<1>>, res |-> "none"]

Quiet(s) == [s EXCEPT !.res = "none"]
Put(s, j, hist, lr) ==
    IF j <= Len(s.h) THEN [Quiet(s) EXCEPT !.h[j] = hist, !.lr[j] = lr]
    ELSE [Quiet(s) EXCEPT !.h = Append(@, hist), !.lr = Append(@, lr)]

Do(s, i, e) == [Quiet(s) EXCEPT !.h[i] = Append(@, e)]

RECURSIVE DoN(_, _, _, _)
DoN(s, i, e, n) == IF n = 0 THEN s ELSE DoN(Do(s, i, e), i, e, n - 1)

Step(c, s, a) ==
  CASE a.op = "train" -> {DoN(s, a.i, <<a.k, s.lr[a.i]>>, a.r)}   \* r steps on batch k
    [] a.op = "fresh" -> {Put(s, a.j, <<>>, 1)}                   \* another new model
    [] a.op = "eval"  -> {Do(s, a.i, <<-1, 0>>)}            \* an inference pass (deterministic)
    [] a.op = "extra" -> {Do(s, a.i, <<-1 - a.k, 0>>)}      \* tile operation k
    [] a.op = "lr"    -> {[Quiet(s) EXCEPT !.lr[a.i] = a.v]}
    \* a.how: deepcopy, pickle, joint (model and optimizer), sd (state_dict into a
    \* fresh model), sdopt (and of the optimizer); into slot j
    [] a.op = "copy"  -> {Put(s, a.j, s.h[a.i], s.lr[a.i])}
    \* state_dict of copy i into the existing (used) copy j
    [] a.op = "load"  -> {Put(s, a.j, s.h[a.i], s.lr[a.j])}
    [] a.op = "cmp"   -> {[s EXCEPT !.res = IF s.h[a.i] = s.h[a.j] THEN "same" ELSE "?"]}
    [] a.op = "witness" -> {[s EXCEPT !.res = "same"]}

Obs(c, s) == [n |-> [i \in 1..Len(s.h) |-> Len(s.h[i])], lr |-> s.lr, res |-> s.res]

Inv(c, s) == Len(s.h) \in 1..Slots /\ Len(s.lr) = Len(s.h)
Target(a) == IF a.op \in {"copy", "load", "fresh"} THEN a.j ELSE IF a.op \in {"train", "eval", "extra", "lr"} THEN a.i ELSE 0
StepOk(c, s, a, n) ==
    /\ \A i \in 1..Len(s.h) : i # Target(a) => n.h[i] = s.h[i] /\ n.lr[i] = s.lr[i]
    /\ a.op \in {"copy", "load"} => n.h[a.j] = s.h[a.i]

(* --------------------------------------------------------- bounded model *)
Mk(k, ar) == [kind |-> k, arch |-> ar, plan |-> FALSE]
Kinds == {"fp", "fpdecay", "fpdrift", "constdrift", "infmod", "infmodw", "tinfmod", "ideal", "const", "linear", "soft", "softref", "exp", "pow", "powref", "piece", "vecall",
          "vecseq", "ref", "oneside", "transfer", "transfer3", "buffered", "chopped", "dynamic", "mixed", "inf",
          "infremap", "infrange", "tinf", "tinfremap", "tinfrange"}
Cfgs0 == {Mk("transfer", "linear"), Mk("mixed", "linear"), Mk("tinf", "conv"), Mk("infremap", "mapped"),
          Mk("vecseq", "linear"), Mk("chopped", "linear"), Mk("soft", "rnn"), Mk("infrange", "linear")}
\* every kind through: used model, save in every way (or load into a used model),
\* continue the restored one, compare with the witness
CfgsPlan == {[Mk(k, "linear") EXCEPT !.plan = TRUE] : k \in Kinds}
Hows == {"deepcopy", "pickle", "joint", "sd", "sdopt"}
Plan(c, s) ==
   LET N == Len(s.h) IN
   IF Len(s.h[1]) = 0 THEN {[op |-> "train", i |-> 1, k |-> 1, r |-> r] : r \in {3, 4, 5}}
   ELSE IF N = 1 THEN {[op |-> "copy", i |-> 1, j |-> 2, how |-> h] : h \in Hows} \cup {[op |-> "fresh", i |-> 1, j |-> 2]}
   ELSE IF Len(s.h[2]) = 0 THEN {[op |-> "train", i |-> 2, k |-> 2, r |-> 2]}
   ELSE IF s.h[2] = <<<<2, 1>>, <<2, 1>>>> THEN {[op |-> "load", i |-> 1, j |-> 2]}
   ELSE IF s.h[2] = s.h[1] THEN {[op |-> "train", i |-> 2, k |-> 2, r |-> 4]}
   ELSE {[op |-> "witness", i |-> 2]}
Drifts == {"fpdrift", "constdrift"}
PlanD(c, s) ==
   LET N == Len(s.h) D(i) == {[op |-> "extra", i |-> i, k |-> 4]}
       T(i, k, r) == {[op |-> "train", i |-> i, k |-> k, r |-> r]} IN
   IF Len(s.h[1]) = 0 THEN T(1, 1, 2)
   ELSE IF Len(s.h[1]) = 2 THEN D(1) ELSE IF Len(s.h[1]) = 3 THEN D(1)
   ELSE IF N = 1 THEN {[op |-> "copy", i |-> 1, j |-> 2, how |-> h] : h \in Hows}
   ELSE IF Len(s.h[2]) = 4 THEN D(2)
   ELSE {[op |-> "witness", i |-> 2]}
Acts(c, s) ==
   LET N == Len(s.h) IN
   IF c.plan THEN (IF c.kind \in Drifts THEN PlanD(c, s) ELSE Plan(c, s)) ELSE
   \* drawn so that each explored depth has a comparison: any two copies of
   \* equal history, and the witness of the last copy
   {[op |-> "train", i |-> i, k |-> k, r |-> 5 - 2 * k] : i \in 1..N, k \in {1, 2}}
   \cup (IF N < Slots THEN {[op |-> "copy", i |-> N, j |-> N + 1, how |-> h] : h \in Hows} ELSE {})
   \cup {[op |-> "load", i |-> i, j |-> j] : i \in {1}, j \in 2..N}
   \cup {[op |-> "witness", i |-> N]}
   \cup {[op |-> "cmp", i |-> i, j |-> N] : i \in {x \in 1..(N - 1) : s.h[x] = s.h[N]}}
=============================================================================
