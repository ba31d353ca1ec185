----------------------------- MODULE TraceCheck -----------------------------
(***************************************************************************)
(* Generic trace validation: executions recorded from the real code (JSON  *)
(* lines [c, o0, ev = <<[a, o], ...>>]) are checked to be behaviours of    *)
(* the specification.  Every trace ends in exactly one verdict per branch: *)
(* DONE (accepted to the end) or STUCK at the first event the              *)
(* specification does not allow.  A trace is rejected when no branch is    *)
(* DONE.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Traces, InitSt(_), Step(_, _, _), Obs(_, _), Inv(_, _), StepOk(_, _, _, _)

VARIABLES t, i, s

Init == /\ t \in 1..Len(Traces)
        /\ i = 0
        /\ s = InitSt(Traces[t].c)

Good(n) == /\ Obs(Traces[t].c, n) = Traces[t].ev[i + 1].o
           /\ Inv(Traces[t].c, n)
           /\ StepOk(Traces[t].c, s, Traces[t].ev[i + 1].a, n)

Cands == Step(Traces[t].c, s, Traces[t].ev[i + 1].a)

Next ==
  \/ /\ i = 0 /\ Obs(Traces[t].c, s) # Traces[t].o0
     /\ PrintT("STUCK" \o ToJson([t |-> t, i |-> 0, want |-> <<Obs(Traces[t].c, s)>>]))
     /\ i' = -1 /\ UNCHANGED <<t, s>>
  \/ /\ i >= 0 /\ i < Len(Traces[t].ev)
     /\ (i = 0 => Obs(Traces[t].c, s) = Traces[t].o0)
     /\ \E n \in {m \in Cands : Good(m)} : s' = n
     /\ i' = i + 1 /\ UNCHANGED t
     /\ (i' = Len(Traces[t].ev) => PrintT("DONE" \o ToJson([t |-> t])))
  \/ /\ i >= 0 /\ i < Len(Traces[t].ev)
     /\ (i = 0 => Obs(Traces[t].c, s) = Traces[t].o0)
     /\ ~ \E n \in Cands : Good(n)
     /\ PrintT("STUCK" \o ToJson([t |-> t, i |-> i + 1,
            want |-> IF Cands = {} THEN <<>> ELSE <<Obs(Traces[t].c, CHOOSE m \in Cands : TRUE)>>]))
     /\ i' = -1 /\ UNCHANGED <<t, s>>
  \/ /\ i = 0 /\ Len(Traces[t].ev) = 0 /\ Obs(Traces[t].c, s) = Traces[t].o0
     /\ PrintT("DONE" \o ToJson([t |-> t]))
     /\ i' = -1 /\ UNCHANGED <<t, s>>
=============================================================================
