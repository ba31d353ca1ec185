------------------------------ MODULE Explore ------------------------------
(***************************************************************************)
(* Generic exploration harness, instantiated by every specification Foo    *)
(* as FooExplore.  Foo supplies the state machine in functional form:      *)
(*   Cfgs              configurations of the bounded model                 *)
(*   InitSt(c)         initial state of configuration c                    *)
(*   Acts(c, s)        actions offered in state s                          *)
(*   Step(c, s, a)     SET of successor states of action a                 *)
(*   Obs(c, s)         what a user can observe of s                        *)
(*   Inv(c, s)         state invariant                                     *)
(*   StepOk(c,s,a,n)   property of one transition                          *)
(* h is the history (actions with the expected observations); it is hidden *)
(* by the VIEW, so that every state is expanded once per depth.  Emit      *)
(* prints the history of every transition: these are the behaviours which  *)
(* are replayed into the real code.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Cfgs, InitSt(_), Acts(_, _), Step(_, _, _), Obs(_, _),
          Inv(_, _), StepOk(_, _, _, _), MaxDepth, EmitAll

VARIABLES c, s, h

Init == /\ c \in Cfgs
        /\ s = InitSt(c)
        /\ h = <<>>

Next == /\ Len(h) < MaxDepth
        /\ \E a \in Acts(c, s) : \E n \in Step(c, s, a) :
              /\ s' = n
              /\ h' = Append(h, [a |-> a, o |-> Obs(c, n)])
              /\ Assert(StepOk(c, s, a, n), <<"STEPOK", c, s, a, n>>)
        /\ UNCHANGED c

View == <<c, s, Len(h)>>

Emit == (EmitAll \/ Len(h') = MaxDepth) =>
          PrintT("BEH" \o ToJson([c |-> c, ev |-> h', o0 |-> Obs(c, InitSt(c))]))

Invariant == Inv(c, s)
=============================================================================
