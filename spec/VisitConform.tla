---------------------------- MODULE VisitConform ----------------------------
(* Decides whether recorded traversals of a real syntax tree are those of    *)
(* Visitor. A case holds the tree and all recorded traversals of it, one for *)
(* every policy of answers, as one tree of events: an event is               *)
(*   <<what, number, answer, continuations>>                                 *)
(* with what: push (a span), pop, enter, exit (a node; 0 if it is no node of *)
(* the tree) or end (1: success, 2: the error answered last, 0: otherwise),  *)
(* and the continuations the events that follow it in some traversal.        *)
(* CHECK: order (of the calls, and the result) or spans.                     *)
EXTENDS Visitor, Integers, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Order == IOEnv.CHECK = "order"

VARIABLES caseNo, place, state, verdict
vars == <<caseNo, place, state, verdict>>

Case == Cases[caseNo]
Tree == Case.tree

Init == /\ caseNo \in 1..Len(Cases)
        /\ place = 1
        /\ state = Started
        /\ verdict = "going on"

(* The spans alone: order and answers are taken as they come                 *)
Follow(ev) ==
  CASE ev[1] = "enter" /\ ev[3] = "e" -> [state EXCEPT !.failed = TRUE]
    [] ev[1] = "enter" /\ ev[3] = "c" -> [state EXCEPT !.path = Append(state.path, <<ev[2], Len(state.spans)>>)]
    [] ev[1] = "exit" /\ ev[3] = "e" -> [state EXCEPT !.failed = TRUE]
    [] ev[1] = "exit" -> [state EXCEPT !.path = Cut(state.path)]
    [] OTHER -> state

InOrder(ev) ==
  CASE ev[1] = "enter" -> IF MayEnter(Tree, state, ev[2]) THEN "going on" ELSE "this node must not be entered now"
    [] ev[1] = "exit" -> IF MayLeave(Tree, state, ev[2]) THEN "going on" ELSE "this node must not be left now"
    [] ev[1] = "end" -> CASE ~MayEnd(Tree, state) -> "nodes were not reported"
                          [] ev[2] # (IF state.failed THEN 2 ELSE 1) -> "the result is wrong"
                          [] OTHER -> "conforms"
    [] OTHER -> "going on"

InBalance(ev) ==
  CASE ev[1] = "push" -> "going on"
    [] ev[1] = "pop" -> IF MayPop(state) THEN "going on" ELSE "a span is popped that was not pushed within the node"
    [] ev[1] = "enter" -> IF ev[2] = 0 THEN "going on"
                          ELSE IF InForce(Tree, state, ev[2]) THEN "going on"
                          ELSE "on entry another span is in force than that of the node or the nearest around it"
    [] ev[1] = "exit" -> CASE state.path = <<>> -> "going on"
                           [] ~LeftBalanced(state) -> "the spans pushed since the node was entered are not all popped"
                           [] ev[2] = 0 -> "going on"
                           [] ~InForce(Tree, state, ev[2]) -> "on exit another span is in force than that of the node or the nearest around it"
                           [] OTHER -> "going on"
    [] ev[1] = "end" -> IF EndsBalanced(state) THEN "conforms" ELSE "not all spans pushed are popped at the end"

After(ev) ==
  CASE ev[1] = "push" -> Pushed(state, ev[2])
    [] ev[1] = "pop" -> Popped(state)
    [] ~Order /\ ev[1] = "exit" /\ state.path = <<>> -> state
    [] ~Order -> Follow(ev)
    [] ev[1] = "enter" -> Entered(Tree, state, ev[2], ev[3])
    [] ev[1] = "exit" -> Left(state, ev[3])
    [] OTHER -> state

Judge(ev) == IF Order THEN InOrder(ev) ELSE InBalance(ev)

Step == /\ verdict = "going on"
        /\ \E j \in 1..Len(Case.events[place][4]) :
             LET k == Case.events[place][4][j]
                 ev == Case.events[k]
                 v == Judge(ev)
             IN /\ place' = k
                /\ verdict' = v
                /\ state' = IF v # "going on" THEN state ELSE IF Order /\ ev[1] \in {"push", "pop"} THEN state ELSE After(ev)
        /\ UNCHANGED caseNo
Done == verdict # "going on" /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars

Conforms == verdict \in {"going on", "conforms"}
=============================================================================
