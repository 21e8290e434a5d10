------------------------------ MODULE VisitorMC ------------------------------
(* The state machine of Visitor on all trees up to a size, with all answers, *)
(* traversed depth first. What the properties of a traversal promise is      *)
(* checked of the history of its calls.                                      *)
EXTENDS Visitor, Integers, FiniteSets, TLC

CONSTANT MaxNodes

(* All trees: parents such that the nodes are in source order                *)
Under(par, j, k) == LET up[i \in 0..k] == IF i = j THEN TRUE ELSE IF i < j THEN FALSE ELSE up[par[i]] IN up[k]
Ordered(par, size) == /\ par[1] = 0
                      /\ \A k \in 2..size : par[k] \in 1..(k - 1) /\ Under(par, par[k], k - 1)
Shapes == UNION {{par \in [1..size -> 0..(size - 1)] : Ordered(par, size)} : size \in 1..MaxNodes}
LastIn(par, k) == CHOOSE j \in DOMAIN par : Under(par, k, j) /\ \A i \in DOMAIN par : Under(par, k, i) => i <= j

VARIABLES tree, state, history, owed
vars == <<tree, state, history, owed>>

(* owed: the spans to be pushed for the node about to be visited, as a       *)
(* visitor of WithMetaData does: push, visit the node, pop                   *)
Init == /\ \E par \in Shapes : \E spanned \in SUBSET DOMAIN par :
             tree = [k \in DOMAIN par |-> <<par[k], LastIn(par, k), IF k \in spanned THEN k ELSE 0>>]
        /\ state = Started
        /\ history = <<>>
        /\ owed = "visit"

Upcoming == state.next
Mine(k) == ~state.failed /\ k <= Len(tree) /\ Parent(tree, k) = (IF state.path = <<>> THEN 0 ELSE Top(state.path)[1])

Push == /\ owed = "visit" /\ Mine(Upcoming) /\ SpanOf(tree, Upcoming) # 0
        /\ state' = Pushed(state, SpanOf(tree, Upcoming))
        /\ owed' = "enter"
        /\ UNCHANGED <<tree, history>>
Enter == /\ owed = "enter" \/ (owed = "visit" /\ Mine(Upcoming) /\ SpanOf(tree, Upcoming) = 0)
         /\ MayEnter(tree, state, Upcoming)
         /\ \E a \in {"c", "s", "e"} :
              /\ state' = Entered(tree, state, Upcoming, a)
              /\ history' = Append(history, <<"enter", Upcoming, a, state.spans>>)
              /\ owed' = IF a = "s" /\ SpanOf(tree, Upcoming) # 0 THEN "pop" ELSE IF a = "e" THEN "unwind" ELSE "visit"
         /\ UNCHANGED tree
Leave == /\ owed = "visit" /\ state.path # <<>>
         /\ MayLeave(tree, state, Top(state.path)[1])
         /\ \E a \in {"c", "e"} :
              /\ state' = Left(state, a)
              /\ history' = Append(history, <<"exit", Top(state.path)[1], a, state.spans>>)
              /\ owed' = IF a = "e" THEN "unwind" ELSE IF SpanOf(tree, Top(state.path)[1]) # 0 THEN "pop" ELSE "visit"
         /\ UNCHANGED tree
Pop == /\ owed \in {"pop", "unwind"} /\ state.spans # <<>> /\ MayPop(state)
       /\ state' = Popped(state)
       /\ owed' = IF owed = "pop" THEN "visit" ELSE "unwind"
       /\ UNCHANGED <<tree, history>>
End == /\ MayEnd(tree, state) /\ EndsBalanced(state)
       /\ owed' = "ended"
       /\ UNCHANGED <<tree, state, history>>
Next == Push \/ Enter \/ Leave \/ Pop \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
Calls(what) == {j \in DOMAIN history : history[j][1] = what}
Of(what, k) == {j \in Calls(what) : history[j][2] = k}
Ended == owed = "ended"
Skipped == {history[j][2] : j \in {i \in Calls("enter") : history[i][3] = "s"}}
Failed == \E j \in DOMAIN history : history[j][3] = "e"
Inside(k, j) == j > k /\ j <= LastOf(tree, k)
Hidden == {k \in DOMAIN tree : \E z \in Skipped : Inside(z, k)}

OnceEach == \A k \in DOMAIN tree : Cardinality(Of("enter", k)) <= 1 /\ Cardinality(Of("exit", k)) <= 1
Nested == \A j, i \in DOMAIN history :
            history[j][1] = "enter" /\ history[i][1] = "exit" /\ history[j][2] = history[i][2] =>
              /\ j < i
              /\ \A m \in DOMAIN history : Inside(history[j][2], history[m][2]) => j < m /\ m < i
InOrder == \A j, i \in Calls("enter") : j < i => history[j][2] < history[i][2]
Complete == Ended /\ ~Failed =>
              \A k \in DOMAIN tree : /\ Of("enter", k) # {} <=> k \notin Hidden
                                     /\ Of("exit", k) # {} <=> k \notin Hidden \cup Skipped
SkipsExactly == \A j \in DOMAIN history : history[j][2] \notin Hidden
NothingAfterError == \A j \in DOMAIN history : history[j][3] = "e" => j = Len(history)
SpansRight == \A j \in DOMAIN history :
                LET e == Enclosing(tree, history[j][2]) sp == history[j][4]
                IN IF e = 0 THEN sp = <<>> ELSE sp # <<>> /\ Top(sp) = e
Balanced == Ended => state.spans = <<>>
AtExit == ~state.failed /\ state.path # <<>> => Len(state.spans) >= Top(state.path)[2]
Terminates == <>Ended
=============================================================================
