------------------------------- MODULE Visitor -------------------------------
(* The traversal of a syntax tree by a visitor, as a state machine.          *)
(*                                                                           *)
(* A tree is a sequence of nodes in source order, every node before its      *)
(* children: <<parent, last, span>>, where last is the last node of its      *)
(* subtree and span the number of its source span, 0 if it carries none.     *)
(* The visitor is called on entering and on leaving a node and answers       *)
(* "c" (continue), "s" (skip the children) or "e" (error); between the calls *)
(* it is told spans, pushed and popped.                                      *)
EXTENDS Naturals, Sequences

Parent(tree, k) == tree[k][1]
LastOf(tree, k) == tree[k][2]
SpanOf(tree, k) == tree[k][3]

(* The span in force at a node: its own, or of the nearest one around it     *)
Enclosing(tree, k) ==
  LET up[j \in 0..Len(tree)] == IF j = 0 THEN 0 ELSE IF SpanOf(tree, j) # 0 THEN SpanOf(tree, j) ELSE up[Parent(tree, j)]
  IN up[k]

(* The state of a traversal: the nodes entered and not left, each with the   *)
(* number of spans pushed when it was entered; the next node to be reported; *)
(* the spans pushed; whether an error was answered.                          *)
Started == [path |-> <<>>, next |-> 1, spans |-> <<>>, failed |-> FALSE]
Top(sq) == sq[Len(sq)]
Cut(sq) == SubSeq(sq, 1, Len(sq) - 1)

(* --- the order of the calls ---------------------------------------------- *)
MayEnter(tree, st, k) ==
  /\ ~st.failed
  /\ k \in 1..Len(tree)
  /\ k = st.next
  /\ Parent(tree, k) = IF st.path = <<>> THEN 0 ELSE Top(st.path)[1]

Entered(tree, st, k, answer) ==
  CASE answer = "c" -> [st EXCEPT !.path = Append(st.path, <<k, Len(st.spans)>>), !.next = k + 1]
    [] answer = "s" -> [st EXCEPT !.next = LastOf(tree, k) + 1]
    [] answer = "e" -> [st EXCEPT !.failed = TRUE]

MayLeave(tree, st, k) ==
  /\ ~st.failed
  /\ st.path # <<>>
  /\ k = Top(st.path)[1]
  /\ st.next = LastOf(tree, k) + 1

Left(st, answer) ==
  IF answer = "e" THEN [st EXCEPT !.failed = TRUE] ELSE [st EXCEPT !.path = Cut(st.path)]

MayEnd(tree, st) == st.failed \/ (st.path = <<>> /\ st.next = Len(tree) + 1)

(* --- the spans ----------------------------------------------------------- *)
Pushed(st, x) == [st EXCEPT !.spans = Append(st.spans, x)]
Popped(st) == [st EXCEPT !.spans = Cut(st.spans)]

(* What was pushed when the node being traversed was entered stays           *)
MayPop(st) ==
  /\ st.spans # <<>>
  /\ IF st.failed \/ st.path = <<>> THEN TRUE ELSE Len(st.spans) > Top(st.path)[2]

InForce(tree, st, k) == IF Enclosing(tree, k) = 0 THEN st.spans = <<>>
                        ELSE st.spans # <<>> /\ Top(st.spans) = Enclosing(tree, k)
LeftBalanced(st) == Len(st.spans) = Top(st.path)[2]
EndsBalanced(st) == st.spans = <<>>
=============================================================================
