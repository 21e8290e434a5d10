------------------------------ MODULE SyntaxBfs ------------------------------
(* All situations a parser can be in, breadth first.  A situation is the    *)
(* set of all stacks that are still possible after a sequence of tokens;    *)
(* situations are told apart by the innermost productions that are open,    *)
(* and the places in them.  For each, TLC prints a shortest sequence of     *)
(* tokens that leads there, a way to complete it to a sentence, the exact   *)
(* set of tokens that may follow, and the same for the situation after each *)
(* of these tokens.                                                         *)
EXTENDS Shapes, Json, IOUtils

CONSTANTS ViewDepth,      \* how many open productions tell situations apart
          MaxTokens       \* longest sequence of tokens

(* The nonterminal to begin with, or "parts": all but Program in turn *)
Begin == IOEnv.ENTRY
(* Items know the place in the grammar they come from, so that situations   *)
(* are told apart by it even where the same may follow                      *)
PlacedGrammar == [N \in DOMAIN DeclGrammar |-> [k \in 1..Len(DeclGrammar[N]) |->
  [j \in 1..Len(DeclGrammar[N][k]) |-> DeclGrammar[N][k][j] \o <<<<N, k, j>>>>]]]
Table == LeadTable(PlacedGrammar)

Completion(stack) == MinSeq(Shortest, stack)
BestCompletion(sts) ==
  LET all == {Completion(st) : st \in sts}
  IN CHOOSE w \in all : \A v \in all : Len(w) <= Len(v)

VARIABLES entry, prefix, stacks
vars == <<entry, prefix, stacks>>

Entries == {e \in DOMAIN TextGrammar : e = Begin}
             \cup (IF Begin = "parts" THEN DOMAIN TextGrammar \ {"Program"} ELSE {})
Init == entry \in Entries /\ prefix = <<>> /\ stacks = {<<n(entry)>>}
Next == /\ Len(prefix) < MaxTokens
        /\ \E x \in NextOf(Table, stacks) :
             /\ prefix' = Append(prefix, x)
             /\ stacks' = ShiftAll(Table, stacks, x)
        /\ UNCHANGED entry
Spec == Init /\ [][Next]_vars

(* The productions begun and not ended, the innermost first: of each the     *)
(* first item still to be read. Those of which everything has been read do   *)
(* not count for ViewDepth, and of several in a row the innermost is taken.  *)
Continues(it, before) == /\ Len(it) = 3 /\ Len(before) = 3
                         /\ it[3][1] = before[3][1] /\ it[3][2] = before[3][2] /\ it[3][3] > before[3][3]
IsClose(it) == it[1] \in {"c", "w"}
Topmost(stack) ==
  LET f[j \in 0..Len(stack)] ==
        IF j = 0 THEN <<0, <<>>>>
        ELSE LET sofar == f[j - 1]
                 it == stack[j]
             IN IF sofar[1] > ViewDepth THEN sofar
                ELSE IF j > 1 /\ Continues(it, stack[IF j > 1 THEN j - 1 ELSE 1]) THEN sofar
                ELSE IF IsClose(it) /\ (IF sofar[2] = <<>> THEN FALSE ELSE IsClose(sofar[2][Len(sofar[2])])) THEN sofar
                ELSE LET count == IF IsClose(it) THEN sofar[1] ELSE sofar[1] + 1
                     IN <<count, IF count > ViewDepth THEN sofar[2] ELSE Append(sofar[2], it)>>
  IN f[Len(stack)][2]
Situation == <<entry, {Topmost(st) : st \in stacks}>>

(* Every situation can be completed: the grammar has no dead ends *)
Sane == stacks # {} /\ (NextOf(Table, stacks) # {} \/ MayStop(stacks))

Report ==
  LET follow == NextOf(Table, stacks)
      after == [x \in follow |->
                 LET sh == ShiftAll(Table, stacks, x)
                 IN [exp |-> NextOf(Table, sh), stop |-> MayStop(sh), more |-> BestCompletion(sh)]]
  IN PrintT("SIT " \o ToJson([entry |-> entry, prefix |-> prefix, exp |-> follow, stop |-> MayStop(stacks),
                               more |-> BestCompletion(stacks), after |-> after]))
=============================================================================
