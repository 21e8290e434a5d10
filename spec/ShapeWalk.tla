------------------------------ MODULE ShapeWalk ------------------------------
(* SyntaxBfs along given sentences: every prefix of every shape of every    *)
(* production (Shapes), within a shortest contract and on its own, is a     *)
(* situation.                                                               *)
EXTENDS SyntaxBfs

CONSTANT ShapeDepth

Walked == TLCEval(ShapesUpTo(ShapeDepth))
Sentences(N) ==
  IF Begin = "parts" THEN {<<N, w>> : w \in Walked[N]}
  ELSE IF Around[N] = <<>> THEN {} ELSE {<<"Program", Wrapped(N, w)>> : w \in Walked[N]}
AllSentences == TLCEval(UNION {Sentences(N) : N \in DOMAIN TextGrammar})
Beginnings == TLCEval(UNION {{<<g[1], SubSeq(g[2], 1, k)>> : k \in 0..Len(g[2])} : g \in AllSentences})

WalkInit == Init
WalkNext == \E tok \in NextOf(Table, stacks) :
              /\ <<entry, Append(prefix, tok)>> \in Beginnings
              /\ prefix' = Append(prefix, tok)
              /\ stacks' = ShiftAll(Table, stacks, tok)
              /\ UNCHANGED entry
WalkSpec == WalkInit /\ [][WalkNext]_vars
Place == <<entry, prefix>>

(* Every shape is read to its end and is a sentence *)
Legal == <<entry, prefix>> \in AllSentences => MayStop(stacks)
=============================================================================
