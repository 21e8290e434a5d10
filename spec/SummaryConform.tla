--------------------------- MODULE SummaryConform ---------------------------
(* Decides whether the contract returned for a text is the one its tokens   *)
(* declare.  A case holds the tokens (kinds, texts), the outcome and the     *)
(* contract; CHECK tells which part of the contract is compared.             *)
EXTENDS Summary, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
What == IOEnv.CHECK              \* names, types or written
Table == LeadTable(SummaryGrammar)

VARIABLES caseNo, cursor, readings, verdict
vars == <<caseNo, cursor, readings, verdict>>

Case == Cases[caseNo]
Kinds == Case.kinds

Init == /\ caseNo \in 1..Len(Cases)
        /\ cursor = 0
        /\ readings = {<<<<>>, <<n("Program")>>>>}
        /\ verdict = "reading"

Stepped == UNION {{<<rd[1] \o d.mark \o (IF d.leaf THEN <<<<"l", Case.texts[cursor + 1]>>>> ELSE <<>>), d.rest>> :
                     d \in Reads(Table, rd[2], Kinds[cursor + 1])} : rd \in readings}

Read == /\ verdict = "reading"
        /\ cursor < Len(Kinds)
        /\ Stepped # {}
        /\ readings' = Stepped
        /\ cursor' = cursor + 1
        /\ UNCHANGED <<caseNo, verdict>>

Ended == {rd[1] \o SelectSeq(rd[2], LAMBDA it : it[1] \in {"o", "u", "c", "y", "w"}) :
            rd \in {r \in readings : CanStop(r[2])}}

TextsOf(ct) == LET all == AllDeclared(ct)
               IN TLCEval([j \in 1..Len(all) |-> IF Unspecified(all[j][2]) THEN "FREE" ELSE Written(all[j][2])])

Judge(ct) ==
  LET got == Case.sum
      ok == Case.out = "ok"
  IN CASE Case.out \notin {"ok", "parse", "visit"} -> "no answer"
       [] ~Representable(ct) /\ ok -> IF What = "types" THEN "a type that cannot be declared was accepted" ELSE "conforms"
       [] ~Representable(ct) -> "conforms"
       [] ~ok -> "a legal contract was refused"
       [] What = "names" ->
            CASE got[1] # ct[1] -> "contract name: expected " \o ToString(ct[1])
              [] ~SameNames(ct[2], got[2]) -> "parameters: expected " \o ToString(ct[2])
              [] ~SameNames(ct[3], got[3]) -> "fields: expected " \o ToString(ct[3])
              [] ~SameNames(ct[4], got[4]) -> "transitions: expected " \o ToString(ct[4])
              [] \E j \in 1..Len(ct[4]) : ~SameNames(ct[4][j][2], got[4][j][2]) ->
                   "transition parameters: expected " \o ToString(ct[4])
              [] OTHER -> "conforms"
       [] What = "types" ->
            CASE ~SameTypes(ct[2], got[2]) -> "parameter types: expected " \o ToString(ct[2])
              [] ~SameTypes(ct[3], got[3]) -> "field types: expected " \o ToString(ct[3])
              [] Len(ct[4]) # Len(got[4]) -> "transitions: expected " \o ToString(ct[4])
              [] \E j \in 1..Len(ct[4]) : ~SameTypes(ct[4][j][2], got[4][j][2]) ->
                   "transition parameter types: expected " \o ToString(ct[4])
              [] OTHER -> "conforms"
       [] What = "written" ->
            LET want == TextsOf(ct)
            IN IF Len(want) # Len(Case.written) THEN "expected written forms " \o ToString(want)
               ELSE IF \A j \in 1..Len(want) : want[j] \in {"FREE", Case.written[j]} THEN "conforms"
               ELSE "expected written forms " \o ToString(want)

(* A text that is no sentence declares nothing (other modules judge that)   *)
Stop == /\ verdict = "reading"
        /\ IF cursor = Len(Kinds) THEN TRUE ELSE Stepped = {}
        /\ verdict' = IF cursor < Len(Kinds) \/ Ended = {} THEN "conforms"
                      ELSE IF Cardinality(Ended) > 1 THEN "the specification is ambiguous"
                      ELSE LET ct == Contract(Tree(CHOOSE evs \in Ended : TRUE)) IN Judge(ct)
        /\ UNCHANGED <<caseNo, cursor, readings>>

Done == verdict # "reading" /\ UNCHANGED vars
Next == Read \/ Stop \/ Done
Spec == Init /\ [][Next]_vars

Conforms == verdict \in {"reading", "conforms"}
=============================================================================
