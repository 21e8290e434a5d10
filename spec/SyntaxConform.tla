---------------------------- MODULE SyntaxConform ----------------------------
(* Decides, token by token, whether a recorded parse ended as the grammar   *)
(* demands.  The state is the reader's: the case, the number of tokens read *)
(* and the set of all stacks that are still possible.  A case holds the     *)
(* token kinds and positions of a text and what the parser answered.        *)
EXTENDS Reader, Integers, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
CheckError == IOEnv.CHECK_ERROR = "yes"
Table == LeadTable(TextGrammar)

VARIABLES caseNo, cursor, stacks, verdict
vars == <<caseNo, cursor, stacks, verdict>>

Case == Cases[caseNo]
Kinds == Case.kinds
ToSetOf(sq) == {sq[j] : j \in 1..Len(sq)}

Init == /\ caseNo \in 1..Len(Cases)
        /\ cursor = 0
        /\ stacks = {<<n(Cases[caseNo].entry)>>}
        /\ verdict = "reading"

Shifted == ShiftAll(Table, stacks, Kinds[cursor + 1])

Read == /\ verdict = "reading"
        /\ cursor < Len(Kinds)
        /\ Shifted # {}
        /\ stacks' = Shifted
        /\ cursor' = cursor + 1
        /\ UNCHANGED <<caseNo, verdict>>

(* Where the error must be reported: at the first token that cannot be      *)
(* read, or at the end of the last token when the text ends too early.      *)
ErrorIsExact ==
  /\ IF cursor < Len(Kinds)
     THEN /\ Case.at = "token"
          /\ Case.etok[1] = Kinds[cursor + 1]
          /\ \A j \in 1..6 : Case.etok[j + 1] = Case.pos[cursor + 1][j]
     ELSE /\ Case.at = "end"
          /\ IF cursor = 0 THEN \A j \in 1..3 : Case.etok[j + 1] = 0
             ELSE \A j \in 1..3 : Case.etok[j + 1] = Case.pos[cursor][j + 3]
  \* Not every possible kind is listed: a generated parser may have done
  \* reductions that leave some of them behind before it meets the error.
  /\ ToSetOf(Case.exp) \subseteq NextOf(Table, stacks)
  /\ Case.exp = <<>> => NextOf(Table, stacks) = {}

Stop == /\ verdict = "reading"
        /\ IF cursor = Len(Kinds) THEN TRUE ELSE Shifted = {}
        /\ verdict' =
             LET legal == cursor = Len(Kinds) /\ MayStop(stacks)
             IN  CASE Case.res \notin {"ok", "err"} -> "no answer"
                   [] legal /\ Case.res = "err" -> "a legal text was refused"
                   [] ~legal /\ Case.res = "ok" -> "an illegal text was accepted"
                   [] ~legal /\ CheckError /\ ~ErrorIsExact ->
                        "the error is not at the first offending token, or lists others than " \o ToString(NextOf(Table, stacks))
                   [] OTHER -> "conforms"
        /\ UNCHANGED <<caseNo, cursor, stacks>>

Done == verdict # "reading" /\ UNCHANGED vars
Next == Read \/ Stop \/ Done
Spec == Init /\ [][Next]_vars

Conforms == verdict \in {"reading", "conforms"}
=============================================================================
