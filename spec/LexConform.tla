----------------------------- MODULE LexConform -----------------------------
(* Decides, token by token, whether a recorded token sequence is the one the *)
(* lexical rules give for the text.  One step reads one gap and one token.   *)
EXTENDS Lexer, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
CheckPositions == IOEnv.CHECK_POSITIONS = "yes"

VARIABLES caseNo, here, place, count, verdict
vars == <<caseNo, here, place, count, verdict>>

Case == Cases[caseNo]
Text == Case.cps
Got == Case.toks          \* <<kind, text as carried, start 3, end 3>>

Init == /\ caseNo \in 1..Len(Cases)
        /\ here = 1
        /\ place = Start
        /\ count = 0
        /\ verdict = "reading"

SameAt(token, first, pl) ==
  /\ token[first] = pl.byte
  /\ CheckPositions => token[first + 1] = pl.line /\ token[first + 2] = pl.col

(* The recorded token against the token tk that begins at the character at *)
Matches(token, tk, at, from, to) ==
  /\ token[1] = tk.kind
  /\ SameAt(token, 3, from)
  /\ SameAt(token, 6, to)
  /\ (tk.kind # "unknown" => token[2] = SubSeq(Text, at, tk.stop - 1))

End == /\ verdict' = IF count = Len(Got) THEN "conforms" ELSE "expected no more tokens"
       /\ UNCHANGED <<caseNo, here, place, count>>

Token(at) ==
  LET tk   == TokenAt(Text, at)
      from == Advance(Text, place, here, at)
      to   == Advance(Text, from, at, tk.stop)
  IN  /\ IF count < Len(Got) /\ Matches(Got[count + 1], tk, at, from, to)
         THEN /\ here' = tk.next
              /\ place' = Advance(Text, to, tk.stop, tk.next)
              /\ count' = count + 1
              /\ UNCHANGED verdict
         ELSE /\ verdict' = "expected " \o ToString(<<tk, from, to>>)
              /\ UNCHANGED <<here, place, count>>
      /\ UNCHANGED caseNo

Step == /\ verdict = "reading"
        /\ LET at == GapEnd(Text, here)
           IN  IF at > Len(Text) THEN End ELSE Token(at)

Done == verdict # "reading" /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars

Conforms == verdict \in {"reading", "conforms"}
Classified == \A j \in 1..Len(Text) : Known(Text[j])
=============================================================================
