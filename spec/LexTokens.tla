------------------------------ MODULE LexTokens ------------------------------
(* Cuts texts into tokens by the lexical rules and prints them, for use as   *)
(* the tokens of the other specifications (independently of the real lexer). *)
EXTENDS Lexer, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES caseNo, here, place, count
vars == <<caseNo, here, place, count>>
Text == Cases[caseNo].cps

Init == /\ caseNo \in 1..Len(Cases)
        /\ here = 1
        /\ place = Start
        /\ count = 0

Token(at) ==
  LET tk   == TokenAt(Text, at)
      from == Advance(Text, place, here, at)
      to   == Advance(Text, from, at, tk.stop)
  IN  /\ here' = tk.next
      /\ place' = Advance(Text, to, tk.stop, tk.next)
      /\ count' = count + 1
      /\ PrintT("TOK " \o ToJson(<<caseNo, count, tk.kind, at, tk.stop, from.byte, from.line,
                                   from.col, to.byte, to.line, to.col>>))
      /\ UNCHANGED caseNo

Next == LET at == GapEnd(Text, here)
        IN  IF at > Len(Text) THEN UNCHANGED vars ELSE Token(at)
Spec == Init /\ [][Next]_vars
=============================================================================
