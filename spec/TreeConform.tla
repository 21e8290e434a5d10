----------------------------- MODULE TreeConform -----------------------------
(* Decides, token by token, whether a recorded syntax tree is the derivation *)
(* of the text.  A case holds the tokens of a text (kinds, texts, positions) *)
(* and the tree the parser built, as the sequence of its events in source    *)
(* order: <<"o", kind, span>>, <<"l", text, span>>, <<"c", "", span>>.       *)
(* The state is the set of readings <<events matched, stack>> still possible *)
EXTENDS Reader, Integers, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
CheckSpans == IOEnv.CHECK_SPANS = "yes"
CheckLeaves == IOEnv.CHECK_SPANS = "no"
Table == LeadTable(TreeGrammar)

VARIABLES caseNo, cursor, readings, verdict
vars == <<caseNo, cursor, readings, verdict>>

Case == Cases[caseNo]
Kinds == Case.kinds

(* The span of an event: start in 3..5, end in 6..8; of a token: 1..3, 4..6 *)
StartsAt(ev, tok) == CheckSpans /\ ev[3] # -1 =>
   Case.pos[tok][1] = ev[3] /\ Case.pos[tok][2] = ev[4] /\ Case.pos[tok][3] = ev[5]
EndsAt(ev, tok) == CheckSpans /\ ev[6] # -1 =>
   Case.pos[tok][4] = ev[6] /\ Case.pos[tok][5] = ev[7] /\ Case.pos[tok][6] = ev[8]

(* One mark against one event, after done tokens *)
MarkFits(m, ev, done) ==
  CASE m[1] \in {"o", "u"} -> ev[1] = "o" /\ ev[2] = m[2] /\ StartsAt(ev, done + 1)
    [] m[1] = "c" -> ev[1] = "c" /\ EndsAt(ev, done)
    [] m[1] = "y" -> ev[1] = "l" /\ (CheckLeaves => ev[2] = m[2])

MarksFit(marks, at, done) ==
  /\ at + Len(marks) <= Len(Case.ast)
  /\ \A j \in 1..Len(marks) : MarkFits(marks[j], Case.ast[at + j], done)

LeafFits(at, tok) ==
  /\ at < Len(Case.ast)
  /\ LET ev == Case.ast[at + 1]
     IN ev[1] = "l" /\ (CheckLeaves => ev[2] = Case.texts[tok]) /\ StartsAt(ev, tok) /\ EndsAt(ev, tok)

Steps(rd, tok) ==
  {<<rd[1] + Len(d.mark) + (IF d.leaf THEN 1 ELSE 0), d.rest>> :
     d \in {e \in Reads(Table, rd[2], Kinds[tok]) :
              /\ MarksFit(e.mark, rd[1], tok - 1)
              /\ e.leaf => LeafFits(rd[1] + Len(e.mark), tok)}}

Stepped == UNION {Steps(rd, cursor + 1) : rd \in readings}

(* The marks left on a stack from which nothing more needs to be read *)
Trailing(stack) == SelectSeq(stack, IsMark)
Complete(rd) == /\ CanStop(rd[2])
                /\ MarksFit(Trailing(rd[2]), rd[1], cursor)
                /\ rd[1] + Len(Trailing(rd[2])) = Len(Case.ast)

Init == /\ caseNo \in 1..Len(Cases)
        /\ cursor = 0
        /\ readings = {<<0, <<n(Cases[caseNo].entry)>>>>}
        /\ verdict = "reading"

Read == /\ verdict = "reading"
        /\ cursor < Len(Kinds)
        /\ Stepped # {}
        /\ readings' = Stepped
        /\ cursor' = cursor + 1
        /\ UNCHANGED <<caseNo, verdict>>

Stop == /\ verdict = "reading"
        /\ IF cursor = Len(Kinds) THEN TRUE ELSE Stepped = {}
        /\ verdict' = IF cursor = Len(Kinds) /\ \E rd \in readings : Complete(rd)
                      THEN "conforms"
                      ELSE "the tree is not the derivation of the text"
        /\ UNCHANGED <<caseNo, cursor, readings>>

Done == verdict # "reading" /\ UNCHANGED vars
Next == Read \/ Stop \/ Done
Spec == Init /\ [][Next]_vars

Conforms == verdict \in {"reading", "conforms"}
=============================================================================
