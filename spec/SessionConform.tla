---------------------------- MODULE SessionConform ----------------------------
(* Replays a recorded life of the real parser: after every parse the result  *)
(* must be the one of the text that is parsed. A case holds the operations,  *)
(* expect: for every text the number of the result a fresh process gives,    *)
(* bad: the texts that are not UTF-8, and got: per operation the results     *)
(* seen, <<text or name, number of the result>> (0: an I/O error), and       *)
(* whether any file changed meanwhile.                                       *)
EXTENDS Session, Integers, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES caseNo, cursor, fs, verdict
vars == <<caseNo, cursor, fs, verdict>>
Case == Cases[caseNo]
Bad == {Case.bad[j] : j \in 1..Len(Case.bad)}

Init == /\ caseNo \in 1..Len(Cases)
        /\ cursor = 0
        /\ fs = [f \in 1..Case.names |-> None]
        /\ verdict = "going on"

Wanted(k) == IF k = 0 THEN 0 ELSE Case.expect[k]
OfName(f) == Wanted(TextOf(fs, f, Bad))

Judge(op, got) ==
  CASE ~Possible(fs, op) -> "the operation cannot be done"
    [] op[1] \in {"parse", "files"} ->
         CASE got.changed # "same" -> "a file changed while parsing"
           [] \E j \in 1..Len(got.results) : got.results[j][2] # OfName(got.results[j][1]) ->
                "not the result of what the file holds: expected results " \o
                ToString([j \in 1..Len(got.results) |-> OfName(got.results[j][1])])
           [] got.results = <<>> -> "no result"
           [] OTHER -> "going on"
    [] op[1] \in {"string", "strings", "laps", "storm"} ->
         CASE got.changed # "same" -> "a file changed while parsing"
           [] \E j \in 1..Len(got.results) : got.results[j][2] # Wanted(got.results[j][1]) ->
                "not the result of the text: expected results " \o
                ToString([j \in 1..Len(got.results) |-> Wanted(got.results[j][1])])
           [] got.results = <<>> -> "no result"
           [] OTHER -> "going on"
    [] OTHER -> "going on"

Step == /\ verdict = "going on"
        /\ cursor < Len(Case.ops)
        /\ verdict' = Judge(Case.ops[cursor + 1], Case.got[cursor + 1])
        /\ fs' = IF verdict' = "going on" THEN Done(fs, Case.ops[cursor + 1]) ELSE fs
        /\ cursor' = cursor + 1
        /\ UNCHANGED caseNo
Stop == /\ verdict = "going on"
        /\ cursor = Len(Case.ops)
        /\ verdict' = IF Case.stable = "yes" THEN "conforms" ELSE "a result returned earlier changed"
        /\ UNCHANGED <<caseNo, cursor, fs>>
Rest == verdict # "going on" /\ UNCHANGED vars
Next == Step \/ Stop \/ Rest
Spec == Init /\ [][Next]_vars
Conforms == verdict \in {"going on", "conforms"}
=============================================================================
