-------------------------------- MODULE Calls --------------------------------
(* Every call of the parser returns: with a contract, or with an error of a  *)
(* kind its entry point may give. A case is a recorded sequence of events    *)
(*   <<"call", number, entry>>    entry: string, file, unreadable file       *)
(*   <<"return", number, kind>>   kind: ok, parse, visit, io, utf8; anything *)
(* else (panic, abort, hang) is no return.                                   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Kinds(entry) == CASE entry = "string" -> {"ok", "parse", "visit"}
                  [] entry = "file" -> {"ok", "parse", "visit"}
                  [] entry = "unreadable" -> {"io"}

VARIABLES caseNo, cursor, open, verdict
vars == <<caseNo, cursor, open, verdict>>
Events == Cases[caseNo].events

Init == /\ caseNo \in 1..Len(Cases) /\ cursor = 0 /\ open = <<>> /\ verdict = "going on"
MayCall(ev) == ev[1] = "call" /\ open = <<>>
MayReturn(ev) == ev[1] = "return" /\ IF open = <<>> THEN FALSE ELSE open[1] = ev[2] /\ ev[3] \in Kinds(open[2])
Step == /\ verdict = "going on" /\ cursor < Len(Events)
        /\ LET ev == Events[cursor + 1]
           IN IF MayCall(ev) THEN open' = <<ev[2], ev[3]>> /\ UNCHANGED verdict
              ELSE IF MayReturn(ev) THEN open' = <<>> /\ UNCHANGED verdict
              ELSE verdict' = "call " \o ToString(cursor \div 2) \o " does not return a contract or an error: " \o ev[3]
                   /\ UNCHANGED open
        /\ cursor' = cursor + 1
        /\ UNCHANGED caseNo
Stop == /\ verdict = "going on" /\ cursor = Len(Events)
        /\ verdict' = IF open = <<>> THEN "conforms" ELSE "a call did not return"
        /\ UNCHANGED <<caseNo, cursor, open>>
Done == verdict # "going on" /\ UNCHANGED vars
Next == Step \/ Stop \/ Done
Spec == Init /\ [][Next]_vars
Conforms == verdict \in {"going on", "conforms"}
=============================================================================
