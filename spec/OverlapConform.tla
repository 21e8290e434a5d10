---------------------------- MODULE OverlapConform ----------------------------
(* Replays a recorded course of concurrent calls: it must be one of Overlap, *)
(* and every call must end with the result of its text. A case holds the     *)
(* number of threads, the events <<what, thread, text, number of the         *)
(* result>> and expect: per text the number of the result a fresh process    *)
(* gives.                                                                    *)
EXTENDS Overlap, Integers, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES caseNo, cursor, threads, verdict
vars == <<caseNo, cursor, threads, verdict>>
Case == Cases[caseNo]

Init == /\ caseNo \in 1..Len(Cases)
        /\ cursor = 0
        /\ threads = [j \in 1..Case.threads |-> Idle]
        /\ verdict = "going on"

Step == /\ verdict = "going on"
        /\ cursor < Len(Case.events)
        /\ LET ev == Case.events[cursor + 1]
           IN IF ~MayHappen(threads, ev) THEN verdict' = "no course of calls" /\ UNCHANGED threads
              ELSE IF ev[1] = "end" /\ ev[4] # Case.expect[ev[3]]
                   THEN /\ verdict' = "not the result of the text: expected result " \o ToString(Case.expect[ev[3]])
                        /\ UNCHANGED threads
              ELSE verdict' = verdict /\ threads' = Happened(threads, ev)
        /\ cursor' = cursor + 1
        /\ UNCHANGED caseNo
Stop == /\ verdict = "going on"
        /\ cursor = Len(Case.events)
        /\ verdict' = IF ~AllIdle(threads) THEN "a call did not end"
                      ELSE IF Case.stable = "yes" THEN "conforms" ELSE "a result returned earlier changed"
        /\ UNCHANGED <<caseNo, cursor, threads>>
Rest == verdict # "going on" /\ UNCHANGED vars
Next == Step \/ Stop \/ Rest
Spec == Init /\ [][Next]_vars
Conforms == verdict \in {"going on", "conforms"}
=============================================================================
