------------------------------ MODULE OverlapGen ------------------------------
(* All schedules of a number of calls by a number of threads, each of which  *)
(* is suspended a number of times at most. One thread runs at a time, so     *)
(* that every schedule can be forced upon real threads. The texts are those  *)
(* of the calls in the order in which they begin, thread 1 beginning first,  *)
(* thread 2 second of the threads, and so on.                                *)
EXTENDS Overlap, Integers, FiniteSets, TLC, Json

CONSTANTS ThreadCount, CallCount, PauseCount

ThreadSet == 1..ThreadCount
VARIABLES threads, begun, pauses, history
vars == <<threads, begun, pauses, history>>

Init == /\ threads = [j \in ThreadSet |-> Idle]
        /\ begun = 0
        /\ pauses = [j \in ThreadSet |-> 0]
        /\ history = <<>>
Busy == \E j \in ThreadSet : Is(threads[j], "running")
Used(j) == \E m \in DOMAIN history : history[m][2] = j
Possible(ev) ==
  /\ MayHappen(threads, ev)
  /\ CASE ev[1] = "begin" -> ~Busy /\ begun < CallCount /\ (ev[2] > 1 => Used(ev[2] - 1))
       [] ev[1] = "pause" -> pauses[ev[2]] < PauseCount
       [] ev[1] = "resume" -> ~Busy
       [] OTHER -> TRUE
\* a call that is suspended and goes on at once was not suspended
Idles(ev) == ev[1] = "resume" /\ history[Len(history)] = <<"pause", ev[2], 0>>
Events == UNION {{<<"begin", j, begun + 1>>, <<"pause", j, 0>>, <<"resume", j, 0>>,
                  <<"end", j, IF Is(threads[j], "running") THEN threads[j][2] ELSE 0>>} : j \in ThreadSet}
Next == \E ev \in Events :
          /\ IF Possible(ev) THEN ~Idles(ev) ELSE FALSE
          /\ threads' = Happened(threads, ev)
          /\ history' = Append(history, ev)
          /\ begun' = IF ev[1] = "begin" THEN begun + 1 ELSE begun
          /\ pauses' = [pauses EXCEPT ![ev[2]] = IF ev[1] = "begin" THEN 0 ELSE IF ev[1] = "pause" THEN @ + 1 ELSE @]
Spec == Init /\ [][Next]_vars
Whole == begun = CallCount /\ AllIdle(threads)
Report == Whole => PrintT("PLAN " \o ToJson(history))
OneRuns == Cardinality({j \in ThreadSet : Is(threads[j], "running")}) <= 1
=============================================================================
