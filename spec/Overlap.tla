------------------------------- MODULE Overlap -------------------------------
(* Calls of the parser by several threads, which may be suspended anywhere   *)
(* in the middle of a call and go on later. A thread is <<"idle">>,          *)
(* <<"running", text>> or <<"paused", text>>. The result of a call is that   *)
(* of its text, whatever the other threads did meanwhile.                    *)
(*                                                                           *)
(* An event is <<what, thread, text, ...>>: begin, pause, resume, end.       *)
EXTENDS Naturals, Sequences

Idle == <<"idle">>
Is(th, what) == th[1] = what

MayHappen(ths, ev) ==
  LET th == ths[ev[2]]
  IN CASE ev[1] = "begin" -> th = Idle
       [] ev[1] = "pause" -> Is(th, "running")
       [] ev[1] = "resume" -> Is(th, "paused")
       [] ev[1] = "end" -> IF Is(th, "running") THEN th[2] = ev[3] ELSE FALSE

Happened(ths, ev) ==
  [ths EXCEPT ![ev[2]] = CASE ev[1] = "begin" -> <<"running", ev[3]>>
                           [] ev[1] = "pause" -> <<"paused", @[2]>>
                           [] ev[1] = "resume" -> <<"running", @[2]>>
                           [] ev[1] = "end" -> Idle]
AllIdle(ths) == \A j \in DOMAIN ths : ths[j] = Idle
=============================================================================
