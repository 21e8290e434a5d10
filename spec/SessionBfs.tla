------------------------------ MODULE SessionBfs ------------------------------
(* All short histories, told apart by what the files hold, what was last     *)
(* parsed through each name and what was parsed last: TLC prints for each a  *)
(* shortest history that leads there and the operations that may follow.     *)
EXTENDS Session, Integers, TLC, Json, FiniteSets

CONSTANTS NameCount, TextCount, BadCount

NameSet == 1..NameCount
TextSet == 1..TextCount
Unreadable == (TextCount - BadCount + 1)..TextCount
Readable == TextSet \ Unreadable

VARIABLES fs, seen, latest, history
vars == <<fs, seen, latest, history>>
Ops == {op \in Operations(NameSet, TextSet) : op[1] = "string" => op[3] \in Readable}

Init == /\ fs = [f \in NameSet |-> None]
        /\ seen = [f \in NameSet |-> -1]
        /\ latest = -1
        /\ history = <<>>
Next == \E op \in {x \in Ops : Possible(fs, x)} :
          LET got == TextOf(fs, op[2], Unreadable)
          IN /\ fs' = Done(fs, op)
             /\ seen' = IF op[1] = "parse" THEN [seen EXCEPT ![op[2]] = got] ELSE seen
             /\ latest' = IF op[1] = "parse" THEN got ELSE IF op[1] = "string" THEN op[3] ELSE latest
             /\ history' = Append(history, op)
Spec == Init /\ [][Next]_vars
Look == <<fs, seen, latest>>

(* What is parsed is what the name holds now, or nothing *)
Fresh == \A f \in NameSet : LET k == TextOf(fs, f, Unreadable)
                            IN IF k = 0 THEN Held(fs, f) \notin {<<"text", r>> : r \in Readable} ELSE Held(fs, f) = <<"text", k>>
Report == PrintT("HIS " \o ToJson([history |-> history, after |-> {x \in Ops : Possible(fs, x)}]))
=============================================================================
