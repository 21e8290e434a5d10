------------------------------ MODULE SessionGen ------------------------------
(* Random histories, biased towards a change between two parses of a name.   *)
EXTENDS Session, Chance, Integers, TLC, Json, IOUtils

Runs == atoi(IOEnv.RUNS)
Steps == atoi(IOEnv.STEPS)
Salt == atoi(IOEnv.SALT)
NameCount == 4
TextCount == 6
Readable == 5      \* the sixth is not UTF-8

VARIABLES runNo, seedNow, fs, history
vars == <<runNo, seedNow, fs, history>>

Init == /\ runNo \in 1..Runs
        /\ seedNow = SeedOf(runNo, Salt)
        /\ fs = [f \in 1..NameCount |-> None]
        /\ history = <<>>

Weights == <<"write", "write", "keep", "keep", "replace", "replace", "remove", "mkdir", "rename", "link",
             "parse", "parse", "parse", "parse", "parse", "parse", "parse", "string", "string", "strings", "files">>
Walk == LET f[j \in 0..6] == IF j = 0 THEN seedNow ELSE NextSeed(f[j - 1]) IN TLCEval(f)
Drawn == LET w == OneOf(Walk[1], Weights)
             f == Roll(Walk[2], NameCount)
         IN CASE w \in {"write", "keep", "replace"} -> <<w, f, Roll(Walk[3], TextCount)>>
              [] w \in {"remove", "mkdir", "parse", "files"} -> <<w, f, 0>>
              [] w \in {"string", "strings"} -> <<w, 1, Roll(Walk[3], Readable)>>
              [] OTHER -> <<w, f, Roll(Walk[3], NameCount)>>
Step == /\ Len(history) < Steps
        /\ seedNow' = Walk[4]
        /\ IF Possible(fs, Drawn)
           THEN fs' = Done(fs, Drawn) /\ history' = Append(history, Drawn)
           ELSE fs' = fs /\ history' = Append(history, <<"parse", Drawn[2], 0>>)
        /\ UNCHANGED runNo
Finish == Len(history) = Steps /\ UNCHANGED vars
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Report == Len(history) = Steps => PrintT("HIS " \o ToJson(<<runNo, history>>))
=============================================================================
