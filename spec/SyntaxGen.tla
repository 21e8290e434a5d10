------------------------------ MODULE SyntaxGen ------------------------------
(* Sentences of the language, by leftmost derivation with reproducible      *)
(* choices.  Every run is one chain of states; its sentence is printed when *)
(* the stack is empty.                                                      *)
EXTENDS Kinded, Leaves, Chance, TLC, Json, IOUtils, Integers

EnvNum(x) == atoi(x)
Runs == EnvNum(IOEnv.RUNS)
Salt == EnvNum(IOEnv.SALT)
Entry == IOEnv.ENTRY
Budget == EnvNum(IOEnv.BUDGET)      \* tokens after which only shortest phrases are derived
DepthLimit == EnvNum(IOEnv.DEPTH)   \* items on the stack after which the same holds
Repeat == EnvNum(IOEnv.REPEAT)      \* of ten chances, those to go on with a repetition
Rules == IF IOEnv.KINDED = "yes" THEN KindedGrammar ELSE TextGrammar
Table == TLCEval([x \in DOMAIN Rules |-> Rules[x]])

VARIABLES runNo, sd, todo, made
vars == <<runNo, sd, todo, made>>

Init == /\ runNo \in 1..Runs
        /\ sd = NextSeed(NextSeed(NextSeed(SeedOf(runNo, Salt))))
        /\ todo = <<n(Entry)>>
        /\ made = <<>>

Tight == Len(made) > Budget \/ Len(todo) > DepthLimit
Emit(kind, text) == made' = Append(made, <<kind, text>>) /\ todo' = Tail(todo)
Replace(items) == todo' = items \o Tail(todo) /\ UNCHANGED made

Step ==
  /\ todo # <<>>
  /\ sd' = NextSeed(sd)
  /\ UNCHANGED runNo
  /\ LET it == Head(todo)
     IN CASE it[1] = "t" -> Emit(it[2], it[2])
          [] it[1] = "l" -> Emit(it[2], OneOf(sd, Pools[it[2]]))
          [] it[1] = "g" -> Emit(it[2][1], OneOf(sd, Pools[it[2][2]]))
          [] it[1] = "n" -> Replace(IF Tight THEN Table[it[2]][1] ELSE OneOf(sd, Table[it[2]]))
          [] it[1] = "p" -> Replace(<<n(it[2]), s(it[2])>>)
          [] it[1] = "q" -> Replace(IF Tight \/ Roll(sd, 2) = 1 THEN <<>> ELSE <<n(it[2])>>)
          [] it[1] = "s" -> Replace(IF Tight \/ Roll(sd, 10) > Repeat THEN <<>> ELSE <<n(it[2]), it>>)

Finished == todo = <<>> /\ UNCHANGED vars
Next == Step \/ Finished
Spec == Init /\ [][Next]_vars

Report == todo = <<>> => PrintT("SEN " \o ToJson(<<runNo, made>>))
=============================================================================
