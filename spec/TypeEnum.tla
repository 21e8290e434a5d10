------------------------------ MODULE TypeEnum ------------------------------
(* Every type a declaration can have, up to a number of tokens (texts of    *)
(* names rotate through their pools).                                       *)
EXTENDS Kinded, Leaves, TLC, Json, IOUtils, Integers

MaxTokens == atoi(IOEnv.MAXTOKENS)
Salt == atoi(IOEnv.SALT)
Rules == TLCEval([x \in DOMAIN KindedTypes |-> KindedTypes[x]])

VARIABLES todo, made
vars == <<todo, made>>
Init == todo = <<n("KType")>> /\ made = <<>>

Nth(pool) == pool[1 + ((Salt + Len(made) * 3 + Len(todo) * 5 + Len(pool)) % Len(pool))]
Emit(kind, text) == made' = Append(made, <<kind, text>>) /\ todo' = Tail(todo)
Put(items) == todo' = items \o Tail(todo) /\ UNCHANGED made

(* Atoms: one representative of every kind, so that structure is exhaustive *)
Step ==
  /\ todo # <<>>
  /\ LET it == Head(todo)
     IN CASE it[1] = "t" -> Emit(it[2], it[2])
          [] it[1] = "l" -> Emit(it[2], Nth(Pools[it[2]]))
          [] it[1] = "g" -> Emit(it[2][1], Nth(Pools[it[2][2]]))
          [] it[1] = "n" -> \E k \in 1..Len(Rules[it[2]]) : Put(Rules[it[2]][k])
          [] it[1] \in {"q", "s"} -> Put(<<>>) \/ Put(<<n(it[2])>>)
  /\ Len(made') + Len(SelectSeq(todo', LAMBDA it : it[1] \notin {"q", "s"})) <= MaxTokens
Next == Step
Spec == Init /\ [][Next]_vars
Report == todo = <<>> => PrintT("TYP " \o ToJson(made))
=============================================================================
