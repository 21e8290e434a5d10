--------------------------------- MODULE Pump ---------------------------------
(* The ways in which the grammar nests: for every place in every production  *)
(* that can lead back to its own nonterminal, a shortest way round. TLC      *)
(* prints for each the tokens before and after the inner phrase, a smallest  *)
(* inner phrase and a smallest contract around it, so that the construct     *)
(* can be nested to any depth; and for every repeatable item its repetition. *)
EXTENDS Reader, Integers, Json

MinItem(M, it) == CASE it[1] \in {"t", "l"} -> <<it[2]>>
                    [] it[1] \in {"n", "p"} -> M[it[2]]
                    [] OTHER -> <<>>
MinSeq(M, seq) == LET f[j \in 1..Len(seq) + 1] ==
                        IF j > Len(seq) THEN <<>> ELSE MinItem(M, seq[j]) \o f[j + 1]
                  IN f[1]
MinStep(M) == TLCEval([N \in DOMAIN TextGrammar |-> MinSeq(M, TextGrammar[N][1])])
Shortest == LET f[d \in 0..12] == IF d = 0 THEN [N \in DOMAIN TextGrammar |-> <<>>]
                                  ELSE MinStep(f[d - 1])
            IN TLCEval(f[12])

(* The places of the grammar: <<nonterminal, alternative, item>>             *)
Places == UNION {{<<N, a, j>> : j \in 1..Len(TextGrammar[N][a])} : <<N, a>> \in
                   UNION {{<<M, b>> : b \in 1..Len(TextGrammar[M])} : M \in DOMAIN TextGrammar}}
Inner == {pl \in Places : TextGrammar[pl[1]][pl[2]][pl[3]][1] \in {"n", "q", "s", "p"}}
ItemAt(pl) == TextGrammar[pl[1]][pl[2]][pl[3]]
Before(pl) == MinSeq(Shortest, SubSeq(TextGrammar[pl[1]][pl[2]], 1, pl[3] - 1))
Behind(pl) == LET alt == TextGrammar[pl[1]][pl[2]] IN MinSeq(Shortest, SubSeq(alt, pl[3] + 1, Len(alt)))
At(N) == {pl \in Inner : pl[1] = N}

(* here: the nonterminal reached; left and right: the tokens on the way      *)
VARIABLES goal, here, left, right
vars == <<goal, here, left, right>>

Init == \/ goal = <<>> /\ here = "Program" /\ left = <<>> /\ right = <<>>
        \/ goal = <<"type">> /\ here = "ScillaType" /\ left = <<>> /\ right = <<>>
        \/ \E pl \in Inner : /\ goal = pl
                             /\ here = ItemAt(pl)[2]
                             /\ left = Before(pl)
                             /\ right = Behind(pl)
Reached == Len(goal) = 3 /\ here = goal[1]
Next == /\ ~Reached
        /\ \E pl \in At(here) : /\ here' = ItemAt(pl)[2]
                                /\ left' = left \o Before(pl)
                                /\ right' = Behind(pl) \o right
        /\ UNCHANGED goal
Spec == Init /\ [][Next]_vars
Look == <<goal, here>>

Report ==
  CASE goal = <<>> -> PrintT("AROUND " \o ToJson([at |-> here, left |-> left, right |-> right,
          least |-> Shortest[here],
          lists |-> {[left |-> Before(pl), right |-> Behind(pl), item |-> Shortest[ItemAt(pl)[2]]] :
                       pl \in {x \in At(here) : ItemAt(x)[1] \in {"s", "p"}}}]))
    [] goal = <<"type">> -> PrintT("WITHIN " \o ToJson([at |-> here, left |-> left, right |-> right]))
    [] Reached -> PrintT("NEST " \o ToJson([at |-> here, left |-> left, right |-> right, place |-> goal]))
    [] OTHER -> TRUE
(* A way round that adds no token would make a phrase ambiguous              *)
Grows == Reached => Len(left) + Len(right) > 0
=============================================================================
