------------------------------- MODULE Shapes -------------------------------
(* All shapes of every production: each alternative with every number of    *)
(* its repetitions and options, where what is nested is as short as can be, *)
(* or has, in one place, a shape of its own; and a shortest contract around *)
(* a phrase of each nonterminal.                                            *)
EXTENDS Reader, Integers

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

(* A shortest phrase of every nonterminal, by its first alternative *)
MinItem(M, it) == CASE it[1] \in {"t", "l"} -> <<it[2]>>
                    [] it[1] \in {"n", "p"} -> M[it[2]]
                    [] OTHER -> <<>>
MinSeq(M, seq) == LET f[j \in 1..Len(seq) + 1] ==
                        IF j > Len(seq) THEN <<>> ELSE MinItem(M, seq[j]) \o f[j + 1]
                  IN f[1]
MinStep(M) == TLCEval([N \in DOMAIN TextGrammar |-> MinSeq(M, TextGrammar[N][1])])
Shortest == LET f[d \in 0..12] == IF d = 0 THEN [N \in DOMAIN TextGrammar |-> <<>>]
                                  ELSE MinStep(f[d - 1])
            IN TLCEval(f[12])

Times(it) == CASE it[1] = "q" -> 0..1 [] it[1] = "s" -> 0..2 [] it[1] = "p" -> 1..3 [] OTHER -> {1}
Copies(w, k) == LET f[j \in 0..3] == IF j = 0 THEN <<>> ELSE f[j - 1] \o w IN f[k]
Once(it) == IF it[1] \in {"t", "l"} THEN <<it[2]>> ELSE Shortest[it[2]]

(* An alternative with all numbers of its parts *)
Plain(alt) == LET f[j \in 1..Len(alt) + 1] ==
                    IF j > Len(alt) THEN {<<>>}
                    ELSE {Copies(Once(alt[j]), k) \o rest : k \in Times(alt[j]), rest \in f[j + 1]}
              IN f[1]
(* ... with a given phrase as one of its parts, the others there once, or left out where they can be *)
Full(seq)  == LET f[j \in 1..Len(seq) + 1] == IF j > Len(seq) THEN <<>> ELSE Once(seq[j]) \o f[j + 1] IN f[1]
Before(alt, j) == SubSeq(alt, 1, j - 1)
After(alt, j)  == SubSeq(alt, j + 1, Len(alt))
Among(alt, j, W) ==
  {Full(Before(alt, j)) \o w \o Full(After(alt, j)) : w \in W}
  \cup {MinSeq(Shortest, Before(alt, j)) \o w \o MinSeq(Shortest, After(alt, j)) : w \in W}
  \cup (IF alt[j][1] \in {"s", "p"}
        THEN {Full(Before(alt, j)) \o Once(alt[j]) \o w \o MinSeq(Shortest, After(alt, j)) : w \in W}
        ELSE {})
Nested(V, alt) == UNION {Among(alt, j, V[alt[j][2]]) : j \in {i \in 1..Len(alt) : alt[i][1] \notin {"t", "l"}}}

IsUnit(alt) == IF Len(alt) = 1 THEN alt[1][1] = "n" ELSE FALSE
ShapeOwn(V) ==
  TLCEval([N \in DOMAIN TextGrammar |->
    V[N] \cup UNION {IF IsUnit(TextGrammar[N][k]) THEN {} ELSE Plain(TextGrammar[N][k]) \cup Nested(V, TextGrammar[N][k])
                       : k \in 1..Len(TextGrammar[N])}])
(* ... of alternatives that are but another nonterminal *)
ShapeLift(W) ==
  TLCEval([N \in DOMAIN TextGrammar |->
    W[N] \cup UNION {IF IsUnit(TextGrammar[N][k]) THEN W[TextGrammar[N][k][1][2]] ELSE {}
                       : k \in 1..Len(TextGrammar[N])}])
(* Stage 5k is depth k; the others are steps of ShapeLift *)
ShapesUpTo(depth) ==
  LET f[d \in 0..(5 * depth)] ==
        IF d = 0 THEN TLCEval([N \in DOMAIN TextGrammar |-> {Shortest[N]}])
        ELSE IF d % 5 = 1 THEN ShapeOwn(f[d - 1])
        ELSE ShapeLift(f[d - 1])
  IN TLCEval(f[5 * depth])

(* A shortest text before and after, for every nonterminal that occurs in a contract *)
Places(M) == {<<N, k, j>> \in (DOMAIN TextGrammar) \X (1..16) \X (1..12) :
                IF k > Len(TextGrammar[N]) THEN FALSE
                ELSE IF j > Len(TextGrammar[N][k]) THEN FALSE
                ELSE TextGrammar[N][k][j][1] \notin {"t", "l"} /\ TextGrammar[N][k][j][2] = M}
PlacesOf == TLCEval([M \in DOMAIN TextGrammar |-> TLCEval(Places(M))])
AroundStep(C) ==
  TLCEval([M \in DOMAIN TextGrammar |->
    IF C[M] # <<>> THEN C[M]
    ELSE LET cand == {<<C[q3[1]][1] \o MinSeq(Shortest, Before(TextGrammar[q3[1]][q3[2]], q3[3])),
                        MinSeq(Shortest, After(TextGrammar[q3[1]][q3[2]], q3[3])) \o C[q3[1]][2]>>
                       : q3 \in {r3 \in PlacesOf[M] : C[r3[1]] # <<>>}}
         IN IF cand = {} THEN <<>>
            ELSE CHOOSE a \in cand : \A b \in cand : Len(a[1]) + Len(a[2]) <= Len(b[1]) + Len(b[2])])
Around == LET f[d \in 0..14] == IF d = 0 THEN TLCEval([M \in DOMAIN TextGrammar |-> IF M = "Program" THEN <<<<>>, <<>>>> ELSE <<>>])
                                ELSE AroundStep(f[d - 1])
          IN TLCEval(f[14])
Wrapped(N, w) == Around[N][1] \o w \o Around[N][2]
=============================================================================
