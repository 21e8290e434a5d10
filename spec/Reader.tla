------------------------------- MODULE Reader -------------------------------
(* Reading a token sequence by a grammar.  A stack is the sequence of items *)
(* still to be read.  Lead(G)[N] is the set of all ways in which a phrase   *)
(* of N can begin: [mark |-> the marks passed, tok |-> the terminal read,   *)
(* leaf |-> whether its text is a leaf, rest |-> what is left of N].        *)
EXTENDS Grammar, TLC

Nullable(it) == it[1] \in {"q", "s", "o", "u", "c", "y", "w"}

(* The leads of a sequence of items, given the leads T[N] of nonterminals.  *)
(* (Recursive functions, not RECURSIVE operators: TLC takes a definition    *)
(* that uses the latter for non-constant and computes it anew at every use) *)
LeadSeq(T, seq) ==
  LET tail(j) == SubSeq(seq, j + 1, Len(seq))
      f[j \in 1..Len(seq) + 1] ==
        IF j > Len(seq) THEN {}
        ELSE LET it == seq[j]
                 sub(more) == {[d EXCEPT !.rest = @ \o more] : d \in T[it[2]]}
             IN CASE it[1] = "t" -> {[mark |-> <<>>, tok |-> it[2], leaf |-> FALSE, rest |-> tail(j)]}
                  [] it[1] = "l" -> {[mark |-> <<>>, tok |-> it[2], leaf |-> TRUE, rest |-> tail(j)]}
                  [] it[1] = "n" -> sub(tail(j))
                  [] it[1] = "p" -> sub(<<[it EXCEPT ![1] = "s"]>> \o tail(j))
                  [] it[1] = "q" -> sub(tail(j)) \cup f[j + 1]
                  [] it[1] = "s" -> sub(<<it>> \o tail(j)) \cup f[j + 1]
                  [] OTHER       -> {[d EXCEPT !.mark = <<it>> \o @] : d \in f[j + 1]}
  IN f[1]

LeadStep(G, T) ==
  TLCEval([N \in DOMAIN G |-> UNION {LeadSeq(T, G[N][k]) : k \in 1..Len(G[N])}])

(* No chain of first nonterminals is longer than this *)
LeadDepth == 12
Leads(G) == LET f[k \in 0..LeadDepth] == IF k = 0 THEN [N \in DOMAIN G |-> {}]
                                          ELSE LeadStep(G, f[k - 1])
            IN f[LeadDepth]

(* ... indexed by nonterminal and terminal *)
LeadTable(G) ==
  LET L == TLCEval(Leads(G))
  IN  TLCEval([N \in DOMAIN G |->
         TLCEval([x \in {d.tok : d \in L[N]} |-> TLCEval({d \in L[N] : d.tok = x})])])

(* All ways to read the terminal x off a stack, given the lead table T *)
RECURSIVE Reads(_, _, _)
Reads(T, stack, x) ==
  IF stack = <<>> THEN {}
  ELSE LET it == Head(stack)
           tl == Tail(stack)
           sub(more) == IF x \in DOMAIN T[it[2]]
                        THEN {[d EXCEPT !.rest = @ \o more] : d \in T[it[2]][x]}
                        ELSE {}
       IN CASE it[1] = "t" -> IF it[2] = x THEN {[mark |-> <<>>, tok |-> x, leaf |-> FALSE, rest |-> tl]} ELSE {}
            [] it[1] = "l" -> IF it[2] = x THEN {[mark |-> <<>>, tok |-> x, leaf |-> TRUE, rest |-> tl]} ELSE {}
            [] it[1] = "n" -> sub(tl)
            [] it[1] = "p" -> sub(<<[it EXCEPT ![1] = "s"]>> \o tl)
            [] it[1] = "q" -> sub(tl) \cup Reads(T, tl, x)
            [] it[1] = "s" -> sub(<<it>> \o tl) \cup Reads(T, tl, x)
            [] OTHER       -> {[d EXCEPT !.mark = <<it>> \o @] : d \in Reads(T, tl, x)}

(* Terminals that can be read next off a stack *)
RECURSIVE Firsts(_, _)
Firsts(T, stack) ==
  IF stack = <<>> THEN {}
  ELSE LET it == Head(stack)
           own == CASE it[1] \in {"t", "l"} -> {it[2]}
                    [] it[1] \in {"n", "p", "q", "s"} -> DOMAIN T[it[2]]
                    [] OTHER -> {}
       IN own \cup (IF Nullable(it) THEN Firsts(T, Tail(stack)) ELSE {})

(* Nothing more needs to be read *)
RECURSIVE CanStop(_)
CanStop(stack) == stack = <<>> \/ (Nullable(Head(stack)) /\ CanStop(Tail(stack)))

----------------------------------------------------------------------------
(* Reading as a set of stacks: every stack that is still possible *)
ShiftAll(T, stacks, x) == UNION {{d.rest : d \in Reads(T, st, x)} : st \in stacks}
NextOf(T, stacks) == UNION {Firsts(T, st) : st \in stacks}
MayStop(stacks) == \E st \in stacks : CanStop(st)
=============================================================================
