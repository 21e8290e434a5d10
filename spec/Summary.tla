------------------------------- MODULE Summary -------------------------------
(* What the text of a contract declares.  Of the derivation only the name   *)
(* of the contract, its parameters, fields and transitions, and their types *)
(* are kept: everything else is read by a muted copy of the grammar, whose  *)
(* nonterminals begin with "~".                                             *)
EXTENDS Reader, Integers

Muted == {"FullExpression", "ImportDeclarations", "LibraryDefinition", "WithConstraint",
          "ProcedureDefinition", "ComponentBody"}
Voiced == {"Program", "ContractDefinition", "ContractField", "ComponentDefinition",
           "TransitionDefinition", "ComponentParameters", "ParameterPairList", "NextParameterPair",
           "ParameterPair", "TypedIdentifier", "TypeAnnotation", "ComponentId", "ArrowTail"}
          \cup DOMAIN Types \cup DOMAIN Names
Refers(it) == it[1] \in {"n", "q", "s", "p"}
MuteItem(it) == IF Refers(it) THEN <<it[1], "~" \o it[2]>>
                ELSE IF it[1] = "l" THEN <<"t", it[2]>> ELSE it
VoiceItem(it) == IF Refers(it) /\ it[2] \in Muted THEN <<it[1], "~" \o it[2]>> ELSE it
MuteAll(sq) == [j \in 1..Len(sq) |-> MuteItem(sq[j])]
VoiceAll(sq) == [j \in 1..Len(sq) |-> VoiceItem(sq[j])]

MutedGrammar == [N \in DOMAIN TextGrammar |->
                   [k \in 1..Len(TextGrammar[N]) |-> MuteAll(TextGrammar[N][k])]]
VoicedGrammar == [N \in Voiced |->
                   [k \in 1..Len(DeclGrammar[N]) |-> VoiceAll(DeclGrammar[N][k])]]
SummaryGrammar ==
  [x \in Voiced \cup {"~" \o N : N \in DOMAIN TextGrammar} |->
     IF x \in Voiced THEN VoicedGrammar[x] ELSE MutedGrammar[SubSeq(x, 2, Len(x))]]

----------------------------------------------------------------------------
(* A node is [kind, kids]; a leaf is a node of kind "leaf" with its text.   *)
Leaf(text) == [kind |-> "leaf", text |-> text, kids |-> <<>>]
Inner(kind, kids) == [kind |-> kind, text |-> "", kids |-> kids]

Last1(sq) == sq[Len(sq)]
But(sq, m) == SubSeq(sq, 1, Len(sq) - m)
Grow(frames, nd) == Append(But(frames, 1), [Last1(frames) EXCEPT !.kids = Append(@, nd)])

(* The tree of a sequence of marks and leaves *)
RECURSIVE Plant(_, _, _)
Plant(evs, j, frames) ==
  IF j > Len(evs) THEN frames[1].kids[1]
  ELSE LET ev == evs[j]
           top == Last1(frames)
       IN Plant(evs, j + 1, TLCEval(
            CASE ev[1] \in {"o", "u"} -> Append(frames, Inner(ev[2], <<>>))
              [] ev[1] = "c" -> Grow(But(frames, 1), top)
              [] ev[1] \in {"l", "y"} -> Grow(frames, Leaf(ev[2]))
              [] ev[1] = "w" -> Append(But(frames, 1),
                     [top EXCEPT !.kids = Append(But(@, 2), Inner(ev[2], <<@[Len(@) - 1], Last1(@)>>))])))
Tree(evs) == TLCEval(Plant(evs, 1, <<Inner("root", <<>>)>>))

----------------------------------------------------------------------------
(* Types are <<constructor, text, arguments, fields>>.  Bad stands for a    *)
(* type that a declaration cannot have; Free for one that is not specified  *)
(* (a constructor with the wrong number of arguments, say).                 *)
Bad == <<"BAD", "", <<>>, <<>>>>
Free == <<"FREE", "", <<>>, <<>>>>
Ty(ctor, text, args) == <<ctor, text, args, <<>>>>
Plain == {"Int32", "Int64", "Int128", "Int256", "Uint32", "Uint64", "Uint128", "Uint256",
          "String", "BNum", "Bool", "ByStr", "ByStr20"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
At(text, j) == SubSeq(text, j, j)
Sized(text) == /\ Len(text) \in 6..14
               /\ SubSeq(text, 1, 5) = "ByStr"
               /\ \A j \in 6..Len(text) : At(text, j) \in Digits

(* The text of a type name *)
TypeName(nd) == CASE nd.kind = "TN.Id" -> nd.kids[1].text
                  [] nd.kind = "TN.ByStr" -> nd.kids[1].kids[1].text
                  [] nd.kind = "TN.Event" -> "Event"

IsBad(ty) == ty[1] = "BAD"
SomeBad(tys) == \E j \in 1..Len(tys) : IsBad(tys[j])

(* A name applied to arguments *)
Applied(nd, args) ==
  IF SomeBad(args) THEN Bad
  ELSE CASE nd.kind = "MI.ByStr" -> IF args = <<>> THEN Ty("ByStr", "", <<>>) ELSE Free
         [] nd.kind = "MI.Ns" -> IF args = <<>> THEN Ty("Other", TypeName(nd.kids[1]) \o "." \o TypeName(nd.kids[2]), <<>>) ELSE Free
         [] nd.kind = "MI.Hex" -> IF args = <<>> THEN Ty("Other", nd.kids[1].text \o "." \o TypeName(nd.kids[2]), <<>>) ELSE Free
         [] nd.kind = "MI" ->
              LET name == TypeName(nd.kids[1])
              IN CASE name \in {"List", "Option"} -> IF Len(args) = 1 THEN Ty(name, "", args) ELSE Free
                   [] name = "Pair" -> IF Len(args) = 2 THEN Ty(name, "", args) ELSE Free
                   [] args # <<>> -> Free
                   [] name \in Plain -> Ty(name, "", <<>>)
                   [] Sized(name) -> IF At(name, 6) = "0" THEN Free ELSE Ty("ByStrX", name, <<>>)
                   [] OTHER -> IF nd.kids[1].kind = "TN.ByStr" THEN Free ELSE Ty("Other", name, <<>>)

RECURSIVE TypeOf(_)
TypesOf(nds) == TLCEval([j \in 1..Len(nds) |-> TLCEval(TypeOf(nds[j]))])
MapOf(key, value) == LET ts == TLCEval(<<TypeOf(key), TypeOf(value)>>)
                     IN IF SomeBad(ts) THEN Bad ELSE Ty("Map", "", ts)
Address(nd) ==
  LET fields == SubSeq(nd.kids, 3, Len(nd.kids))
      named == TLCEval([j \in 1..Len(fields) |->
                  <<IF fields[j].kids[1].kind = "VI.Ns" THEN "FREE" ELSE fields[j].kids[1].kids[1].text,
                    TypeOf(fields[j].kids[2])>>])
  IN CASE \E j \in 1..Len(named) : IsBad(named[j][2]) -> Bad
       [] TypeName(nd.kids[1]) # "ByStr20" -> Free
       [] OTHER -> <<"ByStr20With", nd.kids[2].text, <<>>, named>>
TypeOf(nd) ==
  CASE nd.kind = "ST" -> Applied(nd.kids[1], TypesOf(Tail(nd.kids)))
    [] nd.kind \in {"TA", "MK", "MK.Paren", "MV", "MG"} ->
         IF nd.kids[1].kind \in {"MI", "MI.Ns", "MI.Hex", "MI.ByStr"} THEN Applied(nd.kids[1], <<>>)
         ELSE TypeOf(nd.kids[1])
    [] nd.kind = "MT.Args" -> Applied(nd.kids[1], TypesOf(Tail(nd.kids)))
    [] nd.kind \in {"ST.Map", "TA.Map", "ME", "MG.Map"} -> MapOf(nd.kids[1], nd.kids[2])
    [] nd.kind \in {"ST.Paren", "ST.Addr", "TA.Paren", "TA.Addr", "MK.ParenAddr", "MK.Addr",
                    "MV.Map", "MV.Paren", "MV.Addr", "MT", "MG.Paren"} -> TypeOf(nd.kids[1])
    [] nd.kind = "AT" -> Address(nd)
    [] nd.kind \in {"ST.Poly", "ST.Var", "ST.Fun", "TA.Var"} -> Bad

----------------------------------------------------------------------------
(* The contract: <<name, parameters, fields, transitions>>, a declaration   *)
(* being <<name, type>> and a transition <<name, parameters>>.              *)
Declared(ti) == <<ti.kids[1].text, TypeOf(ti.kids[2].kids[1])>>
Params(cp) == TLCEval([j \in 1..Len(cp.kids) |-> Declared(cp.kids[j].kids[1])])
OfKind(kids, kind) == SelectSeq(kids, LAMBDA nd : nd.kind = kind)
ComponentName(ci) == IF ci.kind = "CI.Id" THEN ci.kids[1].text ELSE TypeName(ci.kids[1])
Contract(pr) ==
  LET cd == OfKind(pr.kids, "CD")[1]
      fields == OfKind(cd.kids, "CF")
      trans == OfKind(cd.kids, "CN.Trans")
  IN TLCEval(<<TypeName(cd.kids[1]),
       Params(cd.kids[2]),
       [j \in 1..Len(fields) |-> Declared(fields[j].kids[1])],
       [j \in 1..Len(trans) |-> LET td == trans[j].kids[1]
                                IN <<ComponentName(td.kids[1]), Params(td.kids[2])>>]>>)

AllDeclared(ct) == LET f[j \in 1..Len(ct[4]) + 1] ==
                         IF j > Len(ct[4]) THEN <<>> ELSE ct[4][j][2] \o f[j + 1]
                   IN ct[2] \o ct[3] \o f[1]
Representable(ct) == LET all == TLCEval(AllDeclared(ct)) IN \A j \in 1..Len(all) : ~IsBad(all[j][2])

----------------------------------------------------------------------------
(* A specified type against a reported one *)
RECURSIVE SameType(_, _)
SameType(ty, got) ==
  \/ ty[1] = "FREE"
  \/ /\ ty[1] = got[1] /\ ty[2] = got[2]
     /\ Len(ty[3]) = Len(got[3]) /\ Len(ty[4]) = Len(got[4])
     /\ \A j \in 1..Len(ty[3]) : SameType(ty[3][j], got[3][j])
     /\ \A j \in 1..Len(ty[4]) : /\ ty[4][j][1] \in {"FREE", got[4][j][1]}
                                 /\ SameType(ty[4][j][2], got[4][j][2])
SameNames(ds, got) == Len(ds) = Len(got) /\ \A j \in 1..Len(ds) : ds[j][1] = got[j][1]
SameTypes(ds, got) == Len(ds) = Len(got) /\ \A j \in 1..Len(ds) : SameType(ds[j][2], got[j][2])

(* The written form of a type as a sequence of tokens, one blank apart *)
RECURSIVE Written(_), Unspecified(_)
Unspecified(ty) == \/ ty[1] = "FREE"
                   \/ \E j \in 1..Len(ty[3]) : Unspecified(ty[3][j])
                   \/ \E j \in 1..Len(ty[4]) : ty[4][j][1] = "FREE" \/ Unspecified(ty[4][j][2])
Written(ty) ==
  LET args == LET f[j \in 1..Len(ty[3]) + 1] == IF j > Len(ty[3]) THEN "" ELSE " " \o Written(ty[3][j]) \o f[j + 1]
              IN f[1]
      fields == LET f[j \in 1..Len(ty[4]) + 1] ==
                      IF j > Len(ty[4]) THEN ""
                      ELSE (IF j > 1 THEN " , " ELSE " ") \o "field " \o ty[4][j][1] \o " : " \o Written(ty[4][j][2]) \o f[j + 1]
                IN f[1]
  IN CASE ty[1] \in {"ByStrX", "Other"} -> ty[2]
       [] ty[1] = "ByStr20With" ->
            "( ByStr20 with" \o (IF ty[2] = "" THEN "" ELSE " " \o ty[2]) \o fields \o " end )"
       [] ty[3] # <<>> -> "( " \o ty[1] \o args \o " )"
       [] OTHER -> ty[1]
=============================================================================
