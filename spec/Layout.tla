------------------------------- MODULE Layout -------------------------------
(* Layouts of token sequences: between two tokens, and at both ends, stands *)
(* any gap of the list below; the empty gap only where the tokens stay      *)
(* apart without one.  Gaps are given as code points.                       *)
EXTENDS Chance, Integers, FiniteSets, TLC, Json, IOUtils

Sym == {"+", "*", ";", ":", ".", "|", "[", "]", "(", ")", "{", "}", ",",
        "=>", "->", "=", "&", "<-", ":=", "@", "-"}
(* Two tokens that would be read as something else without a gap *)
Merging == {<<"(", "*">>, <<":", "=">>, <<":", "=>">>, <<"-", "num">>}
MayTouch(a, b) == /\ a \in Sym \cup {"str"} \/ b \in Sym \cup {"str"}
                  /\ <<a, b>> \notin Merging

Blank == 32
Open(body) == <<40, 42>> \o body \o <<42, 41>>
Short == << <<32>>, <<10>>, <<9>>, <<13, 10>>, <<32, 32>>, <<10, 32, 32>> >>
Gaps == << <<32>>, <<9>>, <<10>>, <<13, 10>>, <<13>>, <<11>>, <<12>>, <<32, 9, 32>>, <<10, 10, 10>>,
           <<13, 10, 13, 10>>, <<10, 32, 32, 32, 32>>, <<133>>, <<160>>, <<5760>>, <<8232>>, <<8233>>,
           <<12288>>, <<8195, 32>>,
           Open(<<>>),                                   \* (**)
           Open(<<42>>),                                 \* (***)
           Open(<<32, 99, 32>>),                         \* ( * c *)
           Open(<<41>>),                                 \* an opening mark followed by a bracket
           Open(<<40, 42>>),                             \* an opening mark inside
           Open(<<32, 40, 42, 32, 34, 32>>),             \* ... and a lone quote
           Open(<<10, 10>>), Open(<<13, 10, 120>>), Open(<<233, 32, 20013, 128512>>),
           Open(<<32, 101, 110, 100, 32, 59>>),          \* end ;
           Open(<<42, 32, 41>>), Open(<<92>>), Open(<<39, 65>>),
           Open(<<99, 111, 110, 116, 114, 97, 99, 116, 32, 88, 32, 40, 41>>),
           Open(<<49>>) \o Open(<<50>>), <<32>> \o Open(<<97>>) \o <<10>>,
           Open(<<97>>) \o <<32>> \o Open(<<98>>) \o <<9, 10>> >>

Cases == ndJsonDeserialize(IOEnv.CASES)      \* [kinds |-> kinds of the tokens]
Variants == atoi(IOEnv.VARIANTS)
Salt == atoi(IOEnv.SALT)

VARIABLES caseNo, variant, sd, gaps
vars == <<caseNo, variant, sd, gaps>>
Kinds == Cases[caseNo].kinds
At == Len(gaps)                               \* gap number At+1 stands before token At+1

Init == /\ caseNo \in 1..Len(Cases)
        /\ variant \in 1..Variants
        /\ sd = NextSeed(NextSeed(SeedOf(caseNo * 64 + variant, Salt)))
        /\ gaps = <<>>

EmptyAllowed == \/ At = 0 \/ At = Len(Kinds)
                \/ At > 0 /\ At < Len(Kinds) /\ MayTouch(Kinds[At], Kinds[At + 1])

(* The variants differ in manner: as dense as possible, one kind of gap     *)
(* throughout, or any mixture.                                              *)
Gap == LET manner == variant % 4
       IN  CASE EmptyAllowed /\ manner = 1 -> <<>>
             [] EmptyAllowed /\ manner # 1 /\ Roll(sd, 4) = 1 -> <<>>
             [] manner = 2 -> Gaps[1 + ((caseNo + variant) % Len(Gaps))]
             [] manner = 1 -> OneOf(sd, Short)
             [] OTHER -> OneOf(sd, Gaps)

Step == /\ At <= Len(Kinds)
        /\ gaps' = Append(gaps, Gap)
        /\ sd' = NextSeed(sd)
        /\ UNCHANGED <<caseNo, variant>>
Finished == At > Len(Kinds) /\ UNCHANGED vars
Next == Step \/ Finished
Spec == Init /\ [][Next]_vars

Report == At > Len(Kinds) => PrintT("LAY " \o ToJson(<<caseNo, variant, gaps>>))
=============================================================================
