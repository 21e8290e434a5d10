------------------------------- MODULE Kinded -------------------------------
(* The types a declaration can have: the grammar of types restricted to     *)
(* constructors with the right number of arguments.  <<"g", <<k, pool>>>>   *)
(* is a token of kind k with a text from the pool.                          *)
EXTENDS Grammar

g(k, pool) == <<"g", <<k, pool>>>>

KindedTypes == [
  KType |-> << <<n("KAtom")>>, <<n("KAtom")>>,
               <<g("cid", "List"), n("KArg")>>,
               <<g("cid", "Option"), n("KArg")>>,
               <<g("cid", "Pair"), n("KArg"), n("KArg")>>,
               <<t("Map"), n("KKey"), n("KValue")>>,
               <<t("Map"), n("KKey"), n("KValue")>>,
               <<t("("), n("KType"), t(")")>>,
               <<n("KAddress")>> >>,
  KAtom |-> << <<g("cid", "prim")>>, <<g("cid", "prim")>>,
               <<g("cid", "adt")>>,
               <<t("ByStr")>>,
               <<g("bystrn", "bystrn")>>, <<g("bystrn", "ByStr20")>>,
               <<t("Event")>>,
               <<g("cid", "lib"), t("."), g("cid", "adt")>>,
               <<g("hex", "hex"), t("."), g("cid", "adt")>> >>,
  KArg |-> << <<n("KAtom")>>,
              <<t("("), n("KType"), t(")")>>, <<t("("), n("KType"), t(")")>>,
              <<n("KAddress")>>,
              <<t("Map"), n("KKey"), n("KValue")>> >>,
  KKey |-> << <<n("KAtom")>>, <<n("KAtom")>>,
              <<t("("), n("KAtom"), t(")")>>,
              <<n("KAddress")>>,
              <<t("("), n("KAddress"), t(")")>> >>,
  KValue |-> << <<n("KAtom")>>, <<n("KAddress")>>,
                <<t("Map"), n("KKey"), n("KValue")>>,
                <<t("("), n("KNested"), t(")")>>, <<t("("), n("KNested"), t(")")>> >>,
  KNested |-> << <<n("KValue")>>,
                 <<g("cid", "List"), n("KVArg")>>,
                 <<g("cid", "Option"), n("KVArg")>>,
                 <<g("cid", "Pair"), n("KVArg"), n("KVArg")>> >>,
  KVArg |-> << <<n("KAtom")>>,
               <<t("("), n("KNested"), t(")")>>,
               <<t("Map"), n("KKey"), n("KValue")>> >>,
  KAddress |-> << <<g("bystrn", "ByStr20"), t("with"), t("end")>>,
                  <<g("bystrn", "ByStr20"), t("with"), t("contract"), q("KFields"), t("end")>>,
                  <<g("bystrn", "ByStr20"), t("with"), t("contract"), q("KFields"), t("end")>>,
                  <<g("bystrn", "ByStr20"), t("with"), t("library"), t("end")>>,
                  <<g("bystrn", "ByStr20"), t("with"), l("sid"), t("end")>> >>,
  KFields |-> << <<n("KField"), s("KMoreFields")>> >>,
  KMoreFields |-> << <<t(","), n("KField")>> >>,
  KField |-> << <<t("field"), l("id"), t(":"), n("KType")>>,
                <<t("field"), l("sid"), t(":"), n("KType")>> >>,
  TypedIdentifier |-> << <<l("id"), t(":"), n("KType")>> >> ]

(* Sentences whose declared types are of the kinds above *)
KindedGrammar == [x \in DOMAIN TextGrammar \cup DOMAIN KindedTypes |->
                    IF x \in DOMAIN KindedTypes THEN KindedTypes[x] ELSE TextGrammar[x]]
=============================================================================
