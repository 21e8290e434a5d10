------------------------------ MODULE Grammar ------------------------------
(* The concrete syntax of Scilla contracts and the syntax tree it derives.  *)
(*                                                                          *)
(* A production is a sequence of items.  Every item is a pair:              *)
(*   <<"t", x>>  the token x                                                *)
(*   <<"l", k>>  a token of kind k whose text becomes a leaf of the tree    *)
(*   <<"n", N>>  one N     <<"q", N>> at most one N                         *)
(*   <<"s", N>>  any number of N     <<"p", N>> at least one N              *)
(* and the marks of the tree, which consume nothing:                        *)
(*   <<"o", K>>  a node of kind K that carries a source span begins         *)
(*   <<"u", K>>  a node of kind K without a source span begins              *)
(*   <<"c", "">> the innermost open node ends                               *)
(*   <<"y", t>>  a leaf with the text t that is not a token of its own      *)
(* No nonterminal is left recursive and none derives the empty sequence.    *)
(* The first alternative of every nonterminal leads to a finite sentence.   *)
EXTENDS Sequences, Naturals, FiniteSets, SequencesExt

t(x) == <<"t", x>>
l(k) == <<"l", k>>
n(x) == <<"n", x>>
q(x) == <<"q", x>>
s(x) == <<"s", x>>
p(x) == <<"p", x>>
y(x) == <<"y", x>>
o(k) == <<"o", k>>
c    == <<"c", "">>
Node(k, items) == <<<<"o", k>>>> \o items \o <<c>>
Bare(k, items) == <<<<"u", k>>>> \o items \o <<c>>

----------------------------------------------------------------------------
Symbols == {"+", "*", ";", ":", ".", "|", "[", "]", "(", ")", "{", "}", ",",
            "=>", "->", "=", "&", "<-", ":=", "@", "-", "_"}
Keywords == {"forall", "builtin", "library", "import", "let", "in", "match",
             "with", "end", "fun", "tfun", "contract", "transition", "send",
             "event", "Event", "field", "accept", "exists", "delete", "throw",
             "Map", "scilla_version", "type", "of", "as", "procedure", "Emp",
             "ByStr"}
Classes == {"bystrn", "num", "hex", "str", "id", "sid", "cid", "tid"}
Terminals == Symbols \cup Keywords \cup Classes

----------------------------------------------------------------------------
(* Names *)
Names == [
  TypeNameIdentifier |-> <<
     Node("TN.Id", <<l("cid")>>),
     Node("TN.ByStr", Bare("BS", <<l("bystrn")>>)),
     Node("TN.Event", <<t("Event")>>) >>,
  ImportedName |-> <<
     Node("IN", <<n("TypeNameIdentifier")>>),
     Node("IN.As", <<n("TypeNameIdentifier"), t("as"), n("TypeNameIdentifier")>>) >>,
  ImportDeclarations |-> <<
     Node("ID", <<t("import"), p("ImportedName"), s("MoreImports")>>) >>,
  MoreImports |-> << <<t("import"), n("ImportedName")>> >>,
  MetaIdentifier |-> <<
     Node("MI", <<n("TypeNameIdentifier")>>),
     Node("MI.Ns", <<n("TypeNameIdentifier"), t("."), n("TypeNameIdentifier")>>),
     Node("MI.Hex", <<l("hex"), t("."), n("TypeNameIdentifier")>>),
     Node("MI.ByStr", <<t("ByStr")>>) >>,
  VariableIdentifier |-> <<
     Node("VI", <<l("id")>>),
     Node("VI.Special", <<l("sid")>>),
     Node("VI.Ns", <<n("TypeNameIdentifier"), t("."), l("id")>>) >>,
  ComponentId |-> <<
     Node("CI.Id", <<l("id")>>),
     Node("CI.Type", <<n("TypeNameIdentifier")>>) >> ]

(* Types *)
Types == [
  RemainingTypes |-> <<
     Node("ST", <<n("MetaIdentifier"), s("TypeArgument")>>),
     Node("ST.Map", <<t("Map"), n("TypeMapKey"), n("TypeMapValue")>>),
     Node("ST.Paren", <<t("("), n("ScillaType"), t(")")>>),
     Node("ST.Addr", <<n("AddressType")>>),
     Node("ST.Poly", <<t("forall"), l("tid"), t("."), n("RemainingTypes")>>),
     Node("ST.Var", <<l("tid")>>) >>,
  ScillaType |-> <<
     <<n("RemainingTypes")>>,
     Node("ST.Fun", <<n("RemainingTypes"), t("->"), n("ScillaType")>>) >>,
  TypeArgument |-> <<
     Node("TA", <<n("MetaIdentifier")>>),
     Node("TA.Paren", <<t("("), n("ScillaType"), t(")")>>),
     Node("TA.Var", <<l("tid")>>),
     Node("TA.Addr", <<n("AddressType")>>),
     Node("TA.Map", <<t("Map"), n("TypeMapKey"), n("TypeMapValue")>>) >>,
  AddressType |-> <<
     Node("AT", <<n("TypeNameIdentifier"), y(""), t("with"), t("end")>>),
     Node("AT", <<n("TypeNameIdentifier"), y("contract"), t("with"), t("contract"),
                  q("AddressTypeFieldList"), t("end")>>),
     Node("AT", <<n("TypeNameIdentifier"), y("library"), t("with"), t("library"), t("end")>>),
     Node("AT", <<n("TypeNameIdentifier"), t("with"), l("sid"), t("end")>>) >>,
  AddressTypeFieldList |-> << <<n("AddressTypeField"), s("NextAddressTypeField")>> >>,
  NextAddressTypeField |-> << <<t(","), n("AddressTypeField")>> >>,
  AddressTypeField |-> <<
     Node("AF", <<t("field"), n("VariableIdentifier"), t(":"), n("ScillaType")>>) >>,
  TypeMapKey |-> <<
     Node("MK", <<n("MetaIdentifier")>>),
     Node("MK.Paren", <<t("("), n("MetaIdentifier"), t(")")>>),
     Node("MK.ParenAddr", <<t("("), n("AddressType"), t(")")>>),
     Node("MK.Addr", <<n("AddressType")>>) >>,
  TypeMapValue |-> <<
     Node("MV", <<n("MetaIdentifier")>>),
     Node("MV.Map", Node("ME", <<t("Map"), n("TypeMapKey"), n("TypeMapValue")>>)),
     Node("MV.Paren", <<t("("), n("TypeMapValueAllowingTypeArguments"), t(")")>>),
     Node("MV.Addr", <<n("AddressType")>>) >>,
  TypeMapValueArguments |-> <<
     Node("MG", <<n("MetaIdentifier")>>),
     Node("MG.Paren", <<t("("), n("TypeMapValueAllowingTypeArguments"), t(")")>>),
     Node("MG.Map", <<t("Map"), n("TypeMapKey"), n("TypeMapValue")>>) >>,
  TypeMapValueAllowingTypeArguments |-> <<
     Node("MT", <<n("TypeMapValue")>>),
     Node("MT.Args", <<n("MetaIdentifier"), p("TypeMapValueArguments")>>) >>,
  TypedIdentifier |-> << Node("TI", <<l("id"), n("TypeAnnotation")>>) >>,
  TypeAnnotation |-> << Node("TT", <<t(":"), n("ScillaType")>>) >> ]

(* Expressions *)
Expressions == [
  FullExpression |-> <<
     Node("FE.Atom", <<n("AtomicExpression")>>),
     Node("FE.Let", <<t("let"), l("id"), q("TypeAnnotation"), t("="), n("FullExpression"),
                      t("in"), n("FullExpression")>>),
     Node("FE.Fun", <<t("fun"), t("("), l("id"), n("TypeAnnotation"), t(")"), t("=>"),
                      n("FullExpression")>>),
     Node("FE.Call", <<n("VariableIdentifier"), p("VariableIdentifier")>>),
     Node("FE.Builtin", <<t("builtin"), l("id"), q("ContractTypeArguments"), n("BuiltinArguments")>>),
     Node("FE.Msg", <<t("{"), n("MessageEntry"), s("NextMessageEntry"), t("}")>>),
     Node("FE.Match", <<t("match"), n("VariableIdentifier"), t("with"),
                        p("PatternMatchExpressionClause"), t("end")>>),
     Node("FE.Con", <<n("MetaIdentifier"), q("ContractTypeArguments"), s("VariableIdentifier")>>),
     Node("FE.TFun", <<t("tfun"), l("tid"), t("=>"), n("FullExpression")>>),
     Node("FE.TApp", <<t("@"), n("VariableIdentifier"), p("TypeArgument")>>) >>,
  AtomicExpression |-> <<
     Node("AE.Sid", <<n("VariableIdentifier")>>),
     Node("AE.Lit", <<n("ValueLiteral")>>) >>,
  ValueLiteral |-> <<
     Node("VL.Int", <<n("TypeNameIdentifier"), l("num")>>),
     Node("VL.Hex", <<l("hex")>>),
     Node("VL.Str", <<l("str")>>),
     Node("VL.Emp", <<t("Emp"), n("TypeMapKey"), n("TypeMapValue")>>) >>,
  ContractTypeArguments |-> << Node("CT", <<t("{"), s("TypeArgument"), t("}")>>) >>,
  BuiltinArguments |-> <<
     Node("BA", <<p("VariableIdentifier")>>),
     Node("BA", <<t("("), t(")")>>) >>,
  NextMessageEntry |-> << <<t(";"), n("MessageEntry")>> >>,
  MessageEntry |-> <<
     Node("MS.Var", <<n("VariableIdentifier"), t(":"), n("VariableIdentifier")>>),
     Node("MS.Lit", <<n("VariableIdentifier"), t(":"), n("ValueLiteral")>>) >>,
  PatternMatchExpressionClause |-> <<
     Node("PE", <<t("|"), n("Pattern"), t("=>"), n("FullExpression")>>) >>,
  Pattern |-> <<
     Node("PA.Wild", <<t("_")>>),
     Node("PA.Bind", <<l("id")>>),
     Node("PA.Con", <<n("MetaIdentifier"), s("ArgumentPattern")>>) >>,
  ArgumentPattern |-> <<
     Node("AP.Wild", <<t("_")>>),
     Node("AP.Bind", <<l("id")>>),
     Node("AP.Con", <<n("MetaIdentifier")>>),
     Node("AP.Paren", <<t("("), n("Pattern"), t(")")>>) >> ]

(* Statements *)
Statements == [
  Statement |-> <<
     Bare("SM.Accept", <<t("accept")>>),
     Bare("SM.Load", <<l("id"), t("<-"), n("VariableIdentifier")>>),
     Bare("SM.Remote", <<n("RemoteFetchStatement")>>),
     Bare("SM.Store", <<l("id"), t(":="), n("VariableIdentifier")>>),
     Bare("SM.Bind", <<l("id"), t("="), n("FullExpression")>>),
     Bare("SM.ReadBC", <<l("id"), t("<-"), t("&"), n("TypeNameIdentifier"),
                         q("BlockchainFetchArguments")>>),
     Bare("SM.MapGet", <<l("id"), t("<-"), l("id"), p("MapAccess")>>),
     Bare("SM.MapExists", <<l("id"), t("<-"), t("exists"), l("id"), p("MapAccess")>>),
     Bare("SM.MapUpdate", <<l("id"), p("MapAccess"), t(":="), n("VariableIdentifier")>>),
     Bare("SM.MapDelete", <<t("delete"), l("id"), p("MapAccess")>>),
     Bare("SM.Send", <<t("send"), n("VariableIdentifier")>>),
     Bare("SM.Event", <<t("event"), n("VariableIdentifier")>>),
     Bare("SM.Throw", <<t("throw"), q("VariableIdentifier")>>),
     Bare("SM.Match", <<t("match"), n("VariableIdentifier"), t("with"),
                        p("PatternMatchClause"), t("end")>>),
     Bare("SM.Call", <<n("ComponentId"), s("VariableIdentifier")>>),
     Bare("SM.Iterate", <<t("forall"), n("VariableIdentifier"), n("ComponentId")>>) >>,
  RemoteFetchStatement |-> <<
     Bare("RF.State", <<l("id"), t("<-"), t("&"), l("id"), t("."), n("VariableIdentifier")>>),
     Bare("RF.Special", <<l("id"), t("<-"), t("&"), l("sid"), t("."), l("sid")>>),
     Bare("RF.Map", <<l("id"), t("<-"), t("&"), l("id"), t("."), l("id"), p("MapAccess")>>),
     Bare("RF.MapExists", <<l("id"), t("<-"), t("&"), t("exists"), l("id"), t("."), l("id"),
                            p("MapAccess")>>),
     Bare("RF.Cast", <<l("id"), t("<-"), t("&"), n("VariableIdentifier"), t("as"),
                       n("AddressType")>>) >>,
  BlockchainFetchArguments |-> <<
     Bare("BF", <<t("("), p("VariableIdentifier"), t(")")>>) >>,
  MapAccess |-> << Node("MA", <<t("["), n("VariableIdentifier"), t("]")>>) >>,
  PatternMatchClause |-> <<
     Node("PC", <<t("|"), n("Pattern"), t("=>"), q("StatementBlock")>>) >>,
  StatementBlock |-> << Node("SB", <<n("Statement"), s("NextStatement")>>) >>,
  NextStatement |-> << <<t(";"), n("Statement")>> >> ]

(* Declarations *)
Declarations == [
  Program |-> <<
     Bare("PR", <<t("scilla_version"), l("num"), q("ImportDeclarations"),
                  q("LibraryDefinition"), n("ContractDefinition")>>) >>,
  LibraryDefinition |-> <<
     Node("LD", <<t("library"), n("TypeNameIdentifier"), s("LibrarySingleDefinition")>>) >>,
  LibrarySingleDefinition |-> <<
     Node("LS.Type", <<t("type"), n("TypeNameIdentifier")>>),
     Node("LS.Let", <<t("let"), l("id"), q("TypeAnnotation"), t("="), n("FullExpression")>>),
     Node("LS.Adt", <<t("type"), n("TypeNameIdentifier"), t("="), p("TypeAlternativeClause")>>) >>,
  TypeAlternativeClause |-> <<
     Node("TC", <<t("|"), n("TypeNameIdentifier")>>),
     Node("TC.Of", <<t("|"), n("TypeNameIdentifier"), t("of"), p("TypeArgument")>>) >>,
  ContractDefinition |-> <<
     Node("CD", <<t("contract"), n("TypeNameIdentifier"), n("ComponentParameters"),
                  q("WithConstraint"), s("ContractField"), s("ComponentDefinition")>>) >>,
  WithConstraint |-> << Node("WC", <<t("with"), n("FullExpression"), t("=>")>>) >>,
  ContractField |-> <<
     Node("CF", <<t("field"), n("TypedIdentifier"), t("="), n("FullExpression")>>) >>,
  ComponentDefinition |-> <<
     Node("CN.Trans", <<n("TransitionDefinition")>>),
     Node("CN.Proc", <<n("ProcedureDefinition")>>) >>,
  TransitionDefinition |-> <<
     Node("TD", <<t("transition"), n("ComponentId"), n("ComponentParameters"),
                  n("ComponentBody")>>) >>,
  ProcedureDefinition |-> <<
     Node("PD", <<t("procedure"), n("ComponentId"), n("ComponentParameters"),
                  n("ComponentBody")>>) >>,
  ComponentParameters |-> << Node("CP", <<t("("), q("ParameterPairList"), t(")")>>) >>,
  ParameterPairList |-> << <<n("ParameterPair"), s("NextParameterPair")>> >>,
  NextParameterPair |-> << <<t(","), n("ParameterPair")>> >>,
  ParameterPair |-> << Node("PP", <<n("TypedIdentifier")>>) >>,
  ComponentBody |-> << Node("CB", <<q("StatementBlock"), t("end")>>) >> ]

Merge(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]

(* nonterminal -> sequence of alternatives *)
TreeGrammar == Merge(Names, Merge(Types, Merge(Expressions, Merge(Statements, Declarations))))

----------------------------------------------------------------------------
(* The same language without the tree.  A function type is read as a type   *)
(* with an optional tail, so that nested parentheses do not multiply the    *)
(* readings that are still open.                                            *)
IsMark(it) == it[1] \in {"o", "u", "c", "y"}
Stripped(alt) == SelectSeq(alt, LAMBDA it : ~IsMark(it))
TextGrammar ==
  LET base == [N \in DOMAIN TreeGrammar |->
                 [k \in 1..Len(TreeGrammar[N]) |-> Stripped(TreeGrammar[N][k])]]
  IN  [N \in DOMAIN base \cup {"ArrowTail"} |->
         CASE N = "ScillaType" -> << <<n("RemainingTypes"), q("ArrowTail")>> >>
           [] N = "ArrowTail"  -> << <<t("->"), n("ScillaType")>> >>
           [] OTHER            -> base[N]]

(* The grammar of declarations: like TextGrammar, with the marks that the   *)
(* summary of a contract needs.  <<"w", "ST.Fun">> turns the last two       *)
(* children of the innermost open node into a function type.                *)
DeclGrammar ==
  [N \in DOMAIN TreeGrammar \cup {"ArrowTail"} |->
     CASE N = "ScillaType" -> << <<n("RemainingTypes"), q("ArrowTail")>> >>
       [] N = "ArrowTail"  -> << <<t("->"), n("ScillaType"), <<"w", "ST.Fun">>>> >>
       [] OTHER            -> TreeGrammar[N]]
=============================================================================
