//! Linearises a syntax tree, node by node, from its public fields alone
//! (independently of the crate's own visitor).
use scilla_parser::ast::nodes::*;
use scilla_parser::parser::lexer::SourcePosition;

pub type Span = (SourcePosition, SourcePosition);

pub enum Ev {
    /// A node: its label `Kind.Variant`, its span if it carries one, its address.
    Open(&'static str, Option<Span>, usize),
    /// A text leaf with its span.
    Leaf(String, Span),
    Close,
}

#[derive(Default)]
pub struct Walker {
    pub evs: Vec<Ev>,
    span: Option<Span>,
}

impl Walker {
    fn open<T>(&mut self, label: &'static str, node: &T) {
        let span = self.span.take();
        self.evs
            .push(Ev::Open(label, span, node as *const T as usize));
    }
    fn close(&mut self) {
        self.evs.push(Ev::Close);
    }
}

pub trait Walk {
    fn walk(&self, w: &mut Walker);
}

impl<T: Walk> Walk for WithMetaData<T> {
    fn walk(&self, w: &mut Walker) {
        w.span = Some((self.start, self.end));
        self.node.walk(w);
        w.span = None;
    }
}
impl Walk for String {
    fn walk(&self, w: &mut Walker) {
        let span = w.span.take().unwrap();
        w.evs.push(Ev::Leaf(self.clone(), span));
    }
}
impl<T: Walk> Walk for Box<T> {
    fn walk(&self, w: &mut Walker) {
        (**self).walk(w)
    }
}
impl<T: Walk> Walk for Vec<T> {
    fn walk(&self, w: &mut Walker) {
        for x in self {
            x.walk(w)
        }
    }
}
impl<T: Walk> Walk for Option<T> {
    fn walk(&self, w: &mut Walker) {
        if let Some(x) = self {
            x.walk(w)
        }
    }
}

macro_rules! walk_struct {
    ($ty:ident, $label:expr, $($f:ident),*) => {
        impl Walk for $ty {
            fn walk(&self, w: &mut Walker) {
                w.open($label, self);
                $( self.$f.walk(w); )*
                w.close();
            }
        }
    };
}

macro_rules! walk_enum {
    ($ty:ident, $( $label:expr => $pat:pat => [ $($x:expr),* ] ),+ $(,)?) => {
        impl Walk for $ty {
            fn walk(&self, w: &mut Walker) {
                match self {
                    $( $pat => { w.open($label, self); $( $x.walk(w); )* } )+
                }
                w.close();
            }
        }
    };
}

walk_enum!(NodeByteStr,
    "BS.Constant" => NodeByteStr::Constant(s) => [s],
    "BS" => NodeByteStr::Type(s) => [s]);
walk_enum!(NodeTypeNameIdentifier,
    "TN.ByStr" => NodeTypeNameIdentifier::ByteStringType(b) => [b],
    "TN.Event" => NodeTypeNameIdentifier::EventType => [],
    "TN.Id" => NodeTypeNameIdentifier::TypeOrEnumLikeIdentifier(s) => [s]);
walk_enum!(NodeImportedName,
    "IN" => NodeImportedName::RegularImport(n) => [n],
    "IN.As" => NodeImportedName::AliasedImport(n, a) => [n, a]);
walk_struct!(NodeImportDeclarations, "ID", import_list);
walk_enum!(NodeMetaIdentifier,
    "MI" => NodeMetaIdentifier::MetaName(n) => [n],
    "MI.Ns" => NodeMetaIdentifier::MetaNameInNamespace(a, b) => [a, b],
    "MI.Hex" => NodeMetaIdentifier::MetaNameInHexspace(a, b) => [a, b],
    "MI.ByStr" => NodeMetaIdentifier::ByteString => []);
walk_enum!(NodeVariableIdentifier,
    "VI" => NodeVariableIdentifier::VariableName(n) => [n],
    "VI.Special" => NodeVariableIdentifier::SpecialIdentifier(n) => [n],
    "VI.Ns" => NodeVariableIdentifier::VariableInNamespace(a, b) => [a, b]);
walk_struct!(NodeBuiltinArguments, "BA", arguments);
walk_enum!(NodeTypeMapKey,
    "MK" => NodeTypeMapKey::GenericMapKey(x) => [x],
    "MK.Paren" => NodeTypeMapKey::EnclosedGenericId(x) => [x],
    "MK.ParenAddr" => NodeTypeMapKey::EnclosedAddressMapKeyType(x) => [x],
    "MK.Addr" => NodeTypeMapKey::AddressMapKeyType(x) => [x]);
walk_enum!(NodeTypeMapValue,
    "MV" => NodeTypeMapValue::MapValueTypeOrEnumLikeIdentifier(x) => [x],
    "MV.Map" => NodeTypeMapValue::MapKeyValue(x) => [x],
    "MV.Paren" => NodeTypeMapValue::MapValueParenthesizedType(x) => [x],
    "MV.Addr" => NodeTypeMapValue::MapValueAddressType(x) => [x]);
walk_enum!(NodeTypeArgument,
    "TA.Paren" => NodeTypeArgument::EnclosedTypeArgument(x) => [x],
    "TA" => NodeTypeArgument::GenericTypeArgument(x) => [x],
    "TA.Var" => NodeTypeArgument::TemplateTypeArgument(x) => [x],
    "TA.Addr" => NodeTypeArgument::AddressTypeArgument(x) => [x],
    "TA.Map" => NodeTypeArgument::MapTypeArgument(k, v) => [k, v]);
walk_enum!(NodeScillaType,
    "ST" => NodeScillaType::GenericTypeWithArgs(m, a) => [m, a],
    "ST.Map" => NodeScillaType::MapType(k, v) => [k, v],
    "ST.Fun" => NodeScillaType::FunctionType(a, b) => [a, b],
    "ST.Paren" => NodeScillaType::EnclosedType(a) => [a],
    "ST.Addr" => NodeScillaType::ScillaAddresseType(a) => [a],
    "ST.Poly" => NodeScillaType::PolyFunctionType(v, t) => [v, t],
    "ST.Var" => NodeScillaType::TypeVarType(v) => [v]);
walk_struct!(NodeTypeMapEntry, "ME", key, value);
walk_struct!(NodeAddressTypeField, "AF", identifier, type_name);
walk_struct!(NodeAddressType, "AT", identifier, type_name, address_fields);
walk_enum!(NodeFullExpression,
    "FE.Let" => NodeFullExpression::LocalVariableDeclaration { identifier_name, type_annotation, expression, containing_expression, .. }
        => [identifier_name, type_annotation, expression, containing_expression],
    "FE.Fun" => NodeFullExpression::FunctionDeclaration { identier_value, type_annotation, expression, .. }
        => [identier_value, type_annotation, expression],
    "FE.Call" => NodeFullExpression::FunctionCall { function_name, argument_list, .. } => [function_name, argument_list],
    "FE.Atom" => NodeFullExpression::ExpressionAtomic(a) => [a],
    "FE.Builtin" => NodeFullExpression::ExpressionBuiltin { b, targs, xs, .. } => [b, targs, xs],
    "FE.Msg" => NodeFullExpression::Message(m) => [m],
    "FE.Match" => NodeFullExpression::Match { match_expression, clauses, .. } => [match_expression, clauses],
    "FE.Con" => NodeFullExpression::ConstructorCall { identifier_name, contract_type_arguments, argument_list, .. }
        => [identifier_name, contract_type_arguments, argument_list],
    "FE.TFun" => NodeFullExpression::TemplateFunction { identifier_name, expression, .. } => [identifier_name, expression],
    "FE.TApp" => NodeFullExpression::TApp { identifier_name, type_arguments, .. } => [identifier_name, type_arguments]);
walk_enum!(NodeMessageEntry,
    "MS.Lit" => NodeMessageEntry::MessageLiteral(a, b) => [a, b],
    "MS.Var" => NodeMessageEntry::MessageVariable(a, b) => [a, b]);
walk_struct!(NodePatternMatchExpressionClause, "PE", pattern, expression);
walk_enum!(NodeAtomicExpression,
    "AE.Sid" => NodeAtomicExpression::AtomicSid(x) => [x],
    "AE.Lit" => NodeAtomicExpression::AtomicLit(x) => [x]);
walk_struct!(NodeContractTypeArguments, "CT", type_arguments);
walk_enum!(NodeValueLiteral,
    "VL.Int" => NodeValueLiteral::LiteralInt(t, v) => [t, v],
    "VL.Hex" => NodeValueLiteral::LiteralHex(v) => [v],
    "VL.Str" => NodeValueLiteral::LiteralString(v) => [v],
    "VL.Emp" => NodeValueLiteral::LiteralEmptyMap(k, v) => [k, v]);
walk_struct!(NodeMapAccess, "MA", identifier_name);
walk_enum!(NodePattern,
    "PA.Wild" => NodePattern::Wildcard => [],
    "PA.Bind" => NodePattern::Binder(x) => [x],
    "PA.Con" => NodePattern::Constructor(c, a) => [c, a]);
walk_enum!(NodeArgumentPattern,
    "AP.Wild" => NodeArgumentPattern::WildcardArgument => [],
    "AP.Bind" => NodeArgumentPattern::BinderArgument(x) => [x],
    "AP.Con" => NodeArgumentPattern::ConstructorArgument(x) => [x],
    "AP.Paren" => NodeArgumentPattern::PatternArgument(x) => [x]);
walk_struct!(NodePatternMatchClause, "PC", pattern_expression, statement_block);
walk_struct!(NodeBlockchainFetchArguments, "BF", arguments);
walk_enum!(NodeStatement,
    "SM.Load" => NodeStatement::Load { left_hand_side, right_hand_side, .. } => [left_hand_side, right_hand_side],
    "SM.Remote" => NodeStatement::RemoteFetch(r) => [r],
    "SM.Store" => NodeStatement::Store { left_hand_side, right_hand_side, .. } => [left_hand_side, right_hand_side],
    "SM.Bind" => NodeStatement::Bind { left_hand_side, right_hand_side, .. } => [left_hand_side, right_hand_side],
    "SM.ReadBC" => NodeStatement::ReadFromBC { left_hand_side, type_name, arguments, .. } => [left_hand_side, type_name, arguments],
    "SM.MapGet" => NodeStatement::MapGet { left_hand_side, right_hand_side, keys, .. } => [left_hand_side, right_hand_side, keys],
    "SM.MapExists" => NodeStatement::MapGetExists { left_hand_side, right_hand_side, keys, .. } => [left_hand_side, right_hand_side, keys],
    "SM.MapUpdate" => NodeStatement::MapUpdate { left_hand_side, keys, right_hand_side, .. } => [left_hand_side, keys, right_hand_side],
    "SM.MapDelete" => NodeStatement::MapUpdateDelete { left_hand_side, keys, .. } => [left_hand_side, keys],
    "SM.Accept" => NodeStatement::Accept => [],
    "SM.Send" => NodeStatement::Send { identifier_name, .. } => [identifier_name],
    "SM.Event" => NodeStatement::CreateEvnt { identifier_name, .. } => [identifier_name],
    "SM.Throw" => NodeStatement::Throw { error_variable, .. } => [error_variable],
    "SM.Match" => NodeStatement::MatchStmt { variable, clauses, .. } => [variable, clauses],
    "SM.Call" => NodeStatement::CallProc { component_id, arguments, .. } => [component_id, arguments],
    "SM.Iterate" => NodeStatement::Iterate { identifier_name, component_id, .. } => [identifier_name, component_id]);
walk_enum!(NodeRemoteFetchStatement,
    "RF.State" => NodeRemoteFetchStatement::ReadStateMutable(a, b, c) => [a, b, c],
    "RF.Special" => NodeRemoteFetchStatement::ReadStateMutableSpecialId(a, b, c) => [a, b, c],
    "RF.Map" => NodeRemoteFetchStatement::ReadStateMutableMapAccess(a, b, c, d) => [a, b, c, d],
    "RF.MapExists" => NodeRemoteFetchStatement::ReadStateMutableMapAccessExists(a, b, c, d) => [a, b, c, d],
    "RF.Cast" => NodeRemoteFetchStatement::ReadStateMutableCastAddress(a, b, c) => [a, b, c]);
walk_enum!(NodeComponentId,
    "CI.Type" => NodeComponentId::WithTypeLikeName(x) => [x],
    "CI.Id" => NodeComponentId::WithRegularId(x) => [x]);
walk_struct!(NodeComponentParameters, "CP", parameters);
walk_struct!(NodeParameterPair, "PP", identifier_with_type);
walk_struct!(NodeComponentBody, "CB", statement_block);
walk_struct!(NodeStatementBlock, "SB", statements);
walk_struct!(NodeTypedIdentifier, "TI", identifier_name, annotation);
walk_struct!(NodeTypeAnnotation, "TT", type_name);
walk_struct!(NodeProgram, "PR", version, import_declarations, library_definition, contract_definition);
walk_struct!(NodeLibraryDefinition, "LD", name, definitions);
walk_enum!(NodeLibrarySingleDefinition,
    "LS.Let" => NodeLibrarySingleDefinition::LetDefinition { variable_name, type_annotation, expression, .. }
        => [variable_name, type_annotation, expression],
    "LS.Type" => NodeLibrarySingleDefinition::TypeDefinition(n, None) => [n],
    "LS.Adt" => NodeLibrarySingleDefinition::TypeDefinition(n, Some(c)) => [n, c]);
walk_struct!(NodeContractDefinition, "CD", contract_name, parameters, constraint, fields, components);
walk_struct!(NodeContractField, "CF", typed_identifier, right_hand_side);
walk_struct!(NodeWithConstraint, "WC", expression);
walk_enum!(NodeComponentDefinition,
    "CN.Trans" => NodeComponentDefinition::TransitionComponent(x) => [x],
    "CN.Proc" => NodeComponentDefinition::ProcedureComponent(x) => [x]);
walk_struct!(NodeProcedureDefinition, "PD", name, parameters, body);
walk_struct!(NodeTransitionDefinition, "TD", name, parameters, body);
walk_enum!(NodeTypeAlternativeClause,
    "TC" => NodeTypeAlternativeClause::ClauseType(n) => [n],
    "TC.Of" => NodeTypeAlternativeClause::ClauseTypeWithArgs(n, a) => [n, a]);
walk_enum!(NodeTypeMapValueArguments,
    "MG.Paren" => NodeTypeMapValueArguments::EnclosedTypeMapValue(x) => [x],
    "MG" => NodeTypeMapValueArguments::GenericMapValueArgument(x) => [x],
    "MG.Map" => NodeTypeMapValueArguments::MapKeyValueType(k, v) => [k, v]);
walk_enum!(NodeTypeMapValueAllowingTypeArguments,
    "MT" => NodeTypeMapValueAllowingTypeArguments::TypeMapValueNoArgs(x) => [x],
    "MT.Args" => NodeTypeMapValueAllowingTypeArguments::TypeMapValueWithArgs(m, a) => [m, a]);
