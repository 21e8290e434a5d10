//! A visitor that records every callback and answers by a policy.
use scilla_parser::ast::{converting::AstConverting, nodes::*, TraversalResult, TreeTraversalMode};
use scilla_parser::parser::lexer::SourcePosition;
use std::collections::HashMap;

/// What the recording visitor answers: skip on entering the nodes of `skip`,
/// fail at the callback with index `fail`.
#[derive(Default, Clone)]
pub struct Policy {
    pub skip: Vec<usize>,
    pub fail: Option<usize>,
}

pub enum VEv {
    Push(SourcePosition, SourcePosition),
    Pop,
    /// kind, node number (-1: not a node of the tree), answer: c(ontinue), s(kip), e(rror)
    Enter(&'static str, i64, char),
    Exit(&'static str, i64, char),
}

pub struct Recorder<'a> {
    pub evs: Vec<VEv>,
    pub ids: &'a HashMap<(usize, &'static str), usize>,
    pub policy: Policy,
    pub calls: usize,
    pub limit: usize,
}

impl Recorder<'_> {
    fn event(&mut self, kind: &'static str, ptr: usize, mode: TreeTraversalMode) -> Result<TraversalResult, String> {
        if self.evs.len() > self.limit {
            panic!("runaway traversal");
        }
        let id = self.ids.get(&(ptr, kind)).map(|x| *x as i64).unwrap_or(-1);
        let k = self.calls;
        self.calls += 1;
        let enter = matches!(mode, TreeTraversalMode::Enter);
        let answer = if self.policy.fail == Some(k) {
            'e'
        } else if enter && id >= 0 && self.policy.skip.contains(&(id as usize)) {
            's'
        } else {
            'c'
        };
        self.evs.push(if enter { VEv::Enter(kind, id, answer) } else { VEv::Exit(kind, id, answer) });
        match answer {
            'e' => Err(format!("stop at call {k}")),
            's' => Ok(TraversalResult::SkipChildren),
            _ => Ok(TraversalResult::Continue),
        }
    }
}

macro_rules! record {
    ($($m:ident, $n:ident, $k:expr);* $(;)?) => {
        impl AstConverting for Recorder<'_> {
            fn push_source_position(&mut self, start: &SourcePosition, end: &SourcePosition) {
                self.evs.push(VEv::Push(*start, *end));
            }
            fn pop_source_position(&mut self) {
                self.evs.push(VEv::Pop);
            }
            $(
                fn $m(&mut self, mode: TreeTraversalMode, node: &$n) -> Result<TraversalResult, String> {
                    self.event($k, node as *const $n as usize, mode)
                }
            )*
        }
    };
}

record! {
    emit_byte_str, NodeByteStr, "BS";
    emit_type_name_identifier, NodeTypeNameIdentifier, "TN";
    emit_imported_name, NodeImportedName, "IN";
    emit_import_declarations, NodeImportDeclarations, "ID";
    emit_meta_identifier, NodeMetaIdentifier, "MI";
    emit_variable_identifier, NodeVariableIdentifier, "VI";
    emit_builtin_arguments, NodeBuiltinArguments, "BA";
    emit_type_map_key, NodeTypeMapKey, "MK";
    emit_type_map_value, NodeTypeMapValue, "MV";
    emit_type_argument, NodeTypeArgument, "TA";
    emit_scilla_type, NodeScillaType, "ST";
    emit_type_map_entry, NodeTypeMapEntry, "ME";
    emit_address_type_field, NodeAddressTypeField, "AF";
    emit_address_type, NodeAddressType, "AT";
    emit_full_expression, NodeFullExpression, "FE";
    emit_message_entry, NodeMessageEntry, "MS";
    emit_pattern_match_expression_clause, NodePatternMatchExpressionClause, "PE";
    emit_atomic_expression, NodeAtomicExpression, "AE";
    emit_contract_type_arguments, NodeContractTypeArguments, "CT";
    emit_value_literal, NodeValueLiteral, "VL";
    emit_map_access, NodeMapAccess, "MA";
    emit_pattern, NodePattern, "PA";
    emit_argument_pattern, NodeArgumentPattern, "AP";
    emit_pattern_match_clause, NodePatternMatchClause, "PC";
    emit_blockchain_fetch_arguments, NodeBlockchainFetchArguments, "BF";
    emit_statement, NodeStatement, "SM";
    emit_remote_fetch_statement, NodeRemoteFetchStatement, "RF";
    emit_component_id, NodeComponentId, "CI";
    emit_component_parameters, NodeComponentParameters, "CP";
    emit_parameter_pair, NodeParameterPair, "PP";
    emit_component_body, NodeComponentBody, "CB";
    emit_statement_block, NodeStatementBlock, "SB";
    emit_typed_identifier, NodeTypedIdentifier, "TI";
    emit_type_annotation, NodeTypeAnnotation, "TT";
    emit_program, NodeProgram, "PR";
    emit_library_definition, NodeLibraryDefinition, "LD";
    emit_library_single_definition, NodeLibrarySingleDefinition, "LS";
    emit_contract_definition, NodeContractDefinition, "CD";
    emit_contract_field, NodeContractField, "CF";
    emit_with_constraint, NodeWithConstraint, "WC";
    emit_component_definition, NodeComponentDefinition, "CN";
    emit_procedure_definition, NodeProcedureDefinition, "PD";
    emit_transition_definition, NodeTransitionDefinition, "TD";
    emit_type_alternative_clause, NodeTypeAlternativeClause, "TC";
    emit_type_map_value_arguments, NodeTypeMapValueArguments, "MG";
    emit_type_map_value_allowing_type_arguments, NodeTypeMapValueAllowingTypeArguments, "MT"
}
