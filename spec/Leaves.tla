------------------------------- MODULE Leaves -------------------------------
(* Texts for the terminals that have many.  Names are chosen to provoke     *)
(* confusion with keywords and with the names of built-in types.  ^h; stands *)
(* for the character with the hexadecimal number h.                         *)
EXTENDS Sequences

Pools == [
  id   |-> <<"a", "x", "tmp", "endd", "end_", "in1", "inx", "matchx", "letx", "contracts", "field1",
             "transitions", "of_", "eventx", "sendx", "as1", "typed", "withdraw", "funny", "tfunc",
             "forallx", "throwx", "deleted", "exists_", "accepted", "xForall", "importer", "a_B_9",
             "procedure2", "builtins", "scilla_version1", "librarian", "mapx", "z0", "byStr20",
             "initial_owner_of_the_whole_contract_1234567890", "x_", "x__y", "to">>,
  cid  |-> <<"A", "Foo", "MapX", "Emp1", "EventX", "ByStrX", "ByStr20x", "True", "Nil", "Cons", "T",
             "Mapping", "Empty", "Events", "Int", "Lib_2", "BoolUtils", "ListUtils", "Z9_z", "End",
             "Contract", "In", "Option_", "Map_", "Emp_", "ByStr_20", "X1">>,
  sid  |-> <<"_sender", "_amount", "_origin", "_this_address", "_balance", "_codehash", "_tag",
             "_recipient", "_end", "_1", "_x_Y", "__", "_eventname", "_A", "_library">>,
  tid  |-> <<"'A", "'B", "'Key", "'T1", "'End_of", "'Map">>,
  num  |-> <<"0", "1", "42", "-1", "-170141183460469231731687303715884105728", "007",
             "340282366920938463463374607431768211455", "-0">>,
  hex  |-> <<"0x", "0xAB", "0xabcdef0123456789", "0X00", "0x1234567890123456789012345678901234567890">>,
  str  |-> <<"\"\"", "\"a\"", "\"hello world\"", "\"(* no comment *)\"", "\"end\"", "\"\\\"\"",
             "\"a\\\\\"", "\"x\\\"y\\\"\"", "\"two\nlines\"", "\"tab\there\"", "\"*)\"",
             "\"caf^e9; ^4e2d;^1f600;\"", "\"'A ; | =>\"", "\"\r\n\"", "\"\\n\"", "\"(*\"">>,
  bystrn |-> <<"ByStr20", "ByStr32", "ByStr1", "ByStr33", "ByStr64">>,
  int  |-> <<"Int32", "Int64", "Int128", "Int256", "Uint32", "Uint64", "Uint128", "Uint256">>,
  prim |-> <<"Int32", "Int64", "Int128", "Int256", "Uint32", "Uint64", "Uint128", "Uint256",
             "String", "BNum", "Bool">>,
  adt  |-> <<"Foo", "Message", "Int", "Int33", "Int32x", "Uint", "Uint512", "Strings", "BNumber",
             "Boolean", "Lists", "ListX", "Option_", "Options", "PairOf", "Pairs", "MapX", "Map_",
             "EventX", "Event1", "ByStrX", "ByStr20x", "ByStr_", "Bystr20", "T", "A_b_9",
             "Crowdfunding", "End", "Nat", "Contract">>,
  lib  |-> <<"Lib", "BoolUtils", "List_", "Option1", "Map1", "X">>,
  List |-> <<"List">>, Option |-> <<"Option">>, Pair |-> <<"Pair">>,
  ByStr20 |-> <<"ByStr20">>, String |-> <<"String">> ]
=============================================================================
