//! Drives the real parser: reads requests from standard input, one per line, and writes one JSON
//! object per request. Nothing here judges; the specification does.
//!
//! Request: fields separated by tabs: `id op arg input`
//!   op `syn`    arg `Entry:flags`, input = text in hex: tokens (flag t), result of the parser
//!               `Entry`, its tree (flag a), tokens come from the crate's lexer
//!   op `feed`   arg `Entry:flags`, input = tokens `terminal=text` separated by spaces (text in hex)
//!   op `visit`  arg `Entry:policies`, input = text in hex; policies: `-`, `f3`, `s1.4`, `s1f7` ... joined by `,`
//!   op `sum`    arg unused: `Contract::from_str`
//!   op `file`   input = path in hex: `Contract::parse`
//!   op `sess`   a session script, see session.rs
//!   op `sched`  a schedule of concurrent calls, see sched.rs
mod record;
mod sched;
mod session;
mod walk;

use lalrpop_util::ParseError;
use record::*;
use scilla_parser::ast::visitor::AstVisitor;
use scilla_parser::parser::lexer::{Lexer, SourcePosition, Token};
use scilla_parser::parser::parser;
use scilla_parser::{Contract, Error, FieldList, Type};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use walk::*;

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f || c as u32 > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{u:04x}");
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

fn kind_of(t: &Token<&str>) -> &'static str {
    use Token::*;
    match t {
        Plus => "+", Asterisk => "*", Semicolon => ";", Colon => ":", Dot => ".", Pipe => "|",
        OpenBracket => "[", CloseBracket => "]", OpenParen => "(", CloseParen => ")",
        OpenBrace => "{", CloseBrace => "}", Comma => ",", DoubleArrow => "=>", Arrow => "->",
        Equals => "=", Ampersand => "&", LeftArrow => "<-", ColonEquals => ":=", At => "@",
        Minus => "-", Underscore => "_", Forall => "forall", Builtin => "builtin",
        Library => "library", Import => "import", Let => "let", In => "in", Match => "match",
        With => "with", End => "end", Fun => "fun", Tfun => "tfun", Contract => "contract",
        Transition => "transition", Send => "send", Field => "field", Accept => "accept",
        Exists => "exists", Delete => "delete", Throw => "throw", Map => "Map",
        ScillaVersion => "scilla_version", Type => "type", Of => "of", As => "as",
        Procedure => "procedure", Emp => "Emp", Event => "event", EventType => "Event",
        ByStr => "ByStr", ByStrWithSize(_) => "bystrn", Comment(_) => "comment",
        Number(_) => "num", HexNumber(_) => "hex", Identifier(_) => "id",
        TemplateIdentifier(_) => "tid", CustomIdentifier(_) => "cid", SpecialIdentifier(_) => "sid",
        TypeName(_) => "typename", StringLiteral(_) => "str", Whitespace => "whitespace",
        Unknown => "unknown",
    }
}

fn token_of<'a>(kind: &str, text: &'a str) -> Token<&'a str> {
    use Token::*;
    match kind {
        "+" => Plus, "*" => Asterisk, ";" => Semicolon, ":" => Colon, "." => Dot, "|" => Pipe,
        "[" => OpenBracket, "]" => CloseBracket, "(" => OpenParen, ")" => CloseParen,
        "{" => OpenBrace, "}" => CloseBrace, "," => Comma, "=>" => DoubleArrow, "->" => Arrow,
        "=" => Equals, "&" => Ampersand, "<-" => LeftArrow, ":=" => ColonEquals, "@" => At,
        "-" => Minus, "_" => Underscore, "forall" => Forall, "builtin" => Builtin,
        "library" => Library, "import" => Import, "let" => Let, "in" => In, "match" => Match,
        "with" => With, "end" => End, "fun" => Fun, "tfun" => Tfun, "contract" => Contract,
        "transition" => Transition, "send" => Send, "field" => Field, "accept" => Accept,
        "exists" => Exists, "delete" => Delete, "throw" => Throw, "Map" => Map,
        "scilla_version" => ScillaVersion, "type" => Type, "of" => Of, "as" => As,
        "procedure" => Procedure, "Emp" => Emp, "event" => Event, "Event" => EventType,
        "ByStr" => ByStr, "bystrn" => ByStrWithSize(text), "num" => Number(text),
        "hex" => HexNumber(text), "id" => Identifier(text), "tid" => TemplateIdentifier(text),
        "cid" => CustomIdentifier(text), "sid" => SpecialIdentifier(text),
        "str" => StringLiteral(text), _ => Unknown,
    }
}

/// The name the grammar gives a terminal -> the name used here. A terminal given by a pattern is
/// known by the words it matches, however the pattern is written.
fn terminal_name(s: &str) -> String {
    static SEEN: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
    let Some(p) = s.strip_prefix('r').map(|x| x.trim_matches('#')) else {
        return s.trim_matches('"').to_string();
    };
    if let Some(x) = SEEN.lock().unwrap().iter().find(|x| x.0 == s) {
        return x.1.clone();
    }
    let body = p.strip_prefix('"').and_then(|x| x.strip_suffix('"')).unwrap_or(p);
    let name = match regex::Regex::new(&format!("^(?:{body})$")) {
        Err(_) => s.to_string(),
        Ok(re) => [("Abc", "cid"), ("ByStr5", "bystrn"), ("0xab", "hex"), ("12", "num"), ("abc", "id"),
                   ("_abc", "sid"), ("'Abc", "tid"), ("\"abc\"", "str")]
            .iter().find(|(w, _)| re.is_match(w)).map(|x| x.1.to_string()).unwrap_or(s.to_string()),
    };
    SEEN.lock().unwrap().push((s.to_string(), name.clone()));
    name
}

fn pos(p: &SourcePosition) -> String {
    format!("{},{},{}", p.position, p.line, p.column)
}

fn token_json(t: &Token<&str>, text: &str, l: &SourcePosition, r: &SourcePosition) -> String {
    let shown: String = t.clone().into();
    format!("[{},{},{},{},{}]", js(kind_of(t)), js(text), js(&shown), pos(l), pos(r))
}

fn tokens_json(text: &str) -> String {
    let mut o = String::from("[");
    let mut n = 0usize;
    for x in Lexer::new(text) {
        let (l, t, r) = match x { Ok(y) => y, Err(_) => break };
        n += 1;
        if n > 4 * text.len() + 16 {
            panic!("more tokens than the text can hold");
        }
        if o.len() > 1 {
            o.push(',');
        }
        let s = text.get(l.position..r.position).unwrap_or("\u{fffd}");
        o.push_str(&token_json(&t, s, &l, &r));
    }
    o.push(']');
    o
}

type PErr<'a> = ParseError<SourcePosition, Token<&'a str>, scilla_parser::parser::lexer::ParseError>;

fn error_json(e: &PErr) -> String {
    let list = |x: &Vec<String>| {
        let mut v: Vec<String> = x.iter().map(|s| js(&terminal_name(s))).collect();
        v.sort();
        v.join(",")
    };
    match e {
        ParseError::UnrecognizedToken { token: (l, t, r), expected } => format!(
            "{{\"at\":\"token\",\"tok\":{},\"exp\":[{}]}}",
            token_json(t, "", l, r), list(expected)),
        ParseError::UnrecognizedEof { location, expected } => format!(
            "{{\"at\":\"end\",\"tok\":[\"\",\"\",\"\",{},{}],\"exp\":[{}]}}",
            pos(location), pos(location), list(expected)),
        ParseError::ExtraToken { token: (l, t, r) } => format!(
            "{{\"at\":\"token\",\"tok\":{},\"exp\":[]}}", token_json(t, "", l, r)),
        ParseError::InvalidToken { location } => format!(
            "{{\"at\":\"invalid\",\"tok\":[\"\",\"\",\"\",{},{}],\"exp\":[]}}", pos(location), pos(location)),
        ParseError::User { .. } => unreachable!(),
    }
}

fn tree_json(w: &Walker) -> String {
    let mut o = String::from("[");
    let mut ends = vec![];
    for e in &w.evs {
        if o.len() > 1 {
            o.push(',');
        }
        if let Ev::Open(_, sp, _) = e {
            ends.push(sp.as_ref().map(|x| pos(&x.1)).unwrap_or("-1,0,0".into()));
        }
        match e {
            Ev::Open(l, Some((a, b)), _) => { let _ = write!(o, "[\"o\",\"{l}\",{},{}]", pos(a), pos(b)); }
            Ev::Open(l, None, _) => { let _ = write!(o, "[\"o\",\"{l}\",-1,0,0,0,0,0]"); }
            Ev::Leaf(t, (a, b)) => { let _ = write!(o, "[\"l\",{},{},{}]", js(t), pos(a), pos(b)); }
            Ev::Close => { let _ = write!(o, "[\"c\",\"\",0,0,0,{}]", ends.pop().unwrap()); }
        }
    }
    o.push(']');
    o
}

/// The nodes with callbacks, numbered in source order: [kind, parent, span...]
fn numbering(w: &Walker) -> (HashMap<(usize, &'static str), usize>, String) {
    let mut ids = HashMap::new();
    let mut stack: Vec<usize> = vec![];
    let mut o = String::from("[");
    let mut n = 0;
    for e in &w.evs {
        match e {
            Ev::Open(l, sp, ptr) => {
                let kind = &l[..2];
                n += 1;
                let prev = ids.insert((*ptr, kind), n);
                assert!(prev.is_none());
                if n > 1 {
                    o.push(',');
                }
                let parent = stack.last().copied().unwrap_or(0);
                match sp {
                    Some((a, b)) => { let _ = write!(o, "[\"{kind}\",{parent},1,{},{}]", pos(a), pos(b)); }
                    None => { let _ = write!(o, "[\"{kind}\",{parent},0,0,0,0,0,0,0]"); }
                }
                stack.push(n);
            }
            Ev::Close => { stack.pop(); }
            _ => {}
        }
    }
    o.push(']');
    (ids, o)
}

fn parse_policy(s: &str) -> Policy {
    let mut p = Policy::default();
    let (sk, f) = match s.find('f') {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    };
    p.fail = f.map(|x| x.parse().unwrap());
    if let Some(x) = sk.strip_prefix('s') {
        p.skip = x.split('.').map(|y| y.parse().unwrap()).collect();
    }
    p
}

fn visit_json<T: Walk + AstVisitor>(node: &T, policies: &str) -> String {
    let mut w = Walker::default();
    node.walk(&mut w);
    let (ids, nodes) = numbering(&w);
    let n = ids.len();
    let mut runs: Vec<String> = vec![];
    let mut list: Vec<String> = vec![];
    for p in policies.split(',') {
        // bulk requests: F = fail at every call of the full traversal, S = skip at every node
        match p {
            "F" => list.extend((0..2 * n).map(|k| format!("f{k}"))),
            "S" => list.extend((1..=n).map(|k| format!("s{k}"))),
            _ => list.push(p.to_string()),
        }
    }
    for p in &list {
        let mut r = Recorder { evs: vec![], ids: &ids, policy: parse_policy(p), calls: 0, limit: 10 * n + 100 };
        let res = catch_unwind(AssertUnwindSafe(|| node.visit(&mut r)));
        let res = match res {
            Ok(Ok(_)) => "ok".to_string(),
            Ok(Err(s)) => s,
            Err(_) => "panic".to_string(),
        };
        let mut o = String::from("[");
        for e in &r.evs {
            if o.len() > 1 {
                o.push(',');
            }
            match e {
                VEv::Push(a, b) => { let _ = write!(o, "[\"push\",\"\",0,\"\",{},{}]", pos(a), pos(b)); }
                VEv::Pop => o.push_str("[\"pop\",\"\",0,\"\",0,0,0,0,0,0]"),
                VEv::Enter(k, id, a) => { let _ = write!(o, "[\"enter\",\"{k}\",{id},\"{a}\",0,0,0,0,0,0]"); }
                VEv::Exit(k, id, a) => { let _ = write!(o, "[\"exit\",\"{k}\",{id},\"{a}\",0,0,0,0,0,0]"); }
            }
        }
        o.push(']');
        runs.push(format!("{{\"pol\":{},\"res\":{},\"evs\":{}}}", js(p), js(&res), o));
    }
    format!("\"nodes\":{},\"runs\":[{}]", nodes, runs.join(","))
}

fn result_json<T: Walk + AstVisitor>(r: &Result<T, PErr>, flags: &str, policies: Option<&str>) -> String {
    match r {
        Ok(t) => {
            let mut o = String::from("\"res\":\"ok\"");
            if flags.contains('a') {
                let mut w = Walker::default();
                t.walk(&mut w);
                let _ = write!(o, ",\"ast\":{}", tree_json(&w));
            }
            if let Some(p) = policies {
                let _ = write!(o, ",{}", visit_json(t, p));
            }
            o
        }
        Err(e) => format!("\"res\":\"err\",\"err\":{}", error_json(e)),
    }
}

type Item<'a> = Result<(SourcePosition, Token<&'a str>, SourcePosition), scilla_parser::parser::lexer::ParseError>;

fn run_entry<'a>(entry: &str, toks: impl Iterator<Item = Item<'a>>, flags: &str, policies: Option<&str>) -> String {
    let mut errors = vec![];
    macro_rules! entries {
        ($($name:literal $p:ident),* $(,)?) => {
            match entry {
                $( $name => result_json(&parser::$p::new().parse(&mut errors, toks), flags, policies), )*
                _ => panic!("no such entry {entry}"),
            }
        };
    }
    entries! {
        "Program" ProgramParser, "AddressType" AddressTypeParser, "ArgumentPattern" ArgumentPatternParser,
        "AtomicExpression" AtomicExpressionParser, "BlockchainFetchArguments" BlockchainFetchArgumentsParser,
        "BuiltinArguments" BuiltinArgumentsParser, "ByteString" ByteStringParser,
        "ComponentBody" ComponentBodyParser, "ComponentDefinition" ComponentDefinitionParser,
        "ComponentId" ComponentIdParser, "ComponentParameters" ComponentParametersParser,
        "ContractDefinition" ContractDefinitionParser, "ContractField" ContractFieldParser,
        "FullExpression" FullExpressionParser, "ImportDeclarations" ImportDeclarationsParser,
        "ImportedName" ImportedNameParser, "LibraryDefinition" LibraryDefinitionParser,
        "LibrarySingleDefinition" LibrarySingleDefinitionParser, "MapAccess" MapAccessParser,
        "MessageEntry" MessageEntryParser, "MetaIdentifier" MetaIdentifierParser,
        "ParameterPair" ParameterPairParser,
        "PatternMatchExpressionClause" PatternMatchExpressionClauseParser, "Pattern" PatternParser,
        "ProcedureDefinition" ProcedureDefinitionParser, "ScillaType" ScillaTypeParser,
        "StatementBlock" StatementBlockParser, "Statement" StatementParser,
        "TransitionDefinition" TransitionDefinitionParser,
        "TypeAlternativeClause" TypeAlternativeClauseParser, "TypeAnnotation" TypeAnnotationParser,
        "TypeArgument" TypeArgumentParser, "TypeMapKey" TypeMapKeyParser,
        "TypeMapValueArguments" TypeMapValueArgumentsParser, "TypeMapValue" TypeMapValueParser,
        "TypeNameIdentifier" TypeNameIdentifierParser, "TypedIdentifier" TypedIdentifierParser,
        "VariableIdentifier" VariableIdentifierParser, "WithConstraint" WithConstraintParser,
    }
}

/// [constructor, text, arguments, fields]
fn type_json(t: &Type) -> String {
    let n = |c: &str, s: &str, a: Vec<&Type>| {
        format!("[{},{},[{}],[]]", js(c), js(s), a.iter().map(|x| type_json(x)).collect::<Vec<_>>().join(","))
    };
    match t {
        Type::Int32 => n("Int32", "", vec![]), Type::Int64 => n("Int64", "", vec![]),
        Type::Int128 => n("Int128", "", vec![]), Type::Int256 => n("Int256", "", vec![]),
        Type::Uint32 => n("Uint32", "", vec![]), Type::Uint64 => n("Uint64", "", vec![]),
        Type::Uint128 => n("Uint128", "", vec![]), Type::Uint256 => n("Uint256", "", vec![]),
        Type::String => n("String", "", vec![]), Type::BNum => n("BNum", "", vec![]),
        Type::Map(k, v) => n("Map", "", vec![k, v]), Type::ByStr => n("ByStr", "", vec![]),
        Type::ByStrX(x) => n("ByStrX", &format!("ByStr{x}"), vec![]),
        Type::ByStr20 => n("ByStr20", "", vec![]), Type::Bool => n("Bool", "", vec![]),
        Type::Option(x) => n("Option", "", vec![x]), Type::Pair(x, y) => n("Pair", "", vec![x, y]),
        Type::List(x) => n("List", "", vec![x]), Type::Other(s) => n("Other", s, vec![]),
        Type::ByStr20With { type_name, fields } => format!("[\"ByStr20With\",{},[],{}]", js(type_name), fields_json(fields)),
    }
}

fn fields_json(f: &FieldList) -> String {
    format!("[{}]", f.iter().map(|x| format!("[{},{}]", js(&x.name), type_json(&x.r#type))).collect::<Vec<_>>().join(","))
}

/// [name, parameters, fields, transitions]
pub fn contract_json(c: &Contract) -> String {
    format!("[{},{},{},[{}]]", js(&c.name), fields_json(&c.init_params), fields_json(&c.fields),
        c.transitions.iter().map(|t| format!("[{},{}]", js(&t.name), fields_json(&t.params))).collect::<Vec<_>>().join(","))
}

/// The written form of every type, in the order parameters, fields, transition parameters.
fn written_json(c: &Contract) -> String {
    let mut v: Vec<String> = vec![];
    let mut all = |f: &FieldList| for x in f.iter() { v.push(js(&x.r#type.to_string())) };
    all(&c.init_params);
    all(&c.fields);
    for t in c.transitions.iter() { all(&t.params) }
    format!("[{}]", v.join(","))
}

pub fn outcome(r: &Result<Contract, Error>) -> (String, String) {
    match r {
        Ok(c) => ("ok".into(), contract_json(c)),
        Err(e) => {
            let k = match e {
                Error::ParseError(_) => "parse",
                Error::AstVisitError(_) => "visit",
                Error::IoError(_) => "io",
                Error::FromUtf8Error(_) => "utf8",
            };
            (k.into(), js(&e.to_string()))
        }
    }
}

fn sum_json(text: &str, flags: &str) -> String {
    let r = text.parse::<Contract>();
    let (k, v) = outcome(&r);
    match r {
        Ok(c) => {
            let w = if flags.contains('w') { format!(",\"written\":{}", written_json(&c)) } else { String::new() };
            format!("\"sum\":{v},\"out\":\"ok\"{w}")
        }
        Err(_) => {
            // the error of the grammar must be what the message tells
            let mut errors = vec![];
            let named = match parser::ProgramParser::new().parse(&mut errors, Lexer::new(text)) {
                Ok(_) => "none",
                Err(e) => {
                    let holds = |x: String| v.contains(js(&x).trim_matches('"'));
                    let parts = match &e {
                        ParseError::UnrecognizedToken { token: (l, t, _), .. } => {
                            let shown: String = t.clone().into();
                            holds(format!("{l:?}")) && (holds(format!("{t:?}")) || holds(shown))
                        }
                        ParseError::UnrecognizedEof { location, .. } => holds(format!("{location:?}")),
                        _ => false,
                    };
                    if holds(format!("{e:?}")) || parts { "yes" } else { "no" }
                }
            };
            format!("\"out\":\"{k}\",\"msg\":{v},\"named\":\"{named}\"")
        }
    }
}

fn one(line: &str) -> String {
    let mut it = line.splitn(4, '\t');
    let (id, op, arg, input) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap(), it.next().unwrap_or(""));
    let (entry, rest) = arg.split_once(':').unwrap_or((arg, ""));
    let r = catch_unwind(AssertUnwindSafe(|| match op {
        "syn" => {
            let text = String::from_utf8(unhex(input)).unwrap();
            let mut o = String::new();
            if rest.contains('t') {
                let _ = write!(o, "\"toks\":{},", tokens_json(&text));
            }
            if !rest.contains('n') {
                o.push_str(&run_entry(entry, Lexer::new(&text), rest, None));
                o.push(',');
            }
            if rest.contains('s') {
                o.push_str(&sum_json(&text, rest));
                o.push(',');
            }
            o.pop();
            o
        }
        "feed" => {
            let toks: Vec<(String, String)> = input.split(' ').filter(|x| !x.is_empty()).map(|x| {
                let (k, t) = x.split_once('~').unwrap_or((x, ""));
                (k.to_string(), t.to_string())
            }).collect();
            let at = |i: usize| SourcePosition { position: i, line: 0, column: i };
            run_entry(entry, toks.iter().enumerate().map(|(i, (k, t))| Ok((at(2 * i), token_of(k, t), at(2 * i + 1)))), rest, None)
        }
        "visit" => {
            let text = String::from_utf8(unhex(input)).unwrap();
            run_entry(entry, Lexer::new(&text), "", Some(rest))
        }
        "sum" => sum_json(&String::from_utf8(unhex(input)).unwrap(), rest),
        "file" => {
            let p = String::from_utf8(unhex(input)).unwrap();
            let (k, v) = outcome(&Contract::parse(std::path::Path::new(&p)));
            format!("\"out\":\"{k}\",\"val\":{v}")
        }
        "sched" => sched::run(entry, &String::from_utf8(unhex(input)).unwrap()),
        "sess" => session::run(entry, &String::from_utf8(unhex(input)).unwrap()),
        _ => panic!("unknown op {op}"),
    }));
    match r {
        Ok(s) => format!("{{\"id\":\"{id}\",{s}}}"),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            format!("{{\"id\":\"{id}\",\"res\":\"panic\",\"out\":\"panic\",\"msg\":{}}}", js(&m))
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: usize| args.iter().position(|a| a == k).map(|i| args[i + 1].parse().unwrap()).unwrap_or(d);
    let threads = get("-j", 8);
    let limit = get("-t", 20);
    let stack = get("-k", 8192) * 1024;
    let announce = args.iter().any(|a| a == "-v");
    let lines: Arc<Vec<String>> = Arc::new(std::io::stdin().lock().lines().map(|l| l.unwrap()).filter(|l| !l.is_empty()).collect());
    let next = Arc::new(AtomicUsize::new(0));
    let now: Arc<Vec<Mutex<Option<(Instant, usize)>>>> = Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
    let out = Arc::new(Mutex::new(std::io::BufWriter::new(std::io::stdout())));
    let done = Arc::new(AtomicUsize::new(0));
    for w in 0..threads {
        let (lines, next, now, out, done) = (lines.clone(), next.clone(), now.clone(), out.clone(), done.clone());
        std::thread::Builder::new().stack_size(stack).spawn(move || {
            loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= lines.len() {
                    break;
                }
                *now[w].lock().unwrap() = Some((Instant::now(), i));
                if announce {
                    eprintln!("BEGIN {}", lines[i].split('\t').next().unwrap());
                }
                let r = one(&lines[i]);
                *now[w].lock().unwrap() = None;
                let mut o = out.lock().unwrap();
                o.write_all(r.as_bytes()).unwrap();
                o.write_all(b"\n").unwrap();
            }
            done.fetch_add(1, Ordering::SeqCst);
        }).unwrap();
    }
    // The watchdog: a request that does not return within the limit is reported as such.
    while done.load(Ordering::SeqCst) < threads {
        std::thread::sleep(Duration::from_millis(5));
        for n in now.iter() {
            let s = *n.lock().unwrap();
            if let Some((t, i)) = s {
                if t.elapsed() > Duration::from_secs(limit as u64) {
                    let id = lines[i].split('\t').next().unwrap();
                    let mut o = out.lock().unwrap();
                    let _ = writeln!(o, "{{\"id\":\"{id}\",\"res\":\"hang\",\"out\":\"hang\"}}");
                    let _ = o.flush();
                    std::process::exit(3);
                }
            }
        }
    }
    out.lock().unwrap().flush().unwrap();
}
