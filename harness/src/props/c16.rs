//! Broken schemas are rejected with the right error.

use super::common::*;
use crate::engine::*;
use crate::render;
use crate::schema::*;
use crate::tape::Source;
use protofish::context::{Context, ItemType, ParseError};

pub const PROP: Prop = Prop {
    id: "C16",
    run,
    enumerated: |_| 18 * HUGE,
    quick: 90_000,
    thorough: 1_000_000,
    threads: 8,
    rule: "A random valid set of files (which must be accepted) gets one fault in a random place: a \
           second declaration of a declared full name (of any kinds, nested, in another file, or \
           through a package called like a message), a reference to a name nothing declares, a \
           reference to the wrong kind of item, or a change that leaves the grammar (a missing or \
           stray token, an unterminated literal or comment, a bad literal). The exact error is \
           expected. Enumerated: thousands of each kind of declaration. Non-trivial: the fault was placed; distinct by text.",
};

/// Paths to every message, as indices from the file down.
fn messages(fs: &mut FileSet) -> Vec<(Vec<String>, &mut Msg)> {
    fn walk<'a>(path: Vec<String>, m: &'a mut Msg, out: &mut Vec<(Vec<String>, *mut Msg)>) {
        let mut p = path;
        p.push(m.name.clone());
        out.push((p.clone(), m as *mut Msg));
        for mem in &mut m.members {
            if let Member::Message(n) = mem {
                walk(p.clone(), n, out);
            }
        }
    }
    let mut out = vec![];
    for f in &mut fs.files {
        let path = f.package_path();
        for i in &mut f.items {
            if let Item::Message(m) = i {
                walk(path.clone(), m, &mut out);
            }
        }
    }
    // The borrows nest, so only one of them may be used at a time; the callers pick one.
    out.into_iter().map(|(p, m)| (p, unsafe { &mut *m })).collect()
}

fn kind_name(k: ItemType) -> Kind {
    match k {
        ItemType::Message => Kind::Message,
        ItemType::Enum => Kind::Enum,
        ItemType::Service => Kind::Service,
    }
}

enum Fault {
    Duplicate(String),
    NotFound(String, String),
    Kind { spelling: String, actual: Kind, rpc: bool },
    Syntax,
}

/// An empty declaration of the name.
fn declare(src: &mut Source, name: &str, service: bool) -> Item {
    match src.weighted(&[40, 30, if service { 30 } else { 0 }]) {
        0 => Item::Message(Msg { name: name.to_string(), members: vec![] }),
        1 => Item::Enum(EnumDecl { name: name.to_string(), values: vec![] }),
        _ => Item::Service(SvcDecl { name: name.to_string(), rpcs: vec![], opts: vec![] }),
    }
}

fn duplicate(src: &mut Source, fs: &mut FileSet) -> Option<Fault> {
    let symbols = Symbols::of(fs);
    let all: Vec<String> = symbols
        .map
        .iter()
        .filter(|(_, s)| matches!(s, Sym::Message | Sym::Enum | Sym::Service))
        .map(|(n, _)| n.clone())
        .collect();
    let mut full = src.pick(&all).clone();
    if src.one_in(3) {
        // A kind that there are few of.
        let services: Vec<&String> =
            all.iter().filter(|n| matches!(symbols.map.get(*n), Some(Sym::Service))).collect();
        if !services.is_empty() {
            full = src.pick(&services).to_string();
        }
    }
    let (scope, name) = match full.rsplit_once('.') {
        Some((s, n)) => (Some(s.to_string()), n.to_string()),
        None => (None, full.clone()),
    };
    // Within the message that is its scope?
    let inside: Vec<usize> = messages(fs)
        .iter()
        .enumerate()
        .filter(|(_, (p, _))| Some(p.join(".")) == scope)
        .map(|(i, _)| i)
        .collect();
    if !inside.is_empty() && src.chance(60) {
        let i = *src.pick(&inside);
        let mem = match declare(src, &name, false) {
            Item::Message(m) => Member::Message(m),
            Item::Enum(e) => Member::Enum(e),
            Item::Service(_) => unreachable!(),
        };
        let at = {
            let ms = messages(fs);
            src.below(ms[i].1.members.len() + 1)
        };
        messages(fs).remove(i).1.members.insert(at, mem);
        return Some(Fault::Duplicate(full));
    }
    // In a file whose package is the scope (this makes packages of messages as well).
    let package: Option<Vec<String>> = scope.map(|s| s.split('.').map(|p| p.to_string()).collect());
    let item = declare(src, &name, true);
    let files: Vec<usize> =
        (0..fs.files.len()).filter(|i| fs.files[*i].package == package).collect();
    if !files.is_empty() && src.chance(60) {
        let f = *src.pick(&files);
        let at = src.below(fs.files[f].items.len() + 1);
        fs.files[f].items.insert(at, item);
    } else {
        let at = src.below(fs.files.len() + 1);
        fs.files.insert(at, FileDecl { package, items: vec![item] });
    }
    Some(Fault::Duplicate(full))
}

/// Puts a reference into a random field or rpc. Returns the full name of the declaration it is in.
fn place_reference(
    src: &mut Source,
    fs: &mut FileSet,
    rpc: bool,
    make: &mut dyn FnMut(&mut Source, &[String]) -> Option<Ref>,
) -> Option<(String, Ref)> {
    if rpc {
        let mut services: Vec<(usize, usize)> = vec![];
        for (f, file) in fs.files.iter().enumerate() {
            for (i, item) in file.items.iter().enumerate() {
                if matches!(item, Item::Service(s) if !s.rpcs.is_empty()) {
                    services.push((f, i));
                }
            }
        }
        if services.is_empty() {
            return None;
        }
        let (f, i) = *src.pick(&services);
        let mut scope = fs.files[f].package_path();
        if let Item::Service(s) = &mut fs.files[f].items[i] {
            scope.push(s.name.clone());
            let r = make(src, &scope)?;
            let k = src.below(s.rpcs.len());
            if src.bool() {
                s.rpcs[k].input = r.clone();
            } else {
                s.rpcs[k].output = r.clone();
            }
            return Some((scope.join("."), r));
        }
        return None;
    }
    let n = messages(fs).len();
    if n == 0 {
        return None;
    }
    let i = src.below(n);
    let (path, _) = messages(fs).remove(i);
    let r = make(src, &path)?;
    let m = messages(fs).remove(i).1;
    let existing: Vec<&mut Field> = m
        .members
        .iter_mut()
        .flat_map(|mem| match mem {
            Member::Field(f) => vec![f],
            Member::Oneof(o) => o.fields.iter_mut().collect(),
            _ => vec![],
        })
        .collect();
    if !existing.is_empty() && src.chance(80) {
        let k = src.below(existing.len());
        let f = existing.into_iter().nth(k).unwrap();
        f.ty = Ty::Ref(r.clone());
    } else {
        let f = Field {
            label: *src.pick(&[Label::Single, Label::Repeated, Label::Optional]),
            ty: Ty::Ref(r.clone()),
            name: "faulty_field".to_string(),
            number: 17_777,
            opts: vec![],
        };
        let at = src.below(m.members.len() + 1);
        m.members.insert(at, Member::Field(f));
    }
    Some((path.join("."), r))
}

fn not_found(src: &mut Source, fs: &mut FileSet, rpc: bool) -> Option<Fault> {
    let symbols = Symbols::of(fs);
    let names: Vec<String> = symbols.map.keys().cloned().collect();
    let is_type = |n: &str| symbols.kind(n).is_some();
    let (context, r) = place_reference(src, fs, rpc, &mut |src, scope| {
        let mut parts: Vec<String> = vec![];
        let mut absolute = src.chance(30);
        match src.weighted(&[25, 25, 15, 20, 10, 5]) {
            0 => {
                let n = src.range(1, 3);
                for _ in 0..n {
                    parts.push(random_ident(src));
                }
            }
            1 => {
                // Close to a declared name.
                parts = src.pick(&names).split('.').map(|s| s.to_string()).collect();
                let i = src.below(parts.len());
                match src.below(4) {
                    0 => parts[i].push('x'),
                    1 => {
                        parts.insert(i, random_ident(src));
                    }
                    2 => parts.push(random_ident(src)),
                    _ => {
                        let c = parts[i].clone();
                        parts.push(c);
                    }
                }
            }
            2 => {
                // A package, field, value or rpc is no type.
                let other: Vec<&String> = symbols
                    .map
                    .iter()
                    .filter(|(_, s)| matches!(s, Sym::Other | Sym::Package))
                    .map(|(n, _)| n)
                    .collect();
                if other.is_empty() {
                    return None;
                }
                parts = src.pick(&other).split('.').map(|s| s.to_string()).collect();
            }
            3 => {
                // A relative name made absolute, or the inner part of one out of scope.
                parts = src.pick(&names).split('.').map(|s| s.to_string()).collect();
                let cut = src.below(parts.len());
                parts.drain(..cut);
                absolute = src.bool();
            }
            4 => parts.push(keyword_like(src)),
            _ => {
                // Types that other implementations know or other languages have.
                let known = *src.pick(&[
                    "google.protobuf.Any", "google.protobuf.Timestamp", "google.protobuf.Empty",
                    "google.protobuf.FieldOptions", "google.protobuf.DoubleValue", "google.type.Date",
                    "google.rpc.Status", "protobuf.Any", "Any", "Timestamp", "Struct", "Empty", "any",
                    "int", "uint", "long", "u32", "i64", "f64", "byte", "str", "String", "Bool", "void",
                    "object", "Int32", "INT32", "float32", "float64", "bytes32", "int16", "uint8",
                    "sfixed16", "varint", "enum1", "None", "Self",
                ]);
                parts = known.split('.').map(|s| s.to_string()).collect();
            }
        }
        if !absolute && is_type_keyword(&parts[0]) {
            return None;
        }
        // Nothing must be found by any search through the scopes, however lenient.
        let spelled = parts.join(".");
        if is_type(&spelled) {
            return None;
        }
        if !absolute && (1..=scope.len()).any(|i| is_type(&join(&scope[..i], &spelled))) {
            return None;
        }
        Some(Ref { absolute, parts, target: String::new(), kind: Kind::Message })
    })?;
    Some(Fault::NotFound(r.spelling(), context))
}

fn wrong_kind(src: &mut Source, fs: &mut FileSet, rpc: bool) -> Option<Fault> {
    let symbols = Symbols::of(fs);
    let wrong: Vec<(String, Kind)> = symbols
        .map
        .iter()
        .filter_map(|(n, s)| match s {
            Sym::Enum if rpc => Some((n.clone(), Kind::Enum)),
            Sym::Service => Some((n.clone(), Kind::Service)),
            _ => None,
        })
        .collect();
    if wrong.is_empty() {
        return None;
    }
    let (_, r) = place_reference(src, fs, rpc, &mut |src, scope| {
        let (target, kind) = src.pick(&wrong).clone();
        let (absolute, parts) = src.pick(&symbols.spellings(scope, &target, rpc)).clone();
        Some(Ref { absolute, parts, target, kind })
    })?;
    Some(Fault::Kind { spelling: r.spelling(), actual: r.kind, rpc })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Tok {
    Word,
    Number,
    Str,
    Punct,
}

/// Tokens of plainly written text: kind, start, end.
fn tokens(text: &str) -> Vec<(Tok, usize, usize)> {
    let b = text.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let start = i;
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        let kind = if c.is_ascii_alphabetic() {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            Tok::Word
        } else if c.is_ascii_digit() {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.') {
                i += 1;
                if b[i - 1] == b'e' && i < b.len() && (b[i] == b'-' || b[i] == b'+') {
                    i += 1;
                }
            }
            Tok::Number
        } else if c == b'"' || c == b'\'' {
            i += 1;
            while b[i] != c {
                if b[i] == b'\\' {
                    i += 1;
                }
                i += 1;
            }
            i += 1;
            Tok::Str
        } else {
            i += 1;
            Tok::Punct
        };
        out.push((kind, start, i));
    }
    out
}

/// Breaks the text of a file so that it is outside the grammar in any reading.
fn break_syntax(src: &mut Source, text: &str) -> Option<String> {
    let t = tokens(text);
    let at = |i: usize| &text[t[i].1..t[i].2];
    let remove = |i: usize| format!("{} {}", &text[..t[i].1], &text[t[i].2..]);
    let insert = |i: usize, s: &str| format!("{} {} {}", &text[..t[i].1], s, &text[t[i].1..]);
    let replace = |i: usize, s: &str| format!("{}{}{}", &text[..t[i].1], s, &text[t[i].2..]);
    let find = |f: &dyn Fn(usize) -> bool| -> Vec<usize> { (0..t.len()).filter(|i| f(*i)).collect() };
    // A number of a field or enum value: after `=` and before `;` or `[`.
    let numbers = find(&|i| {
        i > 3
            && t[i].0 == Tok::Number
            && at(i - 1) == "="
            && i + 1 < t.len()
            && (at(i + 1) == ";" || at(i + 1) == "[")
            && {
                // Not the value of an option.
                let begin = (0..i).rev().find(|k| [";", "{", "}"].contains(&at(*k))).map_or(0, |k| k + 1);
                at(begin) != "option" && (begin..i).all(|k| at(k) != "[")
            }
    });
    Some(match src.below(16) {
        0 => {
            // A missing structural token.
            let c = find(&|i| t[i].0 == Tok::Punct && ["{", "}", "=", ";", "(", ")"].contains(&at(i)));
            // Parentheses around option names may be missed without harm to the grammar, as may
            // a brace or semicolon of an rpc; only the rest is a fault for sure.
            let c: Vec<usize> = c
                .into_iter()
                .filter(|i| match at(*i) {
                    ";" => !(at(*i - 1) == ")"),
                    "{" | "}" | "=" => true,
                    "(" => at(*i - 1) == "returns",
                    _ => false,
                })
                .collect();
            remove(*src.pick(&c))
        }
        1 => {
            let c = ["{", "}", ")", "]", "@", "#", "$", "%", "^", "&", "`", "~", "|", "\\", "é", "\u{0}", "\u{2028}"];
            insert(src.below(t.len()), src.pick(&c))
        }
        2 => {
            // A stray delimiter where a name is expected.
            let c = find(&|i| {
                t[i].0 == Tok::Word && i > 0 && ["message", "enum", "service", "oneof", "rpc", "package"].contains(&at(i))
                    && t.get(i + 1).map_or(false, |n| n.0 == Tok::Word)
                    && (i == 0 || ["{", "}", ";"].contains(&at(i - 1)))
            });
            if c.is_empty() {
                return None;
            }
            let i = *src.pick(&c);
            replace(i + 1, src.pick(&["", "1x", "\"name\"", "=", "9", "-"]))
        }
        3 => text.replacen("proto3", src.pick(&["proto2", "proto4", "", "Proto3", "proto", "proto33"]), 1),
        4 => {
            // Not the syntax statement first.
            let end = text.find(';').unwrap() + 1;
            format!("{} {}", src.pick(&["", "syntax;", "syntax = proto3;", "message Before {}", ";"]), &text[end..])
        }
        5 => {
            // Cut off in the middle of a declaration.
            let mut depth = 0;
            let mut cuts = vec![];
            for i in 0..t.len() {
                match at(i) {
                    "{" => depth += 1,
                    "}" => depth -= 1,
                    _ => {}
                }
                if depth > 0 {
                    cuts.push(t[i].2);
                }
            }
            if cuts.is_empty() {
                return None;
            }
            text[..*src.pick(&cuts)].to_string()
        }
        6 => {
            if numbers.is_empty() {
                return None;
            }
            let i = *src.pick(&numbers);
            replace(
                i,
                src.pick(&[
                    "99999999999999999999", "18446744073709551616", "0xfffffffffffffffff", "1x", "0x", "0xg",
                    "08", "09", "1.5", "1e3", "\"1\"", "", "one", "--1", "+-1", "1 2", "12345678901234567890123",
                    "0777777777777777777777777",
                ]),
            )
        }
        7 => {
            if text.contains("*/") {
                return None;
            }
            let i = src.below(t.len());
            insert(i, src.pick(&["/* never closed", "/*", "\"never closed", "'never closed", "\"", "'"]))
        }
        8 => {
            // A literal with a fault, as an option of a field or value.
            if numbers.is_empty() {
                return None;
            }
            let i = *src.pick(&numbers);
            let bad = src.pick(&[
                "'\\q'", "\"\\8\"", "'\\x'", "'\\xg0'", "\"a\nb\"", "'a\0b'", "'\\u12'", "'it's'",
                "99999999999999999999", "-9223372036854775809", "9223372036854775808", "0x", "08", "1e", "1e+",
                ".", "..5", "1.2.3", "--1", "-", "+", "- -1", "-true", "a b", "a.", ".a", "[1]", "1a", "-'x'",
                "(a)", "é", "a.1", "0xfg",
            ]);
            let sep = if at(i + 1) == "[" { "" } else { "]" };
            let rest = if at(i + 1) == "[" {
                format!(", {}", &text[t[i + 1].2..])
            } else {
                text[t[i].2..].to_string()
            };
            format!("{} [ bad = {} {}{}", &text[..t[i].2], bad, sep, rest)
        }
        9 => {
            // A faulty option name.
            if numbers.is_empty() {
                return None;
            }
            let i = *src.pick(&numbers);
            let bad = src.pick(&["", "1", "()", "(a", "a)", "a..b", "a.", ".a", "(a.)", "a b", "a-b", "'a'", "(a)b"]);
            if at(i + 1) == "[" {
                return None;
            }
            format!("{} [ {} = 1 ] {}", &text[..t[i].2], bad, &text[t[i].2..])
        }
        10 => {
            // Statements that do not belong there.
            let tops = find(&|i| i >= 3 && at(i) == ";" && i < 4);
            let i = *tops.first()?;
            let extra = src.pick(&[
                "int32 a = 1;", "rpc A(B) returns (C);", "oneof o { int32 a = 1; }", "returns", "package;",
                "package a b;", "package .a;", "package a.;", "package 'a';", "import;", "import a;",
                "import 'a'", "import strong 'a';", "option;", "option a;", "option a =;", "option = 1;",
                "reserved 1;", "message {}", "message A B {}", "message A;", "message A { ", "enum E { A }",
                "enum E { A = 1 }", "enum E { A = x; }", "enum E { A; }", "enum { }", "enum E { int32 a = 1; }",
                "enum E { message M {} }", "service S { int32 a = 1; }", "service S { message M {} }",
                "service S { rpc A() returns (B); }", "service S { rpc A(B) return (B); }",
                "service S { rpc A(B); }", "service S { rpc A(B) returns B; }",
                "service S { rpc A(B, B) returns (B); }", "service S { rpc (B) returns (B); }",
                "service S { enum E {} }", "message A { rpc A(B) returns (B); }", "message A { service S {} }",
                "message A { int32 = 1; }", "message A { int32 a; }", "message A { int32 a 1; }",
                "message A { int32 a = ; }", "message A { int32 a = -1; }", "message A { a = 1; }",
                "message A { repeated repeated int32 a = 1; }", "message A { optional repeated int32 a = 1; }",
                "message A { required int32 a = 1; }", "message A { int32 a = 1 [] ; }",
                "message A { int32 a = 1 [deprecated]; }", "message A { int32 a = 1 [deprecated = true,]; }",
                "message A { int32 a = 1 [deprecated = true]]; }", "message A { int32 a = 1, }",
                "message A { oneof o { repeated int32 a = 1; } }", "message A { oneof { int32 a = 1; } }",
                "message A { oneof o { message B {} } }", "message A { oneof o { oneof p { int32 a = 1; } } }",
                "message A { reserved; }", "message A { reserved 1 to; }", "message A { reserved 1,; }",
                "message A { reserved to 3; }", "message A { reserved 1 2; }", "message A { import 'a'; }",
                "message A { package a; }", "message A { int 32 a = 1; }", "message A.B { }", "enum A.B { }",
                "message 1A { }", "message A- { }", "message A { int32 a-b = 1; }", "message A { int32 a.b = 1; }",
                "message A { .. B b = 1; }", "message A { B. b = 1; }", "message A { B..C b = 1; }",
                "syntax = \"proto3\";", "message A [deprecated = true] { }", "}", "{", "{}", "= 1;", "abc", "1",
            ]);
            format!("{} {} {}", &text[..t[i].2], extra, &text[t[i].2..])
        }
        11 => {
            // Two words run together or a missing keyword.
            let c = find(&|i| {
                t[i].0 == Tok::Word
                    && ["message", "enum", "service", "rpc", "returns"].contains(&at(i))
                    && i > 0
                    && ["{", "}", ";", ")"].contains(&at(i - 1))
                    && t.get(i + 1).map_or(false, |n| n.0 == Tok::Word || at(i + 1) == "(")
                    && at(i + 1) != "."
            });
            // `enum X {` without its keyword could only be read as a declaration by accident.
            let c: Vec<usize> = c
                .into_iter()
                .filter(|i| match at(*i) {
                    "message" | "enum" | "service" => t.get(*i + 2).map_or(false, |_| at(*i + 2) == "{"),
                    "rpc" => t.get(*i + 2).map_or(false, |_| at(*i + 2) == "("),
                    _ => at(*i + 1) == "(" && at(*i - 1) == ")",
                })
                .collect();
            if c.is_empty() {
                return None;
            }
            remove(*src.pick(&c))
        }
        14 => {
            // A keyword that runs into the next word, or on.
            let c = find(&|i| {
                t[i].0 == Tok::Word
                    && ["message", "enum", "service", "rpc", "package", "oneof", "reserved"].contains(&at(i))
                    && i > 0
                    && ["{", "}", ";"].contains(&at(i - 1))
                    && t.get(i + 1).map_or(false, |n| n.0 == Tok::Word)
                    && t.get(i + 2).map_or(false, |_| match at(i) {
                        "message" | "enum" | "service" | "oneof" => at(i + 2) == "{",
                        "rpc" => at(i + 2) == "(",
                        "package" => at(i + 2) == ";" || at(i + 2) == ".",
                        _ => at(i + 2) == ";" || at(i + 2) == ",",
                    })
            });
            if c.is_empty() {
                return None;
            }
            let i = *src.pick(&c);
            let glue = src.pick(&["", "_", "s", "1", "x_"]);
            format!("{}{}{}", &text[..t[i].2], glue, &text[t[i + 1].1..])
        }
        15 => {
            let bad = [
                "\"proto3'", "'proto3\"", "\" proto3\"", "'proto3 '", "\"proto3", "proto3", "''", "\"proto3\"\"\"",
                "'/**/proto3'", "\"proto3\n\"", "'proto3''", "= \"proto3\"", "\"proto3\" 1",
            ];
            text.replacen("\"proto3\"", src.pick(&bad), 1)
        }
        12 => format!("{}{}", src.pick(&["x", "1", ";", "{", "\"", "\u{feff}\u{feff}", "é", "package a;"]), text),
        _ => {
            let tail = ["x", "}", "{", "=", "\"", "/*", "message", "message A", "message A {", "option a = 1", "'", "1", "\u{0}"];
            format!("{}\n{}", text, src.pick(&tail))
        }
    })
}

fn describe_error(e: &ParseError) -> String {
    format!("{:?} ({})", e, e)
}

/// The text that a user sees contains the names.
fn says(e: &ParseError, names: &[&String]) -> Check {
    let shown = e.to_string();
    for n in names {
        if !shown.contains(n.as_str()) {
            return Err(format!("the text {:?} of {:?} does not name {:?}", shown, e, n));
        }
    }
    Ok(())
}

#[allow(unreachable_patterns)]
fn expect(fault: &Fault, result: Result<Context, ParseError>) -> Check {
    let e = match result {
        Ok(_) => {
            return Err(match fault {
                Fault::Duplicate(n) => format!("accepted, although {} is declared twice", n),
                Fault::NotFound(n, c) => format!("accepted, although {} refers to {}", c, n),
                Fault::Kind { spelling, actual, .. } => {
                    format!("accepted, although {} is a {:?}", spelling, actual)
                }
                Fault::Syntax => "accepted text outside the grammar".to_string(),
            })
        }
        Err(e) => e,
    };
    // Every error can be shown.
    let shown = describe_error(&e);
    match (fault, &e) {
        (Fault::Duplicate(n), ParseError::DuplicateType { name }) if name == n => {
            says(&e, &[n])
        }
        (Fault::NotFound(n, c), ParseError::TypeNotFound { name, context })
            if name == n && context == c =>
        {
            says(&e, &[n, c])
        }
        (
            Fault::Kind { spelling, actual, rpc },
            ParseError::InvalidTypeKind { type_name, expected, actual: a, .. },
        ) if type_name == spelling
            && kind_name(*a) == *actual
            && kind_name(*expected) != Kind::Service
            && (!*rpc || kind_name(*expected) == Kind::Message) =>
        {
            says(&e, &[spelling])
        }
        (Fault::Syntax, ParseError::SyntaxError { .. }) => Ok(()),
        (Fault::Duplicate(n), _) => Err(format!("expected a duplicate of {}, got {}", n, shown)),
        (Fault::NotFound(n, c), _) => {
            Err(format!("expected the unknown type {:?} in {:?}, got {}", n, c, shown))
        }
        (Fault::Kind { spelling, actual, rpc }, _) => Err(format!(
            "expected an invalid kind for {:?}, a {:?} used in a {}, got {}",
            spelling,
            actual,
            if *rpc { "rpc" } else { "field" },
            shown
        )),
        (Fault::Syntax, _) => Err(format!("expected a syntax error, got {}", shown)),
    }
}

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    let base = Cfg { big: false, max_files: 3, max_items: 3, max_members: 5, ..Cfg::default() };
    let cfg = varied(src, base);
    let fs = gen_or_huge(if e > 0 { 1 + (e - 1) / 18 } else { 0 }, src, cfg, &[], case);
    let text = render::plain(&fs);
    case.describe(|| format!("==== without the fault ====\n{}", all_text(&text)));
    if let Err(e) = parse(&text) {
        return Err(format!("valid files were rejected: {}", describe_error(&e)));
    }
    let mut broken = fs.clone();
    let which = match e {
        0 => src.weighted(&[25, 20, 10, 10, 10, 25]),
        _ => (e - 1) as usize % 6,
    };
    let (fault, label) = match which {
        0 => (duplicate(src, &mut broken), "duplicate name"),
        1 => (not_found(src, &mut broken, false), "unknown type of a field"),
        2 => (not_found(src, &mut broken, true), "unknown type of an rpc"),
        3 => (wrong_kind(src, &mut broken, false), "wrong kind for a field"),
        4 => (wrong_kind(src, &mut broken, true), "wrong kind for an rpc"),
        _ => (Some(Fault::Syntax), "syntax"),
    };
    let fault = match fault {
        Some(f) => f,
        None => {
            case.label("skipped: nowhere to put the fault");
            return Ok(());
        }
    };
    let mut files = if which == 5 { text } else { render::mixed(&broken, src) };
    if which == 5 {
        let i = src.below(files.len());
        match break_syntax(src, &files[i]) {
            Some(t) => files[i] = t,
            None => {
                case.label("skipped: nowhere to put the fault");
                return Ok(());
            }
        }
    }
    case.label(label);
    case.describe(|| format!("==== with the fault ({}) ====\n{}", label, all_text(&files)));
    case.sample(|| format!("{}: {}", label, all_text(&files)));
    case.nontrivial(text_digest(&files));
    expect(&fault, parse(&files))
}
