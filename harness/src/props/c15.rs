//! Parsing never crashes: any text gives a context or an error.

use super::common::*;
use crate::engine::*;
use crate::render;
use crate::schema::*;
use crate::tape::Source;
use protofish::context::{Context, ParseError};

pub const PROP: Prop = Prop {
    id: "C15",
    run,
    enumerated: |_| DEEP.len() as u64,
    quick: 400_000,
    thorough: 1_500_000,
    threads: 8,
    rule: "Arbitrary text, token soup, valid files with character, token or block level mutations, valid \
           files with extreme literals and unsupported constructs, several faults at once, and texts \
           nested or repeated thousands of times, parsed on 2 MiB stacks; a context or an error must \
           come back, contexts must answer lookups and errors must print. Non-trivial: the text gets \
           past its syntax statement.",
};

const VOCABULARY: [&str; 88] = [
    "syntax", "=", "\"proto3\"", ";", "message", "enum", "service", "rpc", "returns", "stream", "oneof",
    "map", "<", ">", "option", "reserved", "to", "max", "import", "weak", "public", "package", "repeated",
    "optional", "required", "extend", "extensions", "group", "{", "}", "{", "}", "(", ")", "[", "]", ",",
    ".", "-", "+", "int32", "sint64", "fixed32", "bool", "string", "bytes", "double", "float", "A", "B",
    "C", "a.b", ".A", ".A.B", "f", "x", "1", "2", "0", "0x1F", "0xffffffffffffffff", "017", "08",
    "18446744073709551615", "18446744073709551616", "9223372036854775808", "-9223372036854775808", "1.5",
    ".5", "1e400", "inf", "nan", "true", "false", "'s'", "\"\\xff\"", "\"\\777\"", "'\\'", "'", "\"", "//",
    "/*", "*/", "\n", "\\", "é", "\u{feff}", "\0",
];

const SNIPPETS: [&str; 41] = [
    "message A { int32 a = 1; }",
    "message A { A a = 1; B b = 2; }",
    "message B { message A { } .A a = 1; A.B c = 2; }",
    "enum A { X = 0; }",
    "enum E { option allow_alias = true; X = 0; Y = 0; }",
    "enum E { X = 9223372036854775807; Y = -9223372036854775808; }",
    "enum E { X = 9223372036854775808; }",
    "enum E { X = -9223372036854775809; Y = 0xffffffffffffffff; }",
    "service S { rpc A(A) returns (B); }",
    "service S { rpc A(stream .A) returns (stream S) { option x = 1; } }",
    "service A { rpc A(A) returns (A); }",
    "service S { option a = \"\\400\"; ; rpc R(E) returns (E) {}; }",
    "message M { S s = 1; }",
    "message M { map<int32, string> m = 1; }",
    "message M { map < string , M > m = 1 [deprecated = true]; repeated map x = 2; }",
    "message M { oneof o { int32 a = 1; M b = 2; option c = d; } }",
    "message M { oneof o { } oneof o { int32 a = 1; } int32 a = 1; int32 a = 1; }",
    "message M { int32 a = 0; int32 b = 18446744073709551615; }",
    "message M { int32 a = 18446744073709551616; }",
    "message M { int32 a = -1; }",
    "message M { int32 a = 0xffffffffffffffffffff; }",
    "message M { int32 a = 07777777777777777777777777; }",
    "message M { int32 a = 1 [o = 18446744073709551615]; }",
    "message M { int32 a = 1 [o = -0x8000000000000000, p = - 0, q = +0]; }",
    "message M { int32 a = 1 [o = -0x8000000000000001]; }",
    "message M { int32 a = 1 [o = 1e99999999999999999999, p = -nan, q = .0e-0]; }",
    "message M { int32 a = 1 [o = '\\777\\377\\0\\x00\\xFF\\a\\'']; }",
    "message M { int32 a = 1 [packed = 1, packed = 'x', packed = a.b]; repeated M b = 2 [packed = true]; }",
    "message M { reserved 1, 2 to 3, 99999999999999999999999 to max; reserved 'a', \"b\", c; }",
    "message M { reserved -1 to 0x; }",
    "message M { reserved '\\777'; }",
    "import '\\777'; import public \"x\"; import weak '';",
    "option a.b = 'x'; option (.a) = 1; option (a).b.c = -inf;",
    "option a = { b: c };",
    "package a.b.c;",
    "package a; package b;",
    "extend A { int32 x = 1; }",
    "message M { extensions 1 to max; extend N { } group G = 1 { } }",
    "message M { message N { message M { .M.N.M x = 1; N.M y = 2; M.N z = 3; } } }",
    "message a { b c = 1; } message b { a.b.c d = 1; enum c { } }",
    "message M { repeated int32 optional = 1; optional repeated repeated = 2; }",
];

/// Kinds of deep or long texts: opening, closing, with what around.
const DEEP: [(&str, &str, &str, &str); 52] = [
    ("message A { ", "}", "", ""),
    ("message A { ", "", "", ""),
    ("message A{", "} int32 f = 1;", "", "}"),
    ("message A { A a = 1; ", "}", "", ""),
    ("message M { enum E { X = 0; } ", "}", "", ""),
    ("message M { oneof o { int32 f = 1; } ", "}", "", ""),
    ("oneof o { ", "}", "message M { ", "}"),
    ("enum E { ", "}", "", ""),
    ("service S { ", "}", "", ""),
    ("{", "}", "", ""),
    ("{", "}", "message M ", ""),
    ("(", ")", "option (a", ") = 1;"),
    ("(", ")", "message M { int32 a = 1 [", "a) = 1]; }"),
    ("[", "]", "message M { int32 a = 1 ", "; }"),
    ("<", ">", "message M { map", " m = 1; }"),
    ("map<int32, ", ">", "message M { ", " m = 1; }"),
    ("a.", "", "package ", "a;"),
    (".a", "", "package a", ";"),
    ("A.", "", "message A { ", "A a = 1; }"),
    (".", "", "message A { ", "A a = 1; }"),
    (".b", "", "option a", " = 1;"),
    (".b", "", "option a = b", ";"),
    (".b", "", "option (a", ").c = 1;"),
    ("/*", "", "", ""),
    ("/*", "*/", "", ""),
    ("/**/", "", "", ""),
    ("//\n", "", "", ""),
    ("/* ", " */ ", "message A { } ", ""),
    (";", "", "", ""),
    (" ", "", "", ""),
    ("-", "", "option a = ", "1;"),
    ("9", "", "message A { int32 a = ", "; }"),
    ("9", "", "option a = ", ".5;"),
    ("\\\\", "", "option a = '", "';"),
    ("\\777", "", "option a = '", "';"),
    ("a", "", "message ", " { }"),
    ("repeated ", "", "message M { ", "int32 a = 1; }"),
    ("stream ", "", "service S { rpc A(", "A) returns (A); }"),
    ("1, ", "", "message A { reserved ", "1; }"),
    ("a = 1, ", "", "message A { int32 a = 1 [", "a = 1]; }"),
    ("; ", "", "message A { ", "}"),
    (";", "", "enum E { ", "}"),
    (";", "", "service S { ", "}"),
    (";", "", "message A { } service S { rpc R(A) returns (A) {", "} }"),
    (";", "", "message A { oneof o {", "} }"),
    ("option a = 1;", "", "message A { oneof o {", "} }"),
    ("option a = 1;", "", "message A { } service S { rpc R(A) returns (A) {", "} }"),
    ("option a = 1;", "", "", ""),
    ("reserved 1;", "", "message A { ", "}"),
    ("enum E { X = 0; } ", "", "message A { ", "}"),
    ("import 'a';", "", "", ""),
    ("X = 0;", "", "enum E { ", "}"),
];

fn deep_text(src: &mut Source, kind: usize, n: usize) -> String {
    let (open, close, before, after) = DEEP[kind];
    let mut s = String::from("syntax = \"proto3\";\n");
    s.push_str(before);
    for _ in 0..n {
        s.push_str(open);
    }
    if src.chance(20) {
        s.push_str(src.pick(&SNIPPETS));
    }
    let closing = if src.chance(10) { n.saturating_sub(1) } else { n };
    for _ in 0..closing {
        s.push_str(close);
    }
    s.push_str(after);
    s
}

/// Different names on every level.
fn deep_named(n: usize, nested: bool) -> String {
    let mut s = String::from("syntax = \"proto3\";\n");
    for i in 0..n {
        s.push_str(&format!("message A{} {{ int32 f = 1; ", i));
        if !nested {
            s.push('}');
        }
    }
    if nested {
        for _ in 0..n {
            s.push('}');
        }
    }
    s
}

fn random_text(src: &mut Source) -> String {
    let n = src.below(60);
    let mut s = String::new();
    for _ in 0..n {
        s.push(random_char(src));
    }
    s
}

fn soup(src: &mut Source) -> String {
    let mut s = String::new();
    if !src.chance(10) {
        s.push_str("syntax = \"proto3\";\n");
    }
    let n = src.below(60);
    for _ in 0..n {
        s.push_str(src.pick(&VOCABULARY));
        if src.chance(85) {
            s.push(' ');
        }
    }
    s
}

fn snippets(src: &mut Source) -> String {
    let mut s = String::from("syntax = \"proto3\";\n");
    let n = src.range(1, 6);
    for _ in 0..n {
        if src.chance(15) {
            let inner = src.pick(&SNIPPETS);
            s.push_str(&format!("message {} {{ {} }}\n", src.pick(&["A", "B", "M", "S"]), inner));
        } else {
            s.push_str(src.pick(&SNIPPETS));
            s.push('\n');
        }
    }
    s
}

fn char_boundary(s: &str, mut i: usize) -> usize {
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

fn mutate_text(src: &mut Source, s: &mut String) {
    let n = src.range(1, 6);
    for _ in 0..n {
        let a = char_boundary(s, src.below(s.len() + 1));
        let span = src.below(20);
        let b = char_boundary(s, (a + span).min(s.len())).max(a);
        match src.below(9) {
            0 => {
                s.replace_range(a..b, "");
            }
            1 => s.insert(a, random_char(src)),
            2 => {
                let t = s[a..b].to_string();
                s.insert_str(a, &t);
            }
            3 => {
                let t = s[a..b].to_string();
                s.replace_range(a..b, "");
                let c = char_boundary(s, src.below(s.len() + 1));
                s.insert_str(c, &t);
            }
            4 => s.insert_str(a, &format!(" {} ", src.pick(&VOCABULARY))),
            5 => s.truncate(a),
            6 => {
                let v = src.pick(&VOCABULARY).to_string();
                s.replace_range(a..b, &v);
            }
            7 => {
                // A longer or shorter number where there is one.
                if let Some(i) = s[a..].find(|c: char| c.is_ascii_digit()) {
                    let v = match src.below(4) {
                        0 => "9".repeat(src.range(1, 40)),
                        1 => format!("0x{}", "f".repeat(src.range(1, 30))),
                        2 => format!("0{}", "7".repeat(src.range(1, 40))),
                        _ => format!("-{}", src.int()),
                    };
                    s.insert_str(a + i, &v);
                }
            }
            _ => {
                // Swap one declared word for another.
                let words: Vec<(usize, usize)> = word_spans(s);
                if words.len() >= 2 {
                    let (x, y) = (*src.pick(&words), *src.pick(&words));
                    let t = s[y.0..y.1].to_string();
                    s.replace_range(x.0..x.1, &t);
                }
            }
        }
        if s.len() > 20_000 {
            s.truncate(char_boundary(s, 20_000));
        }
    }
}

fn word_spans(s: &str) -> Vec<(usize, usize)> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let start = i;
        while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
            i += 1;
        }
        if i > start {
            out.push((start, i));
        } else {
            i += 1;
        }
    }
    out
}

fn judge(files: &[String], case: &mut Case) -> Check {
    match Context::parse(files) {
        Ok(ctx) => {
            case.label("accepted");
            // The context answers.
            let _ = format!("{:?}", ctx);
            for n in ["", ".", "A", "A.B", "M", "S", "a.b.c", "é"] {
                let _ = ctx.get_type(n).map(|t| (t.name().len(), t.full_name().len(), t.parent()));
                let _ = ctx.get_service(n);
                if let Some(m) = ctx.get_message(n) {
                    let v = m.decode(&[0x08, 1, 0x12, 1, 0], &ctx);
                    let _ = v.encode(&ctx);
                }
            }
        }
        Err(e) => {
            case.label(match &e {
                ParseError::SyntaxError { .. } => "syntax error",
                ParseError::DuplicateType { .. } => "duplicate type",
                ParseError::TypeNotFound { .. } => "unknown type",
                ParseError::InvalidTypeKind { .. } => "invalid kind",
                _ => "other error",
            });
            let _ = format!("{} {:?}", e, e);
            let _ = std::error::Error::source(&e).map(|s| s.to_string());
        }
    }
    Ok(())
}

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    if e > 0 {
        let kind = e as usize - 1;
        for n in [0usize, 1, 30, 64, 100, 101, 300, 1500, 2500, 6000, 20_000, 70_000] {
            let text = deep_text(src, kind, n);
            case.describe(|| format!("{} times: {:?}", n, DEEP[kind]));
            case.nontrivial(digest(text.as_bytes()));
            case.count("deep or long texts", 1);
            judge(&[text], case)?;
        }
        if kind < 2 {
            for n in [10usize, 100, 2000] {
                let text = deep_named(n, kind == 0);
                judge(&[text], case)?;
            }
        }
        return Ok(());
    }
    let n_files = if src.chance(25) { src.below(4) } else { 1 };
    let mut files = vec![];
    for _ in 0..n_files {
        files.push(match src.weighted(&[35, 25, 15, 15, 8, 2]) {
            0 => {
                let cfg = Cfg { max_files: 1, max_items: 3, big: false, ..Cfg::default() };
                let fs = gen(src, cfg);
                let style = render::any_style(src);
                let mut t = render::render(&fs.files[0], src, style);
                mutate_text(src, &mut t);
                t
            }
            1 => {
                let mut t = snippets(src);
                if src.chance(60) {
                    mutate_text(src, &mut t);
                }
                t
            }
            2 => soup(src),
            3 => {
                // Declarations that agree with nothing: random references among few names.
                let mut t = snippets(src);
                for w in ["A", "B", "M", "S", "E"] {
                    if src.bool() {
                        let to = src.pick(&["A", "B", "M", "A.B", "int32", "a"]).to_string();
                        t = t.replace(&format!(" {} ", w), &format!(" {} ", to));
                    }
                }
                t
            }
            4 => random_text(src),
            _ => {
                let kind = src.below(DEEP.len());
                let n = *src.pick(&[3usize, 40, 99, 120, 700, 3000]);
                deep_text(src, kind, n)
            }
        });
    }
    case.describe(|| all_text(&files));
    case.sample(|| all_text(&files));
    case.max("bytes", files.iter().map(|f| f.len()).sum::<usize>() as u64);
    if files.iter().any(|f| f.trim_start_matches('\u{feff}').trim_start().starts_with("syntax")) {
        case.nontrivial(text_digest(&files));
    }
    judge(&files, case)
}
