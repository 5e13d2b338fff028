//! Every valid proto3 file is accepted and names are read whole.

use super::common::*;
use crate::engine::*;
use crate::render;
use crate::schema::*;
use crate::tape::Source;
use crate::view;

pub const PROP: Prop = Prop {
    id: "C13",
    run,
    enumerated: |_| (WORDS.len() * SUFFIXES.len()) as u64 + HUGE,
    quick: 50_000,
    thorough: 500_000,
    threads: 8,
    rule: "Random files of the proto3 grammar in which most identifiers equal or begin with keywords, \
           built-in type names and constants of the language, in any layout; they must parse and every \
           name must come out whole. The enumerated part puts each keyword with each suffix in every \
           place that takes an identifier, and thousands of each kind of declaration. Non-trivial: at least two declared items with such names.",
};

const WORDS: [&str; 44] = [
    "syntax", "import", "weak", "public", "package", "option", "repeated", "optional", "oneof", "map",
    "reserved", "to", "max", "enum", "message", "service", "rpc", "stream", "returns", "true", "false",
    "inf", "nan", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64",
    "sfixed32", "sfixed64", "bool", "string", "bytes", "double", "float", "required", "extend",
    "extensions", "group", "proto3", "e",
];

const SUFFIXES: [&str; 9] = ["", "s", "X", "_", "1", "64", "_of", "List", "e5"];

fn ident_opt(name: &str, value: &str) -> Opt {
    let value = match value {
        "true" | "false" => Const::Bool(value == "true"),
        "inf" | "nan" => Const::Float(None, value.to_string()),
        v => Const::Ident(vec![v.to_string(), v.to_string()]),
    };
    Opt { paren: false, first: vec![name.to_string()], rest: vec![name.to_string()], value }
}

fn word(e: u64, src: &mut Source, case: &mut Case) -> Check {
    let w = WORDS[e as usize / SUFFIXES.len()];
    let n = format!("{}{}", w, SUFFIXES[e as usize % SUFFIXES.len()]);
    let opts = vec![ident_opt(&n, &n), Opt { paren: true, ..ident_opt(&n, "x") }, ident_opt("x", &n)];
    let value_name = if n == "option" || n == "reserved" { format!("{}x", n) } else { n.clone() };
    let field = |name: &str, number: u64, ty: Ty| Field {
        label: Label::Single,
        ty,
        name: name.to_string(),
        number,
        opts: opts.clone(),
    };
    let reference = |absolute: bool, path: &[&str], kind: Kind| {
        let parts: Vec<String> = path.iter().map(|s| s.to_string()).collect();
        let mut full = vec![n.clone(), "q".to_string()];
        full.extend(parts.clone());
        Ref {
            absolute,
            target: full.join("."),
            parts: if absolute { full } else { parts },
            kind,
        }
    };
    let mut members = vec![];
    let mut number = 0;
    for label in [Label::Single, Label::Repeated, Label::Optional] {
        for ty in [
            Ty::Scalar(Scalar::Int32),
            Ty::Ref(reference(true, &[&n], Kind::Message)),
            Ty::Ref(reference(false, &["Outer", &n], Kind::Message)),
            Ty::Ref(reference(true, &["Outer", &n], Kind::Message)),
        ] {
            number += 1;
            let mut f = field(&format!("{}{}f", n, number), number, ty);
            f.label = label;
            members.push(Member::Field(f));
        }
    }
    let special = is_type_keyword(&n);
    if !special {
        number += 1;
        members.push(Member::Field(field(
            "plain_ref",
            number,
            Ty::Ref(reference(false, &["Outer", &n], Kind::Message)),
        )));
        // The name alone means the inner message here.
        let mut r = reference(true, &["Outer", &n], Kind::Message);
        r.absolute = false;
        r.parts = vec![n.clone()];
        for label in [Label::Single, Label::Repeated, Label::Optional] {
            number += 1;
            let mut f = field(&format!("bare{}", number), number, Ty::Ref(r.clone()));
            f.label = label;
            members.push(Member::Field(f));
        }
    }
    members.push(Member::Oneof(OneofDecl {
        name: format!("{}oo", n),
        fields: vec![
            field(&format!("{}in", n), 100, Ty::Scalar(Scalar::Bool)),
            field("inr", 101, Ty::Ref(reference(true, &[&n], Kind::Message))),
        ],
        opts: opts.clone(),
    }));
    members.push(Member::Message(Msg { name: n.clone(), members: vec![] }));
    members.push(Member::Enum(EnumDecl {
        name: format!("{}En", n),
        values: vec![EnumValueDecl { name: format!("{}ev", n), value: 0, opts: opts.clone() }],
    }));
    let mut rpcs = vec![];
    for (i, (a, b)) in [(false, false), (true, false), (false, true), (true, true)].iter().enumerate() {
        let mut input = reference(true, &[&n], Kind::Message);
        if n != "stream" && i % 2 == 0 {
            // Relative; the service is outside of Outer.
            input.absolute = false;
            input.parts = vec![n.clone()];
        }
        rpcs.push(RpcDecl {
            name: if i == 0 { n.clone() } else { format!("{}{}r", n, i) },
            input,
            input_stream: *a,
            output: reference(true, &["Outer", &n], Kind::Message),
            output_stream: *b,
            opts: opts.clone(),
        });
    }
    // An rpc of this name would be in the way of relative names in some readings; it has a
    // service of its own.
    rpcs[0].name = format!("{}0r", n);
    let package = vec![n.clone(), "q".to_string()];
    let holder = |name: &str, m: Member| {
        Item::Message(Msg { name: name.to_string(), members: vec![m] })
    };
    let fs = FileSet {
        files: vec![FileDecl {
            package: Some(package),
            items: vec![
                Item::Message(Msg { name: n.clone(), members: vec![] }),
                Item::Message(Msg { name: "Outer".to_string(), members }),
                holder("Holder1", Member::Field(field(&n, 1, Ty::Scalar(Scalar::Bool)))),
                holder(
                    "Holder2",
                    Member::Oneof(OneofDecl {
                        name: n.clone(),
                        fields: vec![field("f", 1, Ty::Scalar(Scalar::Int32))],
                        opts: vec![],
                    }),
                ),
                holder(
                    "Holder3",
                    Member::Enum(EnumDecl {
                        name: "E".to_string(),
                        values: vec![
                            EnumValueDecl { name: value_name, value: 0, opts: opts.clone() },
                            EnumValueDecl { name: format!("{}_v", n), value: 1, opts: vec![] },
                        ],
                    }),
                ),
                holder("Holder4", Member::Enum(EnumDecl { name: n.clone(), values: vec![] })),
                Item::Service(SvcDecl {
                    name: "OneRpc".to_string(),
                    rpcs: vec![RpcDecl { name: n.clone(), ..rpcs[3].clone() }],
                    opts: vec![],
                }),
                Item::Service(SvcDecl { name: format!("{}Svc", n), rpcs, opts: opts.clone() }),
            ],
        }],
    };
    for i in 0..4 {
        let text = if i == 0 { render::plain(&fs) } else { render::wild(&fs, src) };
        case.describe(|| all_text(&text));
        case.sample(|| all_text(&text));
        case.nontrivial(text_digest(&text));
        accept(&fs, &text)?;
    }
    Ok(())
}

fn accept(fs: &FileSet, text: &[String]) -> Check {
    let ctx = parse(text).map_err(|e| format!("valid files were rejected: {}", e))?;
    compare(fs, &ctx)
}

fn keyword_names(fs: &FileSet) -> usize {
    let v = view::expected(fs);
    v.names()
        .iter()
        .filter(|n| {
            let last = n.rsplit('.').next().unwrap();
            WORDS.iter().any(|w| w.len() > 1 && last.starts_with(w))
        })
        .count()
}

/// Names of messages from the outside in; the innermost has a field.
fn spine(levels: usize) -> FileSet {
    let mut m = Msg {
        name: format!("L{}", levels),
        members: vec![Member::Field(Field {
            label: Label::Single,
            ty: Ty::Scalar(Scalar::Int32),
            name: "f".into(),
            number: 1,
            opts: vec![],
        })],
    };
    for i in (1..levels).rev() {
        m = Msg { name: format!("L{}", i), members: vec![Member::Message(m)] };
    }
    FileSet { files: vec![FileDecl { package: None, items: vec![Item::Message(m)] }] }
}

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    let words = (WORDS.len() * SUFFIXES.len()) as u64;
    if e > words {
        let fs = gen_or_huge(e - words, src, Cfg::default(), &[], case);
        let text = render::plain(&fs);
        case.describe(|| all_text(&text));
        accept(&fs, &text)?;
        // On one line.
        let text: Vec<String> = text.iter().map(|t| t.replace('\n', " ")).collect();
        return accept(&fs, &text);
    }
    if e > 0 {
        return word(e - 1, src, case);
    }
    if src.one_in(200) {
        let levels = src.range(1, 64);
        let fs = spine(levels);
        let text = render::mixed(&fs, src);
        case.describe(|| all_text(&text));
        case.max("nesting", levels as u64);
        return accept(&fs, &text);
    }
    let base = Cfg { weird_names: 70, shadow: 10, ..Cfg::default() };
    let cfg = varied(src, Cfg { weird_names: 70, ..base });
    let fs = gen(src, cfg);
    let style = render::any_style(src);
    let text = render::styled(&fs, src, style);
    case.describe(|| all_text(&text));
    case.sample(|| all_text(&text));
    classify(&fs, case);
    if keyword_names(&fs) >= 2 {
        case.nontrivial(text_digest(&text));
    }
    accept(&fs, &text)
}
