//! Development tool: writes generated schemas and payloads together with what the reference models
//! of this crate say about them, for comparison with libprotobuf (tools/xcheck). Decides no property.

use crate::props::c14;
use crate::render::{self, Style};
use crate::schema::*;
use crate::tape::Source;
use crate::view::{self, Mult, TyView};
use crate::wire::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::Write as _;

/// What protoc rejects and protofish has no opinion on.
fn sanitize(fs: &mut FileSet) {
    fn json(n: &str) -> String {
        let mut out = String::new();
        let mut up = false;
        for c in n.chars() {
            if c == '_' {
                up = true;
            } else if up {
                out.extend(c.to_uppercase());
                up = false;
            } else {
                out.push(c);
            }
        }
        // protoc 3.21 also compares without regard to case.
        out.to_lowercase()
    }
    fn values(e: &mut EnumDecl, n: &mut usize) {
        for v in &mut e.values {
            *n += 1;
            v.name = format!("Qv{}Z", n);
            v.value = v.value as i32 as i64;
        }
        if let Some(v) = e.values.first_mut() {
            v.value = 0;
        }
    }
    fn message(m: &mut Msg, n: &mut usize) {
        let mut seen: BTreeSet<String> = BTreeSet::new();
        let mut fix = |f: &mut Field, n: &mut usize| {
            while !seen.insert(json(&f.name)) {
                *n += 1;
                f.name = format!("qf{}z", n);
            }
        };
        for mem in &mut m.members {
            match mem {
                Member::Field(f) => fix(f, n),
                Member::Oneof(o) => o.fields.iter_mut().for_each(|f| fix(f, n)),
                Member::Enum(e) => values(e, n),
                Member::Message(_) => {}
            }
        }
        for mem in &mut m.members {
            if let Member::Message(x) = mem {
                message(x, n)
            }
        }
        for mem in &mut m.members {
            if let Member::Enum(e) = mem {
                if e.values.is_empty() {
                    *n += 1;
                    e.values.push(EnumValueDecl { name: format!("Qv{}Z", n), value: 0, opts: vec![] });
                }
            }
        }
    }
    let mut n = 0;
    for f in &mut fs.files {
        for i in &mut f.items {
            match i {
                Item::Message(m) => message(m, &mut n),
                Item::Enum(e) => {
                    if e.values.is_empty() {
                        n += 1;
                        e.values.push(EnumValueDecl { name: format!("Qv{}Z", n), value: 0, opts: vec![] });
                    }
                    values(e, &mut n)
                }
                Item::Service(_) => {}
            }
        }
    }
}

fn ty_text(t: &TyView) -> String {
    match t {
        TyView::Scalar(s) => s.name().to_string(),
        TyView::Message(n) => format!("message:{}", n),
        TyView::Enum(n) => format!("enum:{}", n),
        TyView::Other(n) => format!("other:{}", n),
    }
}

fn dump_schema(fs: &FileSet, out: &mut String) {
    let v = view::expected(fs);
    let mut lines = vec![];
    for m in v.messages.values() {
        lines.push(format!("m {} {}", m.full_name, m.parent.clone().unwrap_or("-".into())));
        for f in m.fields.values() {
            let label = match f.mult {
                Mult::Single => "single",
                Mult::Optional => "optional",
                Mult::Repeated => "repeated",
                Mult::Packed => "packed",
                Mult::Other => "?",
            };
            // Whether an enum field is packed is the finding of C03.
            let label = match (&f.ty, f.mult) {
                (TyView::Enum(_), Mult::Repeated) => "repeated-enum",
                _ => label,
            };
            lines.push(format!(
                "f {} {} {} {} {} {}",
                m.full_name,
                f.number,
                f.name,
                ty_text(&f.ty),
                label,
                f.oneof.clone().unwrap_or("-".into())
            ));
        }
        for o in &m.oneofs {
            lines.push(format!("o {} {} {:?}", m.full_name, o.name, o.fields));
        }
    }
    for e in v.enums.values() {
        lines.push(format!("e {} {}", e.full_name, e.parent.clone().unwrap_or("-".into())));
        for x in e.values.keys() {
            lines.push(format!("v {} {}", e.full_name, x));
        }
    }
    for s in v.services.values() {
        lines.push(format!("s {}", s.full_name));
        for (i, r) in s.rpcs.iter().enumerate() {
            lines.push(format!(
                "r {} {} {} {} {} {} {}",
                s.full_name, i, r.name, r.input, r.input_stream as u8, r.output, r.output_stream as u8
            ));
        }
    }
    lines.sort();
    for l in lines {
        out.push_str(&l);
        out.push('\n');
    }
}

#[derive(Clone)]
enum Node {
    Leaf(String, bool),
    Msg(Reduced),
    List(Vec<Node>),
}

type Reduced = BTreeMap<u64, Node>;

/// The message protobuf sees: the last singular value, merged messages, one member per oneof.
/// None: not comparable.
fn reduce(types: &Types, oneofs: &BTreeMap<(usize, u64), Vec<u64>>, m: &RMsg, out: &mut Reduced) -> Option<()> {
    if m.garbage.is_some() {
        return None;
    }
    for (n, v) in &m.fields {
        if *n == 0 || *n >= 1 << 29 {
            return None;
        }
        let f = types.msgs[m.ty].fields.get(n);
        let leaf = |s: String, zero: bool| Some(Node::Leaf(s, zero));
        let num = |s: Scalar, v: u64| -> (String, bool) {
            use Scalar::*;
            match s {
                Int32 | SInt32 | SFixed32 => ((v as i64 as i32).to_string(), v == 0),
                Int64 | SInt64 | SFixed64 => ((v as i64).to_string(), v == 0),
                _ => (v.to_string(), v == 0),
            }
        };
        let node = match v {
            RV::Num(s, v) => {
                let (t, z) = num(*s, *v);
                leaf(t, z)
            }
            RV::Str(s) => leaf(format!("'{}'", full_hex(s.as_bytes())), s.is_empty()),
            RV::Bytes(b) => leaf(format!("'{}'", full_hex(b)), b.is_empty()),
            RV::Enum(_, v) => leaf((*v as i32).to_string(), *v as i32 == 0),
            RV::Packed(s, vs) => {
                let list = out.entry(*n).or_insert(Node::List(vec![]));
                if let Node::List(l) = list {
                    l.extend(vs.iter().map(|v| Node::Leaf(num(*s, *v).0, false)));
                }
                continue;
            }
            RV::Msg(inner) => {
                let mut base = match out.get(n) {
                    Some(Node::Msg(b)) if !f.unwrap().repeated() => b.clone(),
                    _ => Reduced::new(),
                };
                reduce(types, oneofs, inner, &mut base)?;
                Some(Node::Msg(base))
            }
            RV::Incomplete(..) | RV::UInvalid(..) | RV::Other(_) => return None,
            RV::UVarint(_) | RV::UFixed64(_) | RV::UFixed32(_) => None,
            RV::ULen(_) => {
                // Packed enums: the finding of C03.
                if let Some(TField { ty: TTy::Enum(_), .. }) = f {
                    if f.unwrap().repeated() {
                        return None;
                    }
                }
                // Beyond the nesting limit.
                if let Some(TField { ty: TTy::Msg(_), .. }) = f {
                    return None;
                }
                None
            }
        };
        let node = match node {
            Some(n) => n,
            None => continue,
        };
        if f.unwrap().repeated() {
            if let Node::List(l) = out.entry(*n).or_insert(Node::List(vec![])) {
                l.push(node);
            }
        } else {
            if let Some(group) = oneofs.get(&(m.ty, *n)) {
                for o in group {
                    if o != n {
                        out.remove(o);
                    }
                }
            }
            out.insert(*n, node);
        }
    }
    Some(())
}

fn full_hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{:02x}", b)).collect()
}

fn show(types: &Types, oneofs: &BTreeMap<(usize, u64), Vec<u64>>, ty: usize, r: &Reduced, out: &mut String) {
    out.push('{');
    for (n, v) in r {
        let f = &types.msgs[ty].fields[n];
        let explicit = f.repeated() || f.mult == Mult::Optional || oneofs.contains_key(&(ty, *n));
        let one = |v: &Node, out: &mut String| match (v, f.ty) {
            (Node::Leaf(s, _), _) => out.push_str(s),
            (Node::Msg(m), TTy::Msg(t)) => show(types, oneofs, t, m, out),
            _ => out.push('?'),
        };
        match v {
            Node::Leaf(_, true) if !explicit => continue,
            Node::List(l) if l.is_empty() => continue,
            Node::List(l) => {
                let _ = write!(out, "{}:[", n);
                for x in l {
                    one(x, out);
                    out.push(',');
                }
                out.push(']');
            }
            v => {
                let _ = write!(out, "{}:", n);
                one(v, out);
            }
        }
        out.push(';');
    }
    out.push('}');
}

/// pf xgen <cases> <seed> <directory>
pub fn generate(cases: u64, seed: u64, dir: &str) {
    let mut input = vec![];
    let mut expected = String::new();
    for case in 0..cases {
        let mut source = Source::random(vec![], crate::tape::mix(seed.wrapping_mul(1 << 32).wrapping_add(case)));
        let src = &mut source;
        let mut fs = match case % 3 {
            0 => c14::single(src),
            _ => {
                let cfg = Cfg { max_files: 1, options: false, wide_enums: false, nan: false, ..Cfg::default() };
                gen(src, cfg)
            }
        };
        sanitize(&mut fs);
        let style = Style { trivia: src.bool(), squeeze: src.chance(20), literals: src.bool(), noise: src.bool(), protoc: true };
        // The specification has capital \\X, empty statements in oneofs and any characters in
        // comments; protoc has not.
        let text = render::render(&fs.files[0], src, style).replace("\\X", "\\x");
        let text: String =
            text.chars().map(|c| if (c < ' ' && !"\t\r\n".contains(c)) || c == '\u{7f}' { ' ' } else { c }).collect();
        let _ = write!(input, "S {} {}\n", case, text.len());
        input.extend_from_slice(text.as_bytes());
        input.push(b'\n');
        let _ = write!(expected, "CASE {}\n", case);
        dump_schema(&fs, &mut expected);
        let v = view::expected(&fs);
        let types = Types::of(&v);
        if !types.msgs.is_empty() {
            let mut oneofs = BTreeMap::new();
            for (i, t) in types.msgs.iter().enumerate() {
                for o in &v.messages[&t.name].oneofs {
                    for n in &o.fields {
                        oneofs.insert((i, *n), o.fields.clone());
                    }
                }
            }
            for _ in 0..6 {
                let ty = src.below(types.msgs.len());
                let data = match src.draw(4) {
                    0 | 1 => encode(&gen_typed(src, &types, ty)),
                    2 => {
                        let mut b = Budget::new(src);
                        let mut d = vec![];
                        for _ in 0..src.below(8) {
                            d.extend(loose_field(src, &types, ty, 1, &mut b));
                        }
                        d
                    }
                    _ => hostile(src, &types, ty),
                };
                let mut canonical = true;
                let m = decode(&types, ty, &data, &mut canonical);
                // libprotobuf and this reference agree on lossy strings being errors of some kind.
                let mut r = Reduced::new();
                let comparable = utf8(&m) && reduce(&types, &oneofs, &m, &mut r).is_some();
                let _ = write!(input, "P {} {}{}\n", types.msgs[ty].name, if data.is_empty() { "-" } else { "" }, full_hex(&data));
                if comparable {
                    expected.push_str("p ");
                    show(&types, &oneofs, ty, &r, &mut expected);
                    expected.push('\n');
                } else {
                    expected.push_str("p skip\n");
                }
            }
        }
    }
    std::fs::write(format!("{}/input", dir), input).unwrap();
    std::fs::write(format!("{}/expected", dir), expected).unwrap();
}

/// False: some string was not UTF-8 and has been replaced.
fn utf8(m: &RMsg) -> bool {
    m.fields.iter().all(|(_, v)| match v {
        RV::Str(s) => !s.contains('\u{fffd}'),
        RV::Msg(m) => utf8(m),
        _ => true,
    })
}
