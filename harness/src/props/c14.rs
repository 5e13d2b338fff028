//! Type references resolve by protobuf scoping rules.

use super::common::*;
use crate::engine::*;
use crate::render;
use crate::schema::*;
use crate::tape::Source;
use crate::view;

pub const PROP: Prop = Prop {
    id: "C14",
    run,
    enumerated: |_| 2 * HUGE,
    quick: 50_000,
    thorough: 500_000,
    threads: 8,
    rule: "Sets of files whose declarations draw their names from a tiny pool, so that inner and outer \
           scopes, packages and files shadow each other; fields and rpcs refer to random types with \
           every spelling that is valid there by an independent implementation of the scoping rules \
           (relative with any number of components, absolute, forward, recursive, across files). Every \
           reference must lead to its target. In 30% of the cases one reference is put together from declared \
           names such that no enclosing scope knows it (absolute with missing components, tails of other \
           scopes, packages, fields): it must be rejected by name. Enumerated: thousands of each kind of declaration. Non-trivial: some reference has another \
           declaration that ends in the spelled name, or one denotes nothing.",
};

fn name(src: &mut Source) -> String {
    src.pick(&["A", "B", "C", "a", "D"]).to_string()
}

/// Adds a field or rpc for every way to spell some targets, from every scope.
pub fn spell_everything(src: &mut Source, fs: &mut FileSet) -> usize {
    let symbols = Symbols::of(fs);
    let mut types: Vec<(String, Kind)> = vec![];
    for (n, s) in &symbols.map {
        match s {
            Sym::Message => types.push((n.clone(), Kind::Message)),
            Sym::Enum => types.push((n.clone(), Kind::Enum)),
            _ => {}
        }
    }
    let mut count = 0;
    fn message(
        path: &[String],
        m: &mut Msg,
        symbols: &Symbols,
        types: &[(String, Kind)],
        src: &mut Source,
        count: &mut usize,
    ) {
        let mut inner = path.to_vec();
        inner.push(m.name.clone());
        let mut number = 1 + m.fields().iter().map(|(f, _)| f.number).max().unwrap_or(0);
        if number >= 18_000 {
            return;
        }
        for mem in &mut m.members {
            if let Member::Message(n) = mem {
                message(&inner, n, symbols, types, src, count);
            }
        }
        let n = src.below(7);
        for _ in 0..n {
            let (target, kind) = src.pick(types).clone();
            for (absolute, parts) in symbols.spellings(&inner, &target, false) {
                m.members.push(Member::Field(Field {
                    label: if src.bool() { Label::Repeated } else { Label::Single },
                    // No declared name looks like this, so that it is in nobody's way.
                    name: format!("ref_{}", number),
                    ty: Ty::Ref(Ref { absolute, parts, target: target.clone(), kind }),
                    number,
                    opts: vec![],
                }));
                number += 1;
                *count += 1;
            }
        }
    }
    for f in &mut fs.files {
        let path = f.package_path();
        for item in &mut f.items {
            match item {
                Item::Message(m) => message(&path, m, &symbols, &types, src, &mut count),
                Item::Service(s) => {
                    let mut scope = path.clone();
                    scope.push(s.name.clone());
                    let messages: Vec<_> =
                        types.iter().filter(|t| t.1 == Kind::Message).cloned().collect();
                    if messages.is_empty() {
                        continue;
                    }
                    let n = src.below(4);
                    for i in 0..n {
                        let (target, kind) = src.pick(&messages).clone();
                        let all = symbols.spellings(&scope, &target, true);
                        for (k, (absolute, parts)) in all.iter().cloned().enumerate() {
                            let input = Ref { absolute, parts, target: target.clone(), kind };
                            let (absolute, parts) = src.pick(&all).clone();
                            let output = Ref { absolute, parts, target: target.clone(), kind };
                            s.rpcs.push(RpcDecl {
                                name: format!("call_{}_{}", i, k),
                                input,
                                input_stream: src.bool(),
                                output,
                                output_stream: src.bool(),
                                opts: vec![],
                            });
                            count += 2;
                        }
                    }
                }
                Item::Enum(_) => {}
            }
        }
    }
    count
}

/// How many references another declaration could be confused with.
fn ambiguous(fs: &FileSet) -> usize {
    let symbols = Symbols::of(fs);
    let full: Vec<&String> = symbols
        .map
        .iter()
        .filter(|(_, s)| matches!(s, Sym::Message | Sym::Enum | Sym::Service))
        .map(|(n, _)| n)
        .collect();
    let mut n = 0;
    let mut one = |r: &Ref| {
        let tail = r.parts.join(".");
        let dotted = format!(".{}", tail);
        n += full.iter().any(|f| **f != r.target && (**f == tail || f.ends_with(&dotted))) as usize;
    };
    fs.each_message(&mut |_, m| {
        for (f, _) in m.fields() {
            if let Ty::Ref(r) = &f.ty {
                one(r);
            }
        }
    });
    for f in &fs.files {
        for i in &f.items {
            if let Item::Service(s) = i {
                for r in &s.rpcs {
                    one(&r.input);
                    one(&r.output);
                }
            }
        }
    }
    n
}

/// The same few names on every level: packages, messages and enums called alike.
pub fn dense(src: &mut Source) -> FileSet {
    let mut taken = std::collections::BTreeSet::new();
    let n = src.range(1, 4);
    let mut files = vec![];
    for _ in 0..n {
        let k = src.below(4);
        let package: Vec<String> = (0..k).map(|_| name(src)).collect();
        files.push(FileDecl {
            package: if package.is_empty() { None } else { Some(package) },
            items: vec![],
        });
    }
    for f in &files {
        let p = f.package_path();
        for i in 1..=p.len() {
            taken.insert(p[..i].join("."));
        }
    }
    fn message(
        src: &mut Source,
        path: &[String],
        depth: usize,
        taken: &mut std::collections::BTreeSet<String>,
    ) -> Option<Msg> {
        let n = name(src);
        if !taken.insert(join(path, &n)) {
            return None;
        }
        let mut inner = path.to_vec();
        inner.push(n.clone());
        let mut members = vec![];
        let k = if depth >= 4 { 0 } else { src.below(4) };
        for _ in 0..k {
            if src.chance(20) {
                let e = name(src);
                if taken.insert(join(&inner, &e)) {
                    members.push(Member::Enum(EnumDecl { name: e, values: vec![] }));
                }
            } else if let Some(m) = message(src, &inner, depth + 1, taken) {
                members.push(Member::Message(m));
            }
        }
        Some(Msg { name: n, members })
    }
    for f in &mut files {
        let path = f.package_path();
        let k = src.range(1, 4);
        for _ in 0..k {
            match src.weighted(&[60, 15, 25]) {
                0 => f.items.extend(message(src, &path, 1, &mut taken).map(Item::Message)),
                1 => {
                    let e = name(src);
                    if taken.insert(join(&path, &e)) {
                        f.items.push(Item::Enum(EnumDecl { name: e, values: vec![] }));
                    }
                }
                _ => {
                    // Services hide no types from fields.
                    let s = match src.bool() {
                        true => name(src),
                        false => format!("{}Service", name(src)),
                    };
                    if taken.insert(join(&path, &s)) {
                        f.items.push(Item::Service(SvcDecl { name: s, rpcs: vec![], opts: vec![] }));
                    }
                }
            }
        }
    }
    FileSet { files }
}

/// A file of its own with everything spelled in all ways (development: compared with protoc).
pub fn single(src: &mut Source) -> FileSet {
    let mut fs = dense(src);
    fs.files.truncate(1);
    spell_everything(src, &mut fs);
    fs
}

/// A spelling put together from declared names that no scope of `scope` knows.
fn unresolvable(src: &mut Source, symbols: &Symbols, scope: &[String]) -> Option<(bool, Vec<String>)> {
    let all: Vec<&String> = symbols.map.keys().collect();
    for _ in 0..6 {
        let mut parts: Vec<String> =
            src.pick(&all).split('.').map(|s| s.to_string()).collect();
        if src.chance(60) && parts.len() > 1 {
            // A tail, or a middle part.
            parts.drain(..src.range(1, parts.len() - 1));
        }
        match src.weighted(&[40, 15, 15, 15, 15]) {
            0 => {}
            1 => {
                parts.pop();
            }
            2 => {
                let last = parts.len() - 1;
                parts[last] = name(src);
            }
            3 => parts[0] = name(src),
            _ => parts.push(name(src)),
        }
        let absolute = src.chance(45);
        if parts.is_empty() || (!absolute && is_type_keyword(&parts[0])) {
            continue;
        }
        let known = if absolute {
            symbols.kind(&parts.join(".")).is_some()
        } else {
            (0..=scope.len()).any(|i| symbols.kind(&join(&scope[..i], &parts.join("."))).is_some())
        };
        if !known {
            return Some((absolute, parts));
        }
    }
    None
}

/// Adds one reference that denotes nothing. Its spelling, and where it stands.
fn break_one(src: &mut Source, fs: &mut FileSet) -> Option<(String, String)> {
    let symbols = Symbols::of(fs);
    let mut scopes: Vec<Vec<String>> = vec![];
    fs.each_message(&mut |p, _| scopes.push(p.to_vec()));
    for f in &fs.files {
        for i in &f.items {
            if let Item::Service(s) = i {
                let mut p = f.package_path();
                p.push(s.name.clone());
                scopes.push(p);
            }
        }
    }
    if scopes.is_empty() {
        return None;
    }
    let scope = src.pick(&scopes).clone();
    let (absolute, parts) = unresolvable(src, &symbols, &scope)?;
    let bad = Ref { absolute, parts, target: String::new(), kind: Kind::Message };
    let valid = {
        let messages: Vec<&String> =
            symbols.map.iter().filter(|(_, s)| **s == Sym::Message).map(|(n, _)| n).collect();
        if messages.is_empty() {
            bad.clone()
        } else {
            let target = src.pick(&messages).to_string();
            let parts = target.split('.').map(|s| s.to_string()).collect();
            Ref { absolute: true, parts, target, kind: Kind::Message }
        }
    };
    fn place(src: &mut Source, path: &[String], m: &mut Msg, scope: &[String], bad: &Ref) -> bool {
        let mut inner = path.to_vec();
        inner.push(m.name.clone());
        if inner != scope {
            let mut inside = m.members.iter_mut().filter_map(|x| match x {
                Member::Message(n) => Some(n),
                _ => None,
            });
            return inside.any(|n| place(src, &inner, n, scope, bad));
        }
        let field = Field {
            label: if src.bool() { Label::Repeated } else { Label::Single },
            name: "broken_ref".to_string(),
            ty: Ty::Ref(bad.clone()),
            number: 18_999,
            opts: vec![],
        };
        let member = if src.chance(25) {
            let fields = vec![Field { label: Label::Single, ..field }];
            Member::Oneof(OneofDecl { name: "broken_oneof".to_string(), fields, opts: vec![] })
        } else {
            Member::Field(field)
        };
        let at = src.below(m.members.len() + 1);
        m.members.insert(at, member);
        true
    }
    for f in &mut fs.files {
        let path = f.package_path();
        for item in &mut f.items {
            match item {
                Item::Message(m) => {
                    if place(src, &path, m, &scope, &bad) {
                        return Some((bad.spelling(), scope.join(".")));
                    }
                }
                Item::Service(s) if join(&path, &s.name) == scope.join(".") => {
                    let (input, output) =
                        if src.bool() { (bad.clone(), valid) } else { (valid, bad.clone()) };
                    s.rpcs.push(RpcDecl {
                        name: "broken_call".to_string(),
                        input,
                        input_stream: src.bool(),
                        output,
                        output_stream: src.bool(),
                        opts: vec![],
                    });
                    return Some((bad.spelling(), scope.join(".")));
                }
                _ => {}
            }
        }
    }
    None
}

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    let broken = if e > 0 { e > HUGE } else { src.chance(30) };
    let mut fs = if e > 0 {
        gen_or_huge(1 + (e - 1) % HUGE, src, Cfg::default(), &[], case)
    } else if src.chance(65) {
        dense(src)
    } else {
        let base = Cfg {
            shadow: 85,
            weird_names: 0,
            options: false,
            max_files: 4,
            max_depth: 4,
            ref_percent: 80,
            ..Cfg::default()
        };
        gen(src, base)
    };
    if fs.type_count() == 0 {
        case.label("skipped: no types");
        return Ok(());
    }
    if broken {
        let (spelling, scope) = match break_one(src, &mut fs) {
            Some(x) => x,
            None => {
                case.label("skipped: everything resolves");
                return Ok(());
            }
        };
        let text = render::plain(&fs);
        case.describe(|| all_text(&text));
        case.label("a reference that denotes nothing");
        case.nontrivial(text_digest(&text));
        return match parse(&text) {
            Ok(_) => Err(format!("{:?} in {} denotes no declaration, but is accepted", spelling, scope)),
            Err(protofish::context::ParseError::TypeNotFound { name, .. }) if name == spelling => Ok(()),
            Err(e) => Err(format!("{:?} in {} denotes no declaration: got {}", spelling, scope, e)),
        };
    }
    let n = spell_everything(src, &mut fs);
    let text = render::plain(&fs);
    case.describe(|| all_text(&text));
    case.sample(|| all_text(&text));
    case.count("references added in every spelling", n as u64);
    let a = ambiguous(&fs);
    case.count("references with a rival", a as u64);
    if a > 0 {
        case.nontrivial(text_digest(&text));
    }
    let ctx = parse(&text).map_err(|e| format!("valid references were rejected: {}", e))?;
    compare_view(&fs, &view::expected(&fs), &ctx, only_references)
}
