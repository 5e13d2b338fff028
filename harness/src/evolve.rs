//! Edits of a schema: older versions of it, single changes of its meaning, consistent renaming.

use crate::schema::*;
use crate::tape::Source;
use std::collections::{BTreeMap, BTreeSet};

type Path = Vec<String>;

/// Calls `f` for every message, outer before inner, with the path of its scope.
pub fn messages_mut(fs: &mut FileSet, f: &mut dyn FnMut(&Path, &mut Msg)) {
    fn walk(path: &Path, m: &mut Msg, f: &mut dyn FnMut(&Path, &mut Msg)) {
        f(path, m);
        let mut inner = path.clone();
        inner.push(m.name.clone());
        for mem in &mut m.members {
            if let Member::Message(n) = mem {
                walk(&inner, n, f);
            }
        }
    }
    for file in &mut fs.files {
        let path = file.package_path();
        for item in &mut file.items {
            if let Item::Message(m) = item {
                walk(&path, m, f);
            }
        }
    }
}

pub fn enums_mut(fs: &mut FileSet, f: &mut dyn FnMut(&mut EnumDecl)) {
    for file in &mut fs.files {
        for item in &mut file.items {
            if let Item::Enum(e) = item {
                f(e);
            }
        }
    }
    messages_mut(fs, &mut |_, m| {
        for mem in &mut m.members {
            if let Member::Enum(e) = mem {
                f(e);
            }
        }
    });
}

pub fn services_mut(fs: &mut FileSet, f: &mut dyn FnMut(&mut SvcDecl)) {
    for file in &mut fs.files {
        for item in &mut file.items {
            if let Item::Service(s) = item {
                f(s);
            }
        }
    }
}

/// All fields of a message, also those in oneofs.
pub fn fields_mut(m: &mut Msg, f: &mut dyn FnMut(&mut Field)) {
    for mem in &mut m.members {
        match mem {
            Member::Field(x) => f(x),
            Member::Oneof(o) => o.fields.iter_mut().for_each(&mut *f),
            _ => {}
        }
    }
}

/// All fields of all messages.
pub fn all_fields_mut(fs: &mut FileSet, f: &mut dyn FnMut(&mut Field)) {
    messages_mut(fs, &mut |_, m| fields_mut(m, f));
}

fn retain_fields(m: &mut Msg, keep: &mut dyn FnMut(&Field) -> bool) {
    m.members.retain_mut(|mem| match mem {
        Member::Field(f) => keep(f),
        Member::Oneof(o) => {
            o.fields.retain(|f| keep(f));
            !o.fields.is_empty()
        }
        _ => true,
    });
}

/// Another type with the same wire format from which every payload of the first one is encoded
/// again as it was.
fn relay_type(src: &mut Source, f: &Field, repeated: bool) -> Option<Ty> {
    const VARINT: [Scalar; 3] = [Scalar::Int64, Scalar::UInt64, Scalar::SInt64];
    const F32: [Scalar; 3] = [Scalar::Fixed32, Scalar::SFixed32, Scalar::Float];
    const F64: [Scalar; 3] = [Scalar::Fixed64, Scalar::SFixed64, Scalar::Double];
    Some(match &f.ty {
        Ty::Scalar(Scalar::String) => Ty::Scalar(Scalar::Bytes),
        Ty::Scalar(Scalar::Bytes) => return None,
        Ty::Scalar(s) if s.is_varint() => Ty::Scalar(*src.pick(&VARINT)),
        Ty::Scalar(s) if s.wire_type() == 5 => Ty::Scalar(*src.pick(&F32)),
        Ty::Scalar(_) => Ty::Scalar(*src.pick(&F64)),
        // Packed enums are a known finding of their own.
        Ty::Ref(r) if r.kind == Kind::Enum && !repeated => Ty::Scalar(*src.pick(&VARINT)),
        Ty::Ref(r) if r.kind == Kind::Message => Ty::Scalar(Scalar::Bytes),
        Ty::Ref(_) => return None,
    })
}

#[derive(Default, Debug)]
pub struct Edits {
    pub dropped_fields: usize,
    pub dropped_types: usize,
    pub dropped_values: usize,
    pub relabelled: usize,
    pub retyped: usize,
    pub renamed: usize,
    pub moved: usize,
}

/// An earlier version of the schema: lacks some fields, types and enum values, knows others under
/// another name, label, oneof or wire compatible type.
pub fn older(src: &mut Source, fs: &FileSet) -> (FileSet, Edits) {
    let mut old = fs.clone();
    let mut e = Edits::default();
    // Whole types, with everything that mentions them.
    if src.chance(40) {
        let mut all: Vec<String> = vec![];
        for (name, s) in &Symbols::of(fs).map {
            if matches!(s, Sym::Message | Sym::Enum) {
                all.push(name.clone());
            }
        }
        for _ in 0..src.range(1, 2) {
            if all.len() < 2 {
                break;
            }
            let gone = all.remove(src.below(all.len()));
            let inside = format!("{}.", gone);
            let dead = |n: &str| n == gone || n.starts_with(&inside);
            for file in &mut old.files {
                let path = file.package_path();
                file.items.retain(|i| match i {
                    Item::Message(m) => !dead(&join(&path, &m.name)),
                    Item::Enum(m) => !dead(&join(&path, &m.name)),
                    Item::Service(_) => true,
                });
            }
            messages_mut(&mut old, &mut |path, m| {
                let mut inner = path.clone();
                inner.push(m.name.clone());
                m.members.retain(|i| match i {
                    Member::Message(m) => !dead(&join(&inner, &m.name)),
                    Member::Enum(m) => !dead(&join(&inner, &m.name)),
                    _ => true,
                });
                retain_fields(m, &mut |f| match &f.ty {
                    Ty::Ref(r) => !dead(&r.target),
                    _ => true,
                });
            });
            services_mut(&mut old, &mut |s| {
                s.rpcs.retain(|r| !dead(&r.input.target) && !dead(&r.output.target));
            });
            all.retain(|n| !dead(n));
            e.dropped_types += 1;
        }
    }
    let drop = *src.pick(&[0u64, 10, 30, 60]);
    let relabel = *src.pick(&[0u64, 0, 20, 60]);
    let retype = *src.pick(&[0u64, 0, 20, 60]);
    let rename = *src.pick(&[0u64, 0, 30]);
    messages_mut(&mut old, &mut |_, m| {
        retain_fields(m, &mut |_| {
            let keep = !src.chance(drop);
            e.dropped_fields += !keep as usize;
            keep
        });
        let mut n = 0;
        for mem in &mut m.members {
            let (fields, oneof) = match mem {
                Member::Field(f) => (std::slice::from_mut(f), false),
                Member::Oneof(o) => (&mut o.fields[..], true),
                _ => continue,
            };
            for f in fields {
                if !oneof && src.chance(relabel) {
                    f.label = *src.pick(&[Label::Single, Label::Optional, Label::Repeated]);
                    f.opts.retain(|o| o.name() != "packed");
                    let numeric = matches!(&f.ty, Ty::Scalar(s) if s.packable());
                    if f.label == Label::Repeated && numeric && src.bool() {
                        f.opts.push(simple_opt("packed", Const::Bool(src.bool())));
                    }
                    e.relabelled += 1;
                }
                if src.chance(retype) {
                    if let Some(t) = relay_type(src, f, f.label == Label::Repeated) {
                        f.ty = t;
                        if !matches!(&f.ty, Ty::Scalar(s) if s.packable()) {
                            f.opts.retain(|o| o.name() != "packed");
                        }
                        e.retyped += 1;
                    }
                }
                if src.chance(rename) {
                    n += 1;
                    f.name = format!("renamed_{}", n);
                    e.renamed += 1;
                }
            }
        }
        // Fields that leave or enter a oneof.
        if src.chance(25) {
            let mut out = vec![];
            for mem in m.members.drain(..) {
                match mem {
                    Member::Oneof(o) => {
                        e.moved += o.fields.len();
                        out.extend(o.fields.into_iter().map(Member::Field));
                    }
                    x => out.push(x),
                }
            }
            m.members = out;
        } else if src.chance(25) {
            let at = m
                .members
                .iter()
                .position(|x| matches!(x, Member::Field(f) if f.label == Label::Single));
            if let Some(at) = at {
                if let Member::Field(f) = m.members.remove(at) {
                    let o = OneofDecl { name: "moved_in".into(), fields: vec![f], opts: vec![] };
                    m.members.insert(at, Member::Oneof(o));
                    e.moved += 1;
                }
            }
        }
    });
    if src.chance(40) {
        enums_mut(&mut old, &mut |x| {
            for i in (1..x.values.len()).rev() {
                if src.chance(40) {
                    x.values.remove(i);
                    e.dropped_values += 1;
                }
            }
        });
    }
    (old, e)
}

// ------------------------------------------------------------------------------------------
// Consistent renaming
// ------------------------------------------------------------------------------------------

/// Replaces every identifier of a name in the schema by `map(identifier)`. An injective map
/// preserves what shadows what.
pub fn rename(fs: &FileSet, map: &mut dyn FnMut(&str) -> String) -> FileSet {
    let mut fs = fs.clone();
    fn full(name: &str, map: &mut dyn FnMut(&str) -> String) -> String {
        name.split('.').map(|p| map(p)).collect::<Vec<_>>().join(".")
    }
    fn reference(r: &mut Ref, map: &mut dyn FnMut(&str) -> String) {
        for p in &mut r.parts {
            *p = map(p);
        }
        r.target = full(&r.target, map);
    }
    // Names last, as the walk does not look at them.
    messages_mut(&mut fs, &mut |_, m| {
        m.name = map(&m.name);
        for mem in &mut m.members {
            if let Member::Oneof(o) = mem {
                o.name = map(&o.name);
            }
        }
        fields_mut(m, &mut |f| {
            f.name = map(&f.name);
            if let Ty::Ref(r) = &mut f.ty {
                reference(r, map);
            }
        });
    });
    enums_mut(&mut fs, &mut |e| {
        e.name = map(&e.name);
        for v in &mut e.values {
            v.name = map(&v.name);
        }
    });
    services_mut(&mut fs, &mut |s| {
        s.name = map(&s.name);
        for r in &mut s.rpcs {
            r.name = map(&r.name);
            reference(&mut r.input, map);
            reference(&mut r.output, map);
        }
    });
    each_opts(&mut fs, &mut |l, _| {
        for o in l {
            for part in opt_parts(o) {
                *part = map(part);
            }
        }
    });
    for f in &mut fs.files {
        if let Some(p) = &mut f.package {
            for part in p {
                *part = map(part);
            }
        }
    }
    fs
}

/// The identifiers of an option's name and value.
fn opt_parts(o: &mut Opt) -> Vec<&mut String> {
    let mut out: Vec<&mut String> = o.first.iter_mut().chain(&mut o.rest).collect();
    if let Const::Ident(p) = &mut o.value {
        out.extend(p);
    }
    out
}

// ------------------------------------------------------------------------------------------
// Single changes of meaning
// ------------------------------------------------------------------------------------------

/// Names used anywhere, so that a fresh one can be chosen.
pub fn names(fs: &FileSet) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for n in Symbols::of(fs).map.keys() {
        out.extend(n.split('.').map(|s| s.to_string()));
    }
    out
}

pub fn fresh(src: &mut Source, taken: &BTreeSet<String>, like: &str) -> String {
    let mut c: Vec<char> = like.chars().collect();
    match src.below(4) {
        0 => c.push(*src.pick(&['x', '_', '1', 'Z'])),
        1 => {
            // The other case.
            let i = src.below(c.len());
            if c[i].is_ascii_lowercase() {
                c[i] = c[i].to_ascii_uppercase()
            } else {
                c[i] = c[i].to_ascii_lowercase()
            }
        }
        2 if c.len() > 1 => {
            c.pop();
        }
        _ => {
            let i = src.below(c.len());
            c[i] = (b'a' + src.draw(26) as u8) as char;
        }
    }
    let mut s: String = c.into_iter().collect();
    while taken.contains(&s) || is_type_keyword(&s) || !s.starts_with(|c: char| c.is_ascii_alphabetic()) {
        s = format!("q{}", s);
    }
    s
}

/// Everything in the schema that has options, visited by index.
fn each_opts(fs: &mut FileSet, f: &mut dyn FnMut(&mut Vec<Opt>, &'static str)) {
    messages_mut(fs, &mut |_, m| {
        for mem in &mut m.members {
            match mem {
                Member::Field(x) => f(&mut x.opts, "field"),
                Member::Oneof(o) => {
                    f(&mut o.opts, "oneof");
                    o.fields.iter_mut().for_each(|x| f(&mut x.opts, "oneof field"));
                }
                _ => {}
            }
        }
    });
    enums_mut(fs, &mut |e| e.values.iter_mut().for_each(|v| f(&mut v.opts, "enum value")));
    services_mut(fs, &mut |s| {
        f(&mut s.opts, "service");
        s.rpcs.iter_mut().for_each(|r| f(&mut r.opts, "rpc"));
    });
}

/// A constant with another meaning.
fn other_const(src: &mut Source, c: &Const) -> Const {
    match c {
        Const::Ident(p) => match src.below(2) {
            0 => {
                let mut p = p.clone();
                p.push("more".into());
                Const::Ident(p)
            }
            _ => Const::Str(p.join(".").into_bytes()),
        },
        Const::Int(i) => match src.below(5) {
            0 => Const::Int(i ^ 1),
            1 => Const::Int(!i),
            2 => Const::Int(i ^ (1 << src.below(63))),
            3 => Const::Str(i.to_string().into_bytes()),
            _ => Const::Float(
                if *i < 0 { Some('-') } else { None },
                format!("{}.0", i.unsigned_abs()),
            ),
        },
        Const::Float(..) => match src.below(2) {
            0 => Const::Float(None, "123.456789e17".into()),
            _ => Const::Int(src.draw(1000) as i64),
        },
        Const::Str(s) => {
            let mut t = s.clone();
            match src.below(4) {
                0 => t.push(*src.pick(&[0u8, b' ', b'a', 255])),
                1 if !t.is_empty() => {
                    t.pop();
                }
                2 if !t.is_empty() => {
                    let i = src.below(t.len());
                    t[i] ^= 1 << src.below(8);
                }
                _ => t.insert(0, b'z'),
            }
            Const::Str(t)
        }
        Const::Bool(b) => match src.below(2) {
            0 => Const::Bool(!b),
            _ => Const::Int(*b as i64),
        },
    }
}

/// One change that alters what the schema declares. None: the drawn change does not apply.
pub fn change(src: &mut Source, fs: &FileSet, services: bool) -> Option<(FileSet, &'static str)> {
    let mut out = fs.clone();
    let taken = names(fs);
    // Picks one of the things that a walk visits.
    macro_rules! one_of {
        ($walk:expr, $test:expr, $act:expr) => {{
            let mut n = 0usize;
            $walk(&mut out, &mut |x: &mut _| {
                if $test(x) {
                    n += 1
                }
            });
            if n == 0 {
                return None;
            }
            let pick = src.below(n);
            let mut i = 0usize;
            $walk(&mut out, &mut |x: &mut _| {
                if $test(x) {
                    if i == pick {
                        $act(x)
                    }
                    i += 1;
                }
            });
        }};
    }
    fn msgs(fs: &mut FileSet, f: &mut dyn FnMut(&mut Msg)) {
        messages_mut(fs, &mut |_, m| f(m));
    }
    fn plain_fields(fs: &mut FileSet, f: &mut dyn FnMut(&mut Field)) {
        messages_mut(fs, &mut |_, m| {
            for mem in &mut m.members {
                if let Member::Field(x) = mem {
                    f(x)
                }
            }
        });
    }
    fn oneofs(fs: &mut FileSet, f: &mut dyn FnMut(&mut OneofDecl)) {
        messages_mut(fs, &mut |_, m| {
            for mem in &mut m.members {
                if let Member::Oneof(x) = mem {
                    f(x)
                }
            }
        });
    }
    fn values(fs: &mut FileSet, f: &mut dyn FnMut(&mut EnumValueDecl)) {
        enums_mut(fs, &mut |e| e.values.iter_mut().for_each(&mut *f));
    }
    fn rpcs(fs: &mut FileSet, f: &mut dyn FnMut(&mut RpcDecl)) {
        services_mut(fs, &mut |s| s.rpcs.iter_mut().for_each(&mut *f));
    }
    let what = match src.below(24) {
        0 => {
            one_of!(all_fields_mut, |_: &Field| true, |f: &mut Field| f.name =
                fresh(src, &taken, &f.name));
            "field name"
        }
        1 => {
            let far = src.bool();
            one_of!(msgs, |m: &Msg| !m.fields().is_empty(), |m: &mut Msg| {
                let used: BTreeSet<u64> = m.fields().iter().map(|(f, _)| f.number).collect();
                let pick = src.below(used.len());
                let mut i = 0;
                fields_mut(m, &mut |f| {
                    if i == pick {
                        let mut n = if far { 1 + (src.int() & 0xfff_ffff) } else { f.number + 1 };
                        while used.contains(&n) || (19000..20000).contains(&n) || n > 536870911 {
                            n = (n + 1) % 536870912;
                            n = n.max(1);
                        }
                        f.number = n;
                    }
                    i += 1;
                });
            });
            "field number"
        }
        2 => {
            one_of!(all_fields_mut, |f: &Field| matches!(f.ty, Ty::Scalar(_)), |f: &mut Field| {
                let was = match f.ty {
                    Ty::Scalar(s) => s,
                    _ => unreachable!(),
                };
                // The same multiplicity, if possible.
                let others: Vec<Scalar> = SCALARS
                    .iter()
                    .cloned()
                    .filter(|s| *s != was && s.packable() == was.packable())
                    .collect();
                f.ty = Ty::Scalar(*src.pick(&others));
            });
            "field type"
        }
        3 => {
            one_of!(plain_fields, |_: &Field| true, |f: &mut Field| {
                f.label = match f.label {
                    Label::Single => *src.pick(&[Label::Optional, Label::Repeated]),
                    Label::Optional => *src.pick(&[Label::Single, Label::Repeated]),
                    Label::Repeated => *src.pick(&[Label::Single, Label::Optional]),
                };
            });
            "field label"
        }
        4 => {
            // Two of the type's fields swap their numbers.
            one_of!(msgs, |m: &Msg| m.fields().len() >= 2, |m: &mut Msg| {
                let numbers: Vec<u64> = m.fields().iter().map(|(f, _)| f.number).collect();
                let (a, b) = (numbers[0], numbers[1 + src.below(numbers.len() - 1)]);
                fields_mut(m, &mut |f| {
                    if f.number == a {
                        f.number = b
                    } else if f.number == b {
                        f.number = a
                    }
                });
            });
            "swapped field numbers"
        }
        5 => {
            one_of!(msgs, |m: &Msg| m.members.iter().any(|x| matches!(x, Member::Field(_))), |m: &mut Msg| {
                let at: Vec<usize> = (0..m.members.len())
                    .filter(|i| matches!(m.members[*i], Member::Field(_)))
                    .collect();
                m.members.remove(*src.pick(&at));
            });
            "missing field"
        }
        6 => {
            let all = Symbols::of(fs);
            let types: Vec<(String, Kind)> = all
                .map
                .keys()
                .filter_map(|n| all.kind(n).map(|k| (n.clone(), k)))
                .filter(|(_, k)| *k != Kind::Service)
                .collect();
            if types.len() < 2 {
                return None;
            }
            one_of!(all_fields_mut, |f: &Field| matches!(f.ty, Ty::Ref(_)), |f: &mut Field| {
                if let Ty::Ref(r) = &mut f.ty {
                    let mut i = src.below(types.len());
                    if types[i].0 == r.target {
                        i = (i + 1) % types.len();
                    }
                    *r = absolute(&types[i].0, types[i].1);
                }
                f.opts.retain(|o| o.name() != "packed");
            });
            "referenced type"
        }
        7 => {
            one_of!(oneofs, |_: &OneofDecl| true, |o: &mut OneofDecl| o.name =
                fresh(src, &taken, &o.name));
            "oneof name"
        }
        8 => {
            one_of!(oneofs, |o: &OneofDecl| o.fields.len() >= 2, |o: &mut OneofDecl| {
                let i = src.below(o.fields.len());
                o.fields.remove(i);
            });
            "missing oneof field"
        }
        9 => {
            // A field leaves its oneof.
            one_of!(
                msgs,
                |m: &Msg| m.oneofs().iter().any(|o| o.fields.len() >= 2),
                |m: &mut Msg| {
                    let at: Vec<usize> = (0..m.members.len())
                        .filter(|i| matches!(&m.members[*i], Member::Oneof(o) if o.fields.len() >= 2))
                        .collect();
                    let i = *src.pick(&at);
                    let f = match &mut m.members[i] {
                        Member::Oneof(o) => o.fields.remove(src.below(o.fields.len())),
                        _ => unreachable!(),
                    };
                    m.members.insert(i + src.below(2), Member::Field(f));
                }
            );
            "field outside its oneof"
        }
        10 => {
            // A field moves to another oneof.
            one_of!(msgs, |m: &Msg| m.oneofs().len() >= 2, |m: &mut Msg| {
                let at: Vec<usize> = (0..m.members.len())
                    .filter(|i| matches!(&m.members[*i], Member::Oneof(_)))
                    .collect();
                let k = src.below(at.len());
                let (a, b) = (at[k], at[(k + 1) % at.len()]);
                let f = match &mut m.members[a] {
                    Member::Oneof(o) => o.fields.remove(src.below(o.fields.len())),
                    _ => unreachable!(),
                };
                if let Member::Oneof(o) = &mut m.members[b] {
                    o.fields.push(f)
                }
                m.members.retain(|x| !matches!(x, Member::Oneof(o) if o.fields.is_empty()));
            });
            "field in another oneof"
        }
        11 => {
            one_of!(values, |_: &EnumValueDecl| true, |v: &mut EnumValueDecl| v.name =
                fresh(src, &taken, &v.name));
            "enum value name"
        }
        12 => {
            one_of!(enums_mut, |_: &EnumDecl| true, |e: &mut EnumDecl| {
                let used: BTreeSet<i64> = e.values.iter().map(|v| v.value).collect();
                let i = src.below(e.values.len());
                let mut n = match src.below(3) {
                    0 => e.values[i].value.wrapping_neg(),
                    1 => e.values[i].value ^ (1 << src.below(63)),
                    _ => e.values[i].value.wrapping_add(1),
                };
                while used.contains(&n) {
                    n = n.wrapping_add(1);
                }
                e.values[i].value = n;
            });
            "enum value number"
        }
        13 => {
            one_of!(enums_mut, |e: &EnumDecl| e.values.len() >= 2, |e: &mut EnumDecl| {
                let i = src.below(e.values.len());
                e.values.remove(i);
            });
            "missing enum value"
        }
        14 => {
            one_of!(services_mut, |_: &SvcDecl| true, |s: &mut SvcDecl| s.name =
                fresh(src, &taken, &s.name));
            "service name"
        }
        15 => {
            one_of!(rpcs, |_: &RpcDecl| true, |r: &mut RpcDecl| match src.below(4) {
                0 => r.name = fresh(src, &taken, &r.name),
                1 => r.input_stream ^= true,
                2 => r.output_stream ^= true,
                _ if r.input_stream != r.output_stream =>
                    std::mem::swap(&mut r.input_stream, &mut r.output_stream),
                _ => r.output_stream ^= true,
            });
            "rpc"
        }
        16 => {
            one_of!(
                rpcs,
                |r: &RpcDecl| r.input.target != r.output.target,
                |r: &mut RpcDecl| match src.below(3) {
                    0 => std::mem::swap(&mut r.input, &mut r.output),
                    1 => r.input = r.output.clone(),
                    _ => r.output = r.input.clone(),
                }
            );
            "rpc argument"
        }
        17 => {
            one_of!(services_mut, |s: &SvcDecl| !s.rpcs.is_empty(), |s: &mut SvcDecl| {
                let i = src.below(s.rpcs.len());
                s.rpcs.remove(i);
            });
            "missing rpc"
        }
        18..=20 => {
            // Options.
            let mut place = "";
            let mut spots = 0;
            let add = src.chance(30);
            each_opts(&mut out, &mut |o, _| spots += (add || !o.is_empty()) as usize);
            if spots == 0 {
                return None;
            }
            let pick = src.below(spots);
            let mut i = 0;
            let mut ok = true;
            each_opts(&mut out, &mut |o, at| {
                if !add && o.is_empty() {
                    return;
                }
                if i == pick {
                    place = at;
                    if add {
                        let k = src.below(o.len() + 1);
                        o.insert(k, simple_opt("another_option", Const::Bool(src.bool())));
                    } else {
                        let k = src.below(o.len());
                        match src.below(5) {
                            0 => {
                                o.remove(k);
                            }
                            1 if o.len() >= 2 && k + 1 < o.len() => {
                                let same = o[k].name() == o[k + 1].name();
                                ok = !same;
                                o.swap(k, k + 1)
                            }
                            2 => o[k].rest.push("sub".into()),
                            3 => o[k].paren ^= true,
                            _ => {
                                ok = !(o[k].name() == "packed");
                                o[k].value = other_const(src, &o[k].value.clone())
                            }
                        }
                    }
                }
                i += 1;
            });
            if !ok {
                return None;
            }
            match place {
                "field" => "field option",
                "oneof" => "oneof option",
                "oneof field" => "oneof field option",
                "enum value" => "enum value option",
                "service" => "service option",
                _ => "rpc option",
            }
        }
        21 => {
            // A type is renamed, with what mentions it.
            let all = Symbols::of(fs);
            let types: Vec<String> = all.map.keys().filter(|n| all.kind(n).is_some()).cloned().collect();
            if types.is_empty() {
                return None;
            }
            let full = src.pick(&types).clone();
            let (dir, last) = match full.rfind('.') {
                Some(i) => (&full[..i + 1], &full[i + 1..]),
                None => ("", &full[..]),
            };
            let new = fresh(src, &taken, last);
            let to = format!("{}{}", dir, new);
            let inside = format!("{}.", full);
            let mv = |r: &mut Ref| {
                let target = if r.target == full {
                    to.clone()
                } else if r.target.starts_with(&inside) {
                    format!("{}.{}", to, &r.target[inside.len()..])
                } else {
                    r.target.clone()
                };
                *r = absolute(&target, r.kind);
            };
            all_fields_mut(&mut out, &mut |f| {
                if let Ty::Ref(r) = &mut f.ty {
                    mv(r)
                }
            });
            services_mut(&mut out, &mut |s| {
                for r in &mut s.rpcs {
                    mv(&mut r.input);
                    mv(&mut r.output);
                }
            });
            for file in &mut out.files {
                let path = file.package_path();
                for item in &mut file.items {
                    let name = match item {
                        Item::Message(m) => &mut m.name,
                        Item::Enum(m) => &mut m.name,
                        Item::Service(m) => &mut m.name,
                    };
                    if join(&path, name) == full {
                        *name = new.clone();
                    }
                }
            }
            // The walk reads names on the way, so the paths of inner types are those of the
            // original only while no outer type was renamed: exactly one name matches.
            messages_mut(&mut out, &mut |path, m| {
                let mut inner = path.clone();
                inner.push(m.name.clone());
                for mem in &mut m.members {
                    let name = match mem {
                        Member::Message(m) => &mut m.name,
                        Member::Enum(m) => &mut m.name,
                        _ => continue,
                    };
                    if join(&inner, name) == full {
                        *name = new.clone();
                    }
                }
            });
            "type name"
        }
        22 => {
            // Something new is declared.
            let f = src.below(out.files.len());
            // (Contexts built by hand have no services.)
            let item = match src.below(3) {
                0 => Item::Message(Msg { name: fresh(src, &taken, "New"), members: vec![] }),
                1 if services => Item::Service(SvcDecl { name: fresh(src, &taken, "New"), rpcs: vec![], opts: vec![] }),
                _ => Item::Enum(EnumDecl {
                    name: fresh(src, &taken, "New"),
                    values: vec![EnumValueDecl {
                        name: fresh(src, &taken, "Zero"),
                        value: 0,
                        opts: vec![],
                    }],
                }),
            };
            out.files[f].items.push(item);
            "another declaration"
        }
        _ => {
            // A nested type without references to it moves to the top level of a message.
            one_of!(
                msgs,
                |m: &Msg| m.members.iter().any(|x| matches!(x, Member::Message(_) | Member::Enum(_))),
                |m: &mut Msg| {
                    let at: Vec<usize> = (0..m.members.len())
                        .filter(|i| matches!(m.members[*i], Member::Message(_) | Member::Enum(_)))
                        .collect();
                    let x = m.members.remove(*src.pick(&at));
                    let mut wrap = Msg { name: fresh(src, &taken, "Wrap"), members: vec![] };
                    wrap.members.push(x);
                    m.members.push(Member::Message(wrap));
                }
            );
            // References to it no longer hold: only use this if there are none.
            let all = Symbols::of(&out);
            let mut ok = true;
            let mut check = |r: &mut Ref| ok &= all.kind(&r.target) == Some(r.kind);
            all_fields_mut(&mut out, &mut |f| {
                if let Ty::Ref(r) = &mut f.ty {
                    check(r)
                }
            });
            services_mut(&mut out, &mut |s| {
                for r in &mut s.rpcs {
                    check(&mut r.input);
                    check(&mut r.output);
                }
            });
            if !ok {
                return None;
            }
            "nesting"
        }
    };
    // Whatever a reference was spelled like, it must denote the same as before.
    all_fields_mut(&mut out, &mut |f| {
        if let Ty::Ref(r) = &mut f.ty {
            *r = absolute(&r.target.clone(), r.kind)
        }
    });
    services_mut(&mut out, &mut |s| {
        for r in &mut s.rpcs {
            r.input = absolute(&r.input.target.clone(), r.input.kind);
            r.output = absolute(&r.output.target.clone(), r.output.kind);
        }
    });
    Some((out, what))
}

fn absolute(target: &str, kind: Kind) -> Ref {
    Ref {
        absolute: true,
        parts: target.split('.').map(|s| s.to_string()).collect(),
        target: target.to_string(),
        kind,
    }
}

/// The identifiers of all names, mapped one to one to other identifiers.
pub fn fresh_names(src: &mut Source, fs: &FileSet) -> BTreeMap<String, String> {
    let mut keep = names(fs);
    each_opts(&mut fs.clone(), &mut |l, _| {
        for o in l {
            keep.extend(opt_parts(o).into_iter().map(|p| p.clone()));
        }
    });
    // Words that do mean something as an option's name or value.
    let special = |n: &str| ["packed", "inf", "nan", "true", "false"].contains(&n);
    let style = src.below(5);
    // A permutation of the names in use is a renaming too.
    if style == 0 {
        let from: Vec<String> = keep.iter().filter(|n| !is_type_keyword(n) && !special(n)).cloned().collect();
        let mut to = from.clone();
        src.shuffle(&mut to);
        let fixed = keep.iter().filter(|n| is_type_keyword(n) || special(n)).map(|n| (n.clone(), n.clone()));
        return from.into_iter().zip(to).chain(fixed).collect();
    }
    let mut used = BTreeSet::new();
    let mut out = BTreeMap::new();
    // Every name begins with all the shorter ones.
    let chain = style == 3 && src.bool();
    let mut lengths: Vec<usize> = (1..=keep.len()).collect();
    if chain {
        src.shuffle(&mut lengths);
    }
    for n in keep {
        if special(&n) {
            used.insert(n.clone());
            out.insert(n.clone(), n);
            continue;
        }
        let mut s = match style {
            1 => random_ident(src),
            2 => keyword_like(src),
            // Names that are almost the same.
            3 if chain => "Ab".repeat(lengths[out.len()] / 2 + 1)[..lengths[out.len()]].to_string(),
            3 => format!("{}{}", src.pick(&["x", "X", "xx", "packed", "un"]), src.pick(&["packed", "_packed", "x", "X"])),
            _ => match src.below(3) {
                0 => random_ident(src),
                1 => keyword_like(src),
                _ => "long_".repeat(1 + src.below(60)),
            },
        };
        while used.contains(&s) || is_type_keyword(&s) || special(&s) {
            s.push((b'a' + src.draw(26) as u8) as char);
        }
        used.insert(s.clone());
        out.insert(n, s);
    }
    out
}
