//! Insertions succeed or fail cleanly and never disturb what is there.

use super::graph;
use super::hist;
use crate::engine::*;
use crate::tape::Source;
use protofish::context as pc;
use protofish::context::{Context, TypeParent, TypeRef};

pub const PROP: Prop = Prop {
    id: "C20",
    run,
    enumerated: |_| MANY.len() as u64,
    quick: 100_000,
    thorough: 600_000,
    threads: 8,
    rule: "Random sequences of up to 30 insert_package, insert_message, insert_enum, add_field and \
           add_oneof calls from small pools of names, numbers and values (so that about a third \
           collide, also across package and message nesting), into an empty context or on top of \
           parsed files. A model predicts each result; a second context that sees only the \
           successful calls must stay equal; all references handed out keep their meaning, \
           and payloads decoded in between decode to the same at the end. \
           The enumerated part inserts up to 66000 of one kind, with failures in between. \
           Non-trivial: at least one success and one failure.",
};

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    if e > 0 {
        return many(e as usize - 1, src, case);
    }
    let mut h = match hist::start(src, case) {
        Some(h) => h,
        None => {
            case.label("skipped: no context");
            return Ok(());
        }
    };
    let n = match src.weighted(&[70, 30]) {
        0 => src.range(2, 12),
        _ => src.range(12, 30),
    };
    for _ in 0..n {
        h.step(src, case, true)?;
        if src.one_in(4) {
            h.decode_some(src);
        }
    }
    case.count("failed calls", h.failed as u64);
    case.count("inserted types", h.inserted as u64);
    case.sample(|| h.log.join("; "));
    case.describe(|| h.log.join("\n"));
    if h.failed > 0 && h.inserted > 0 {
        case.nontrivial(digest(h.log.join(";").as_bytes()));
    }
    h.compare()?;
    h.decode_again()?;
    graph::check(&h.graph, &h.a)
}

const MANY: [(&str, usize); 8] = [
    ("messages", 66_000),
    ("enums", 66_000),
    ("nested messages", 66_000),
    ("fields", 66_000),
    ("enum values", 66_000),
    ("oneofs", 3_000),
    ("packages", 3_000),
    ("levels", 400),
];

/// Very many insertions of one kind, with failing ones among them.
fn many(e: usize, src: &mut Source, case: &mut Case) -> Check {
    let (what, n) = MANY[e];
    case.label("very many insertions of one kind");
    case.describe(|| format!("{} {}", n, what));
    case.sample(|| format!("{} {}", n, what));
    case.nontrivial(e as u64 + 1);
    let err = |i: usize, what: String| Err(format!("insertion {} of {} {}: {}", i, n, MANY[e].0, what));
    let mut ctx = Context::new();
    let p = match ctx.insert_package(pc::Package::new(Some("p.q".into()))) {
        Ok(p) => p,
        Err(_) => return err(0, "the package is refused".into()),
    };
    let back = |src: &mut Source, i: usize| match src.below(3) {
        0 => i,
        1 => i & 0xff,
        _ => src.below(i + 1),
    };
    match what {
        "messages" | "enums" | "nested messages" | "levels" => {
            let mut refs: Vec<TypeRef> = vec![];
            let mut names: Vec<String> = vec![];
            let mut parent = TypeParent::Package(p);
            let mut path = "p.q".to_string();
            if what == "nested messages" {
                let m = pc::MessageInfo::new("Outer".into(), parent);
                parent = TypeParent::Message(ctx.insert_message(m).map_err(|e| format!("{:?}", e))?);
                path = "p.q.Outer".to_string();
            }
            for i in 0..n {
                let insert = |ctx: &mut Context, name: String, parent: TypeParent| {
                    if what == "enums" {
                        ctx.insert_enum(pc::EnumInfo::new(name, parent)).map(TypeRef::Enum)
                    } else {
                        ctx.insert_message(pc::MessageInfo::new(name, parent)).map(TypeRef::Message)
                    }
                };
                let name = format!("T{}", i);
                let full = format!("{}.{}", path, name);
                match insert(&mut ctx, name.clone(), parent) {
                    Ok(r) => refs.push(r),
                    Err(e) => return err(i, format!("{:?}", e)),
                }
                names.push(full);
                if src.one_in(8) {
                    // One that is there already, in its place.
                    let k = if what == "levels" { i } else { back(src, i) };
                    match insert(&mut ctx, format!("T{}", k), parent) {
                        Err(pc::InsertError::TypeExists { original }) if original == refs[k] => {}
                        r => return err(i, format!("a second T{}: {:?}", k, r)),
                    }
                }
                if what == "levels" {
                    if let TypeRef::Message(m) = refs[i] {
                        parent = TypeParent::Message(m);
                    }
                    path = names[i].clone();
                }
            }
            for (i, name) in names.iter().enumerate() {
                match ctx.get_type(name) {
                    Some(t) if graph::type_ref(t) == refs[i] && t.full_name() == *name => {}
                    t => return err(i, format!("{} is {:?}", name, t.map(|t| t.full_name().to_string()))),
                }
                if graph::name_of(&ctx, &refs[i]) != *name {
                    return err(i, format!("the reference of {} denotes {}", name, graph::name_of(&ctx, &refs[i])));
                }
            }
        }
        "fields" | "oneofs" => {
            let mut m = pc::MessageInfo::new("Many".into(), TypeParent::Package(p));
            let mut oneofs = vec![];
            for i in 0..n {
                let mut f = pc::MessageField::new(format!("f{}", i), i as u64 + 1, pc::ValueType::Int32);
                if what == "oneofs" {
                    match m.add_oneof(pc::Oneof::new(format!("o{}", i))) {
                        Ok(o) => oneofs.push(o),
                        Err(e) => return err(i, format!("{:?}", e)),
                    }
                    f.oneof = Some(oneofs[back(src, i)]);
                }
                if let Err(e) = m.add_field(f) {
                    return err(i, format!("{:?}", e));
                }
                if src.one_in(8) {
                    let k = back(src, i);
                    let number = pc::MessageField::new(format!("g{}", i), k as u64 + 1, pc::ValueType::Int32);
                    match m.add_field(number) {
                        Err(pc::MemberInsertError::NumberConflict) => {}
                        r => return err(i, format!("a second number {}: {:?}", k + 1, r)),
                    }
                    let name = pc::MessageField::new(format!("f{}", k), 1 << 28 | i as u64, pc::ValueType::Int32);
                    match m.add_field(name) {
                        Err(pc::MemberInsertError::NameConflict) => {}
                        r => return err(i, format!("a second f{}: {:?}", k, r)),
                    }
                    if what == "oneofs" {
                        match m.add_oneof(pc::Oneof::new(format!("o{}", k))) {
                            Err(pc::OneofInsertError::NameConflict) => {}
                            r => return err(i, format!("a second o{}: {:?}", k, r)),
                        }
                    }
                }
            }
            let r = match ctx.insert_message(m) {
                Ok(r) => r,
                Err(e) => return err(n, format!("{:?}", e)),
            };
            let m = ctx.resolve_message(r);
            if m.iter_fields().count() != n {
                return err(n, format!("the message has {} fields", m.iter_fields().count()));
            }
            for i in 0..n {
                let f = m.get_field(i as u64 + 1);
                match (f, m.get_field_by_name(&format!("f{}", i))) {
                    (Some(a), Some(b)) if std::ptr::eq(a, b) && a.name == format!("f{}", i) => {}
                    (a, b) => return err(i, format!("found as {:?} and {:?}", a, b)),
                }
                if let Some(o) = f.unwrap().oneof {
                    match m.get_oneof(o) {
                        Some(o) if o.fields.contains(&(i as u64 + 1)) => {}
                        o => return err(i, format!("its oneof is {:?}", o.map(|o| &o.name))),
                    }
                }
            }
            for (i, o) in oneofs.iter().enumerate() {
                match m.get_oneof(*o) {
                    Some(o) if o.name == format!("o{}", i) => {}
                    o => return err(i, format!("the reference of o{} denotes {:?}", i, o)),
                }
            }
        }
        "enum values" => {
            let mut m = pc::EnumInfo::new("Many".into(), TypeParent::Package(p));
            for i in 0..n {
                let value = i as i64 - 33_000;
                if let Err(e) = m.add_field(pc::EnumField::new(format!("V{}", i), value)) {
                    return err(i, format!("{:?}", e));
                }
                if src.one_in(8) {
                    let k = back(src, i);
                    match m.add_field(pc::EnumField::new(format!("W{}", i), k as i64 - 33_000)) {
                        Err(pc::MemberInsertError::NumberConflict) => {}
                        r => return err(i, format!("a second value {}: {:?}", k, r)),
                    }
                    match m.add_field(pc::EnumField::new(format!("V{}", k), 1 << 40)) {
                        Err(pc::MemberInsertError::NameConflict) => {}
                        r => return err(i, format!("a second V{}: {:?}", k, r)),
                    }
                }
            }
            let r = match ctx.insert_enum(m) {
                Ok(r) => r,
                Err(e) => return err(n, format!("{:?}", e)),
            };
            let m = ctx.resolve_enum(r);
            for i in 0..n {
                match m.get_field_by_value(i as i64 - 33_000) {
                    Some(v) if v.name == format!("V{}", i) => {}
                    v => return err(i, format!("found as {:?}", v)),
                }
            }
        }
        _ => {
            let mut refs = vec![p];
            for i in 1..n {
                match ctx.insert_package(pc::Package::new(Some(format!("p{}", i)))) {
                    Ok(r) => refs.push(r),
                    Err(r) => return err(i, format!("exists as {:?}", r)),
                }
                if i > 1 && src.one_in(8) {
                    let k = back(src, i).max(1);
                    match ctx.insert_package(pc::Package::new(Some(format!("p{}", k)))) {
                        Err(r) if r == refs[k] => {}
                        r => return err(i, format!("a second p{}: {:?}", k, r)),
                    }
                }
            }
            for (i, r) in refs.iter().enumerate().skip(1) {
                let m = pc::MessageInfo::new("M".into(), TypeParent::Package(*r));
                let m = ctx.insert_message(m).map_err(|e| format!("{:?}", e))?;
                if ctx.resolve_message(m).full_name != format!("p{}.M", i) {
                    return err(i, format!("a message in p{} is {}", i, ctx.resolve_message(m).full_name));
                }
            }
        }
    }
    Ok(())
}
