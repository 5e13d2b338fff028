//! The context exposes exactly what the proto files declare.

use super::common::*;
use crate::engine::*;
use crate::huge;
use crate::render;
use crate::schema::*;
use crate::tape::Source;
use crate::view;
use protofish::context::{Context, TypeInfo};
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "C11",
    run,
    enumerated: |_| (huge::KINDS * huge::SIZES.len()) as u64,
    quick: 25_000,
    thorough: 500_000,
    threads: 8,
    rule: "A random set of proto3 files (packages, nesting, oneofs, options, labels, enums with \
           aliases, services, references) is written as text and parsed; everything the context's API \
           exposes is compared with the declarations, and names, numbers and values that are not \
           declared must not be found. The enumerated part has 130, 300 and 66000 of one thing each (fields, \
           enum values, messages, files, options, ...). Non-trivial: at least three declared types or \
           services.",
};

/// Lookups of every kind agree with each other and with the declarations.
fn lookups(src: &mut Source, fs: &FileSet, v: &view::View, ctx: &Context) -> Check {
    for (name, m) in &v.messages {
        let info = match ctx.get_message(name) {
            Some(i) => i,
            None => return Err(format!("get_message({:?}) is None", name)),
        };
        match ctx.get_type(name) {
            Some(TypeInfo::Message(t)) if std::ptr::eq(t, info) => {}
            _ => return Err(format!("get_type({:?}) does not give the message", name)),
        }
        let t = ctx.get_type(name).unwrap();
        if t.name() != m.name || t.full_name() != name || t.parent() != info.parent {
            return Err(format!(
                "TypeInfo of {}: name {:?}, full name {:?}, parent {:?}",
                name,
                t.name(),
                t.full_name(),
                t.parent()
            ));
        }
        let count = info.iter_fields().count();
        if count != m.fields.len() {
            return Err(format!("{} iterates {} fields of {}", name, count, m.fields.len()));
        }
        let mut numbers: BTreeSet<u64> = BTreeSet::new();
        let mut names: BTreeSet<String> = BTreeSet::new();
        for (n, f) in &m.fields {
            let by_number = info.get_field(*n);
            let by_name = info.get_field_by_name(&f.name);
            match (by_number, by_name) {
                (Some(a), Some(b)) if std::ptr::eq(a, b) && a.number == *n && a.name == f.name => {}
                _ => {
                    return Err(format!(
                        "{}: field {} by number is {:?}, by name {:?} is {:?}",
                        name, n, by_number, f.name, by_name
                    ))
                }
            }
            numbers.extend([n.wrapping_sub(1), n + 1, n << 3, n >> 3, n | 1 << 32, n ^ 1]);
            names.extend([
                format!("{}_", f.name),
                format!(" {}", f.name),
                f.name[1..].to_string(),
                f.name.to_uppercase(),
                f.name.to_lowercase(),
                format!("{}.{}", name, f.name),
            ]);
        }
        numbers.extend([0, u64::MAX, src.int()]);
        names.extend([String::new(), m.name.clone()]);
        for o in &m.oneofs {
            names.insert(o.name.clone());
        }
        for i in &m.inner {
            names.insert(i.rsplit('.').next().unwrap().to_string());
        }
        for n in numbers {
            if !m.fields.contains_key(&n) && info.get_field(n).is_some() {
                return Err(format!("{}: found a field for the undeclared number {}", name, n));
            }
        }
        for n in names {
            let declared = m.fields.values().any(|f| f.name == n);
            if !declared && info.get_field_by_name(&n).is_some() {
                return Err(format!("{}: found a field for the undeclared name {:?}", name, n));
            }
        }
    }
    for (name, e) in &v.enums {
        if ctx.get_message(name).is_some() {
            return Err(format!("get_message finds the enum {}", name));
        }
        let info = match ctx.get_type(name) {
            Some(TypeInfo::Enum(e)) => e,
            _ => return Err(format!("get_type({:?}) does not give the enum", name)),
        };
        let t = ctx.get_type(name).unwrap();
        if t.name() != e.name || t.full_name() != name || t.parent() != info.parent {
            return Err(format!("TypeInfo of {}: {:?}, {:?}", name, t.name(), t.full_name()));
        }
        let mut values: BTreeSet<i64> = [i64::MIN, i64::MAX, -1, 1, src.int() as i64].into();
        for n in e.values.keys() {
            match info.get_field_by_value(*n) {
                Some(f) if f.value == *n => {}
                f => return Err(format!("{}: value {} finds {:?}", name, n, f)),
            }
            values.extend([n.wrapping_add(1), n.wrapping_neg(), *n as i32 as i64, n ^ (1 << 32)]);
        }
        for n in values {
            if !e.values.contains_key(&n) && info.get_field_by_value(n).is_some() {
                return Err(format!("{}: found a name for the undeclared value {}", name, n));
            }
        }
    }
    for (name, s) in &v.services {
        if ctx.get_type(name).is_some() || ctx.get_message(name).is_some() {
            return Err(format!("the service {} is found as a type", name));
        }
        let info = match ctx.get_service(name) {
            Some(i) => i,
            None => return Err(format!("get_service({:?}) is None", name)),
        };
        let mut names: BTreeSet<String> = [String::new(), s.name.clone()].into();
        for (i, r) in s.rpcs.iter().enumerate() {
            match (info.rpc_by_name(&r.name), info.rpcs.get(i)) {
                (Some(a), Some(b)) if std::ptr::eq(a, b) => {}
                (a, b) => {
                    return Err(format!("{}: rpc {} by name {:?}, by position {:?}", name, r.name, a, b))
                }
            }
            names.extend([format!("{}_", r.name), r.name[1..].to_string(), r.name.to_lowercase()]);
        }
        for n in names {
            if !s.rpcs.iter().any(|r| r.name == n) && info.rpc_by_name(&n).is_some() {
                return Err(format!("{}: found an rpc for the undeclared name {:?}", name, n));
            }
        }
    }
    let names = v.names();
    for n in names.iter() {
        if !v.services.contains_key(n) && ctx.get_service(n).is_some() {
            return Err(format!("get_service finds the type {}", n));
        }
    }
    for n in undeclared(src, &names, fs) {
        if ctx.get_type(&n).is_some() || ctx.get_message(&n).is_some() {
            return Err(format!("found a type for the undeclared name {:?}", n));
        }
        if ctx.get_service(&n).is_some() {
            return Err(format!("found a service for the undeclared name {:?}", n));
        }
    }
    Ok(())
}

/// Very many of one thing.
fn many(e: u64, src: &mut Source, case: &mut Case) -> Check {
    let (kind, n) = (e as usize / huge::SIZES.len(), huge::SIZES[e as usize % huge::SIZES.len()]);
    if !huge::exists(kind, n) {
        return Ok(());
    }
    case.describe(|| format!("{} {}", n, huge::name(kind)));
    case.sample(|| format!("{} {}", n, huge::name(kind)));
    case.label("very many of one thing");
    let fs = huge::schema(kind, n);
    let ctx = parse(&render::plain(&fs)).map_err(|e| format!("valid files were rejected: {}", e))?;
    compare(&fs, &ctx)?;
    if n < 1000 {
        lookups(src, &fs, &view::expected(&fs), &ctx)?;
    }
    case.nontrivial(e);
    Ok(())
}

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    if e > 0 {
        return many(e - 1, src, case);
    }
    let cfg = varied(src, Cfg::default());
    let fs = gen(src, cfg);
    let text = render::mixed(&fs, src);
    case.describe(|| all_text(&text));
    case.sample(|| all_text(&render::plain(&fs)));
    classify(&fs, case);
    let v = view::expected(&fs);
    if v.names().len() >= 3 {
        case.nontrivial(text_digest(&text));
    }
    let ctx = parse(&text).map_err(|e| format!("valid files were rejected: {}", e))?;
    compare(&fs, &ctx)?;
    lookups(src, &fs, &v, &ctx)
}
