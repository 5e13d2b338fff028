//! Invariants of the reference graph of a context.

use crate::engine::Check;
use protofish::context as pc;
use protofish::context::{Context, TypeInfo, TypeParent, TypeRef};
use std::collections::{BTreeMap, BTreeSet};

/// The declared items a context must consist of.
#[derive(Clone, Debug, Default)]
pub struct Graph {
    /// Full name to (is a message, full name of the enclosing message, path of the package, name).
    pub types: BTreeMap<String, Node>,
    /// Full name to (path of the package, name).
    pub services: BTreeMap<String, (Option<String>, String)>,
}

#[derive(Clone, Debug)]
pub struct Node {
    pub message: bool,
    pub parent: Option<String>,
    pub package: Option<String>,
    pub name: String,
}

pub fn type_ref(t: &TypeInfo) -> TypeRef {
    match t {
        TypeInfo::Message(m) => TypeRef::Message(m.self_ref),
        TypeInfo::Enum(e) => TypeRef::Enum(e.self_ref),
    }
}

/// Full name of what a reference denotes, checked to be of the right kind by the API itself.
pub fn name_of<'a>(ctx: &'a Context, r: &TypeRef) -> &'a str {
    match r {
        TypeRef::Message(m) => &ctx.resolve_message(*m).full_name,
        TypeRef::Enum(e) => &ctx.resolve_enum(*e).full_name,
    }
}

macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}
pub(crate) use fail;

pub fn check(g: &Graph, ctx: &Context) -> Check {
    let mut seen: Vec<TypeRef> = vec![];
    for (full, node) in &g.types {
        let info = match ctx.get_type(full) {
            Some(t) => t,
            None => fail!("get_type({:?}) is None", full),
        };
        if info.full_name() != full || info.name() != node.name {
            fail!("{}: name {:?}, full name {:?}", full, info.name(), info.full_name());
        }
        let r = type_ref(info);
        // Its own reference leads back to it and to nothing else.
        let same = match info {
            TypeInfo::Message(m) => {
                node.message && std::ptr::eq(ctx.resolve_message(m.self_ref), m)
            }
            TypeInfo::Enum(e) => !node.message && std::ptr::eq(ctx.resolve_enum(e.self_ref), e),
        };
        if !same {
            fail!("{} does not resolve to itself from its own reference {:?}", full, r);
        }
        if seen.contains(&r) {
            fail!("{} shares the reference {:?} with another type", full, r);
        }
        seen.push(r);
        // The parent.
        match (&node.parent, info.parent()) {
            (Some(p), TypeParent::Message(m)) => {
                let parent = ctx.resolve_message(m);
                if &parent.full_name != p {
                    fail!("{}: the parent is {}", full, parent.full_name);
                }
                let times = parent.inner_types.iter().filter(|t| **t == r).count();
                if times != 1 {
                    fail!("{}: its parent {} lists it {} times", full, p, times);
                }
                if *full != format!("{}.{}", parent.full_name, info.name()) {
                    fail!("{}: not the name of the parent and its own", full);
                }
            }
            (None, TypeParent::Package(p)) => {
                ctx.resolve_package(p);
            }
            (_, p) => fail!("{}: the parent is {:?}", full, p),
        }
        if let TypeInfo::Message(m) = info {
            message(g, ctx, full, m)?;
        }
    }
    for (full, (_, name)) in &g.services {
        let s = match ctx.get_service(full) {
            Some(s) => s,
            None => fail!("get_service({:?}) is None", full),
        };
        if s.full_name != *full || s.name != *name {
            fail!("service {}: name {:?}, full name {:?}", full, s.name, s.full_name);
        }
        ctx.resolve_package(s.parent);
        let mut names = BTreeSet::new();
        for rpc in &s.rpcs {
            for arg in [&rpc.input, &rpc.output] {
                let m = ctx.resolve_message(arg.message);
                if m.self_ref != arg.message {
                    fail!("{}.{}: argument reference {:?}", full, rpc.name, arg.message);
                }
                if !g.types.get(&m.full_name).map_or(false, |n| n.message) {
                    fail!("{}.{}: argument {} is no declared message", full, rpc.name, m.full_name);
                }
            }
            if !names.insert(&rpc.name) {
                continue;
            }
            match s.rpc_by_name(&rpc.name) {
                Some(r) if r.name == rpc.name => {}
                r => fail!("{}: rpc_by_name({:?}) is {:?}", full, rpc.name, r),
            }
        }
        for (other, _) in &g.services {
            let o = ctx.get_service(other);
            if other != full && o.map_or(false, |o| o.self_ref == s.self_ref) {
                fail!("services {} and {} share a reference", full, other);
            }
        }
    }
    Ok(())
}

fn message(g: &Graph, ctx: &Context, full: &str, m: &pc::MessageInfo) -> Check {
    // Inner types name this message as their parent.
    for t in &m.inner_types {
        let name = name_of(ctx, t);
        match ctx.get_type(name) {
            Some(info) if type_ref(info) == *t => {
                if info.parent() != TypeParent::Message(m.self_ref) {
                    fail!("{} lists {}, whose parent is {:?}", full, name, info.parent());
                }
            }
            _ => fail!("{} lists {:?}, which is not found under its name {}", full, t, name),
        }
        match g.types.get(name) {
            Some(n) if n.parent.as_deref() == Some(full) => {}
            _ => fail!("{} lists {}, which is not declared in it", full, name),
        }
    }
    for f in m.iter_fields() {
        match m.get_field(f.number) {
            Some(x) if std::ptr::eq(x, f) => {}
            x => fail!("{}: field {} by number is {:?}", full, f.number, x),
        }
        match m.get_field_by_name(&f.name) {
            Some(x) if std::ptr::eq(x, f) => {}
            x => fail!("{}: field {:?} by name is {:?}", full, f.name, x),
        }
        let target = match &f.field_type {
            pc::ValueType::Message(r) => {
                let t = ctx.resolve_message(*r);
                if t.self_ref != *r {
                    fail!("{}.{}: reference {:?}", full, f.name, r);
                }
                Some((&t.full_name, true))
            }
            pc::ValueType::Enum(r) => {
                let t = ctx.resolve_enum(*r);
                if t.self_ref != *r {
                    fail!("{}.{}: reference {:?}", full, f.name, r);
                }
                Some((&t.full_name, false))
            }
            _ => None,
        };
        if let Some((t, message)) = target {
            if !g.types.get(t).map_or(false, |n| n.message == message) {
                fail!("{}.{}: its type {} is not declared as that kind", full, f.name, t);
            }
        }
        let listed: Vec<&pc::Oneof> =
            m.oneofs.iter().filter(|o| o.fields.contains(&f.number)).collect();
        match f.oneof {
            None => {
                if let Some(o) = listed.first() {
                    fail!("{}.{} names no oneof, but {} lists it", full, f.name, o.name);
                }
            }
            Some(r) => {
                let o = match m.get_oneof(r) {
                    Some(o) => o,
                    None => fail!("{}.{}: no oneof {:?}", full, f.name, r),
                };
                if o.fields.iter().filter(|n| **n == f.number).count() != 1 || listed.len() != 1 {
                    fail!("{}.{} is in the oneof {}, which lists {:?}", full, f.name, o.name, o.fields);
                }
            }
        }
    }
    for (i, o) in m.oneofs.iter().enumerate() {
        match m.get_oneof(o.self_ref) {
            Some(x) if std::ptr::eq(x, o) => {}
            x => fail!("{}: oneof {} (number {}) by its reference is {:?}", full, o.name, i, x),
        }
        for n in &o.fields {
            match m.get_field(*n) {
                Some(f) if f.oneof == Some(o.self_ref) => {}
                f => fail!("{}: oneof {} lists {}, which is {:?}", full, o.name, n, f),
            }
        }
    }
    Ok(())
}

/// The packages are opaque, except through the names of what is inserted into them. Inserts a type
/// next to every type and service that has a package for its parent, and one into every message.
pub fn probe(g: &mut Graph, ctx: &mut Context) -> Check {
    let mut parents: Vec<(TypeParent, Option<String>, Option<String>, String)> = vec![];
    let mut known: BTreeSet<(String, Option<String>)> = BTreeSet::new();
    for (full, node) in &g.types {
        let p = ctx.get_type(full).unwrap().parent();
        if node.parent.is_none() {
            let what = format!("the package of {}", full);
            parents.push((p, None, node.package.clone(), what));
        }
        if let (true, Some(m)) = (node.message, ctx.get_message(full)) {
            let p = TypeParent::Message(m.self_ref);
            parents.push((p, Some(full.clone()), node.package.clone(), full.clone()));
        }
    }
    for (full, (package, _)) in &g.services {
        let p = TypeParent::Package(ctx.get_service(full).unwrap().parent);
        parents.push((p, None, package.clone(), format!("the package of service {}", full)));
    }
    let mut n = 0;
    for (p, message, package, what) in parents {
        // One insertion for each parent and name it should have.
        let scope = message.clone().or(package.clone());
        if !known.insert((format!("{:?}", p), scope.clone())) && n > 12 {
            continue;
        }
        let name = loop {
            n += 1;
            let name = format!("Probe{}", n);
            let full = match &scope {
                Some(s) => format!("{}.{}", s, name),
                None => name.clone(),
            };
            if !g.types.contains_key(&full) && !g.services.contains_key(&full) {
                break name;
            }
        };
        let full = match &scope {
            Some(s) => format!("{}.{}", s, name),
            None => name.clone(),
        };
        let is_message = n % 2 == 0;
        let (r, got) = if is_message {
            match ctx.insert_message(pc::MessageInfo::new(name.clone(), p)) {
                Ok(r) => (TypeRef::Message(r), ctx.resolve_message(r).full_name.clone()),
                Err(e) => fail!("cannot insert {} into {}: {:?}", name, what, e),
            }
        } else {
            match ctx.insert_enum(pc::EnumInfo::new(name.clone(), p)) {
                Ok(r) => (TypeRef::Enum(r), ctx.resolve_enum(r).full_name.clone()),
                Err(e) => fail!("cannot insert {} into {}: {:?}", name, what, e),
            }
        };
        if got != full || name_of(ctx, &r) != full {
            fail!("{} inserted into {} is called {}", name, what, got);
        }
        g.types.insert(full, Node { message: is_message, parent: message, package, name });
    }
    check(g, ctx)
}
