//! Names carry no meaning of their own.

use super::common::*;
use crate::engine::*;
use crate::evolve;
use crate::render;
use crate::schema::*;
use crate::tape::Source;
use crate::view::{self, ConstView, OptView, TyView, View};
use crate::wire::{self, *};
use protofish::context::{Context, TypeRef};
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C27",
    run,
    enumerated: |_| HUGE,
    quick: 25_000,
    thorough: 500_000,
    threads: 8,
    rule: "A random set of files and the same with every identifier replaced one to one: by random, \
           keyword-like or very long identifiers, or by a permutation of the identifiers in use. \
           What the first context says must, renamed, be what the second says, and payloads must \
           decode and encode the same with both. Enumerated: thousands of each kind of declaration. Non-trivial: at least three names.",
};

fn map_view(v: View, f: &dyn Fn(&str) -> String) -> View {
    let full = |n: &str| n.split('.').map(f).collect::<Vec<_>>().join(".");
    let ty = |t: TyView| match t {
        TyView::Message(n) => TyView::Message(full(&n)),
        TyView::Enum(n) => TyView::Enum(full(&n)),
        o => o,
    };
    // The identifiers of an option's name and value.
    let words = |n: &str| {
        let mut out = String::new();
        for part in n.split_inclusive(['.', '(', ')']) {
            let id = part.trim_end_matches(['.', '(', ')']);
            if !id.is_empty() {
                out.push_str(&f(id));
            }
            out.push_str(&part[id.len()..]);
        }
        out
    };
    let opts = |l: &mut Vec<OptView>| {
        for (n, v) in l {
            *n = words(n);
            if let ConstView::Ident(i) = v {
                *i = full(i);
            }
        }
    };
    let mut out = View::default();
    for (n, mut m) in v.messages {
        m.name = f(&m.name);
        m.full_name = full(&m.full_name);
        m.parent = m.parent.map(|p| full(&p));
        m.inner = m.inner.iter().map(|i| full(i)).collect();
        for x in m.fields.values_mut() {
            x.name = f(&x.name);
            opts(&mut x.opts);
            x.ty = ty(x.ty.clone());
            x.oneof = x.oneof.as_deref().map(f);
        }
        for o in &mut m.oneofs {
            o.name = f(&o.name);
            opts(&mut o.opts);
        }
        m.oneofs.sort_by(|a, b| a.name.cmp(&b.name));
        out.messages.insert(full(&n), m);
    }
    for (n, mut e) in v.enums {
        e.name = f(&e.name);
        e.full_name = full(&e.full_name);
        e.parent = e.parent.map(|p| full(&p));
        for x in e.values.values_mut() {
            x.0 = f(&x.0);
            opts(&mut x.1);
        }
        out.enums.insert(full(&n), e);
    }
    for (n, mut s) in v.services {
        s.name = f(&s.name);
        s.full_name = full(&s.full_name);
        opts(&mut s.opts);
        for r in &mut s.rpcs {
            r.name = f(&r.name);
            opts(&mut r.opts);
            r.input = full(&r.input);
            r.output = full(&r.output);
        }
        out.services.insert(full(&n), s);
    }
    out
}

/// The lists of a context in the order it gives them; names pass through `f`.
pub fn order(c: &Context, v: &View, f: &dyn Fn(&str) -> String) -> BTreeMap<String, Vec<String>> {
    let full = |n: &str| n.split('.').map(f).collect::<Vec<_>>().join(".");
    let mut out = BTreeMap::new();
    for n in v.messages.keys() {
        let m = match c.get_message(n) {
            Some(m) => m,
            None => continue,
        };
        let mut l = vec![];
        for o in &m.oneofs {
            l.push(format!("oneof {} {:?}", f(&o.name), o.fields));
        }
        for t in &m.inner_types {
            l.push(match t {
                TypeRef::Message(r) => format!("message {}", full(&c.resolve_message(*r).full_name)),
                TypeRef::Enum(r) => format!("enum {}", full(&c.resolve_enum(*r).full_name)),
            });
        }
        for x in m.iter_fields() {
            l.push(format!("field {} {}", x.number, f(&x.name)));
        }
        out.insert(full(n), l);
    }
    for n in v.services.keys() {
        if let Some(s) = c.get_service(n) {
            out.insert(full(n), s.rpcs.iter().map(|r| f(&r.name)).collect());
        }
    }
    out
}

/// The same value with the type numbers of the other side.
pub fn map_types(m: &mut RMsg, msgs: &[usize], enums: &[usize]) {
    m.ty = msgs[m.ty];
    for (_, v) in &mut m.fields {
        match v {
            RV::Msg(i) => map_types(i, msgs, enums),
            RV::Enum(e, _) => *e = enums[*e],
            _ => {}
        }
    }
}

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    // With aliases, which of the names a value has is open.
    let base = Cfg { aliases: false, nan: false, big: src.one_in(10), ..Cfg::default() };
    let cfg = varied(src, base);
    let fs = gen_or_huge(e, src, cfg, &[], case);
    let names = evolve::fresh_names(src, &fs);
    let to = |n: &str| names.get(n).cloned().unwrap_or_else(|| n.to_string());
    let other = evolve::rename(&fs, &mut |n| to(n));
    let a_text = render::plain(&fs);
    let b_text = if src.bool() { render::plain(&other) } else { render::mixed(&other, src) };
    case.describe(|| format!("{}\n==== renamed:\n{}", all_text(&a_text), all_text(&b_text)));
    let a = match parse(&a_text) {
        Ok(c) => c,
        Err(_) => {
            case.label("skipped: does not parse");
            return Ok(());
        }
    };
    let b = parse(&b_text).map_err(|e| format!("rejected once renamed: {}", e))?;
    case.sample(|| all_text(&b_text));
    classify(&fs, case);
    if names.len() >= 3 {
        case.nontrivial(text_digest(&b_text));
    }
    let (va, vb) = (view::expected(&fs), view::expected(&other));
    let seen_a = view::actual(&a, &va.names(), &va.enum_values());
    let seen_b = view::actual(&b, &vb.names(), &vb.enum_values());
    if let Some(d) = view::diff(&map_view(seen_a, &to), &seen_b) {
        return Err(format!("the renamed files declare something else: {}", d));
    }
    let (oa, ob) = (order(&a, &va, &to), order(&b, &vb, &|n| n.to_string()));
    for (n, l) in &oa {
        if ob.get(n) != Some(l) {
            return Err(format!(
                "{}: the renamed files list {:?} where {:?} is expected",
                n, ob.get(n).unwrap_or(&vec![]), l
            ));
        }
    }
    let (ta, tb) = (Types::of(&va), Types::of(&vb));
    let (ha, hb) = match (ta.handles(&a), tb.handles(&b)) {
        (Some(p), Some(q)) => (p, q),
        _ => return Err("a declared type is missing".to_string()),
    };
    if ta.msgs.is_empty() {
        return Ok(());
    }
    let full = |n: &str| n.split('.').map(to).collect::<Vec<_>>().join(".");
    let find = |n: &str| tb.msgs.iter().position(|m| m.name == full(n));
    let find_enum = |n: &str| tb.enums.iter().position(|m| m.0 == full(n));
    let msgs: Option<Vec<usize>> = ta.msgs.iter().map(|m| find(&m.name)).collect();
    let enums: Option<Vec<usize>> = ta.enums.iter().map(|m| find_enum(&m.0)).collect();
    let (msgs, enums) = match (msgs, enums) {
        (Some(m), Some(e)) => (m, e),
        _ => panic!("the renaming lost a type"),
    };
    for _ in 0..2 {
        let ty = src.below(ta.msgs.len());
        let data = match src.below(3) {
            0 => wire::hostile(src, &ta, ty),
            1 => {
                let mut budget = Budget::new(src);
                wire::loose(src, &ta, ty, 1, &mut budget)
            }
            _ => encode(&wire::gen_typed(src, &ta, ty)),
        };
        let x = a.decode(ha.msgs[ty], &data);
        let y = b.decode(hb.msgs[msgs[ty]], &data);
        let mut rx = from_sut(&ha, &x);
        map_types(&mut rx, &msgs, &enums);
        if let Some(d) = wire::diff(&rx, &from_sut(&hb, &y)) {
            return Err(format!("{} as {}: {}", hex(&data), ta.msgs[ty].name, d));
        }
        let (ex, ey) = (x.encode(&a), y.encode(&b));
        if ex != ey {
            return Err(format!("{} is encoded as {} and {}", hex(&data), hex(&ex), hex(&ey)));
        }
    }
    Ok(())
}
