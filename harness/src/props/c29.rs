//! Unrelated declarations do not influence each other.

use super::c27::{map_types, order};
use super::common::*;
use crate::engine::*;
use crate::evolve::{self, *};
use crate::render;
use crate::schema::*;
use crate::tape::Source;
use crate::view::{self, TyView, View};
use crate::wire::{self, *};
use protofish::context::Context;

pub const PROP: Prop = Prop {
    id: "C29",
    run,
    enumerated: |_| HUGE,
    quick: 15_000,
    thorough: 400_000,
    threads: 8,
    rule: "Two random sets of files, or one and a copy of itself, of which the second is moved as a \
           whole into a package or a message with a new name; then both together, files and \
           declarations interleaved, against each on its own: the same items with the same members, \
           references, options and orders, the same results of decoding and encoding, and an error \
           if one has an error. Enumerated: thousands of each kind of declaration. Non-trivial: both declare something.",
};

/// The whole set within a package.
fn into_package(fs: &FileSet, prefix: &[String]) -> FileSet {
    let mut out = moved(fs, prefix);
    for f in &mut out.files {
        let mut p = prefix.to_vec();
        p.extend(f.package.take().unwrap_or_default());
        f.package = Some(p);
    }
    out
}

/// The same references with everything below `prefix`.
fn moved(fs: &FileSet, prefix: &[String]) -> FileSet {
    let mut out = fs.clone();
    let reference = |r: &mut Ref| {
        r.target = join(prefix, &r.target);
        if r.absolute {
            r.parts.splice(0..0, prefix.iter().cloned());
        }
    };
    all_fields_mut(&mut out, &mut |f| {
        if let Ty::Ref(r) = &mut f.ty {
            reference(r);
        }
    });
    services_mut(&mut out, &mut |s| {
        for r in &mut s.rpcs {
            reference(&mut r.input);
            reference(&mut r.output);
        }
    });
    out
}

/// What the view of a set says once it is moved below `prefix`; `message` if that is one.
fn below(v: View, prefix: &[String], message: bool) -> View {
    let full = |n: &str| join(prefix, n);
    let parent = |p: Option<String>| match p {
        Some(p) => Some(full(&p)),
        None if message => Some(prefix.join(".")),
        None => None,
    };
    let ty = |t: TyView| match t {
        TyView::Message(n) => TyView::Message(full(&n)),
        TyView::Enum(n) => TyView::Enum(full(&n)),
        o => o,
    };
    let mut out = View::default();
    for (n, mut m) in v.messages {
        m.full_name = full(&m.full_name);
        m.parent = parent(m.parent);
        m.inner = m.inner.iter().map(|i| full(i)).collect();
        for x in m.fields.values_mut() {
            x.ty = ty(x.ty.clone());
        }
        out.messages.insert(full(&n), m);
    }
    for (n, mut e) in v.enums {
        e.full_name = full(&e.full_name);
        e.parent = parent(e.parent);
        out.enums.insert(full(&n), e);
    }
    for (n, mut s) in v.services {
        s.full_name = full(&s.full_name);
        for r in &mut s.rpcs {
            r.input = full(&r.input);
            r.output = full(&r.output);
        }
        out.services.insert(full(&n), s);
    }
    out
}

fn seen(c: &Context, v: &View) -> View {
    view::actual(c, &v.names(), &v.enum_values())
}

/// One of the two sets within the whole.
struct Part<'a> {
    what: &'a str,
    ctx: &'a Context,
    view: View,
    prefix: Vec<String>,
    message: bool,
}

impl Part<'_> {
    fn check(&self, whole: &Context, src: &mut Source, case: &mut Case) -> Check {
        let on_its_own = seen(self.ctx, &self.view);
        // The names to ask the whole for are the declared ones.
        let declared = below(self.view.clone(), &self.prefix, self.message);
        let together = seen(whole, &declared);
        if let Some(d) = view::diff(&below(on_its_own, &self.prefix, self.message), &together) {
            return Err(format!("{} set is something else in company: {}", self.what, d));
        }
        let full = |n: &str| join(&self.prefix, n);
        let a = order(self.ctx, &self.view, &|n| n.to_string());
        let b = order(whole, &declared, &|n| n.to_string());
        for (n, l) in &a {
            let strip = |s: &String| match s.split_once(' ') {
                Some((k @ ("message" | "enum"), name)) => format!("{} {}", k, full(name)),
                _ => s.clone(),
            };
            let want: Vec<String> = l.iter().map(strip).collect();
            if b.get(&full(n)) != Some(&want) {
                return Err(format!(
                    "{} set, {}: lists {:?} in company where {:?} is expected",
                    self.what, n, b.get(&full(n)).unwrap_or(&vec![]), want
                ));
            }
        }
        let (ta, tb) = (Types::of(&self.view), Types::of(&declared));
        let (ha, hb) = match (ta.handles(self.ctx), tb.handles(whole)) {
            (Some(p), Some(q)) => (p, q),
            _ => return Err("a declared type is missing".to_string()),
        };
        if ta.msgs.is_empty() {
            return Ok(());
        }
        let msgs: Option<Vec<usize>> =
            ta.msgs.iter().map(|m| tb.msgs.iter().position(|o| o.name == full(&m.name))).collect();
        let enums: Option<Vec<usize>> =
            ta.enums.iter().map(|m| tb.enums.iter().position(|o| o.0 == full(&m.0))).collect();
        let (msgs, enums) = match (msgs, enums) {
            (Some(m), Some(e)) => (m, e),
            _ => panic!("moving lost a type"),
        };
        for _ in 0..2 {
            let ty = src.below(ta.msgs.len());
            let data = match src.below(3) {
                0 => wire::hostile(src, &ta, ty),
                1 => {
                    let mut budget = Budget::new(src);
                    wire::loose(src, &ta, ty, 1, &mut budget)
                }
                _ => encode(&wire::gen_typed(src, &ta, ty)),
            };
            let x = self.ctx.decode(ha.msgs[ty], &data);
            let y = whole.decode(hb.msgs[msgs[ty]], &data);
            let mut rx = from_sut(&ha, &x);
            map_types(&mut rx, &msgs, &enums);
            if let Some(d) = wire::diff(&rx, &from_sut(&hb, &y)) {
                return Err(format!("{} as {} in company: {}", hex(&data), ta.msgs[ty].name, d));
            }
            let (ex, ey) = (x.encode(self.ctx), y.encode(whole));
            if ex != ey {
                return Err(format!("{} is encoded as {} and {}", hex(&data), hex(&ex), hex(&ey)));
            }
            case.count("payloads", 1);
        }
        Ok(())
    }
}

/// A set with a reference to nothing, or only to what the other set has under `prefix`es that
/// nothing in this set is in.
fn spoil(src: &mut Source, fs: &FileSet, other: &FileSet, prefix: &[String]) -> Option<FileSet> {
    let mut out = fs.clone();
    let mut n = 0;
    all_fields_mut(&mut out, &mut |f| n += matches!(f.ty, Ty::Ref(_)) as usize);
    if n == 0 {
        return None;
    }
    let mut parts = vec!["Nowhere__".to_string()];
    let theirs = Symbols::of(other).map;
    let names: Vec<&String> = theirs.keys().collect();
    if !names.is_empty() && !src.one_in(3) {
        let full: Vec<String> = src.pick(&names).split('.').map(|s| s.to_string()).collect();
        let tail = full[src.below(full.len())..].to_vec();
        // Nothing of the kind around the set, nor the start of it.
        let near = (0..=prefix.len()).any(|k| {
            let first = join(&prefix[..k], &tail[0]);
            names.iter().any(|n| **n == first || n.starts_with(&format!("{}.", first)))
        });
        if !near {
            parts = tail;
        }
    }
    let mut at = src.below(n);
    all_fields_mut(&mut out, &mut |f| {
        if let Ty::Ref(r) = &mut f.ty {
            if at == 0 {
                r.parts = parts.clone();
            }
            at = at.wrapping_sub(1);
        }
    });
    Some(out)
}

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    // With aliases, which of the names a value has is open.
    let base = Cfg { aliases: false, nan: false, big: src.one_in(20), ..Cfg::default() };
    let cfg = varied(src, base.clone());
    let a = gen_or_huge(e, src, cfg, &[10, 11, 12, 15], case);
    let message = src.chance(35);
    let copy = src.chance(35);
    let mut b = if copy {
        a.clone()
    } else {
        let cfg = varied(src, base);
        gen(src, Cfg { max_package_parts: if message { 0 } else { cfg.max_package_parts }, services: !message, ..cfg })
    };
    let plain = |f: &FileDecl| f.package.is_none() && !f.items.iter().any(|i| matches!(i, Item::Service(_)));
    let message = message && b.files.iter().all(plain);

    // Where to.
    let taken = evolve::names(&a).union(&evolve::names(&b)).cloned().collect();
    let like = match evolve::names(&a).into_iter().collect::<Vec<_>>() {
        l if l.is_empty() || src.one_in(3) => "Whole".to_string(),
        l => src.pick(&l).clone(),
    };
    let name = evolve::fresh(src, &taken, &like);
    let host = src.below(a.files.len());
    let mut prefix = if message || src.bool() { a.files[host].package_path() } else { vec![] };
    prefix.push(name.clone());
    if src.one_in(3) && !message {
        prefix.push(src.pick(&["A", "x", "inner"]).to_string());
    }

    let spoiled = if src.one_in(12) { spoil(src, &b, &a, &prefix) } else { None };
    if let Some(s) = &spoiled {
        b = s.clone();
    }

    let mut whole = a.clone();
    if message {
        let mut members = vec![];
        for f in moved(&b, &prefix).files {
            for i in f.items {
                members.push(match i {
                    Item::Message(m) => Member::Message(m),
                    Item::Enum(e) => Member::Enum(e),
                    Item::Service(_) => panic!("no services here"),
                });
            }
        }
        let at = src.below(whole.files[host].items.len() + 1);
        whole.files[host].items.insert(at, Item::Message(Msg { name, members }));
    } else {
        for f in into_package(&b, &prefix).files {
            let at = src.below(whole.files.len() + 1);
            whole.files.insert(at, f);
        }
        // Rather than a file of its own.
        if src.bool() {
            src.shuffle(&mut whole.files);
        }
    }
    let (at, bt) = (render::plain(&a), render::plain(&b));
    let wt = if src.chance(70) { render::plain(&whole) } else { render::mixed(&whole, src) };
    case.describe(|| format!("{}\n==== and:\n{}\n==== together:\n{}", all_text(&at), all_text(&bt), all_text(&wt)));
    case.sample(|| all_text(&wt));
    case.label(if message { "in a message" } else { "in a package" });
    case.label_if(copy, "a copy");
    let ca = match parse(&at) {
        Ok(c) => c,
        Err(_) => {
            case.label("skipped: does not parse");
            return Ok(());
        }
    };
    let cb = match parse(&bt) {
        Ok(c) => c,
        Err(_) if spoiled.is_some() => {
            case.label("broken");
            case.nontrivial(text_digest(&wt));
            return match parse(&wt) {
                Ok(_) => Err("a broken set of files is accepted in company".to_string()),
                Err(_) => Ok(()),
            };
        }
        Err(_) => {
            case.label("skipped: does not parse");
            return Ok(());
        }
    };
    if spoiled.is_some() {
        case.label("skipped: broken, but parses");
        return Ok(());
    }
    let w = parse(&wt).map_err(|e| format!("rejected together: {}", e))?;
    case.nontrivial(text_digest(&wt));
    let va = view::expected(&a);
    let vb = view::expected(&b);
    Part { what: "the first", ctx: &ca, view: va, prefix: vec![], message: false }.check(&w, src, case)?;
    Part { what: "the second", ctx: &cb, view: vb, prefix, message }.check(&w, src, case)
}
