//! Lookups find exactly what was declared, under exactly its name, number or value.

use super::common;
use super::graph::fail;
use super::hist;
use crate::engine::*;
use crate::render;
use crate::schema::*;
use crate::tape::Source;
use crate::view::{self, EnumView, FieldView, MsgView, Mult, OneofView, TyView, View};
use protofish::context as pc;
use protofish::context::{Context, TypeInfo, TypeParent};
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C33",
    run,
    enumerated: |_| common::HUGE,
    quick: 25_000,
    thorough: 400_000,
    threads: 8,
    rule: "Contexts built by insertion with families of nearly equal names (case, spaces, accents \
           composed and decomposed, look-alikes, control characters, prefixes and suffixes of each \
           other), field numbers of any 64 bits and enum values of any sign, contexts after random \
           insertion histories, and parsed ones. Each declared name, number and value, and hundreds \
           that are close to them, are looked up in every map. Enumerated: thousands of each kind of declaration. Non-trivial: three declared types and \
           a hundred lookups, of which some found something and others did not.",
};

const WORDS: [&str; 24] = [
    "Foo", "foo", "a", "A", "_", "x1", "stra\u{df}e", "STRASSE", "\u{e9}", "e\u{301}", "\u{130}",
    "\u{131}", "\u{fb01}", "\u{ff21}", "\u{391}", "\u{3c3}", "\u{3c2}", "\0", " ", "\u{200b}",
    "\u{1f980}", "\u{10ffff}", "0", "%s",
];

/// A name that is nearly the given one.
fn near(src: &mut Source, s: &str) -> String {
    let chars: Vec<char> = s.chars().collect();
    let n = chars.len();
    match src.below(22) {
        0 => s.to_lowercase(),
        1 => s.to_uppercase(),
        2 => format!("{}{}", s, src.pick(&[" ", "\t", "\n", "\r", "\0", "\u{a0}", "\u{feff}"])),
        3 => format!("{}{}", src.pick(&[" ", "\t", "\n", "\0", "\u{a0}", "\u{feff}", "_"]), s),
        4 => chars[..n.saturating_sub(1)].iter().collect(),
        5 => chars[n.min(1)..].iter().collect(),
        6 => format!("{}{}", s, s),
        7 => chars.iter().rev().collect(),
        8 => s.replace('\u{e9}', "e\u{301}"),
        9 => s.replace("e\u{301}", "\u{e9}"),
        10 => s.replace('o', "0"),
        11 => format!("{}_", s),
        12 => format!("{}\u{301}", s),
        13 => s.replace('_', ""),
        14 => s.replace('A', "\u{391}"),
        15 => format!("{}{}", s, src.pick(&WORDS)),
        16 => format!("{}{}", src.pick(&WORDS), s),
        17 => s.replace(' ', "_"),
        18 => format!("{}{}", s, "n".repeat(src.range(1, 300))),
        19 => s.replace("ss", "\u{df}"),
        20 => s.replace('\u{df}', "ss"),
        _ => {
            // Same length, one character off.
            let mut c = chars;
            if n > 0 {
                let i = src.below(n);
                c[i] = char::from_u32(c[i] as u32 ^ 1).unwrap_or('z');
            }
            c.into_iter().collect()
        }
    }
}

fn near_number(src: &mut Source, n: u64) -> u64 {
    match src.below(12) {
        0 => n.wrapping_add(1),
        1 => n.wrapping_sub(1),
        2 => n ^ (1 << src.below(64)),
        3 => n << 3,
        4 => n >> 3,
        5 => n as u32 as u64,
        6 => n as i32 as i64 as u64,
        7 => n.wrapping_neg(),
        8 => !n,
        9 => n & ((1 << 29) - 1),
        10 => n as u8 as u64,
        _ => n.wrapping_add(1 << 32),
    }
}

fn number(src: &mut Source) -> u64 {
    match src.weighted(&[40, 60]) {
        0 => src.below(6) as u64,
        _ => src.int(),
    }
}

/// A name without dots, so that full names have one reading, and not empty.
fn segment(src: &mut Source, pool: &mut Vec<String>) -> String {
    if !pool.is_empty() && src.chance(35) {
        return src.pick(pool).clone();
    }
    let mut s = match pool.is_empty() || src.chance(30) {
        true => src.pick(&WORDS).to_string(),
        false => {
            let s = src.pick(pool).clone();
            near(src, &s)
        }
    };
    s.retain(|c| c != '.');
    if s.is_empty() {
        s.push('n');
    }
    pool.push(s.clone());
    s
}

fn join(scope: &Option<String>, name: &str) -> String {
    match scope {
        Some(s) => format!("{}.{}", s, name),
        None => name.to_string(),
    }
}

/// A context made by insertions alone.
fn by_hand(src: &mut Source) -> Result<(Context, View, Vec<String>), String> {
    let mut ctx = Context::new();
    let mut view = View::default();
    let mut pool: Vec<String> = vec![];
    let mut packages: Vec<(pc::PackageRef, Option<String>)> = vec![];
    let n = src.range(1, 4);
    for _ in 0..n {
        let name = match src.one_in(4) {
            true => None,
            false => {
                let k = src.range(1, 3);
                let parts: Vec<String> = (0..k).map(|_| segment(src, &mut pool)).collect();
                Some(parts.join("."))
            }
        };
        if packages.iter().any(|(_, p)| *p == name) {
            continue;
        }
        match ctx.insert_package(pc::Package::new(name.clone())) {
            Ok(r) => packages.push((r, name)),
            Err(r) => fail!("inserting the new package {:?} gives Err({:?})", name, r),
        }
    }
    let mut messages: Vec<(String, pc::MessageRef)> = vec![];
    let n = src.range(2, 9);
    for _ in 0..n {
        let (parent, scope, enclosing) = match messages.is_empty() || src.bool() {
            true => {
                let (r, n) = src.pick(&packages).clone();
                (TypeParent::Package(r), n, None)
            }
            false => {
                let (n, r) = src.pick(&messages).clone();
                (TypeParent::Message(r), Some(n.clone()), Some(n))
            }
        };
        let name = segment(src, &mut pool);
        let full = join(&scope, &name);
        if view.messages.contains_key(&full) || view.enums.contains_key(&full) {
            continue;
        }
        let k = src.below(7);
        if src.chance(65) {
            let mut info = pc::MessageInfo::new(name.clone(), parent);
            let mut fields: BTreeMap<u64, FieldView> = BTreeMap::new();
            let mut oneofs: Vec<OneofView> = vec![];
            for _ in 0..k {
                let name = segment(src, &mut pool);
                if src.one_in(6) {
                    if oneofs.iter().any(|o| o.name == name) {
                        continue;
                    }
                    let free: Vec<u64> = fields
                        .values()
                        .filter(|f| f.oneof.is_none())
                        .map(|f| f.number)
                        .take(2)
                        .collect();
                    let mut o = pc::Oneof::new(name.clone());
                    o.fields = free.clone();
                    match info.add_oneof(o) {
                        Ok(r) if info.get_oneof(r).map(|o| &o.name) == Some(&name) => {}
                        r => fail!("add_oneof of the new name {:?} in {:?}: {:?}", name, full, r),
                    }
                    for n in &free {
                        fields.get_mut(n).unwrap().oneof = Some(name.clone());
                    }
                    oneofs.push(OneofView { name, fields: free, opts: vec![] });
                    continue;
                }
                let all: Vec<u64> = fields.keys().cloned().collect();
                let number = match !all.is_empty() && src.chance(40) {
                    true => {
                        let n = *src.pick(&all);
                        near_number(src, n)
                    }
                    false => number(src),
                };
                if fields.contains_key(&number) || fields.values().any(|f| f.name == name) {
                    continue;
                }
                let f = pc::MessageField::new(name.clone(), number, pc::ValueType::Int32);
                if let Err(e) = info.add_field(f) {
                    fail!("adding the new field {:?} = {} to {:?}: {:?}", name, number, full, e);
                }
                let v = FieldView {
                    name,
                    number,
                    ty: TyView::Scalar(Scalar::Int32),
                    mult: Mult::Single,
                    opts: vec![],
                    oneof: None,
                };
                fields.insert(number, v);
            }
            match ctx.insert_message(info) {
                Ok(r) => messages.push((full.clone(), r)),
                Err(e) => fail!("inserting the new message {:?}: {:?}", full, e),
            }
            let inner = BTreeSet::new();
            let parent = enclosing;
            view.messages.insert(
                full.clone(),
                MsgView { name, full_name: full, parent, fields, oneofs, inner },
            );
        } else {
            let mut info = pc::EnumInfo::new(name.clone(), parent);
            let mut values: BTreeMap<i64, (String, Vec<view::OptView>)> = BTreeMap::new();
            for _ in 0..k {
                let name = segment(src, &mut pool);
                let all: Vec<i64> = values.keys().cloned().collect();
                let value = match !all.is_empty() && src.chance(40) {
                    true => {
                        let n = *src.pick(&all) as u64;
                        near_number(src, n)
                    }
                    false => number(src),
                } as i64;
                if values.contains_key(&value) || values.values().any(|(n, _)| *n == name) {
                    continue;
                }
                if let Err(e) = info.add_field(pc::EnumField::new(name.clone(), value)) {
                    fail!("adding the new value {:?} = {} to {:?}: {:?}", name, value, full, e);
                }
                values.insert(value, (name, vec![]));
            }
            if let Err(e) = ctx.insert_enum(info) {
                fail!("inserting the new enum {:?}: {:?}", full, e);
            }
            let parent = enclosing;
            view.enums.insert(full.clone(), EnumView { name, full_name: full, parent, values });
        }
    }
    for (_, p) in packages {
        pool.extend(p);
    }
    Ok((ctx, view, pool))
}

struct Tally {
    found: u64,
    missed: u64,
}

impl Tally {
    fn add(&mut self, found: bool) {
        match found {
            true => self.found += 1,
            false => self.missed += 1,
        }
    }
}

fn check(src: &mut Source, ctx: &Context, view: &View, words: &[String]) -> Result<Tally, String> {
    let mut tally = Tally { found: 0, missed: 0 };
    // Names of everything, to be looked up everywhere.
    let declared: Vec<String> = view.names();
    let mut members: BTreeSet<String> = words.iter().cloned().collect();
    for m in view.messages.values() {
        members.insert(m.name.clone());
        members.extend(m.fields.values().take(8).map(|f| f.name.clone()));
        members.extend(m.oneofs.iter().take(3).map(|o| o.name.clone()));
    }
    for e in view.enums.values() {
        members.insert(e.name.clone());
        members.extend(e.values.values().take(6).map(|(n, _)| n.clone()));
    }
    for s in view.services.values() {
        members.insert(s.name.clone());
        members.extend(s.rpcs.iter().take(4).map(|r| r.name.clone()));
    }
    let mut members: Vec<String> = members.into_iter().collect();
    if members.len() > 40 {
        src.shuffle(&mut members);
        members.truncate(40);
    }
    let mut names: BTreeSet<String> = declared.iter().cloned().collect();
    for _ in 0..40 {
        if declared.is_empty() {
            break;
        }
        let n = src.pick(&declared).clone();
        names.insert(match src.below(9) {
            0 => format!(".{}", n),
            1 => format!("{}.", n),
            2 => n.replacen('.', "", 1),
            3 => n.replacen('.', *src.pick(&["..", "/", "::", "_", " .", ". "]), 1),
            4 => n.split_once('.').map(|p| p.1.to_string()).unwrap_or_default(),
            5 => n.rsplit_once('.').map(|p| p.0.to_string()).unwrap_or_default(),
            6 if !members.is_empty() => format!("{}.{}", n, src.pick(&members)),
            7 if !members.is_empty() => format!("{}.{}", src.pick(&members), n),
            _ => near(src, &n),
        });
    }
    names.extend(members.iter().cloned());
    names.insert(String::new());
    for n in &names {
        let (m, e, s) = (view.messages.get(n), view.enums.get(n), view.services.get(n));
        tally.add(m.is_some() || e.is_some() || s.is_some());
        let ty = ctx.get_type(n);
        let good = match (ty, m, e) {
            (None, None, None) => true,
            (Some(TypeInfo::Message(i)), Some(v), _) => {
                i.name == v.name && i.full_name == *n && std::ptr::eq(ctx.resolve_message(i.self_ref), i)
            }
            (Some(TypeInfo::Enum(i)), None, Some(v)) => {
                i.name == v.name && i.full_name == *n && std::ptr::eq(ctx.resolve_enum(i.self_ref), i)
            }
            _ => false,
        };
        if !good {
            fail!(
                "get_type({:?}) is {:?}; declared: message {}, enum {}",
                n,
                ty.map(|t| (t.name(), t.full_name())),
                m.is_some(),
                e.is_some()
            );
        }
        let found = ctx.get_message(n);
        let same = match (found, ty) {
            (Some(a), Some(TypeInfo::Message(b))) => std::ptr::eq(a, b),
            (None, None) | (None, Some(TypeInfo::Enum(_))) => true,
            _ => false,
        };
        if !same {
            fail!("get_message({:?}) is {:?}", n, found.map(|m| &m.full_name));
        }
        let found = ctx.get_service(n);
        if found.map(|f| (&f.name, &f.full_name)) != s.map(|s| (&s.name, n)) {
            fail!("get_service({:?}) is {:?}", n, found.map(|m| &m.full_name));
        }
    }
    // References to oneofs of other messages.
    let mut foreign: Vec<pc::OneofRef> = vec![];
    for o in view.messages.keys().filter_map(|n| ctx.get_message(n)).flat_map(|m| &m.oneofs) {
        if foreign.len() < 40 && !foreign.contains(&o.self_ref) {
            foreign.push(o.self_ref);
        }
    }
    for (full, v) in &view.messages {
        let info = match ctx.get_message(full) {
            Some(i) => i,
            None => fail!("the message {:?} is not found", full),
        };
        let listed: Vec<(u64, &str)> =
            info.iter_fields().map(|f| (f.number, f.name.as_str())).collect();
        let expected: Vec<(u64, &str)> =
            v.fields.values().map(|f| (f.number, f.name.as_str())).collect();
        if listed != expected {
            fail!("{:?} iterates the fields {:?}, expected {:?}", full, listed, expected);
        }
        let mut numbers: BTreeSet<u64> = [0, 1, u64::MAX].into();
        for n in v.fields.keys().take(30) {
            numbers.insert(*n);
            for _ in 0..3 {
                numbers.insert(near_number(src, *n));
            }
        }
        for n in numbers {
            let (got, want) = (info.get_field(n), v.fields.get(&n));
            tally.add(want.is_some());
            if got.map(|f| (f.number, &f.name)) != want.map(|f| (f.number, &f.name)) {
                fail!("{:?}: get_field({}) is {:?}, declared: {:?}", full, n, got, want);
            }
        }
        let mut names: BTreeSet<String> = members.iter().cloned().collect();
        for f in v.fields.values().take(10) {
            names.insert(f.name.clone());
            names.insert(near(src, &f.name));
            names.insert(format!("{}.{}", full, f.name));
        }
        for n in names {
            let (got, want) = (info.get_field_by_name(&n), v.fields.values().find(|f| f.name == n));
            tally.add(want.is_some());
            let same = match (got, want) {
                (Some(g), Some(w)) => {
                    info.get_field(w.number).map(|f| std::ptr::eq(f, g)).unwrap_or(false)
                }
                (None, None) => true,
                _ => false,
            };
            if !same {
                fail!("{:?}: get_field_by_name({:?}) is {:?}, declared: {:?}", full, n, got, want);
            }
        }
        for (i, o) in info.oneofs.iter().enumerate() {
            if info.oneofs[..i].iter().any(|p| p.self_ref == o.self_ref) {
                fail!("{:?}: two oneofs have the same reference", full);
            }
        }
        for r in &foreign {
            let want = info.oneofs.iter().find(|o| o.self_ref == *r);
            let got = info.get_oneof(*r);
            tally.add(want.is_some());
            if got.map(|o| o as *const _) != want.map(|o| o as *const _) {
                fail!("{:?}: get_oneof({:?}) is {:?}, not {:?}", full, r, got, want);
            }
        }
        for f in info.iter_fields() {
            let got = f.oneof.and_then(|o| info.get_oneof(o)).map(|o| &o.name);
            let want = v.fields.get(&f.number).and_then(|f| f.oneof.as_ref());
            if got != want {
                fail!("{:?}: get_oneof of the field {:?}: {:?}, not {:?}", full, f.name, got, want);
            }
            let o = match f.oneof.and_then(|o| info.get_oneof(o)) {
                Some(o) => o,
                None => continue,
            };
            if !o.fields.contains(&f.number) {
                fail!("{:?}: the oneof {:?} does not list its field {:?}", full, o.name, f.name);
            }
        }
    }
    for (full, v) in &view.enums {
        let info = match ctx.get_type(full) {
            Some(TypeInfo::Enum(i)) => i,
            _ => fail!("the enum {:?} is not found", full),
        };
        let mut values: BTreeSet<i64> = [0, 1, -1, i64::MIN, i64::MAX].into();
        for n in v.values.keys().take(30) {
            values.insert(*n);
            for _ in 0..4 {
                values.insert(near_number(src, *n as u64) as i64);
            }
        }
        for n in values {
            let (got, want) = (info.get_field_by_value(n), v.values.get(&n));
            tally.add(want.is_some());
            if got.map(|f| (f.value, &f.name)) != want.map(|(name, _)| (n, name)) {
                fail!("{:?}: get_field_by_value({}) is {:?}, declared: {:?}", full, n, got, want);
            }
        }
    }
    for (full, v) in &view.services {
        let info = match ctx.get_service(full) {
            Some(i) => i,
            None => fail!("the service {:?} is not found", full),
        };
        let mut names: BTreeSet<String> = members.iter().cloned().collect();
        for r in v.rpcs.iter().take(10) {
            names.insert(r.name.clone());
            names.insert(near(src, &r.name));
            names.insert(format!("{}.{}", full, r.name));
        }
        for n in names {
            let (got, want) = (info.rpc_by_name(&n), v.rpcs.iter().find(|r| r.name == n));
            tally.add(want.is_some());
            if got.map(|r| &r.name) != want.map(|r| &r.name) {
                fail!("{:?}: rpc_by_name({:?}) is {:?}, declared: {:?}", full, n, got, want);
            }
        }
    }
    Ok(tally)
}

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    let (ctx, view, words) = match if e > 0 { 2 } else { src.weighted(&[50, 25, 25]) } {
        0 => {
            case.label("built by hand");
            by_hand(src)?
        }
        1 => {
            case.label("after a history");
            let mut h = match hist::start(src, case) {
                Some(h) => h,
                None => {
                    case.label("skipped: no context");
                    return Ok(());
                }
            };
            let n = src.range(2, 16);
            for _ in 0..n {
                h.step(src, case, false)?;
                if src.one_in(6) {
                    // Names that are looked up in vain now may exist later.
                    check(src, &h.a, &h.view, &[])?;
                }
            }
            case.describe(|| h.log.join("\n"));
            (h.a, h.view, vec![])
        }
        _ => {
            case.label("parsed");
            let cfg = Cfg { aliases: false, ..Cfg::default() };
            let mut cfg = common::varied(src, cfg);
            cfg.aliases = false;
            let fs = common::gen_or_huge(e, src, cfg, &[], case);
            let text = render::plain(&fs);
            case.describe(|| common::all_text(&text));
            match common::parse(&text) {
                Ok(c) => (c, view::expected(&fs), vec![]),
                Err(_) => {
                    case.label("skipped: no context");
                    return Ok(());
                }
            }
        }
    };
    case.describe(|| format!("{:#?}", view));
    let tally = check(src, &ctx, &view, &words)?;
    case.count("lookups that find something", tally.found);
    case.count("lookups that find nothing", tally.missed);
    let names = view.names();
    case.sample(|| {
        format!("{:?}: {} lookups found, {} did not", names, tally.found, tally.missed)
    });
    if names.len() >= 3 && tally.found > 0 && tally.missed > 0 && tally.found + tally.missed >= 100 {
        case.nontrivial(digest(format!("{:?}", view).as_bytes()));
    }
    Ok(())
}
