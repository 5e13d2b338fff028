//! Random insertion histories with a model.
//!
//! Two contexts go in lock-step: `a` sees every operation, `b` only the ones that succeeded. They
//! must always be equal, so a failed operation cannot have left a trace.

use super::common;
use super::graph::{self, fail, Graph, Node};
use crate::engine::*;
use crate::render;
use crate::schema::*;
use crate::tape::Source;
use crate::wire;
use crate::view::{self, opts_view, EnumView, FieldView, MsgView, Mult, OneofView, TyView, View};
use crate::world::{multiplicity, proto_options, scalar_type};
use protofish::context as pc;
use protofish::context::{Context, TypeParent, TypeRef};
use std::collections::{BTreeMap, BTreeSet};

pub struct Hist {
    pub a: Context,
    pub b: Context,
    pub view: View,
    pub graph: Graph,
    pub refs: BTreeMap<String, TypeRef>,
    /// Reference, name and whether it is the only package of that name.
    pub packages: Vec<(pc::PackageRef, Option<String>)>,
    /// Names of packages that exist, with a known reference or not.
    pub package_names: BTreeSet<Option<String>>,
    /// Packages made by parsing, of which there can be several of one name.
    parsed_names: BTreeSet<Option<String>>,
    pub log: Vec<String>,
    pub failed: usize,
    pub inserted: usize,
    /// Payloads and what they decoded to and encoded as when they were made.
    samples: Vec<Sample>,
}

struct Sample {
    of: pc::MessageRef,
    data: Vec<u8>,
    value: String,
    encoded: Vec<u8>,
}

const NAMES: [&str; 7] = ["A", "B", "C", "a", "b", "Foo", "bar"];
const PACKAGES: [&str; 9] = ["a", "b", "a.b", "a.b.A", "A", "A.B", "x.y.z", "Foo", "a.A"];
/// Not what a file can declare.
const ODD_PACKAGES: [&str; 9] = ["", " ", "a.", ".a", " a", "a ", "FOO", "a\0", "None"];

pub fn start(src: &mut Source, case: &mut Case) -> Option<Hist> {
    let mut h = Hist {
        a: Context::new(),
        b: Context::new(),
        view: View::default(),
        graph: Graph::default(),
        refs: BTreeMap::new(),
        packages: vec![],
        package_names: BTreeSet::new(),
        parsed_names: BTreeSet::new(),
        log: vec![],
        failed: 0,
        inserted: 0,
        samples: vec![],
    };
    if src.chance(60) {
        return Some(h);
    }
    case.label("on top of parsed files");
    let cfg = Cfg {
        max_files: 3,
        max_items: 3,
        max_members: 4,
        shadow: 70,
        aliases: false,
        nan: false,
        big: false,
        weird_names: 0,
        ..Cfg::default()
    };
    let fs = gen(src, cfg);
    let text = render::plain(&fs);
    case.describe(|| format!("parsed first:\n{}", common::all_text(&text)));
    h.log.push(format!("parsed:\n{}", common::all_text(&text)));
    h.a = common::parse(&text).ok()?;
    h.b = common::parse(&text).ok()?;
    if h.a != h.b {
        return None;
    }
    h.view = view::expected(&fs);
    h.graph = super::c18::graph_of(&fs);
    if view::diff(&h.view, &view::actual(&h.a, &h.view.names(), &h.view.enum_values())).is_some() {
        return None;
    }
    for f in &fs.files {
        let name = f.package.as_ref().map(|p| p.join("."));
        h.package_names.insert(name.clone());
        h.parsed_names.insert(name);
    }
    for (full, node) in &h.graph.types {
        let t = h.a.get_type(full)?;
        h.refs.insert(full.clone(), graph::type_ref(t));
        if let (None, TypeParent::Package(p)) = (&node.parent, t.parent()) {
            if !h.packages.iter().any(|(q, _)| *q == p) {
                h.packages.push((p, node.package.clone()));
            }
        }
    }
    for (full, (package, _)) in &h.graph.services {
        let p = h.a.get_service(full)?.parent;
        if !h.packages.iter().any(|(q, _)| *q == p) {
            h.packages.push((p, package.clone()));
        }
    }
    Some(h)
}

fn options(src: &mut Source) -> Vec<Opt> {
    if !src.one_in(6) {
        return vec![];
    }
    let n = src.range(1, 2);
    (0..n)
        .map(|i| {
            let v = match src.below(3) {
                0 => Const::Bool(src.bool()),
                1 => Const::Int(src.int() as i64),
                _ => Const::Str(src.bytes(3)),
            };
            simple_opt(if i == 0 { "deprecated" } else { "other" }, v)
        })
        .collect()
}

struct FieldSpec {
    name: String,
    number: u64,
    ty: (TyView, pc::ValueType),
    mult: Mult,
    opts: Vec<Opt>,
    oneof: Option<pc::OneofRef>,
}

impl FieldSpec {
    fn make(&self) -> pc::MessageField {
        let mut f = pc::MessageField::new(self.name.clone(), self.number, self.ty.1.clone());
        // What a new field has by default is left as it is.
        if self.mult != Mult::Single {
            f.multiplicity = multiplicity(self.mult);
        }
        if !self.opts.is_empty() {
            f.options = proto_options(&self.opts);
        }
        if self.oneof.is_some() {
            f.oneof = self.oneof;
        }
        f
    }
}

/// Oneof references that exceed those of any message in these histories.
fn foreign_oneof() -> pc::OneofRef {
    let mut ctx = Context::new();
    let p = ctx.insert_package(pc::Package::new(None)).unwrap();
    let mut m = pc::MessageInfo::new("Foreign".to_string(), TypeParent::Package(p));
    let mut r = m.add_oneof(pc::Oneof::new("first".to_string())).unwrap();
    for i in 0..40 {
        r = m.add_oneof(pc::Oneof::new(format!("o{}", i))).unwrap();
    }
    r
}

fn number(src: &mut Source) -> u64 {
    match src.weighted(&[80, 10, 10]) {
        0 => src.range(1, 9) as u64,
        1 => *src.pick(&[(1 << 29) - 1, 1 << 32, (1 << 32) + 1, u64::MAX, 1 << 63, 19000]),
        _ => src.int().max(1),
    }
}

impl Hist {
    fn other_parent(&self, parent: TypeParent) -> TypeParent {
        let all = self.packages.iter().map(|(p, _)| TypeParent::Package(*p));
        all.into_iter().find(|p| *p != parent).unwrap_or(parent)
    }

    fn field_type(&self, src: &mut Source) -> (TyView, pc::ValueType) {
        if !self.refs.is_empty() && src.chance(40) {
            let all: Vec<(&String, &TypeRef)> = self.refs.iter().collect();
            let (n, r) = *src.pick(&all);
            return match r {
                TypeRef::Message(m) => (TyView::Message(n.clone()), pc::ValueType::Message(*m)),
                TypeRef::Enum(e) => (TyView::Enum(n.clone()), pc::ValueType::Enum(*e)),
            };
        }
        let s = *src.pick(&SCALARS);
        (TyView::Scalar(s), scalar_type(s))
    }

    /// Fills a message twice, once with everything and once with what succeeded.
    fn message(
        &mut self,
        src: &mut Source,
        view: &mut MsgView,
        parent: TypeParent,
        judge: bool,
    ) -> Result<(pc::MessageInfo, pc::MessageInfo), String> {
        let mut a = match src.one_in(6) {
            false => pc::MessageInfo::new(view.name.clone(), parent),
            true => {
                // Renamed and moved before it is inserted.
                let mut a = pc::MessageInfo::new("Before".to_string(), self.other_parent(parent));
                a.name = view.name.clone();
                a.parent = parent;
                a
            }
        };
        let mut b = pc::MessageInfo::new(view.name.clone(), parent);
        let mut oneofs: Vec<(pc::OneofRef, String)> = vec![];
        let n = src.below(12);
        for _ in 0..n {
            if src.chance(70) {
                let oneof = match src.weighted(&[60, if oneofs.is_empty() { 0 } else { 35 }, 5]) {
                    0 => None,
                    1 => Some(src.pick(&oneofs).0),
                    _ => Some(foreign_oneof()),
                };
                let spec = FieldSpec {
                    name: format!("f{}", src.below(9)),
                    number: number(src),
                    ty: self.field_type(src),
                    mult: *src.pick(&[Mult::Single, Mult::Optional, Mult::Repeated, Mult::Packed]),
                    opts: options(src),
                    oneof,
                };
                let mut expected: Vec<String> = vec![];
                if view.fields.contains_key(&spec.number) {
                    expected.push("NumberConflict".to_string());
                }
                if view.fields.values().any(|f| f.name == spec.name) {
                    expected.push("NameConflict".to_string());
                }
                let in_oneof = match spec.oneof {
                    None => None,
                    Some(r) => match oneofs.iter().find(|(o, _)| *o == r) {
                        Some((_, n)) => Some(n.clone()),
                        None => {
                            expected.push("MissingOneof".to_string());
                            None
                        }
                    },
                };
                let got = a.add_field(spec.make()).map_err(member_error);
                let what = format!(
                    "add_field({}, {}, {:?}, oneof {:?})",
                    spec.name, spec.number, spec.ty.0, spec.oneof
                );
                self.log.push(format!("  {} -> {:?}", what, got));
                if judge {
                    outcome(&what, &got, &expected)?;
                }
                match got {
                    Ok(()) => {
                        if let Err(e) = b.add_field(spec.make()) {
                            fail!("{} gave Ok and, without the failed calls before it, {:?}", what, e);
                        }
                        if let Some(n) = &in_oneof {
                            let o = view.oneofs.iter_mut().find(|o| o.name == *n).unwrap();
                            o.fields.push(spec.number);
                            o.fields.sort();
                        }
                        view.fields.insert(
                            spec.number,
                            FieldView {
                                name: spec.name.clone(),
                                number: spec.number,
                                ty: spec.ty.0.clone(),
                                mult: spec.mult,
                                opts: opts_view(&spec.opts),
                                oneof: in_oneof,
                            },
                        );
                    }
                    Err(_) => self.failed += 1,
                }
                if judge && a != b {
                    fail!("{} failed and changed the message to {:?}", what, a);
                }
            } else {
                let name = format!("o{}", src.below(5));
                let mut fields: Vec<u64> = vec![];
                let present: Vec<u64> = view.fields.keys().cloned().collect();
                let free: Vec<u64> =
                    present.iter().cloned().filter(|n| view.fields[n].oneof.is_none()).collect();
                let k = src.below(4);
                for _ in 0..k {
                    let f = match src.weighted(&[60, 20, 20]) {
                        0 if !free.is_empty() => *src.pick(&free),
                        1 if !present.is_empty() => *src.pick(&present),
                        2 => number(src),
                        _ => continue,
                    };
                    if !fields.contains(&f) {
                        fields.push(f);
                    }
                }
                let opts = options(src);
                let mut expected: Vec<String> = vec![];
                if view.oneofs.iter().any(|o| o.name == name) {
                    expected.push("NameConflict".to_string());
                }
                for f in &fields {
                    match view.fields.get(f) {
                        None => expected.push(format!("FieldNotFound({})", f)),
                        Some(x) if x.oneof.is_some() => {
                            expected.push(format!("FieldInOneof({})", f))
                        }
                        _ => {}
                    }
                }
                let make = || {
                    let mut o = pc::Oneof::new(name.clone());
                    o.fields = fields.clone();
                    o.options = proto_options(&opts);
                    o
                };
                let mut one = make();
                if let (true, Some((r, _))) = (src.one_in(4), oneofs.first()) {
                    one.self_ref = *r;
                } else if src.one_in(8) {
                    one.self_ref = foreign_oneof();
                }
                let got = a.add_oneof(one).map_err(oneof_error);
                let what = format!("add_oneof({}, {:?})", name, fields);
                self.log.push(format!("  {} -> {:?}", what, got));
                if judge {
                    outcome(&what, &got, &expected)?;
                }
                match got {
                    Ok(r) => {
                        match b.add_oneof(make()) {
                            Ok(s) if s == r => {}
                            s => fail!(
                                "{} gave {:?} and, without the failed calls before it, {:?}",
                                what, r, s
                            ),
                        }
                        match a.get_oneof(r) {
                            Some(o) if o.name == name && o.self_ref == r => {}
                            o => fail!("{} gave {:?}, which denotes {:?}", what, r, o),
                        }
                        if oneofs.iter().any(|(o, _)| *o == r) {
                            fail!("{} gave the reference {:?} of another oneof", what, r);
                        }
                        oneofs.push((r, name.clone()));
                        let mut sorted = fields.clone();
                        sorted.sort();
                        for f in &fields {
                            if let Some(x) = view.fields.get_mut(f) {
                                x.oneof = Some(name.clone());
                            }
                        }
                        view.oneofs.push(OneofView { name, fields: sorted, opts: opts_view(&opts) });
                    }
                    Err(_) => self.failed += 1,
                }
                if judge && a != b {
                    fail!("{} failed and changed the message to {:?}", what, a);
                }
            }
            for (r, n) in &oneofs {
                if a.get_oneof(*r).map(|o| &o.name) != Some(n) {
                    fail!("{:?} no longer denotes the oneof {}, but {:?}", r, n, a.get_oneof(*r));
                }
            }
        }
        view.oneofs.sort_by(|a, b| a.name.cmp(&b.name));
        Ok((a, b))
    }

    fn enum_info(
        &mut self,
        src: &mut Source,
        view: &mut EnumView,
        parent: TypeParent,
        judge: bool,
    ) -> Result<(pc::EnumInfo, pc::EnumInfo), String> {
        let mut a = pc::EnumInfo::new(view.name.clone(), parent);
        let mut b = pc::EnumInfo::new(view.name.clone(), parent);
        let mut names: BTreeSet<String> = BTreeSet::new();
        let n = src.below(8);
        for _ in 0..n {
            let name = format!("V{}", src.below(7));
            let value = match src.weighted(&[80, 20]) {
                0 => src.below(7) as i64 - 2,
                _ => src.int() as i64,
            };
            let opts = options(src);
            let make = || {
                let mut f = pc::EnumField::new(name.clone(), value);
                f.options = proto_options(&opts);
                f
            };
            let mut expected: Vec<String> = vec![];
            if view.values.contains_key(&value) {
                expected.push("NumberConflict".to_string());
            }
            if names.contains(&name) {
                expected.push("NameConflict".to_string());
            }
            let got = a.add_field(make()).map_err(member_error);
            let what = format!("enum add_field({}, {})", name, value);
            self.log.push(format!("  {} -> {:?}", what, got));
            if judge {
                outcome(&what, &got, &expected)?;
            }
            match got {
                Ok(()) => {
                    if let Err(e) = b.add_field(make()) {
                        fail!("{} gave Ok and, without the failed calls before it, {:?}", what, e);
                    }
                    match a.get_field_by_value(value) {
                        Some(f) if f.name == name && f.value == value => {}
                        f => fail!("{} gave Ok, but the value finds {:?}", what, f),
                    }
                    names.insert(name.clone());
                    view.values.insert(value, (name.clone(), opts_view(&opts)));
                }
                Err(_) => self.failed += 1,
            }
            if judge && a != b {
                fail!("{} failed and changed the enum to {:?}", what, a);
            }
        }
        Ok((a, b))
    }

    fn package(&mut self, src: &mut Source, judge: bool) -> Check {
        let name = match src.weighted(&[20, 55, 20, 5]) {
            0 => None,
            1 => Some(src.pick(&PACKAGES).to_string()),
            3 => Some(src.pick(&ODD_PACKAGES).to_string()),
            _ => {
                let all: Vec<&Option<String>> = self.package_names.iter().collect();
                if all.is_empty() {
                    None
                } else {
                    (*src.pick(&all)).clone()
                }
            }
        };
        let got = self.a.insert_package(pc::Package::new(name.clone()));
        let what = format!("insert_package({:?})", name);
        self.log.push(format!("{} -> {:?}", what, got));
        let exists = self.package_names.contains(&name);
        match got {
            Ok(r) => {
                if judge && exists {
                    fail!("{} succeeded, although it exists", what);
                }
                if self.packages.iter().any(|(p, _)| *p == r) {
                    fail!("{} gave the reference {:?} of another package", what, r);
                }
                let s = self.b.insert_package(pc::Package::new(name.clone()));
                if s != Ok(r) {
                    fail!("{} gave {:?} and, without the failed calls before it, {:?}", what, r, s);
                }
                self.a.resolve_package(r);
                self.packages.push((r, name.clone()));
                self.package_names.insert(name);
            }
            Err(r) => {
                self.failed += 1;
                if judge {
                    if !exists {
                        fail!("{} failed, although there is no such package", what);
                    }
                    let known = self.packages.iter().find(|(p, _)| *p == r);
                    let good = match known {
                        Some((_, n)) => *n == name,
                        None => self.parsed_names.contains(&name),
                    };
                    if !good {
                        fail!("{} failed with {:?}, which is {:?}", what, r, known);
                    }
                }
                self.a.resolve_package(r);
                if !self.packages.iter().any(|(p, _)| *p == r) {
                    self.packages.push((r, name));
                }
            }
        }
        Ok(())
    }

    /// One operation. `judge`: its outcome must be the right one.
    pub fn step(&mut self, src: &mut Source, case: &mut Case, judge: bool) -> Check {
        let r = self.step_inner(src, case, judge);
        if r.is_err() {
            case.describe(|| self.log.join("\n"));
        }
        r
    }

    fn step_inner(&mut self, src: &mut Source, _: &mut Case, judge: bool) -> Check {
        let kind = src.weighted(&[12, 55, 33]);
        if kind == 0 || self.packages.is_empty() {
            self.package(src, judge)?;
        } else {
            let messages: Vec<String> = self.view.messages.keys().cloned().collect();
            let (parent, enclosing, package) = if !messages.is_empty() && src.bool() {
                let m = src.pick(&messages).clone();
                match self.refs[&m] {
                    TypeRef::Message(r) => {
                        (TypeParent::Message(r), Some(m.clone()), self.graph.types[&m].package.clone())
                    }
                    TypeRef::Enum(_) => fail!("{} has the reference of an enum", m),
                }
            } else {
                let (p, n) = src.pick(&self.packages).clone();
                (TypeParent::Package(p), None, n)
            };
            let name = match src.weighted(&[75, 25]) {
                0 => src.pick(&NAMES).to_string(),
                _ => random_ident(src),
            };
            let scope = enclosing.clone().or(package.clone());
            let full = match &scope {
                Some(s) => format!("{}.{}", s, name),
                None => name.clone(),
            };
            if self.graph.services.contains_key(&full) {
                return Ok(());
            }
            if src.bool() {
                // It may be looked for before it exists.
                let found = self.a.get_type(&full).map(graph::type_ref);
                if judge && found != self.refs.get(&full).cloned() {
                    fail!("{} is {:?}, expected {:?}", full, found, self.refs.get(&full));
                }
                let as_message = self.a.get_message(&full).is_some();
                if judge && as_message != self.view.messages.contains_key(&full) {
                    fail!("get_message({:?}) finds something: {}", full, as_message);
                }
            }
            let (what, got, twin, message);
            if kind == 1 {
                let mut v = MsgView {
                    name: name.clone(),
                    full_name: full.clone(),
                    parent: enclosing.clone(),
                    fields: BTreeMap::new(),
                    oneofs: vec![],
                    inner: BTreeSet::new(),
                };
                what = format!("insert_message({} into {:?})", name, scope);
                let at = self.log.len();
                let (mut ia, ib) = self.message(src, &mut v, parent, judge)?;
                if src.one_in(4) {
                    // Whatever the item says of itself, insertion decides.
                    let other = self.refs.iter().filter_map(|(n, r)| match r {
                        TypeRef::Message(m) => Some((n.clone(), *m)),
                        TypeRef::Enum(_) => None,
                    });
                    let others: Vec<(String, pc::MessageRef)> = other.collect();
                    ia.full_name = src.pick(&["X", "a.A", "", "."]).to_string();
                    if !others.is_empty() {
                        let (n, r) = src.pick(&others).clone();
                        ia.full_name = n;
                        ia.self_ref = r;
                    }
                }
                got = self.a.insert_message(ia).map(TypeRef::Message).map_err(insert_error);
                self.log.insert(at, format!("{} -> {:?}", what, got));
                twin = got.is_ok().then(|| self.b.insert_message(ib).map(TypeRef::Message).map_err(insert_error));
                message = true;
                if got.is_ok() {
                    self.view.messages.insert(full.clone(), v);
                }
            } else {
                let mut v = EnumView {
                    name: name.clone(),
                    full_name: full.clone(),
                    parent: enclosing.clone(),
                    values: BTreeMap::new(),
                };
                what = format!("insert_enum({} into {:?})", name, scope);
                let at = self.log.len();
                let (mut ia, ib) = self.enum_info(src, &mut v, parent, judge)?;
                if src.one_in(4) {
                    let other = self.refs.iter().filter_map(|(n, r)| match r {
                        TypeRef::Enum(m) => Some((n.clone(), *m)),
                        TypeRef::Message(_) => None,
                    });
                    let others: Vec<(String, pc::EnumRef)> = other.collect();
                    ia.full_name = src.pick(&["X", "a.A", "", "."]).to_string();
                    if !others.is_empty() {
                        let (n, r) = src.pick(&others).clone();
                        ia.full_name = n;
                        ia.self_ref = r;
                    }
                }
                got = self.a.insert_enum(ia).map(TypeRef::Enum).map_err(insert_error);
                self.log.insert(at, format!("{} -> {:?}", what, got));
                twin = got.is_ok().then(|| self.b.insert_enum(ib).map(TypeRef::Enum).map_err(insert_error));
                message = false;
                if got.is_ok() {
                    self.view.enums.insert(full.clone(), v);
                }
            }
            let existing = self.refs.get(&full).cloned();
            match (got, existing) {
                (Ok(_), Some(r)) => {
                    fail!("{} succeeded, although {} exists as {:?}", what, full, r)
                }
                (Ok(r), None) => {
                    self.inserted += 1;
                    if twin != Some(Ok(r)) {
                        fail!(
                            "{} gave {:?} and, without the failed calls before it, {:?}",
                            what, r, twin
                        );
                    }
                    if self.refs.values().any(|x| *x == r) {
                        fail!("{} gave the reference {:?} of another type", what, r);
                    }
                    let found = self.a.get_type(&full).map(graph::type_ref);
                    if found != Some(r) {
                        fail!("{} gave {:?}, but {} is {:?}", what, r, full, found);
                    }
                    self.refs.insert(full.clone(), r);
                    if let Some(m) = &enclosing {
                        if let Some(m) = self.view.messages.get_mut(m) {
                            m.inner.insert(full.clone());
                        }
                    }
                    self.graph
                        .types
                        .insert(full, Node { message, parent: enclosing, package, name });
                }
                (Err(e), existing) => {
                    self.failed += 1;
                    if judge {
                        match existing {
                            None => fail!("{} failed with {:?}, although {} is free", what, e, full),
                            Some(r) if e != Some(r) => {
                                fail!("{} failed with {:?}, the existing type is {:?}", what, e, r)
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
        // Nothing handed out earlier has changed its meaning.
        for (full, r) in &self.refs {
            let n = graph::name_of(&self.a, r);
            if n != full {
                fail!("{:?} of {} now denotes {}", r, full, n);
            }
        }
        if judge && self.a != self.b {
            fail!(
                "the context differs from one without the failed operations, after: {}",
                self.log.last().cloned().unwrap_or_default()
            );
        }
        Ok(())
    }

    /// Decodes something with one of the messages there are now.
    pub fn decode_some(&mut self, src: &mut Source) {
        let names: Vec<&String> = self.view.messages.keys().collect();
        if names.is_empty() {
            return;
        }
        let name = *src.pick(&names);
        let of = match self.refs.get(name) {
            Some(TypeRef::Message(m)) => *m,
            _ => return,
        };
        let data = self.payload(src, name, 3);
        let value = self.a.decode(of, &data);
        let encoded = value.encode(&self.a).to_vec();
        self.samples.push(Sample { of, data, value: format!("{:?}", value), encoded });
    }

    fn payload(&self, src: &mut Source, name: &str, depth: usize) -> Vec<u8> {
        let mut out = vec![];
        let fields: Vec<FieldView> = match self.view.messages.get(name) {
            Some(m) => m.fields.values().cloned().collect(),
            None => return out,
        };
        let n = src.below(6);
        for _ in 0..n {
            if fields.is_empty() || src.one_in(5) {
                wire::put_tag(&mut out, src.below(12) as u64, src.below(6) as u8);
                let k = src.below(4);
                out.extend(src.bytes(k));
                continue;
            }
            let f = src.pick(&fields);
            if f.number > u64::MAX >> 3 {
                continue;
            }
            let wt = match &f.ty {
                TyView::Scalar(s) if f.mult != Mult::Packed => s.wire_type(),
                TyView::Enum(_) => 0,
                _ => 2,
            };
            wire::put_tag(&mut out, f.number, wt);
            match (&f.ty, wt) {
                (TyView::Message(m), _) if depth > 0 => {
                    let inner = self.payload(src, m, depth - 1);
                    wire::put_len(&mut out, &inner);
                }
                (_, 0) => wire::put_varint(&mut out, src.int()),
                (_, 1) => out.extend(src.bytes(8)),
                (_, 5) => out.extend(src.bytes(4)),
                _ => {
                    let k = src.below(9);
                    wire::put_len(&mut out, &src.bytes(k));
                }
            }
        }
        out
    }

    /// What was decoded before decodes to the same still.
    pub fn decode_again(&self) -> Check {
        for s in &self.samples {
            let value = self.a.decode(s.of, &s.data);
            let shown = format!("{:?}", value);
            let encoded = value.encode(&self.a).to_vec();
            if shown != s.value || encoded != s.encoded {
                fail!(
                    "{:02x?} as {} decoded to {} (encoded {:02x?}) and later to {} (encoded {:02x?})",
                    s.data,
                    graph::name_of(&self.a, &TypeRef::Message(s.of)),
                    s.value,
                    s.encoded,
                    shown,
                    encoded
                );
            }
        }
        Ok(())
    }

    /// The whole context against the model.
    pub fn compare(&self) -> Check {
        let actual = view::actual(&self.a, &self.view.names(), &self.view.enum_values());
        match view::diff(&self.view, &actual) {
            None => Ok(()),
            Some(d) => Err(d),
        }
    }
}

fn member_error(e: pc::MemberInsertError) -> String {
    match e {
        pc::MemberInsertError::NumberConflict => "NumberConflict".to_string(),
        pc::MemberInsertError::NameConflict => "NameConflict".to_string(),
        pc::MemberInsertError::MissingOneof => "MissingOneof".to_string(),
        e => format!("{:?}", e),
    }
}

fn oneof_error(e: pc::OneofInsertError) -> String {
    match e {
        pc::OneofInsertError::NameConflict => "NameConflict".to_string(),
        pc::OneofInsertError::FieldNotFound { field, .. } => format!("FieldNotFound({})", field),
        pc::OneofInsertError::FieldInOneof { field, .. } => format!("FieldInOneof({})", field),
        e => format!("{:?}", e),
    }
}

/// The existing type that the error names.
fn insert_error(e: pc::InsertError) -> Option<TypeRef> {
    match e {
        pc::InsertError::TypeExists { original, .. } => Some(original),
        _ => None,
    }
}

fn outcome<T: std::fmt::Debug>(what: &str, got: &Result<T, String>, expected: &[String]) -> Check {
    match got {
        Ok(_) if expected.is_empty() => Ok(()),
        Ok(_) => Err(format!("{} succeeded, expected one of {:?}", what, expected)),
        Err(e) if expected.contains(e) => Ok(()),
        Err(e) if expected.is_empty() => Err(format!("{} failed with {:?}, expected success", what, e)),
        Err(e) => Err(format!("{} failed with {:?}, expected one of {:?}", what, e, expected)),
    }
}
