//! Name based view of a context: what its public API exposes, with references replaced by the full
//! names they lead to. Built from the model (expected) and from a context (actual).

use crate::schema::*;
use protofish::context as pc;
use protofish::context::Context;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum ConstView {
    Ident(String),
    Int(i64),
    /// Bits; all NaNs are equal.
    Float(u64),
    Str(Vec<u8>),
    Bool(bool),
    Other(String),
}

pub type OptView = (String, ConstView);

fn float_bits(f: f64) -> u64 {
    if f.is_nan() {
        f64::NAN.to_bits()
    } else {
        f.to_bits()
    }
}

pub fn const_view(c: &Const) -> ConstView {
    match c {
        Const::Ident(p) => ConstView::Ident(p.join(".")),
        Const::Int(v) => ConstView::Int(*v),
        Const::Float(sign, text) => {
            let magnitude = match text.as_str() {
                "inf" => f64::INFINITY,
                "nan" => f64::NAN,
                t => t.parse::<f64>().expect("float literal"),
            };
            ConstView::Float(float_bits(if *sign == Some('-') { -magnitude } else { magnitude }))
        }
        Const::Str(b) => ConstView::Str(b.clone()),
        Const::Bool(b) => ConstView::Bool(*b),
    }
}

pub fn opts_view(o: &[Opt]) -> Vec<OptView> {
    o.iter().map(|o| (o.name(), const_view(&o.value))).collect()
}

#[allow(unreachable_patterns)]
pub fn actual_opts(o: &[pc::ProtoOption]) -> Vec<OptView> {
    o.iter()
        .map(|o| {
            let v = match &o.value {
                pc::Constant::Ident(s) => ConstView::Ident(s.clone()),
                pc::Constant::Integer(i) => ConstView::Int(*i),
                pc::Constant::Float(f) => ConstView::Float(float_bits(*f)),
                pc::Constant::String(b) => ConstView::Str(b.to_vec()),
                pc::Constant::Bool(b) => ConstView::Bool(*b),
                o => ConstView::Other(format!("{:?}", o)),
            };
            (o.name.clone(), v)
        })
        .collect()
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum TyView {
    Scalar(Scalar),
    Message(String),
    Enum(String),
    Other(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mult {
    Single,
    Optional,
    Repeated,
    Packed,
    Other,
}

#[derive(Clone, Debug, PartialEq)]
pub struct FieldView {
    pub name: String,
    pub number: u64,
    pub ty: TyView,
    pub mult: Mult,
    pub opts: Vec<OptView>,
    pub oneof: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct OneofView {
    pub name: String,
    /// Sorted.
    pub fields: Vec<u64>,
    pub opts: Vec<OptView>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MsgView {
    pub name: String,
    pub full_name: String,
    /// None: directly in a package.
    pub parent: Option<String>,
    pub fields: BTreeMap<u64, FieldView>,
    /// Sorted by name.
    pub oneofs: Vec<OneofView>,
    pub inner: BTreeSet<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct EnumView {
    pub name: String,
    pub full_name: String,
    pub parent: Option<String>,
    /// Value to the entry found for it.
    pub values: BTreeMap<i64, (String, Vec<OptView>)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RpcView {
    pub name: String,
    pub input: String,
    pub input_stream: bool,
    pub output: String,
    pub output_stream: bool,
    pub opts: Vec<OptView>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct SvcView {
    pub name: String,
    pub full_name: String,
    pub rpcs: Vec<RpcView>,
    pub opts: Vec<OptView>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct View {
    pub messages: BTreeMap<String, MsgView>,
    pub enums: BTreeMap<String, EnumView>,
    pub services: BTreeMap<String, SvcView>,
}

// ------------------------------------------------------------------------------------------
// Expected
// ------------------------------------------------------------------------------------------

pub fn multiplicity(f: &Field) -> Mult {
    match f.label {
        Label::Single => Mult::Single,
        Label::Optional => Mult::Optional,
        Label::Repeated => match &f.ty {
            Ty::Scalar(s) if s.packable() => {
                match f.opts.iter().find(|o| o.name() == "packed") {
                    Some(Opt { value: Const::Bool(false), .. }) => Mult::Repeated,
                    _ => Mult::Packed,
                }
            }
            _ => Mult::Repeated,
        },
    }
}

fn ty_view(t: &Ty) -> TyView {
    match t {
        Ty::Scalar(s) => TyView::Scalar(*s),
        Ty::Ref(r) => match r.kind {
            Kind::Message => TyView::Message(r.target.clone()),
            Kind::Enum => TyView::Enum(r.target.clone()),
            Kind::Service => TyView::Other(r.target.clone()),
        },
    }
}

pub fn expected(fs: &FileSet) -> View {
    let mut v = View::default();
    for f in &fs.files {
        let path = f.package_path();
        for item in &f.items {
            match item {
                Item::Message(m) => v.message(&path, None, m),
                Item::Enum(e) => v.enumeration(&path, None, e),
                Item::Service(s) => {
                    let full = join(&path, &s.name);
                    v.services.insert(
                        full.clone(),
                        SvcView {
                            name: s.name.clone(),
                            full_name: full,
                            rpcs: s
                                .rpcs
                                .iter()
                                .map(|r| RpcView {
                                    name: r.name.clone(),
                                    input: r.input.target.clone(),
                                    input_stream: r.input_stream,
                                    output: r.output.target.clone(),
                                    output_stream: r.output_stream,
                                    opts: opts_view(&r.opts),
                                })
                                .collect(),
                            opts: opts_view(&s.opts),
                        },
                    );
                }
            }
        }
    }
    v
}

impl View {
    fn message(&mut self, path: &[String], parent: Option<String>, m: &Msg) {
        let full = join(path, &m.name);
        let mut inner_path = path.to_vec();
        inner_path.push(m.name.clone());
        let mut inner = BTreeSet::new();
        for mem in &m.members {
            match mem {
                Member::Message(n) => {
                    inner.insert(join(&inner_path, &n.name));
                    self.message(&inner_path, Some(full.clone()), n);
                }
                Member::Enum(e) => {
                    inner.insert(join(&inner_path, &e.name));
                    self.enumeration(&inner_path, Some(full.clone()), e);
                }
                _ => {}
            }
        }
        let oneofs = m.oneofs();
        let fields: BTreeMap<u64, FieldView> = m
            .fields()
            .into_iter()
            .map(|(f, o)| {
                (
                    f.number,
                    FieldView {
                        name: f.name.clone(),
                        number: f.number,
                        ty: ty_view(&f.ty),
                        mult: multiplicity(f),
                        opts: opts_view(&f.opts),
                        oneof: o.map(|i| oneofs[i].name.clone()),
                    },
                )
            })
            .collect();
        let mut oneof_views: Vec<OneofView> = oneofs
            .iter()
            .map(|o| {
                let mut fields: Vec<u64> = o.fields.iter().map(|f| f.number).collect();
                fields.sort();
                OneofView { name: o.name.clone(), fields, opts: opts_view(&o.opts) }
            })
            .collect();
        oneof_views.sort_by(|a, b| a.name.cmp(&b.name));
        self.messages.insert(
            full.clone(),
            MsgView {
                name: m.name.clone(),
                full_name: full,
                parent,
                fields,
                oneofs: oneof_views,
                inner,
            },
        );
    }

    fn enumeration(&mut self, path: &[String], parent: Option<String>, e: &EnumDecl) {
        let full = join(path, &e.name);
        let mut values = BTreeMap::new();
        for v in &e.values {
            values.insert(v.value, (v.name.clone(), opts_view(&v.opts)));
        }
        self.enums.insert(
            full.clone(),
            EnumView { name: e.name.clone(), full_name: full, parent, values },
        );
    }

    pub fn names(&self) -> Vec<String> {
        self.messages.keys().chain(self.enums.keys()).chain(self.services.keys()).cloned().collect()
    }

    /// The declared values of every enum, needed to query a context for them.
    pub fn enum_values(&self) -> BTreeMap<String, BTreeSet<i64>> {
        self.enums.iter().map(|(n, e)| (n.clone(), e.values.keys().cloned().collect())).collect()
    }

    /// Forgets the order of everything whose order follows the order of declarations.
    pub fn unordered(mut self) -> View {
        for s in self.services.values_mut() {
            s.rpcs.sort_by(|a, b| a.name.cmp(&b.name));
        }
        self
    }

    /// For enums with aliases the entry found by value is unspecified.
    pub fn without_alias_choice(mut self, aliased: &BTreeMap<String, BTreeSet<i64>>) -> View {
        for (name, values) in aliased {
            if let Some(e) = self.enums.get_mut(name) {
                for v in values {
                    e.values.insert(*v, (String::new(), vec![]));
                }
            }
        }
        self
    }
}

/// Enum values that carry more than one name, and those names.
pub fn aliases(fs: &FileSet) -> BTreeMap<String, BTreeMap<i64, Vec<(String, Vec<OptView>)>>> {
    let mut out = BTreeMap::new();
    fn one(
        out: &mut BTreeMap<String, BTreeMap<i64, Vec<(String, Vec<OptView>)>>>,
        path: &[String],
        e: &EnumDecl,
    ) {
        let mut by: BTreeMap<i64, Vec<(String, Vec<OptView>)>> = BTreeMap::new();
        for v in &e.values {
            by.entry(v.value).or_default().push((v.name.clone(), opts_view(&v.opts)));
        }
        by.retain(|_, n| n.len() > 1);
        if !by.is_empty() {
            out.insert(join(path, &e.name), by);
        }
    }
    for f in &fs.files {
        for item in &f.items {
            if let Item::Enum(e) = item {
                one(&mut out, &f.package_path(), e);
            }
        }
    }
    fs.each_message(&mut |path, m| {
        for mem in &m.members {
            if let Member::Enum(e) = mem {
                one(&mut out, path, e);
            }
        }
    });
    out
}

// ------------------------------------------------------------------------------------------
// Actual
// ------------------------------------------------------------------------------------------

#[allow(unreachable_patterns)]
pub fn value_type(ctx: &Context, t: &pc::ValueType) -> TyView {
    use pc::ValueType as V;
    TyView::Scalar(match t {
        V::Double => Scalar::Double,
        V::Float => Scalar::Float,
        V::Int32 => Scalar::Int32,
        V::Int64 => Scalar::Int64,
        V::UInt32 => Scalar::UInt32,
        V::UInt64 => Scalar::UInt64,
        V::SInt32 => Scalar::SInt32,
        V::SInt64 => Scalar::SInt64,
        V::Fixed32 => Scalar::Fixed32,
        V::Fixed64 => Scalar::Fixed64,
        V::SFixed32 => Scalar::SFixed32,
        V::SFixed64 => Scalar::SFixed64,
        V::Bool => Scalar::Bool,
        V::String => Scalar::String,
        V::Bytes => Scalar::Bytes,
        V::Message(r) => return TyView::Message(ctx.resolve_message(*r).full_name.clone()),
        V::Enum(r) => return TyView::Enum(ctx.resolve_enum(*r).full_name.clone()),
        o => return TyView::Other(format!("{:?}", o)),
    })
}

fn parent_name(ctx: &Context, p: pc::TypeParent) -> Option<String> {
    match p {
        pc::TypeParent::Package(r) => {
            // Must exist.
            let _ = ctx.resolve_package(r);
            None
        }
        pc::TypeParent::Message(r) => Some(ctx.resolve_message(r).full_name.clone()),
    }
}

#[allow(unreachable_patterns)]
pub fn mult(m: &pc::Multiplicity) -> Mult {
    match m {
        pc::Multiplicity::Single => Mult::Single,
        pc::Multiplicity::Optional => Mult::Optional,
        pc::Multiplicity::Repeated => Mult::Repeated,
        pc::Multiplicity::RepeatedPacked => Mult::Packed,
        _ => Mult::Other,
    }
}

pub fn message_view(ctx: &Context, m: &pc::MessageInfo) -> MsgView {
    let fields = m
        .iter_fields()
        .map(|f| {
            (
                f.number,
                FieldView {
                    name: f.name.clone(),
                    number: f.number,
                    ty: value_type(ctx, &f.field_type),
                    mult: mult(&f.multiplicity),
                    opts: actual_opts(&f.options),
                    oneof: f.oneof.map(|o| match m.get_oneof(o) {
                        Some(o) => o.name.clone(),
                        None => "<missing oneof>".to_string(),
                    }),
                },
            )
        })
        .collect();
    let mut oneofs: Vec<OneofView> = m
        .oneofs
        .iter()
        .map(|o| {
            let mut fields = o.fields.clone();
            fields.sort();
            OneofView { name: o.name.clone(), fields, opts: actual_opts(&o.options) }
        })
        .collect();
    oneofs.sort_by(|a, b| a.name.cmp(&b.name));
    MsgView {
        name: m.name.clone(),
        full_name: m.full_name.clone(),
        parent: parent_name(ctx, m.parent),
        fields,
        oneofs,
        inner: m
            .inner_types
            .iter()
            .map(|t| match t {
                pc::TypeRef::Message(r) => ctx.resolve_message(*r).full_name.clone(),
                pc::TypeRef::Enum(r) => ctx.resolve_enum(*r).full_name.clone(),
            })
            .collect(),
    }
}

/// The view of the named items; `values` are the enum values to ask for.
pub fn actual(
    ctx: &Context,
    names: &[String],
    values: &BTreeMap<String, BTreeSet<i64>>,
) -> View {
    let mut v = View::default();
    for name in names {
        match ctx.get_type(name) {
            Some(pc::TypeInfo::Message(m)) => {
                v.messages.insert(name.clone(), message_view(ctx, m));
            }
            Some(pc::TypeInfo::Enum(e)) => {
                let mut out = BTreeMap::new();
                for n in values.get(name).into_iter().flatten() {
                    if let Some(f) = e.get_field_by_value(*n) {
                        out.insert(f.value, (f.name.clone(), actual_opts(&f.options)));
                    }
                }
                v.enums.insert(
                    name.clone(),
                    EnumView {
                        name: e.name.clone(),
                        full_name: e.full_name.clone(),
                        parent: parent_name(ctx, e.parent),
                        values: out,
                    },
                );
            }
            None => {}
        }
        if let Some(s) = ctx.get_service(name) {
            let _ = ctx.resolve_package(s.parent);
            let rpc = |r: &pc::Rpc| RpcView {
                name: r.name.clone(),
                input: ctx.resolve_message(r.input.message).full_name.clone(),
                input_stream: r.input.stream,
                output: ctx.resolve_message(r.output.message).full_name.clone(),
                output_stream: r.output.stream,
                opts: actual_opts(&r.options),
            };
            v.services.insert(
                name.clone(),
                SvcView {
                    name: s.name.clone(),
                    full_name: s.full_name.clone(),
                    rpcs: s.rpcs.iter().map(rpc).collect(),
                    opts: actual_opts(&s.options),
                },
            );
        }
    }
    v
}

/// Says where two views differ.
pub fn diff(expected: &View, actual: &View) -> Option<String> {
    if expected == actual {
        return None;
    }
    let mut out = vec![];
    fn maps<T: PartialEq + std::fmt::Debug>(
        what: &str,
        a: &BTreeMap<String, T>,
        b: &BTreeMap<String, T>,
        out: &mut Vec<String>,
    ) {
        for (k, v) in a {
            match b.get(k) {
                None => out.push(format!("{} {} is missing", what, k)),
                Some(w) if w != v => {
                    out.push(format!("{} {}:\n  expected {:?}\n  actual   {:?}", what, k, v, w))
                }
                _ => {}
            }
        }
        for k in b.keys() {
            if !a.contains_key(k) {
                out.push(format!("unexpected {} {}", what, k));
            }
        }
    }
    maps("message", &expected.messages, &actual.messages, &mut out);
    maps("enum", &expected.enums, &actual.enums, &mut out);
    maps("service", &expected.services, &actual.services, &mut out);
    out.truncate(3);
    Some(out.join("\n"))
}
