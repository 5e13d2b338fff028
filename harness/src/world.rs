//! A schema, its context and its payload types, ready for wire level checks.

use crate::render;
use crate::schema::*;
use crate::tape::Source;
use crate::view::{self, Mult};
use crate::wire::{cast, Handles, RMsg, TField, TMsg, TTy, Types, RV};
use protofish::context as pc;
use protofish::context::Context;
use std::collections::BTreeMap;

pub struct World {
    pub text: String,
    pub ctx: Context,
    pub types: Types,
    pub h: Handles,
    pub parsed: bool,
}

/// Schemas for payloads: few but rich messages, no services or options.
pub fn wire_cfg(src: &mut Source) -> Cfg {
    Cfg {
        max_files: 1,
        max_items: *src.pick(&[2usize, 4]),
        max_depth: 2,
        max_members: *src.pick(&[8usize, 14, 24]),
        services: false,
        options: false,
        weird_names: 0,
        shadow: 10,
        aliases: false,
        distinct_packages: false,
        ref_percent: *src.pick(&[25u64, 50]),
        max_package_parts: 1,
        big: false,
        wide_enums: true,
        wide_numbers: false,
        nan: false,
    }
}

/// Generates a schema and its context. None: this context cannot be made, which is for the
/// properties on parsing and insertion to judge.
pub fn world(src: &mut Source) -> Option<World> {
    let cfg = wire_cfg(src);
    let mut fs = gen(src, cfg);
    // There must be a message.
    let mut any = false;
    fs.each_message(&mut |_, m| any |= !m.fields().is_empty());
    if !any {
        fs.files[0].items.push(Item::Message(Msg {
            name: "Fallback__".into(),
            members: SCALARS
                .iter()
                .enumerate()
                .map(|(i, s)| {
                    Member::Field(Field {
                        label: if i % 2 == 0 { Label::Single } else { Label::Repeated },
                        ty: Ty::Scalar(*s),
                        name: format!("f{}", i),
                        number: i as u64 + 1,
                        opts: vec![],
                    })
                })
                .collect(),
        }));
    }
    if src.bool() {
        crate::evolve::all_fields_mut(&mut fs, &mut |f| {
            if src.one_in(4) {
                f.opts.push(known_option(src));
            }
        });
    }
    world_of(&fs, src.chance(40))
}

pub fn world_of(fs: &FileSet, by_hand: bool) -> Option<World> {
    let text = render::plain(fs);
    let v = view::expected(fs);
    let ctx = if by_hand { build(fs).ok()? } else { Context::parse(&text).ok()? };
    let types = Types::of(&v);
    let h = types.handles(&ctx)?;
    Some(World { text: text.join("\n// ---- next file ----\n"), ctx, types, h, parsed: !by_hand })
}

impl World {
    /// A message type, preferring ones with fields.
    pub fn pick_type(&self, src: &mut Source) -> usize {
        let full: Vec<usize> =
            (0..self.types.msgs.len()).filter(|i| !self.types.msgs[*i].fields.is_empty()).collect();
        if full.is_empty() || src.one_in(30) {
            src.below(self.types.msgs.len())
        } else {
            *src.pick(&full)
        }
    }

    pub fn describe(&self, ty: usize) -> String {
        format!(
            "context {}:\n{}\nmessage type: {} (msg#{})",
            if self.parsed { "parsed from" } else { "built by hand as" },
            self.text,
            self.types.msgs[ty].name,
            ty
        )
    }

    pub fn decode(&self, ty: usize, data: &[u8]) -> protofish::decode::MessageValue {
        // Both ways to decode are the same; which one is used depends on the bytes alone.
        match data.iter().fold(0u8, |a, b| a ^ b ^ (b >> 3)) & 1 {
            0 => self.ctx.decode(self.h.msgs[ty], data),
            _ => self.ctx.resolve_message(self.h.msgs[ty]).decode(data, &self.ctx),
        }
    }
}

// ------------------------------------------------------------------------------------------
// Building by hand
// ------------------------------------------------------------------------------------------

pub fn multiplicity(m: Mult) -> pc::Multiplicity {
    match m {
        Mult::Single | Mult::Other => pc::Multiplicity::Single,
        Mult::Optional => pc::Multiplicity::Optional,
        Mult::Repeated => pc::Multiplicity::Repeated,
        Mult::Packed => pc::Multiplicity::RepeatedPacked,
    }
}

pub fn scalar_type(s: Scalar) -> pc::ValueType {
    use pc::ValueType as V;
    match s {
        Scalar::Int32 => V::Int32,
        Scalar::Int64 => V::Int64,
        Scalar::UInt32 => V::UInt32,
        Scalar::UInt64 => V::UInt64,
        Scalar::SInt32 => V::SInt32,
        Scalar::SInt64 => V::SInt64,
        Scalar::Fixed32 => V::Fixed32,
        Scalar::Fixed64 => V::Fixed64,
        Scalar::SFixed32 => V::SFixed32,
        Scalar::SFixed64 => V::SFixed64,
        Scalar::Bool => V::Bool,
        Scalar::Float => V::Float,
        Scalar::Double => V::Double,
        Scalar::String => V::String,
        Scalar::Bytes => V::Bytes,
    }
}

pub fn constant(c: &Const) -> pc::Constant {
    match c {
        Const::Ident(p) => pc::Constant::Ident(p.join(".")),
        Const::Int(v) => pc::Constant::Integer(*v),
        Const::Float(..) => match view::const_view(c) {
            view::ConstView::Float(b) => pc::Constant::Float(f64::from_bits(b)),
            _ => unreachable!(),
        },
        Const::Str(b) => pc::Constant::String(b.clone().into()),
        Const::Bool(b) => pc::Constant::Bool(*b),
    }
}

pub fn proto_options(o: &[Opt]) -> Vec<pc::ProtoOption> {
    o.iter().map(|o| pc::ProtoOption { name: o.name(), value: constant(&o.value) }).collect()
}

enum Decl<'a> {
    M(&'a Msg),
    E(&'a EnumDecl),
}

struct Flat<'a> {
    decl: Decl<'a>,
    full: String,
    package: usize,
    /// Index of the enclosing message.
    parent: Option<usize>,
}

/// All types in pre-order: an outer message, its inner types, the next.
fn flatten<'a>(fs: &'a FileSet) -> Vec<Flat<'a>> {
    fn message<'a>(
        out: &mut Vec<Flat<'a>>,
        m: &'a Msg,
        path: &[String],
        package: usize,
        parent: Option<usize>,
    ) {
        let at = out.len();
        out.push(Flat { decl: Decl::M(m), full: join(path, &m.name), package, parent });
        let mut inner = path.to_vec();
        inner.push(m.name.clone());
        for mem in &m.members {
            match mem {
                Member::Message(n) => message(out, n, &inner, package, Some(at)),
                Member::Enum(e) => out.push(Flat {
                    decl: Decl::E(e),
                    full: join(&inner, &e.name),
                    package,
                    parent: Some(at),
                }),
                _ => {}
            }
        }
    }
    let mut out = vec![];
    for (package, f) in fs.files.iter().enumerate() {
        let path = f.package_path();
        for item in &f.items {
            match item {
                Item::Message(m) => message(&mut out, m, &path, package, None),
                Item::Enum(e) => out.push(Flat {
                    decl: Decl::E(e),
                    full: join(&path, &e.name),
                    package,
                    parent: None,
                }),
                Item::Service(_) => {}
            }
        }
    }
    out
}

/// Inserts everything but services, in declaration order. Needs one package per file and enums
/// without aliases.
pub fn build(fs: &FileSet) -> Result<Context, String> {
    build_ordered(fs, None)
}

/// With an order, the fields of every message come in an order derived from it and the oneofs
/// last, over the existing fields.
pub fn build_ordered(fs: &FileSet, order: Option<u64>) -> Result<Context, String> {
    build_with(fs, order, None)
}

/// Also with another multiplicity than the declared one for one field (of a message by its full
/// name): what no proto file can say.
pub fn build_with(
    fs: &FileSet,
    order: Option<u64>,
    other: Option<(&str, u64, Mult)>,
) -> Result<Context, String> {
    let flat = flatten(fs);
    // The references are needed before the items exist: they come from a context that has the
    // same items without contents.
    let mut refs: BTreeMap<String, pc::TypeRef> = BTreeMap::new();
    let mut result = Context::new();
    for full in [false, true] {
        let mut ctx = Context::new();
        let mut packages = vec![];
        for f in &fs.files {
            let p = pc::Package::new(f.package.as_ref().map(|p| p.join(".")));
            packages.push(
                ctx.insert_package(p).map_err(|e| format!("insert_package failed: {:?}", e))?,
            );
        }
        let mut inserted: Vec<pc::TypeRef> = vec![];
        for item in &flat {
            let parent = match item.parent {
                None => pc::TypeParent::Package(packages[item.package]),
                Some(p) => match inserted[p] {
                    pc::TypeRef::Message(m) => pc::TypeParent::Message(m),
                    _ => unreachable!(),
                },
            };
            let r = match item.decl {
                Decl::M(m) => {
                    let mut info = pc::MessageInfo::new(m.name.clone(), parent);
                    if full {
                        let other = other.filter(|o| o.0 == item.full).map(|o| (o.1, o.2));
                        fill(&mut info, m, &refs, order, other)?;
                    }
                    pc::TypeRef::Message(
                        ctx.insert_message(info)
                            .map_err(|e| format!("insert_message {} failed: {:?}", item.full, e))?,
                    )
                }
                Decl::E(e) => {
                    let mut info = pc::EnumInfo::new(e.name.clone(), parent);
                    if full {
                        for v in &e.values {
                            let mut f = pc::EnumField::new(v.name.clone(), v.value);
                            f.options = proto_options(&v.opts);
                            info.add_field(f)
                                .map_err(|e| format!("add enum value {}: {:?}", v.name, e))?;
                        }
                    }
                    pc::TypeRef::Enum(
                        ctx.insert_enum(info)
                            .map_err(|e| format!("insert_enum {} failed: {:?}", item.full, e))?,
                    )
                }
            };
            inserted.push(r);
            if full {
                if refs[&item.full] != r {
                    return Err(format!(
                        "{} got reference {:?}, but {:?} in a context built by the same insertions",
                        item.full, r, refs[&item.full]
                    ));
                }
            } else {
                refs.insert(item.full.clone(), r);
            }
        }
        result = ctx;
    }
    Ok(result)
}

fn field_info(
    f: &Field,
    refs: &BTreeMap<String, pc::TypeRef>,
    oneof: Option<pc::OneofRef>,
    other: Option<(u64, Mult)>,
) -> Result<pc::MessageField, String> {
    let ty = match &f.ty {
        Ty::Scalar(s) => scalar_type(*s),
        Ty::Ref(r) => match refs.get(&r.target) {
            Some(pc::TypeRef::Message(m)) => pc::ValueType::Message(*m),
            Some(pc::TypeRef::Enum(e)) => pc::ValueType::Enum(*e),
            None => return Err(format!("no type {}", r.target)),
        },
    };
    let mut info = pc::MessageField::new(f.name.clone(), f.number, ty);
    // What a new field has by default is left as it is.
    match other {
        Some((n, m)) if n == f.number => info.multiplicity = multiplicity(m),
        _ => match view::multiplicity(f) {
            Mult::Single => {}
            m => info.multiplicity = multiplicity(m),
        },
    }
    if !f.opts.is_empty() {
        info.options = proto_options(&f.opts);
    }
    if oneof.is_some() {
        info.oneof = oneof;
    }
    Ok(info)
}

fn fill(
    info: &mut pc::MessageInfo,
    m: &Msg,
    refs: &BTreeMap<String, pc::TypeRef>,
    order: Option<u64>,
    other: Option<(u64, Mult)>,
) -> Result<(), String> {
    if let Some(order) = order {
        let mut fields: Vec<&Field> = m.fields().into_iter().map(|(f, _)| f).collect();
        fields.sort_by_key(|f| crate::tape::mix(order ^ f.number));
        for f in fields {
            info.add_field(field_info(f, refs, None, other)?)
                .map_err(|e| format!("add_field {}: {:?}", f.name, e))?;
        }
        for o in m.oneofs() {
            let mut oneof = pc::Oneof::new(o.name.clone());
            oneof.options = proto_options(&o.opts);
            oneof.fields = o.fields.iter().map(|f| f.number).collect();
            oneof.fields.sort();
            info.add_oneof(oneof).map_err(|e| format!("add_oneof {}: {:?}", o.name, e))?;
        }
        return Ok(());
    }
    for mem in &m.members {
        match mem {
            Member::Field(f) => info
                .add_field(field_info(f, refs, None, other)?)
                .map_err(|e| format!("add_field {}: {:?}", f.name, e))?,
            Member::Oneof(o) => {
                let mut oneof = pc::Oneof::new(o.name.clone());
                oneof.options = proto_options(&o.opts);
                let r = info
                    .add_oneof(oneof)
                    .map_err(|e| format!("add_oneof {}: {:?}", o.name, e))?;
                // The fields of a oneof are listed by number.
                let mut fields: Vec<&Field> = o.fields.iter().collect();
                fields.sort_by_key(|f| f.number);
                for f in fields {
                    info.add_field(field_info(f, refs, Some(r), other)?)
                        .map_err(|e| format!("add_field {}: {:?}", f.name, e))?;
                }
            }
            _ => {}
        }
    }
    Ok(())
}

/// Contexts that no proto file can declare: any multiplicity on any type, any field number.
pub fn odd_world(src: &mut Source) -> Option<World> {
    let n_msgs = src.range(1, 3);
    let n_enums = src.below(2);
    let mut types = Types::default();
    for e in 0..n_enums {
        types.enums.push((format!("E{}", e), vec![0, 1, -1]));
    }
    for i in 0..n_msgs {
        let mut fields = BTreeMap::new();
        let n = src.range(1, 12);
        for _ in 0..n {
            let number = match src.weighted(&[70, 10, 20]) {
                0 => 1 + src.draw(20),
                1 => 0,
                _ => src.int(),
            };
            let ty = match src.weighted(&[60, 25, if n_enums > 0 { 15 } else { 0 }]) {
                0 => TTy::Scalar(*src.pick(&SCALARS)),
                1 => TTy::Msg(src.below(n_msgs)),
                _ => TTy::Enum(src.below(n_enums)),
            };
            let mult = *src.pick(&[Mult::Packed, Mult::Repeated, Mult::Single, Mult::Optional]);
            fields.insert(number, TField { ty, mult });
        }
        types.msgs.push(TMsg {
            name: format!("M{}", i),
            numbers: fields.keys().cloned().collect(),
            fields,
        });
    }
    let mut h = Handles::default();
    let mut result = None;
    for full in [false, true] {
        let mut ctx = Context::new();
        let p = ctx.insert_package(pc::Package::new(None)).ok()?;
        let parent = pc::TypeParent::Package(p);
        let mut next = Handles::default();
        for (e, values) in &types.enums {
            let mut info = pc::EnumInfo::new(e.clone(), parent);
            for v in values {
                info.add_field(pc::EnumField::new(format!("v{}", v), *v)).ok()?;
            }
            next.enums.push(ctx.insert_enum(info).ok()?);
        }
        for m in &types.msgs {
            let mut info = pc::MessageInfo::new(m.name.clone(), parent);
            if full {
                for (n, f) in &m.fields {
                    let ty = match f.ty {
                        TTy::Scalar(s) => scalar_type(s),
                        TTy::Msg(i) => pc::ValueType::Message(h.msgs[i]),
                        TTy::Enum(i) => pc::ValueType::Enum(h.enums[i]),
                    };
                    let mut fi = pc::MessageField::new(format!("f{}", n), *n, ty);
                    fi.multiplicity = multiplicity(f.mult);
                    info.add_field(fi).ok()?;
                }
            }
            next.msgs.push(ctx.insert_message(info).ok()?);
        }
        h = next;
        result = Some(ctx);
    }
    h.index();
    let text = format!("{:#?}", types.msgs);
    Some(World { text, ctx: result?, types, h, parsed: false })
}

/// One message with every type of field in every multiplicity, below field number 16 where it
/// matters, so that short payloads reach them.
pub const FIXED: &str = r#"
syntax = "proto3";
message M {
  M m = 1 [lazy = true];
  repeated int32 packed_int32 = 2;
  sint32 s32 = 3;
  bool b = 4 [deprecated = true];
  string s = 5 [ctype = CORD, json_name = "text"];
  bytes y = 6;
  E e = 7;
  repeated double packed_double = 8 [packed = true];
  float f = 9;
  fixed64 f64 = 10;
  repeated sint64 unpacked = 11 [packed = false];
  oneof o { uint64 u = 12; M n = 13; }
  optional int64 i64 = 14 [jstype = JS_STRING];
  repeated M ms = 15;
  repeated string ss = 16;
}
enum E { Z = 0; A = 1; N = -1; }
"#;

pub fn fixed() -> Option<World> {
    let ctx = Context::parse(&[FIXED]).ok()?;
    let mut fields = BTreeMap::new();
    let mut add = |n: u64, ty: TTy, mult: Mult| {
        fields.insert(n, TField { ty, mult });
    };
    use Mult::*;
    add(1, TTy::Msg(0), Single);
    add(2, TTy::Scalar(Scalar::Int32), Packed);
    add(3, TTy::Scalar(Scalar::SInt32), Single);
    add(4, TTy::Scalar(Scalar::Bool), Single);
    add(5, TTy::Scalar(Scalar::String), Single);
    add(6, TTy::Scalar(Scalar::Bytes), Single);
    add(7, TTy::Enum(0), Single);
    add(8, TTy::Scalar(Scalar::Double), Packed);
    add(9, TTy::Scalar(Scalar::Float), Single);
    add(10, TTy::Scalar(Scalar::Fixed64), Single);
    add(11, TTy::Scalar(Scalar::SInt64), Repeated);
    add(12, TTy::Scalar(Scalar::UInt64), Single);
    add(13, TTy::Msg(0), Single);
    add(14, TTy::Scalar(Scalar::Int64), Optional);
    add(15, TTy::Msg(0), Repeated);
    add(16, TTy::Scalar(Scalar::String), Repeated);
    let types = Types {
        msgs: vec![TMsg { name: "M".into(), numbers: fields.keys().cloned().collect(), fields }],
        enums: vec![("E".into(), vec![0, 1, -1])],
    };
    let h = types.handles(&ctx)?;
    Some(World { text: FIXED.to_string(), ctx, types, h, parsed: true })
}

pub fn fixed_type(_: &World) -> usize {
    0
}

/// Number of the grand messages.
pub const GRAND: u64 = 14;

/// Messages of the fixed type beyond the counts and sizes that are drawn at random: whatever is
/// limited to 16 bits, or by a step of a table, shows here. The values agree with the types.
pub fn grand(i: u64) -> RMsg {
    let value = |k: u64| crate::tape::mix(k) >> (k % 64);
    let num = |s: Scalar, k: u64| RV::Num(s, cast(s, value(k)));
    let of = |fields: Vec<(u64, RV)>| RMsg { ty: 0, fields, garbage: None };
    let small = |k: u64| of(vec![(3, num(Scalar::SInt32, k)), (4, RV::Num(Scalar::Bool, k & 1))]);
    let mut f: Vec<(u64, RV)> = vec![(14, num(Scalar::Int64, i))];
    match i {
        0 => f.extend((0..70_000).map(|k| (11, num(Scalar::SInt64, k)))),
        1 => f.extend((0..140_000).map(|k| match k % 4 {
            0 | 2 => (12, num(Scalar::UInt64, k)),
            1 => (13, RV::Msg(of(vec![]))),
            _ => (14, num(Scalar::Int64, k)),
        })),
        2 => f.push((2, RV::Packed(Scalar::Int32, (0..140_000).map(|k| cast(Scalar::Int32, value(k))).collect()))),
        3 => f.push((8, RV::Packed(Scalar::Double, (0..70_000).map(|k| k << 52 | k).map(|v| v % (0x7ff << 52)).collect()))),
        4 => f.push((5, RV::Str("aé\u{10348}".repeat(10_001)))),
        5 => f.push((6, RV::Bytes((0..2_200_000u64).map(|k| (k ^ k >> 8) as u8).collect()))),
        6 => f.push((1, RV::Msg(of(vec![(6, RV::Bytes(vec![0xf0; 70_000])), (1, RV::Msg(small(1))), (5, RV::Str("end".into()))])))),
        7 => f.extend((0..70_000).map(|k| (15, RV::Msg(if k % 3 == 0 { of(vec![]) } else { small(k) })))),
        8 => f.extend((0..70_000u64).map(|k| (16, RV::Str(k.to_string())))),
        9 => {
            let mut m = small(0);
            for level in 0..3 {
                let mut l: Vec<(u64, RV)> = (0..20_000).map(|k| (7 + 2 * (k & 1), if k & 1 == 0 { RV::Enum(0, k as i64) } else { RV::Num(Scalar::Float, k & 0xffff) })).collect();
                l.insert(10_000 * level, (1, RV::Msg(m)));
                m = of(l);
            }
            f.push((13, RV::Msg(m)));
        }
        10 => f.extend((0..600).map(|n| (2, RV::Packed(Scalar::Int32, (0..n).map(|k| cast(Scalar::Int32, value(k))).collect())))),
        12 => f.push((6, RV::Bytes(vec![0x5a; 17_000_000]))),
        11 => f.extend((0..66_000).map(|k| (7, RV::Enum(0, value(k) as i64)))),
        _ => f.extend((0..66_000).map(|k| (10, RV::Num(Scalar::Fixed64, value(k))))),
    }
    f.extend(small(i).fields);
    of(f)
}

/// A grand message with fields among it that no declaration takes, many of them.
pub fn grand_raw(i: u64) -> RMsg {
    let mut m = grand(i);
    let raw = |k: u64| -> (u64, RV) {
        let v = crate::tape::mix(k);
        match k % 5 {
            0 => (17 + k, RV::UVarint((v >> (v % 64)) as u128)),
            1 => (17 + v % 1000, RV::UFixed64(v)),
            2 => (1 << 29 | k, RV::ULen(vec![k as u8; (v % 20) as usize])),
            3 => (3, RV::UFixed32(v as u32)),
            _ => (6, RV::UVarint(v as u128)),
        }
    };
    let mut out: Vec<(u64, RV)> = vec![];
    for (k, field) in m.fields.drain(..).enumerate() {
        if k % 3 == 0 {
            out.push(raw(k as u64));
        }
        out.push(field);
    }
    if out.len() < 100 {
        out.extend((0..70_000).map(raw));
        out.push((4, RV::Num(Scalar::Bool, 1)));
    }
    m.fields = out;
    m
}
