//! Reference model of payloads: values, an encoder and a decoder written from the protobuf
//! encoding specification, a value generator, and conversions from and to protofish's values.

use crate::schema::{random_char, Scalar, NUMERIC};
use crate::tape::Source;
use crate::view::{Mult, TyView, View};
use bytes::Bytes;
use protofish::context::{Context, EnumRef, MessageRef};
use protofish::decode::{EnumValue, FieldValue, MessageValue, PackedArray, UnknownValue, Value};
use std::collections::{BTreeMap, HashMap};

/// Messages nested within each other that are decoded (the outermost counts).
pub const LIMIT: usize = 100;

// ------------------------------------------------------------------------------------------
// Types
// ------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TTy {
    Scalar(Scalar),
    Msg(usize),
    Enum(usize),
}

impl TTy {
    pub fn wire_type(self) -> u8 {
        match self {
            TTy::Scalar(s) => s.wire_type(),
            TTy::Msg(_) => 2,
            TTy::Enum(_) => 0,
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct TField {
    pub ty: TTy,
    pub mult: Mult,
}

impl TField {
    pub fn repeated(&self) -> bool {
        matches!(self.mult, Mult::Repeated | Mult::Packed)
    }
    /// Takes packed arrays.
    pub fn packs(&self) -> Option<Scalar> {
        match self.ty {
            TTy::Scalar(s) if s.packable() && self.repeated() => Some(s),
            _ => None,
        }
    }
}

#[derive(Default, Clone, Debug)]
pub struct TMsg {
    pub name: String,
    pub fields: BTreeMap<u64, TField>,
    pub numbers: Vec<u64>,
}

#[derive(Clone, Debug, Default)]
pub struct Types {
    pub msgs: Vec<TMsg>,
    pub enums: Vec<(String, Vec<i64>)>,
}

impl Types {
    pub fn of(view: &View) -> Types {
        let midx: HashMap<&str, usize> =
            view.messages.keys().enumerate().map(|(i, k)| (k.as_str(), i)).collect();
        let eidx: HashMap<&str, usize> =
            view.enums.keys().enumerate().map(|(i, k)| (k.as_str(), i)).collect();
        let msgs = view
            .messages
            .iter()
            .map(|(name, m)| {
                let fields: BTreeMap<u64, TField> = m
                    .fields
                    .values()
                    .map(|f| {
                        let ty = match &f.ty {
                            TyView::Scalar(s) => TTy::Scalar(*s),
                            TyView::Message(n) => TTy::Msg(midx[n.as_str()]),
                            TyView::Enum(n) => TTy::Enum(eidx[n.as_str()]),
                            TyView::Other(o) => panic!("type {}", o),
                        };
                        (f.number, TField { ty, mult: f.mult })
                    })
                    .collect();
                TMsg { name: name.clone(), numbers: fields.keys().cloned().collect(), fields }
            })
            .collect();
        let enums = view
            .enums
            .iter()
            .map(|(n, e)| (n.clone(), e.values.keys().cloned().collect()))
            .collect();
        Types { msgs, enums }
    }

    pub fn handles(&self, ctx: &Context) -> Option<Handles> {
        let mut h = Handles::default();
        for m in &self.msgs {
            h.msgs.push(ctx.get_message(&m.name)?.self_ref);
        }
        for (e, _) in &self.enums {
            match ctx.get_type(e)? {
                protofish::context::TypeInfo::Enum(e) => h.enums.push(e.self_ref),
                _ => return None,
            }
        }
        h.index();
        Some(h)
    }
}

/// The references of the types in one context.
#[derive(Clone, Debug, Default)]
pub struct Handles {
    pub msgs: Vec<MessageRef>,
    pub enums: Vec<EnumRef>,
    midx: HashMap<MessageRef, usize>,
    eidx: HashMap<EnumRef, usize>,
}

impl Handles {
    pub fn index(&mut self) {
        self.midx = self.msgs.iter().enumerate().map(|(i, r)| (*r, i)).collect();
        self.eidx = self.enums.iter().enumerate().map(|(i, r)| (*r, i)).collect();
    }
}

// ------------------------------------------------------------------------------------------
// Values
// ------------------------------------------------------------------------------------------

/// Numbers are kept as 64 bits: sign extended for signed types, raw bits for floats.
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum RV {
    Num(Scalar, u64),
    Str(String),
    Bytes(Vec<u8>),
    Packed(Scalar, Vec<u64>),
    Msg(RMsg),
    Enum(usize, i64),
    Incomplete(u8, Vec<u8>),
    UVarint(u128),
    UFixed64(u64),
    UFixed32(u32),
    ULen(Vec<u8>),
    UInvalid(u8, Vec<u8>),
    Other(String),
}

#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct RMsg {
    pub ty: usize,
    pub fields: Vec<(u64, RV)>,
    pub garbage: Option<Vec<u8>>,
}

pub fn hex(b: &[u8]) -> String {
    let n = b.len().min(400);
    let mut s: String = b[..n].iter().map(|b| format!("{:02x}", b)).collect();
    if b.len() > n {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

impl std::fmt::Debug for RV {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            RV::Num(s, v) => match s {
                Scalar::Double => {
                    write!(f, "double {:?} (bits {:x})", f64::from_bits(*v), v)
                }
                Scalar::Float => {
                    write!(f, "float {:?} (bits {:x})", f32::from_bits(*v as u32), v)
                }
                _ => write!(f, "{} {}", s.name(), show_num(*s, *v)),
            },
            RV::Str(s) => {
                let t: String = s.chars().take(100).collect();
                write!(f, "string[{}] {:?}", s.len(), t)
            }
            RV::Bytes(b) => write!(f, "bytes[{}] {}", b.len(), hex(b)),
            RV::Packed(s, v) => {
                let t: Vec<String> = v.iter().take(20).map(|v| show_num(*s, *v)).collect();
                write!(f, "packed {}[{}] [{}]", s.name(), v.len(), t.join(", "))
            }
            RV::Msg(m) => m.fmt(f),
            RV::Enum(e, v) => write!(f, "enum#{} {}", *e as isize, v),
            RV::Incomplete(w, b) => write!(f, "Incomplete({}, {})", w, hex(b)),
            RV::UVarint(v) => write!(f, "unknown varint {}", v),
            RV::UFixed64(v) => write!(f, "unknown fixed64 {:x}", v),
            RV::UFixed32(v) => write!(f, "unknown fixed32 {:x}", v),
            RV::ULen(b) => write!(f, "unknown length[{}] {}", b.len(), hex(b)),
            RV::UInvalid(w, b) => write!(f, "Invalid({}, {})", w, hex(b)),
            RV::Other(s) => f.write_str(s),
        }
    }
}

impl std::fmt::Debug for RMsg {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "msg#{} {{", self.ty as isize)?;
        for (n, v) in self.fields.iter().take(40) {
            write!(f, " {}: {:?};", n, v)?;
        }
        if self.fields.len() > 40 {
            write!(f, " ..({} fields)", self.fields.len())?;
        }
        if let Some(g) = &self.garbage {
            write!(f, " garbage {}", hex(g))?;
        }
        write!(f, " }}")
    }
}

fn show_num(s: Scalar, v: u64) -> String {
    use Scalar::*;
    match s {
        Int32 | Int64 | SInt32 | SInt64 | SFixed32 | SFixed64 => (v as i64).to_string(),
        Double => format!("{:?}", f64::from_bits(v)),
        Float => format!("{:?}", f32::from_bits(v as u32)),
        Bool => (v != 0).to_string(),
        _ => v.to_string(),
    }
}

impl RMsg {
    pub fn depth(&self) -> usize {
        let mut d = 0;
        for (_, v) in &self.fields {
            if let RV::Msg(m) = v {
                d = d.max(m.depth());
            }
        }
        d + 1
    }
    pub fn count(&self) -> usize {
        self.fields
            .iter()
            .map(|(_, v)| match v {
                RV::Msg(m) => 1 + m.count(),
                _ => 1,
            })
            .sum()
    }
}

// ------------------------------------------------------------------------------------------
// Encoder
// ------------------------------------------------------------------------------------------

pub fn put_varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

/// A varint of exactly `len` bytes (padded with redundant groups). `top` goes into the bits of
/// the tenth byte that do not fit 64 bits.
/// What is wider than any field type holds is written out as well.
pub fn put_varint_wide(out: &mut Vec<u8>, mut v: u128) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

pub fn put_varint_padded(out: &mut Vec<u8>, v: u64, len: usize, top: u8) {
    let mut v = v as u128;
    for i in 0..len {
        let mut b = (v & 0x7f) as u8;
        v >>= 7;
        if i == 9 {
            b |= top & 0x7e;
        }
        if i + 1 < len {
            b |= 0x80;
        }
        out.push(b);
    }
}

pub fn varint_len(v: u64) -> usize {
    let bits = 64 - (v | 1).leading_zeros() as usize;
    (bits + 6) / 7
}

pub fn put_tag(out: &mut Vec<u8>, number: u64, wt: u8) {
    put_varint(out, (number << 3) | wt as u64);
}

/// The varint of a varint typed scalar.
pub fn varint_of(s: Scalar, v: u64) -> u64 {
    use Scalar::*;
    match s {
        SInt32 => {
            let n = v as i64 as i32;
            (((n as u32) << 1) ^ ((n >> 31) as u32)) as u64
        }
        SInt64 => {
            let n = v as i64;
            ((n as u64) << 1) ^ ((n >> 63) as u64)
        }
        _ => v,
    }
}

pub fn put_num(out: &mut Vec<u8>, s: Scalar, v: u64) {
    match s.wire_type() {
        0 => put_varint(out, varint_of(s, v)),
        1 => out.extend_from_slice(&v.to_le_bytes()),
        5 => out.extend_from_slice(&(v as u32).to_le_bytes()),
        _ => unreachable!(),
    }
}

pub fn put_len(out: &mut Vec<u8>, content: &[u8]) {
    put_varint(out, content.len() as u64);
    out.extend_from_slice(content);
}

pub fn wire_type(v: &RV) -> u8 {
    match v {
        RV::Num(s, _) => s.wire_type(),
        RV::Str(_) | RV::Bytes(_) | RV::Packed(..) | RV::Msg(_) | RV::ULen(_) => 2,
        RV::Enum(..) | RV::UVarint(_) => 0,
        RV::Incomplete(w, _) | RV::UInvalid(w, _) => *w,
        RV::UFixed64(_) => 1,
        RV::UFixed32(_) => 5,
        RV::Other(_) => 0,
    }
}

pub fn put_value(out: &mut Vec<u8>, v: &RV) {
    match v {
        RV::Num(s, v) => put_num(out, *s, *v),
        RV::Str(s) => put_len(out, s.as_bytes()),
        RV::Bytes(b) | RV::ULen(b) => put_len(out, b),
        RV::Packed(s, vs) => {
            let mut c = vec![];
            for v in vs {
                put_num(&mut c, *s, *v);
            }
            put_len(out, &c);
        }
        RV::Msg(m) => put_len(out, &encode(m)),
        RV::Enum(_, v) => put_varint(out, *v as u64),
        RV::Incomplete(_, b) | RV::UInvalid(_, b) => out.extend_from_slice(b),
        RV::UVarint(v) => put_varint_wide(out, *v),
        RV::UFixed64(v) => out.extend_from_slice(&v.to_le_bytes()),
        RV::UFixed32(v) => out.extend_from_slice(&v.to_le_bytes()),
        RV::Other(_) => {}
    }
}

pub fn encode_field(number: u64, v: &RV) -> Vec<u8> {
    let mut out = vec![];
    put_tag(&mut out, number, wire_type(v));
    put_value(&mut out, v);
    out
}

pub fn encode(m: &RMsg) -> Vec<u8> {
    let mut out = vec![];
    for (n, v) in &m.fields {
        put_tag(&mut out, *n, wire_type(v));
        put_value(&mut out, v);
    }
    if let Some(g) = &m.garbage {
        out.extend_from_slice(g);
    }
    out
}

// ------------------------------------------------------------------------------------------
// Decoder
// ------------------------------------------------------------------------------------------

/// Reads a varint of at most ten bytes; returns the low 64 bits and whether it was minimal.
pub fn get_varint(data: &mut &[u8]) -> Option<(u64, bool)> {
    let mut v = 0u128;
    for (i, b) in data.iter().enumerate().take(10) {
        v |= ((b & 0x7f) as u128) << (7 * i);
        if b & 0x80 == 0 {
            let minimal = v >> 64 == 0 && varint_len(v as u64) == i + 1;
            *data = &data[i + 1..];
            return Some((v as u64, minimal));
        }
    }
    None
}

/// The value a varint stands for.
pub fn cast(s: Scalar, u: u64) -> u64 {
    use Scalar::*;
    match s {
        Int32 => u as i32 as i64 as u64,
        UInt32 => u as u32 as u64,
        Int64 | UInt64 => u,
        SInt32 => {
            let u = u as u32;
            let n = (u >> 1) as i32;
            (if u & 1 == 1 { !n } else { n }) as i64 as u64
        }
        SInt64 => {
            let n = (u >> 1) as i64;
            (if u & 1 == 1 { !n } else { n }) as u64
        }
        Bool => (u != 0) as u64,
        _ => unreachable!(),
    }
}

fn get_num(data: &mut &[u8], s: Scalar, canonical: &mut bool) -> Option<u64> {
    match s.wire_type() {
        0 => {
            let (u, minimal) = get_varint(data)?;
            let v = cast(s, u);
            if !minimal || varint_of(s, v) != u {
                *canonical = false;
            }
            Some(v)
        }
        1 => {
            let b: [u8; 8] = data.get(..8)?.try_into().unwrap();
            *data = &data[8..];
            Some(u64::from_le_bytes(b))
        }
        5 => {
            let b: [u8; 4] = data.get(..4)?.try_into().unwrap();
            *data = &data[4..];
            let v = u32::from_le_bytes(b);
            Some(if s == Scalar::SFixed32 { v as i32 as i64 as u64 } else { v as u64 })
        }
        _ => unreachable!(),
    }
}

fn get_len<'a>(data: &mut &'a [u8], canonical: &mut bool) -> Option<&'a [u8]> {
    let mut d = *data;
    let (n, minimal) = get_varint(&mut d)?;
    if n > d.len() as u64 {
        return None;
    }
    let (content, rest) = d.split_at(n as usize);
    *data = rest;
    if !minimal {
        *canonical = false;
    }
    Some(content)
}

/// Decodes; clears `canonical` where re-encoding the values cannot give the same bytes.
pub fn decode(types: &Types, ty: usize, data: &[u8], canonical: &mut bool) -> RMsg {
    decode_at(types, ty, data, 1, canonical)
}

fn decode_at(types: &Types, ty: usize, mut data: &[u8], depth: usize, canonical: &mut bool) -> RMsg {
    let mut m = RMsg { ty, ..RMsg::default() };
    while !data.is_empty() {
        let (tag, minimal) = match get_varint(&mut data) {
            Some(t) => t,
            None => {
                m.garbage = Some(data.to_vec());
                break;
            }
        };
        if !minimal {
            *canonical = false;
        }
        let (number, wt) = (tag >> 3, (tag & 7) as u8);
        let rest = data;
        let v = value_at(types, types.msgs[ty].fields.get(&number), wt, &mut data, depth, canonical);
        let v = v.unwrap_or_else(|| {
            data = &[];
            RV::Incomplete(wt, rest.to_vec())
        });
        m.fields.push((number, v));
    }
    m
}

fn value_at(
    types: &Types,
    field: Option<&TField>,
    wt: u8,
    data: &mut &[u8],
    depth: usize,
    canonical: &mut bool,
) -> Option<RV> {
    if let Some(f) = field {
        if wt == 2 {
            if let Some(s) = f.packs() {
                let start = *data;
                let mut ok = true;
                let mut content = get_len(data, &mut ok)?;
                let whole = &start[..start.len() - data.len()];
                let mut out = vec![];
                while !content.is_empty() {
                    match get_num(&mut content, s, &mut ok) {
                        Some(v) => out.push(v),
                        None => return Some(RV::Incomplete(2, whole.to_vec())),
                    }
                }
                *canonical &= ok;
                return Some(RV::Packed(s, out));
            }
        }
        if wt == f.ty.wire_type() {
            match f.ty {
                TTy::Scalar(Scalar::String) => {
                    let c = get_len(data, canonical)?;
                    if std::str::from_utf8(c).is_err() {
                        *canonical = false;
                    }
                    return Some(RV::Str(String::from_utf8_lossy(c).into_owned()));
                }
                TTy::Scalar(Scalar::Bytes) => {
                    return get_len(data, canonical).map(|c| RV::Bytes(c.to_vec()))
                }
                TTy::Scalar(s) => return get_num(data, s, canonical).map(|v| RV::Num(s, v)),
                TTy::Enum(e) => {
                    let (u, minimal) = get_varint(data)?;
                    *canonical &= minimal;
                    return Some(RV::Enum(e, u as i64));
                }
                TTy::Msg(t) if depth < LIMIT => {
                    let c = get_len(data, canonical)?;
                    return Some(RV::Msg(decode_at(types, t, c, depth + 1, canonical)));
                }
                TTy::Msg(_) => {}
            }
        }
    }
    match wt {
        0 => {
            let (u, minimal) = get_varint(data)?;
            *canonical &= minimal;
            Some(RV::UVarint(u as u128))
        }
        1 => get_num(data, Scalar::Fixed64, canonical).map(RV::UFixed64),
        2 => get_len(data, canonical).map(|c| RV::ULen(c.to_vec())),
        5 => get_num(data, Scalar::Fixed32, canonical).map(|v| RV::UFixed32(v as u32)),
        w => {
            let all = data.to_vec();
            *data = &[];
            Some(RV::UInvalid(w, all))
        }
    }
}

// ------------------------------------------------------------------------------------------
// protofish values
// ------------------------------------------------------------------------------------------

pub fn from_sut(h: &Handles, m: &MessageValue) -> RMsg {
    RMsg {
        ty: h.midx.get(&m.msg_ref).cloned().unwrap_or(usize::MAX),
        fields: m.fields.iter().map(|f| (f.number, value_from_sut(h, &f.value))).collect(),
        garbage: m.garbage.as_ref().map(|b| b.to_vec()),
    }
}

#[allow(unreachable_patterns)]
pub fn value_from_sut(h: &Handles, v: &Value) -> RV {
    use Scalar::*;
    fn n(s: Scalar, v: u64) -> RV {
        RV::Num(s, v)
    }
    match v {
        Value::Double(v) => n(Double, v.to_bits()),
        Value::Float(v) => n(Float, v.to_bits() as u64),
        Value::Int32(v) => n(Int32, *v as i64 as u64),
        Value::Int64(v) => n(Int64, *v as u64),
        Value::UInt32(v) => n(UInt32, *v as u64),
        Value::UInt64(v) => n(UInt64, *v),
        Value::SInt32(v) => n(SInt32, *v as i64 as u64),
        Value::SInt64(v) => n(SInt64, *v as u64),
        Value::Fixed32(v) => n(Fixed32, *v as u64),
        Value::Fixed64(v) => n(Fixed64, *v),
        Value::SFixed32(v) => n(SFixed32, *v as i64 as u64),
        Value::SFixed64(v) => n(SFixed64, *v as u64),
        Value::Bool(v) => n(Bool, *v as u64),
        Value::String(s) => RV::Str(s.clone()),
        Value::Bytes(b) => RV::Bytes(b.to_vec()),
        Value::Packed(p) => packed_from_sut(p),
        Value::Message(m) => RV::Msg(from_sut(h, m)),
        Value::Enum(e) => {
            RV::Enum(h.eidx.get(&e.enum_ref).cloned().unwrap_or(usize::MAX), e.value)
        }
        Value::Incomplete(w, b) => RV::Incomplete(*w, b.to_vec()),
        Value::Unknown(UnknownValue::Varint(v)) => RV::UVarint(*v),
        Value::Unknown(UnknownValue::Fixed64(v)) => RV::UFixed64(*v),
        Value::Unknown(UnknownValue::VariableLength(b)) => RV::ULen(b.to_vec()),
        Value::Unknown(UnknownValue::Fixed32(v)) => RV::UFixed32(*v),
        Value::Unknown(UnknownValue::Invalid(w, b)) => RV::UInvalid(*w, b.to_vec()),
        o => RV::Other(format!("{:?}", o)),
    }
}

#[allow(unreachable_patterns)]
fn packed_from_sut(p: &PackedArray) -> RV {
    use Scalar::*;
    macro_rules! p {
        ($s:ident, $v:ident, $f:expr) => {
            RV::Packed($s, $v.iter().map($f).collect())
        };
    }
    match p {
        PackedArray::Double(v) => p!(Double, v, |v| v.to_bits()),
        PackedArray::Float(v) => p!(Float, v, |v| v.to_bits() as u64),
        PackedArray::Int32(v) => p!(Int32, v, |v| *v as i64 as u64),
        PackedArray::Int64(v) => p!(Int64, v, |v| *v as u64),
        PackedArray::UInt32(v) => p!(UInt32, v, |v| *v as u64),
        PackedArray::UInt64(v) => p!(UInt64, v, |v| *v),
        PackedArray::SInt32(v) => p!(SInt32, v, |v| *v as i64 as u64),
        PackedArray::SInt64(v) => p!(SInt64, v, |v| *v as u64),
        PackedArray::Fixed32(v) => p!(Fixed32, v, |v| *v as u64),
        PackedArray::Fixed64(v) => p!(Fixed64, v, |v| *v),
        PackedArray::SFixed32(v) => p!(SFixed32, v, |v| *v as i64 as u64),
        PackedArray::SFixed64(v) => p!(SFixed64, v, |v| *v as u64),
        PackedArray::Bool(v) => p!(Bool, v, |v| *v as u64),
        o => RV::Other(format!("{:?}", o)),
    }
}

pub fn to_sut(h: &Handles, m: &RMsg) -> MessageValue {
    MessageValue {
        msg_ref: h.msgs[m.ty],
        fields: m
            .fields
            .iter()
            .map(|(n, v)| FieldValue { number: *n, value: value_to_sut(h, v) })
            .collect(),
        garbage: m.garbage.as_ref().map(|b| Bytes::from(b.clone())),
    }
}

pub fn value_to_sut(h: &Handles, v: &RV) -> Value {
    use Scalar::*;
    match v {
        RV::Num(s, v) => {
            let v = *v;
            match s {
                Double => Value::Double(f64::from_bits(v)),
                Float => Value::Float(f32::from_bits(v as u32)),
                Int32 => Value::Int32(v as i32),
                Int64 => Value::Int64(v as i64),
                UInt32 => Value::UInt32(v as u32),
                UInt64 => Value::UInt64(v),
                SInt32 => Value::SInt32(v as i32),
                SInt64 => Value::SInt64(v as i64),
                Fixed32 => Value::Fixed32(v as u32),
                Fixed64 => Value::Fixed64(v),
                SFixed32 => Value::SFixed32(v as i32),
                SFixed64 => Value::SFixed64(v as i64),
                Bool => Value::Bool(v != 0),
                String | Bytes => unreachable!(),
            }
        }
        RV::Str(s) => Value::String(s.clone()),
        RV::Bytes(b) => Value::Bytes(b.clone().into()),
        RV::Packed(s, vs) => {
            macro_rules! p {
                ($f:expr) => {
                    vs.iter().map($f).collect()
                };
            }
            Value::Packed(match s {
                Double => PackedArray::Double(p!(|v| f64::from_bits(*v))),
                Float => PackedArray::Float(p!(|v| f32::from_bits(*v as u32))),
                Int32 => PackedArray::Int32(p!(|v| *v as i32)),
                Int64 => PackedArray::Int64(p!(|v| *v as i64)),
                UInt32 => PackedArray::UInt32(p!(|v| *v as u32)),
                UInt64 => PackedArray::UInt64(p!(|v| *v)),
                SInt32 => PackedArray::SInt32(p!(|v| *v as i32)),
                SInt64 => PackedArray::SInt64(p!(|v| *v as i64)),
                Fixed32 => PackedArray::Fixed32(p!(|v| *v as u32)),
                Fixed64 => PackedArray::Fixed64(p!(|v| *v)),
                SFixed32 => PackedArray::SFixed32(p!(|v| *v as i32)),
                SFixed64 => PackedArray::SFixed64(p!(|v| *v as i64)),
                Bool => PackedArray::Bool(p!(|v| *v != 0)),
                String | Bytes => unreachable!(),
            })
        }
        RV::Msg(m) => Value::Message(Box::new(to_sut(h, m))),
        RV::Enum(e, v) => Value::Enum(EnumValue { enum_ref: h.enums[*e], value: *v }),
        RV::Incomplete(w, b) => Value::Incomplete(*w, b.clone().into()),
        RV::UVarint(v) => Value::Unknown(UnknownValue::Varint(*v)),
        RV::UFixed64(v) => Value::Unknown(UnknownValue::Fixed64(*v)),
        RV::UFixed32(v) => Value::Unknown(UnknownValue::Fixed32(*v)),
        RV::ULen(b) => Value::Unknown(UnknownValue::VariableLength(b.clone().into())),
        RV::UInvalid(w, b) => Value::Unknown(UnknownValue::Invalid(*w, b.clone().into())),
        RV::Other(_) => unreachable!(),
    }
}

/// Says where two messages differ.
pub fn diff(expected: &RMsg, actual: &RMsg) -> Option<String> {
    diff_at(expected, actual, "")
}

fn diff_at(e: &RMsg, a: &RMsg, path: &str) -> Option<String> {
    if e == a {
        return None;
    }
    if e.ty != a.ty {
        return Some(format!("{}: message type {} expected, got {}", path, e.ty as isize, a.ty as isize));
    }
    for i in 0..e.fields.len().max(a.fields.len()) {
        match (e.fields.get(i), a.fields.get(i)) {
            (Some((n, RV::Msg(x))), Some((m, RV::Msg(y)))) if n == m => {
                if let Some(d) = diff_at(x, y, &format!("{}/{}[{}]", path, n, i)) {
                    return Some(d);
                }
            }
            (Some(x), Some(y)) if x == y => {}
            (x, y) => {
                let mut t = format!("{}/field at index {}: expected {:?}, got {:?}", path, i, x, y);
                if t.len() > 3000 {
                    let mut cut = 3000;
                    while !t.is_char_boundary(cut) {
                        cut -= 1;
                    }
                    t.truncate(cut);
                }
                return Some(t);
            }
        }
    }
    Some(format!(
        "{}/garbage: expected {:?}, got {:?}",
        path,
        e.garbage.as_deref().map(hex),
        a.garbage.as_deref().map(hex)
    ))
}

// ------------------------------------------------------------------------------------------
// Generator
// ------------------------------------------------------------------------------------------

pub fn gen_num(src: &mut Source, s: Scalar) -> u64 {
    use Scalar::*;
    match s {
        Int32 | SInt32 | SFixed32 => src.int() as i32 as i64 as u64,
        UInt32 | Fixed32 => src.int() as u32 as u64,
        Int64 | SInt64 | SFixed64 | UInt64 | Fixed64 => src.int(),
        Bool => src.draw(2),
        Float => {
            (match src.weighted(&[40, 30, 30]) {
                0 => (src.draw(2000) as f32 / 8.0 - 100.0).to_bits(),
                1 => *src.pick(&[
                    0u32, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0xffc0_0000,
                    0x7f80_0001, 0xff80_0001, 0x7fff_ffff, 0xffff_ffff, 1, 0x8000_0001,
                    0x7f7f_ffff, 0xff7f_ffff, 0x0080_0000, 0x007f_ffff, 0x7fa0_0000,
                ]),
                _ => src.draw(1 << 32) as u32,
            }) as u64
        }
        Double => match src.weighted(&[40, 30, 30]) {
            0 => (src.draw(2000) as f64 / 8.0 - 100.0).to_bits(),
            1 => *src.pick(&[
                0u64,
                1 << 63,
                0x7ff0_0000_0000_0000,
                0xfff0_0000_0000_0000,
                0x7ff8_0000_0000_0000,
                0xfff8_0000_0000_0000,
                0x7ff0_0000_0000_0001,
                0xfff0_0000_0000_0001,
                u64::MAX,
                u64::MAX >> 1,
                1,
                0x7fef_ffff_ffff_ffff,
                0x000f_ffff_ffff_ffff,
                0x0010_0000_0000_0000,
                0x7ff4_0000_0000_0000,
            ]),
            _ => src.draw(0),
        },
        String | Bytes => unreachable!(),
    }
}

/// Lengths around the places where a length prefix or a buffer grows.
pub fn gen_len(src: &mut Source, big: bool) -> usize {
    match src.weighted(&[60, 25, 10, if big { 2 } else { 0 }]) {
        0 => src.below(9),
        1 => src.below(40),
        2 => *src.pick(&[63usize, 64, 126, 127, 128, 129, 130, 255, 256, 257]),
        _ => *src.pick(&[
            1000usize, 4095, 4096, 16382, 16383, 16384, 16385, 20000, 65535, 65536, 65537,
        ]),
    }
}

pub fn gen_string(src: &mut Source, big: bool) -> String {
    let n = gen_len(src, big);
    let mut s = String::new();
    if n <= 40 {
        for _ in 0..n {
            s.push(random_char(src));
        }
        if src.chance(3) {
            s.insert(0, '\u{feff}');
        }
    } else {
        // Exactly n bytes, with a multi-byte character somewhere.
        let c = random_char(src);
        let fill = (b'a' + src.draw(26) as u8) as char;
        let at = src.below(n - c.len_utf8() + 1);
        while s.len() < at {
            s.push(fill);
        }
        s.push(c);
        while s.len() < n {
            s.push(fill);
        }
    }
    s
}

pub fn gen_bytes(src: &mut Source, big: bool) -> Vec<u8> {
    let n = gen_len(src, big);
    if n <= 16 {
        src.bytes(n)
    } else {
        src.bulk(n)
    }
}

pub fn gen_packed(src: &mut Source, s: Scalar, big: bool) -> Vec<u64> {
    let n = match src.weighted(&[10, 60, 20, if big { 3 } else { 0 }]) {
        0 => 0,
        1 => src.range(1, 6),
        2 => *src.pick(&[7usize, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 127, 128]),
        _ => *src.pick(&[1000usize, 2047, 2048, 4096, 8191, 8192, 16384]),
    };
    if n <= 40 {
        (0..n).map(|_| gen_num(src, s)).collect()
    } else {
        // A cycle of a few values.
        let k = src.range(1, 8);
        let few: Vec<u64> = (0..k).map(|_| gen_num(src, s)).collect();
        (0..n).map(|i| few[i % k]).collect()
    }
}

pub fn gen_enum_value(src: &mut Source, types: &Types, e: usize) -> i64 {
    let known = &types.enums[e].1;
    match src.weighted(&[60, 25, 15]) {
        0 if !known.is_empty() => *src.pick(known),
        1 => src.int() as i32 as i64,
        _ => src.int() as i64,
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Budget {
    pub fields: usize,
    pub big: bool,
    /// Numeric repeated fields may come in the form they are not declared in.
    pub other_form: bool,
}

impl Budget {
    pub fn new(src: &mut Source) -> Budget {
        Budget { fields: *src.pick(&[6usize, 12, 25, 60]), big: src.chance(30), other_form: true }
    }
}

/// A value that agrees with the declaration of the field.
pub fn gen_value(
    src: &mut Source,
    types: &Types,
    f: &TField,
    depth: usize,
    b: &mut Budget,
) -> RV {
    if let Some(s) = f.packs() {
        let declared = f.mult == Mult::Packed;
        let packed = if b.other_form && src.chance(25) { !declared } else { declared };
        if packed {
            let v = gen_packed(src, s, b.big);
            return RV::Packed(s, v);
        }
    }
    match f.ty {
        TTy::Scalar(Scalar::String) => RV::Str(gen_string(src, b.big)),
        TTy::Scalar(Scalar::Bytes) => RV::Bytes(gen_bytes(src, b.big)),
        TTy::Scalar(s) => RV::Num(s, gen_num(src, s)),
        TTy::Enum(e) => RV::Enum(e, gen_enum_value(src, types, e)),
        TTy::Msg(t) => RV::Msg(gen_msg(src, types, t, depth + 1, b)),
    }
}

/// Any fields in any order, repeated or not; types as declared.
pub fn gen_msg(src: &mut Source, types: &Types, ty: usize, depth: usize, b: &mut Budget) -> RMsg {
    let mut m = RMsg { ty, ..RMsg::default() };
    let t = &types.msgs[ty];
    if t.numbers.is_empty() || b.fields == 0 || depth > 8 {
        return m;
    }
    let n = if depth == 1 {
        match src.weighted(&[10, 70, 20]) {
            0 => 1,
            1 => src.range(1, 8),
            _ => t.numbers.len().min(60),
        }
    } else {
        src.below(4)
    };
    let in_order = src.bool();
    let mut picks: Vec<u64> = (0..n).map(|_| *src.pick(&t.numbers)).collect();
    if in_order {
        picks.sort();
    }
    for number in picks {
        if b.fields == 0 {
            break;
        }
        b.fields -= 1;
        let v = gen_value(src, types, &t.fields[&number], depth, b);
        m.fields.push((number, v));
    }
    m
}

/// Puts `inner` below a chain of nested messages, `levels` deep, if the types allow it.
/// Returns the outermost message.
pub fn gen_spine(src: &mut Source, types: &Types, ty: usize, levels: usize, b: &mut Budget) -> RMsg {
    // Walk forward choosing message fields that can go on, then build from the inside.
    let mut path: Vec<(usize, u64)> = vec![];
    let mut at = ty;
    for _ in 1..levels {
        let next: Vec<(u64, usize)> = types.msgs[at]
            .fields
            .iter()
            .filter_map(|(n, f)| match f.ty {
                TTy::Msg(t) => Some((*n, t)),
                _ => None,
            })
            .collect();
        if next.is_empty() {
            break;
        }
        // Prefer targets that have message fields themselves.
        let deep: Vec<(u64, usize)> = next
            .iter()
            .cloned()
            .filter(|(_, t)| {
                types.msgs[*t].fields.values().any(|f| matches!(f.ty, TTy::Msg(_)))
            })
            .collect();
        let (n, t) = *src.pick(if deep.is_empty() { &next } else { &deep });
        path.push((at, n));
        at = t;
    }
    let mut m = gen_msg(src, types, at, 7, b);
    if levels > LIMIT - 2 {
        m.fields.retain(|(_, v)| !matches!(v, RV::Msg(_)));
    }
    for (t, n) in path.into_iter().rev() {
        let mut outer = RMsg { ty: t, ..RMsg::default() };
        let side = src.one_in(12) && b.fields > 0;
        if side {
            outer.fields.extend(gen_msg(src, types, t, 8, b).fields);
        }
        let at = src.below(outer.fields.len() + 1);
        outer.fields.insert(at, (n, RV::Msg(m)));
        m = outer;
    }
    m
}

/// A typed message, sometimes a deep one. At most LIMIT levels.
pub fn gen_typed(src: &mut Source, types: &Types, ty: usize) -> RMsg {
    let mut b = Budget::new(src);
    if src.chance(12) {
        let levels = *src.pick(&[3usize, 5, 10, 20, 50, 99, 100]);
        gen_spine(src, types, ty, levels, &mut b)
    } else {
        gen_msg(src, types, ty, 1, &mut b)
    }
}

/// A field number that the message does not declare.
pub fn unknown_number(src: &mut Source, t: &TMsg) -> u64 {
    let mut n = match src.weighted(&[40, 20, 20, 20, 15]) {
        0 => src.draw(20),
        1 => {
            // Next to a declared one.
            if t.numbers.is_empty() {
                1
            } else {
                let n = *src.pick(&t.numbers);
                if src.bool() {
                    n.wrapping_add(1) & ((1 << 61) - 1)
                } else {
                    n.saturating_sub(1)
                }
            }
        }
        2 => *src.pick(&[
            15u64,
            16,
            2047,
            2048,
            (1 << 29) - 1,
            1 << 29,
            (1 << 32) - 1,
            1 << 32,
            (1 << 60) - 1,
            1 << 60,
            (1 << 61) - 1,
        ]),
        3 => src.int() >> 3,
        _ => {
            // Equal to a declared one in the low bits only.
            let low = if t.numbers.is_empty() { 1 } else { *src.pick(&t.numbers) };
            let bit = *src.pick(&[5u64, 8, 13, 16, 29, 31, 32, 48, 60]);
            (low ^ (1 << bit)) & ((1 << 61) - 1)
        }
    };
    while t.fields.contains_key(&n) {
        n = (n + 1) & ((1 << 61) - 1);
    }
    n
}

/// A raw value of wire type 0, 1, 2 or 5.
pub fn gen_raw(src: &mut Source, wt: u8) -> RV {
    match wt {
        0 => RV::UVarint(src.int() as u128),
        1 => RV::UFixed64(src.int()),
        2 => RV::ULen(gen_bytes(src, false)),
        5 => RV::UFixed32(src.int() as u32),
        _ => unreachable!(),
    }
}

/// A wire type of 0, 1, 2, 5 that the field's declaration does not take.
pub fn mismatching_wire_type(src: &mut Source, f: &TField) -> Option<u8> {
    let mut c: Vec<u8> = vec![0, 1, 2, 5];
    c.retain(|w| *w != f.ty.wire_type());
    // A packed array is one way to write a repeated numeric or enum field.
    if f.repeated() && f.ty.wire_type() != 2 {
        c.retain(|w| *w != 2);
    }
    if c.is_empty() {
        None
    } else {
        Some(*src.pick(&c))
    }
}

pub fn any_numeric(src: &mut Source) -> Scalar {
    *src.pick(&NUMERIC)
}

// ------------------------------------------------------------------------------------------
// Damaged and hostile payloads
// ------------------------------------------------------------------------------------------

/// A field (tag and value) the way it would be written, of any kind: declared, unknown,
/// mismatching; nested messages are damaged in turn.
pub fn loose_field(src: &mut Source, types: &Types, ty: usize, depth: usize, b: &mut Budget) -> Vec<u8> {
    let t = &types.msgs[ty];
    let mut out = vec![];
    match src.weighted(&[if t.numbers.is_empty() { 0 } else { 70 }, 15, 15]) {
        0 => {
            let n = *src.pick(&t.numbers);
            let f = t.fields[&n];
            match f.ty {
                TTy::Msg(inner) if src.chance(70) && depth < 6 => {
                    put_tag(&mut out, n, 2);
                    let c = loose(src, types, inner, depth + 1, b);
                    put_len(&mut out, &c);
                }
                _ => {
                    let v = gen_value(src, types, &f, depth.max(6), b);
                    out = encode_field(n, &v);
                    // Contents of packed arrays and strings may be damaged.
                    if wire_type(&v) == 2 && src.chance(12) {
                        let mut content = vec![];
                        put_value(&mut content, &v);
                        let mut d = &content[..];
                        let _ = get_varint(&mut d);
                        let mut inner = d.to_vec();
                        mutate(src, &mut inner);
                        out.clear();
                        put_tag(&mut out, n, 2);
                        put_len(&mut out, &inner);
                    }
                }
            }
        }
        1 => {
            let n = unknown_number(src, t);
            let wt = *src.pick(&[0u8, 1, 2, 5]);
            let v = gen_raw(src, wt);
            out = encode_field(n, &v);
        }
        _ => {
            let n = if t.numbers.is_empty() { 1 } else { *src.pick(&t.numbers) };
            let wt = *src.pick(&[0u8, 1, 2, 5]);
            let v = gen_raw(src, wt);
            out = encode_field(n, &v);
        }
    }
    out
}

/// Fields one after the other, and at the end perhaps something damaged.
pub fn loose(src: &mut Source, types: &Types, ty: usize, depth: usize, b: &mut Budget) -> Vec<u8> {
    let n = src.below(if depth == 1 { 7 } else { 4 });
    let mut out = vec![];
    for _ in 0..n {
        if b.fields == 0 {
            break;
        }
        b.fields -= 1;
        let f = loose_field(src, types, ty, depth, b);
        out.extend_from_slice(&f);
    }
    match src.weighted(&[50, 25, 10, 10, 5]) {
        0 => {}
        1 => {
            // Cut off anywhere.
            let f = loose_field(src, types, ty, depth, b);
            let cut = src.below(f.len() + 1);
            out.extend_from_slice(&f[..cut]);
        }
        2 => {
            // A wire type that does not exist.
            let t = &types.msgs[ty];
            let n = if t.numbers.is_empty() || src.bool() {
                unknown_number(src, t)
            } else {
                *src.pick(&t.numbers)
            };
            let wt = *src.pick(&[3u8, 4, 6, 7]);
            put_tag(&mut out, n, wt);
            let k = src.below(8);
            out.extend(src.bytes(k));
        }
        3 => {
            // No tag: a varint without an end.
            let k = src.range(1, 12);
            for _ in 0..k {
                out.push(0x80 | src.draw(128) as u8);
            }
        }
        _ => {
            // A length beyond the end.
            let t = &types.msgs[ty];
            let n = if t.numbers.is_empty() { 1 } else { *src.pick(&t.numbers) };
            put_tag(&mut out, n, 2);
            let k = src.below(8);
            let claim = match src.draw(3) {
                0 => k as u64 + 1,
                1 => src.int(),
                _ => *src.pick(&[
                    1u64 << 31,
                    (1 << 31) - 1,
                    1 << 32,
                    (1 << 32) - 1,
                    1 << 63,
                    (1 << 63) - 1,
                    u64::MAX,
                    u64::MAX - 1,
                    u64::MAX - 10,
                ]),
            };
            put_varint(&mut out, claim.max(k as u64 + 1));
            out.extend(src.bytes(k));
        }
    }
    out
}

pub fn mutate(src: &mut Source, data: &mut Vec<u8>) {
    let n = src.range(1, 4);
    for _ in 0..n {
        let len = data.len();
        match src.weighted(&[30, 15, 15, 15, 10, 15]) {
            0 if len > 0 => {
                let i = src.below(len);
                data[i] = match src.draw(3) {
                    0 => data[i] ^ (1 << src.draw(8)),
                    1 => src.draw(256) as u8,
                    _ => *src.pick(&[0u8, 0xff, 0x7f, 0x80]),
                };
            }
            1 if len > 0 => {
                let i = src.below(len + 1);
                data.truncate(i);
            }
            2 if len > 0 => {
                let i = src.below(len);
                let k = src.range(1, 4).min(len - i);
                data.drain(i..i + k);
            }
            3 => {
                let i = src.below(len + 1);
                let k = src.range(1, 6);
                let new = src.bytes(k);
                data.splice(i..i, new);
            }
            4 if len > 0 => {
                let i = src.below(len);
                let k = src.range(1, 20).min(len - i);
                let copy = data[i..i + k].to_vec();
                let at = src.below(len + 1);
                data.splice(at..at, copy);
            }
            _ => {
                // A long varint.
                let i = src.below(len + 1);
                let k = src.range(8, 12);
                let mut v = vec![*src.pick(&[0x80u8, 0xff]); k];
                if src.bool() {
                    v.push(*src.pick(&[0u8, 1, 2, 0x7f]));
                }
                data.splice(i..i, v);
            }
        }
    }
}

/// Validly nested messages, as deep as asked for, around some inner bytes.
pub fn deep(src: &mut Source, types: &Types, ty: usize, levels: usize, inner: &[u8]) -> Vec<u8> {
    // Which fields lead on from each type; the walk is cheap even for many levels.
    let nexts: Vec<Vec<(u64, usize)>> = types
        .msgs
        .iter()
        .map(|m| {
            m.fields
                .iter()
                .filter_map(|(n, f)| match f.ty {
                    TTy::Msg(t) => Some((*n, t)),
                    _ => None,
                })
                .collect()
        })
        .collect();
    let mut path = vec![];
    let mut at = ty;
    let vary = src.bool();
    for _ in 0..levels {
        let go: Vec<(u64, usize)> =
            nexts[at].iter().cloned().filter(|(_, t)| !nexts[*t].is_empty()).collect();
        let c = if go.is_empty() { &nexts[at] } else { &go };
        if c.is_empty() {
            break;
        }
        let (n, t) = if vary && path.len() < 200 { *src.pick(c) } else { c[0] };
        path.push(n);
        at = t;
    }
    let mut rev: Vec<u8> = inner.iter().rev().cloned().collect();
    for n in path.into_iter().rev() {
        let mut head = vec![];
        put_tag(&mut head, n, 2);
        put_varint(&mut head, rev.len() as u64);
        rev.extend(head.iter().rev());
    }
    rev.reverse();
    rev
}

/// Anything a decoder may be given.
pub fn hostile(src: &mut Source, types: &Types, ty: usize) -> Vec<u8> {
    match src.weighted(&[25, 25, 15, 10, 15, 10]) {
        0 => {
            let mut b = Budget::new(src);
            loose(src, types, ty, 1, &mut b)
        }
        1 => {
            let m = gen_typed(src, types, ty);
            let mut d = encode(&m);
            mutate(src, &mut d);
            d
        }
        2 => {
            let n = src.below(40);
            src.bytes(n)
        }
        3 => {
            let n = *src.pick(&[100usize, 1000, 5000]);
            let mut d = src.bulk(n);
            // Small bytes hit declared fields more often.
            if src.bool() {
                let mask = *src.pick(&[0x0fu8, 0x1f, 0x3f, 0x7f, 0x8f]);
                d.iter_mut().for_each(|b| *b &= mask);
            }
            d
        }
        4 => {
            let levels = *src.pick(&[2usize, 50, 99, 100, 101, 102, 200, 1000, 5000, 20000]);
            let mut b = Budget { fields: 5, big: false, other_form: true };
            let inner = loose(src, types, ty, 5, &mut b);
            let mut d = deep(src, types, ty, levels, &inner);
            if src.chance(25) {
                let cut = src.below(d.len() + 1);
                d.truncate(cut);
            }
            d
        }
        _ => {
            // One short pattern over and over.
            let mut p = vec![];
            let k = src.range(1, 3);
            for _ in 0..k {
                let mut b = Budget { fields: 3, big: false, other_form: true };
                p.extend(match src.draw(3) {
                    0 => loose_field(src, types, ty, 6, &mut b),
                    1 => src.bytes(1),
                    _ => {
                        let mut t = vec![];
                        let n = if types.msgs[ty].numbers.is_empty() {
                            1
                        } else {
                            *src.pick(&types.msgs[ty].numbers)
                        };
                        put_tag(&mut t, n, *src.pick(&[2u8, 0, 1, 5, 3]));
                        t
                    }
                });
            }
            let n = *src.pick(&[10usize, 100, 2000]);
            let mut d = vec![];
            for _ in 0..n {
                d.extend_from_slice(&p);
                if d.len() > 100_000 {
                    break;
                }
            }
            d
        }
    }
}
