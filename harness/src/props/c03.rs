//! Well-formed payloads decode to the typed values they carry.

use crate::engine::*;
use crate::schema::{Scalar, SCALARS};
use crate::tape::Source;
use crate::wire::*;
use crate::world::*;
use protofish::context::Context;
use protofish::decode::{UnknownValue, Value};

pub const PROP: Prop = Prop {
    id: "C03",
    run,
    enumerated: |_| 1 + (SCALARS.len() * 5) as u64 + 2 * GRAND,
    quick: 150_000,
    thorough: 1_500_000,
    threads: 8,
    rule: "A random schema (parsed or built by hand) and typed messages for it (any fields in any \
           order and number, edge values, long strings and arrays, up to 100 levels), written by an \
           independent encoder, repeated numbers in packed or unpacked form; decoded and compared \
           with the values. The enumerated part goes through edge values of every scalar in every \
           multiplicity. Non-trivial: the message has at least two fields.",
};

pub fn edges(s: Scalar) -> Vec<u64> {
    let mut out = vec![];
    for bit in 0..64u32 {
        for d in [-1i64, 0, 1] {
            out.push((1u64 << bit).wrapping_add(d as u64));
            out.push((1u64 << bit).wrapping_add(d as u64).wrapping_neg());
        }
    }
    out.extend([0, 1, u64::MAX]);
    use Scalar::*;
    for v in out.iter_mut() {
        *v = match s {
            Int32 | SInt32 | SFixed32 => *v as i32 as i64 as u64,
            UInt32 | Fixed32 | Float => *v as u32 as u64,
            Bool => *v & 1,
            _ => *v,
        };
    }
    if s == Float {
        for f in [1.5f32, -2.25, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::NAN, f32::INFINITY, -0.0] {
            out.push(f.to_bits() as u64);
        }
    }
    if s == Double {
        for f in [1.5f64, -2.25, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::NAN, f64::INFINITY, -0.0] {
            out.push(f.to_bits());
        }
    }
    out.sort();
    out.dedup();
    out
}

fn compare(w: &World, ty: usize, m: &RMsg) -> Check {
    let data = encode(m);
    let got = from_sut(&w.h, &w.decode(ty, &data));
    match diff(m, &got) {
        None => Ok(()),
        Some(d) => Err(format!("decoding {}: {}", hex(&data), d)),
    }
}

const DECLS: [&str; 5] = ["", "optional ", "repeated ", "repeated ", "oneof"];

fn enumerated(e: u64, case: &mut Case) -> Check {
    if e == 0 {
        return packed_enum(case);
    }
    let plain = 1 + (SCALARS.len() * 5) as u64;
    if e >= plain {
        // Much of everything.
        let w = match fixed() {
            Some(w) => w,
            None => return Ok(()),
        };
        let m = if e < plain + GRAND { grand(e - plain) } else { grand_raw(e - plain - GRAND) };
        case.describe(|| format!("{}\nvalues: {:.300}", w.describe(0), format!("{:?}", m)));
        case.count("fields and values of the grand messages", m.count() as u64);
        return compare(&w, 0, &m);
    }
    let s = SCALARS[(e as usize - 1) / 5];
    let form = (e as usize - 1) % 5;
    let number = [1u64, 15, 16, 2048, 536870911][form];
    let field = format!("{} f = {}", s.name(), number);
    let text = match form {
        3 if s.packable() => format!("repeated {} [packed = false];", field),
        4 => format!("oneof o {{ {}; }}", field),
        _ => format!("{}{};", DECLS[form], field),
    };
    let text = format!("syntax = \"proto3\"; message M {{ {} }}", text);
    let ctx = match Context::parse(&[&text]) {
        Ok(c) => c,
        Err(_) => {
            case.label("skipped: no context");
            return Ok(());
        }
    };
    let info = match ctx.get_message("M") {
        Some(i) => i,
        None => return Ok(()),
    };
    case.describe(|| text.clone());
    let types = Types { msgs: vec![TMsg { name: "M".into(), fields: Default::default(), numbers: vec![] }], enums: vec![] };
    let h = match types.handles(&ctx) {
        Some(h) => h,
        None => return Ok(()),
    };
    let mut values: Vec<RV> = vec![];
    match s {
        Scalar::String | Scalar::Bytes => {
            for n in (0..300).chain([16383, 16384, 16385, 2097151, 2097152]) {
                if s == Scalar::String {
                    let mut t = "é".repeat(n / 2);
                    if n % 2 == 1 {
                        t.push('x');
                    }
                    values.push(RV::Str(t));
                } else {
                    values.push(RV::Bytes((0..n).map(|i| (i * 7 + 0x80) as u8).collect()));
                }
            }
        }
        _ => values.extend(edges(s).into_iter().map(|v| RV::Num(s, v))),
    }
    let mut check = |m: RMsg| -> Check {
        let data = encode(&m);
        let got = from_sut(&h, &info.decode(&data, &ctx));
        case.count("enumerated payloads", 1);
        case.nontrivial(digest(&data) ^ form as u64);
        match diff(&m, &got) {
            None => Ok(()),
            Some(d) => Err(format!("{}\ndecoding {}: {}", text, hex(&data), d)),
        }
    };
    let msg = |f: Vec<RV>| RMsg { ty: 0, fields: f.into_iter().map(|v| (number, v)).collect(), garbage: None };
    for v in &values {
        check(msg(vec![v.clone()]))?;
    }
    // All of them in one payload.
    let small: Vec<RV> = values
        .iter()
        .filter(|v| !matches!(v, RV::Str(s) if s.len() > 20000) && !matches!(v, RV::Bytes(s) if s.len() > 20000))
        .cloned()
        .collect();
    check(msg(small))?;
    if s.packable() && (form == 2 || form == 3) {
        let all = edges(s);
        for v in &all {
            check(msg(vec![RV::Packed(s, vec![*v])]))?;
        }
        for n in 0..all.len().min(140) {
            check(msg(vec![RV::Packed(s, all[..n].to_vec())]))?;
        }
        let cycle: Vec<u64> = (0..70000).map(|i| all[i % all.len()]).collect();
        check(msg(vec![RV::Packed(s, cycle), RV::Num(s, all[0]), RV::Packed(s, all.clone())]))?;
    }
    Ok(())
}

/// Listed finding: packed arrays of enums.
fn packed_enum(case: &mut Case) -> Check {
    let text = "syntax = \"proto3\"; enum E { A = 0; B = 1; } message M { repeated E e = 1; int32 n = 2; }";
    let payload = [0x0a, 2, 0, 1, 0x10, 5];
    case.describe(|| format!("{}\npayload {}", text, hex(&payload)));
    let ctx = match Context::parse(&[text]) {
        Ok(c) => c,
        Err(_) => return Ok(()),
    };
    let info = match ctx.get_message("M") {
        Some(i) => i,
        None => return Ok(()),
    };
    let v = info.decode(&payload, &ctx);
    let enums: Vec<i64> = v
        .fields
        .iter()
        .filter_map(|f| match &f.value {
            Value::Enum(e) if f.number == 1 => Some(e.value),
            _ => None,
        })
        .collect();
    if enums == [0, 1] {
        return Ok(());
    }
    let what = format!(
        "a packed array of enum values (0a020001 for `repeated E e = 1`) decodes as {:?}, not as the enum values 0 and 1",
        v.fields.get(0).map(|f| &f.value)
    );
    match v.fields.get(0).map(|f| (f.number, &f.value)) {
        Some((1, Value::Unknown(UnknownValue::VariableLength(b))))
            if b[..] == [0, 1] && v.fields.len() == 2 =>
        {
            case.known("C03", "packed-enum", what)
        }
        _ => Err(what),
    }
}

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    if e > 0 {
        return enumerated(e - 1, case);
    }
    let w = match world(src) {
        Some(w) => w,
        None => {
            case.label("skipped: no context");
            return Ok(());
        }
    };
    for _ in 0..3 {
        let ty = w.pick_type(src);
        let m = gen_typed(src, &w.types, ty);
        case.describe(|| format!("{}\nvalues: {:?}", w.describe(ty), m));
        case.sample(|| format!("{:?}", m));
        classify(&m, &w.types, case);
        if m.count() >= 2 {
            case.nontrivial(digest(&encode(&m)) ^ digest(w.text.as_bytes()));
        }
        compare(&w, ty, &m)?;
    }
    Ok(())
}

pub fn classify(m: &RMsg, types: &Types, case: &mut Case) {
    case.max("nesting", m.depth() as u64);
    case.max("fields", m.count() as u64);
    for (n, v) in &m.fields {
        match v {
            RV::Packed(_, a) => {
                case.label("packed array");
                case.max("array elements", a.len() as u64);
            }
            RV::Msg(_) => case.label("nested message"),
            RV::Enum(..) => case.label("enum"),
            RV::Str(s) => {
                case.label("string");
                case.max("string bytes", s.len() as u64);
            }
            RV::Num(s, _) => {
                if types.msgs.get(m.ty).and_then(|t| t.fields.get(n)).map_or(false, |f| f.packs() == Some(*s)) {
                    case.label("repeated number, unpacked");
                } else {
                    case.label("number");
                }
            }
            _ => {}
        }
    }
}
