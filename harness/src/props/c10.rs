//! Varints follow protobuf's width rules, alone and in packed arrays.

use crate::engine::*;
use crate::schema::Scalar;
use crate::tape::Source;
use crate::wire::*;
use protofish::context::Context;

pub const PROP: Prop = Prop {
    id: "C10",
    run,
    enumerated: |_| 1,
    quick: 200_000,
    thorough: 1_500_000,
    threads: 8,
    rule: "Varint encodings of 1 to 10 bytes (any 64-bit value, redundant groups, excess bits in \
           the tenth byte) for every varint type, as single field, unpacked repeated field and element \
           of a packed array; the decoded values are compared with the protobuf rules and with each \
           other. Encodings of 11 and more bytes must not give a value. Non-trivial: the encoding is \
           not minimal or wider than the type.",
};

const VARINTS: [Scalar; 7] = [
    Scalar::Int32,
    Scalar::Int64,
    Scalar::UInt32,
    Scalar::UInt64,
    Scalar::SInt32,
    Scalar::SInt64,
    Scalar::Bool,
];

fn schema() -> String {
    let mut s = String::from("syntax = \"proto3\"; enum E { A = 0; }\nmessage M {\n");
    for (i, t) in VARINTS.iter().enumerate() {
        s.push_str(&format!("  {} a{} = {};\n", t.name(), i, 1 + i));
        s.push_str(&format!("  repeated {} b{} = {};\n", t.name(), i, 101 + i));
        s.push_str(&format!("  repeated {} c{} = {} [packed = false];\n", t.name(), i, 201 + i));
        s.push_str(&format!("  optional {} d{} = {};\n", t.name(), i, 301 + i));
    }
    s.push_str("  E e = 20;\n  repeated E es = 21;\n}\n");
    s
}

struct Setup {
    ctx: Context,
    h: Handles,
}

fn setup() -> Option<Setup> {
    let ctx = Context::parse(&[schema()]).ok()?;
    let types = Types {
        msgs: vec![TMsg { name: "M".into(), fields: Default::default(), numbers: vec![] }],
        enums: vec![("E".into(), vec![0])],
    };
    let h = types.handles(&ctx)?;
    Some(Setup { ctx, h })
}

/// One payload with the encodings in every form of type `i`.
fn check(s: &Setup, i: usize, encodings: &[(u64, Vec<u8>)]) -> Check {
    let t = VARINTS[i];
    let mut data = vec![];
    let mut expected = RMsg::default();
    for base in [1u64, 201, 301, 101] {
        for (v, e) in encodings {
            put_tag(&mut data, base + i as u64, 0);
            data.extend_from_slice(e);
            expected.fields.push((base + i as u64, RV::Num(t, cast(t, *v))));
        }
    }
    for base in [101u64, 201] {
        put_tag(&mut data, base + i as u64, 2);
        let all: Vec<u8> = encodings.iter().flat_map(|(_, e)| e.iter().cloned()).collect();
        put_len(&mut data, &all);
        expected.fields.push((
            base + i as u64,
            RV::Packed(t, encodings.iter().map(|(v, _)| cast(t, *v)).collect()),
        ));
    }
    for (v, e) in encodings {
        put_tag(&mut data, 20, 0);
        data.extend_from_slice(e);
        expected.fields.push((20, RV::Enum(0, *v as i64)));
        put_tag(&mut data, 21, 0);
        data.extend_from_slice(e);
        expected.fields.push((21, RV::Enum(0, *v as i64)));
        // Unknown.
        put_tag(&mut data, 99, 0);
        data.extend_from_slice(e);
        expected.fields.push((99, RV::UVarint(*v as u128)));
    }
    let got = from_sut(&s.h, &s.ctx.decode(s.h.msgs[0], &data));
    match diff(&expected, &got) {
        None => Ok(()),
        Some(d) => Err(format!("{} encodings of {}: {}\npayload {}", encodings.len(), t.name(), d, hex(&data))),
    }
}

fn too_long(s: &Setup, i: usize, e: &[u8]) -> Check {
    let t = VARINTS[i];
    for (number, packed) in [(1, false), (201, false), (301, false), (101, true), (201, true)] {
        let number = number + i as u64;
        let mut data = vec![];
        put_tag(&mut data, number, if packed { 2 } else { 0 });
        if packed {
            put_len(&mut data, e);
        } else {
            data.extend_from_slice(e);
        }
        let got = from_sut(&s.h, &s.ctx.decode(s.h.msgs[0], &data));
        let bad = got.fields.iter().any(|(n, v)| *n == number && matches!(v, RV::Num(..) | RV::Packed(..)));
        if bad {
            return Err(format!(
                "{} bytes of varint are accepted as {}: payload {} gives {:?}",
                e.len(), t.name(), hex(&data), got
            ));
        }
    }
    Ok(())
}

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    let s = match setup() {
        Some(s) => s,
        None => {
            case.label("skipped: no context");
            return Ok(());
        }
    };
    if e > 0 {
        // Every length with every edge value that fits it.
        for i in 0..VARINTS.len() {
            for v in crate::props::c03::edges(Scalar::UInt64) {
                let min = varint_len(v);
                for len in min..=10 {
                    let mut enc = vec![];
                    put_varint_padded(&mut enc, v, len, 0);
                    case.count("enumerated encodings", 1);
                    check(&s, i, &[(v, enc)])?;
                }
            }
            for top in 0..=0x7f {
                let mut enc = vec![];
                put_varint_padded(&mut enc, u64::MAX, 10, top);
                check(&s, i, &[(u64::MAX, enc)])?;
                let mut enc = vec![];
                put_varint_padded(&mut enc, 5, 10, top);
                check(&s, i, &[(5, enc)])?;
            }
            for len in 11..40 {
                for fill in [0x80, 0xff, 0x81] {
                    let mut e = vec![fill; len - 1];
                    e.push(1);
                    too_long(&s, i, &e)?;
                }
            }
        }
        return Ok(());
    }
    let rounds = 4;
    for _ in 0..rounds {
        let i = src.below(VARINTS.len());
        let n = src.range(1, 5);
        let mut encodings = vec![];
        let mut odd = false;
        for _ in 0..n {
            let v = src.int();
            let min = varint_len(v);
            let len = if src.bool() { min } else { src.range(min, 10) };
            let top = if len == 10 && src.bool() { src.draw(128) as u8 } else { 0 };
            let mut enc = vec![];
            put_varint_padded(&mut enc, v, len, top);
            odd |= len != min || top > 1 || varint_of(VARINTS[i], cast(VARINTS[i], v)) != v;
            case.label_if(len != min, "padded");
            case.label_if(top & 0x7e != 0, "excess bits");
            encodings.push((v, enc));
        }
        if src.one_in(20) {
            // An array of a round number of bytes, most of its elements small.
            let size = |l: &Vec<(u64, Vec<u8>)>| l.iter().map(|e| e.1.len()).sum::<usize>();
            let to = *src.pick(&[8usize, 16, 32, 64, 128, 256, 512]);
            while size(&encodings) < to {
                let left = to - size(&encodings);
                let (v, len) = match src.below(8) {
                    0 => (src.draw(2), 2),
                    1 => (src.draw(1 << 14), 3),
                    2 | 3 | 4 => (src.draw(2), 1),
                    _ => (src.draw(128), 1),
                };
                let (v, len) = if len > left { (v & 0x7f, 1) } else { (v, len) };
                let mut enc = vec![];
                put_varint_padded(&mut enc, v, len, 0);
                encodings.push((v, enc));
            }
            case.label("round size");
        }
        case.describe(|| format!("type {}, encodings {:?}\nschema:\n{}", VARINTS[i].name(), encodings, schema()));
        case.sample(|| {
            let t: Vec<String> = encodings.iter().map(|(_, e)| hex(e)).collect();
            format!("{} {}", VARINTS[i].name(), t.join(" "))
        });
        if odd {
            let all: Vec<u8> = encodings.iter().flat_map(|(_, e)| e.iter().cloned()).collect();
            case.nontrivial(digest(&all) ^ i as u64);
        }
        check(&s, i, &encodings)?;
        if src.chance(20) {
            let n = src.range(10, 20);
            let mut e: Vec<u8> = src.bytes(n).into_iter().map(|b| b | 0x80).collect();
            e.push(src.draw(128) as u8);
            case.label("too long");
            too_long(&s, i, &e)?;
        }
    }
    Ok(())
}
