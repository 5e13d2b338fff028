//! Encoding produces the canonical protobuf wire format.

use crate::engine::*;
use crate::props::c03::{classify, edges};
use crate::schema::SCALARS;
use crate::tape::Source;
use crate::wire::*;
use crate::world::*;

pub const PROP: Prop = Prop {
    id: "C04",
    run,
    enumerated: |_| (SCALARS.len() + 2) as u64 + 2 * GRAND,
    quick: 150_000,
    thorough: 2_000_000,
    threads: 8,
    rule: "Message values built directly (typed for a random schema, or any value under any field \
           number, including raw unknown values of up to 128 bits, incomplete and invalid values and garbage), \
           encoded and compared with an independent encoder. \
           The enumerated part goes through edge values of every scalar, alone and packed, string \
           lengths and field numbers. Non-trivial: at least two fields.",
};

fn compare(w: &World, m: &RMsg, case: &mut Case) -> Check {
    let expected = encode(m);
    let got = to_sut(&w.h, m).encode(&w.ctx);
    if m.count() >= 2 {
        case.nontrivial(digest(&expected));
    }
    if got[..] == expected[..] {
        return Ok(());
    }
    let at = got.iter().zip(&expected).take_while(|(a, b)| a == b).count();
    Err(format!(
        "values {:?}\nencode to {}\nexpected  {}\n(first difference at byte {}, {} and {} bytes)",
        m,
        hex(&got),
        hex(&expected),
        at,
        got.len(),
        expected.len()
    ))
}

/// Any value, whatever any schema says.
fn free(src: &mut Source, w: &World, depth: usize, b: &mut Budget) -> RMsg {
    let mut m = RMsg { ty: src.below(w.types.msgs.len()), ..RMsg::default() };
    let n = src.below(6);
    for _ in 0..n {
        if b.fields == 0 {
            break;
        }
        b.fields -= 1;
        let number = match src.weighted(&[50, 30, 20]) {
            0 => 1 + src.draw(20),
            1 => *src.pick(&[15u64, 16, 17, 2047, 2048, 262143, 262144, 33554431, 33554432, 536870911]),
            _ => src.int() >> 3,
        };
        let v = match src.weighted(&[35, 10, 10, 15, 10, 10, 5, 10]) {
            0 => {
                let s = any_numeric(src);
                RV::Num(s, gen_num(src, s))
            }
            1 => RV::Str(gen_string(src, b.big)),
            2 => RV::Bytes(gen_bytes(src, b.big)),
            3 => {
                let s = any_numeric(src);
                RV::Packed(s, gen_packed(src, s, b.big))
            }
            4 if !w.types.enums.is_empty() => RV::Enum(src.below(w.types.enums.len()), src.int() as i64),
            5 if depth < 6 => RV::Msg(free(src, w, depth + 1, b)),
            6 => match src.below(3) {
                0 => {
                    let wide = (src.int() as u128) << 64 | src.int() as u128;
                    RV::UVarint(wide >> src.below(64))
                }
                1 => {
                    let k = src.below(20);
                    RV::Incomplete(*src.pick(&[0u8, 1, 2, 5]), src.bytes(k))
                }
                _ => {
                    let k = src.below(20);
                    RV::UInvalid(*src.pick(&[3u8, 4, 6, 7]), src.bytes(k))
                }
            },
            _ => {
                let wt = *src.pick(&[0u8, 1, 2, 5]);
                gen_raw(src, wt)
            }
        };
        m.fields.push((number, v));
    }
    if src.chance(15) {
        let k = src.below(12);
        m.garbage = Some(src.bytes(k));
    }
    m
}

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    if e > 0 {
        let w = match fixed() {
            Some(w) => w,
            None => return Ok(()),
        };
        let e = e as usize - 1;
        if e >= SCALARS.len() + 2 {
            let i = (e - SCALARS.len() - 2) as u64;
            let m = if i < GRAND { grand(i) } else { grand_raw(i - GRAND) };
            return compare(&w, &m, case).map_err(|e| format!("{:.3000}", e));
        }
        let mut all: Vec<(u64, RV)> = vec![];
        if e < SCALARS.len() {
            let s = SCALARS[e];
            if s.packable() {
                let v = edges(s);
                all.extend(v.iter().map(|v| (1, RV::Num(s, *v))));
                all.extend(v.iter().map(|x| (1, RV::Packed(s, vec![*x]))));
                all.extend((0..v.len().min(200)).map(|n| (1, RV::Packed(s, v[..n].to_vec()))));
                all.push((1, RV::Packed(s, (0..70000).map(|i| v[i % v.len()]).collect())));
            } else {
                for n in (0..300).chain([16383, 16384, 16385, 2097151, 2097152]) {
                    let b = vec![b'a'; n];
                    all.push((1, if s == crate::schema::Scalar::String { RV::Str(String::from_utf8(b.clone()).unwrap()) } else { RV::Bytes(b.clone()) }));
                    all.push((1, RV::ULen(b)));
                }
            }
        } else if e == SCALARS.len() {
            // Field numbers.
            for n in edges(crate::schema::Scalar::UInt64) {
                let n = n >> 3;
                for v in [RV::Num(crate::schema::Scalar::Int32, 1), RV::Str("x".into()), RV::UFixed64(1), RV::UFixed32(2), RV::UVarint(3)] {
                    all.push((n, v));
                }
            }
        } else {
            for v in edges(crate::schema::Scalar::Int64) {
                all.push((1, RV::Enum(0, v as i64)));
                all.push((1, RV::UVarint(v as u128)));
                all.push((1, RV::UVarint((v as u128) << 64 | 1)));
                all.push((1, RV::UFixed64(v)));
                all.push((1, RV::UFixed32(v as u32)));
            }
            // Nested messages of every small size.
            for n in 0..300usize {
                let inner = RMsg { ty: 0, fields: vec![(1, RV::Bytes(vec![7; n]))], garbage: None };
                all.push((1, RV::Msg(inner)));
            }
        }
        for f in &all {
            compare(&w, &RMsg { ty: 0, fields: vec![f.clone()], garbage: None }, case)?;
            case.count("enumerated values", 1);
        }
        return compare(&w, &RMsg { ty: 0, fields: all, garbage: None }, case);
    }
    let w = match world(src) {
        Some(w) => w,
        None => {
            case.label("skipped: no context");
            return Ok(());
        }
    };
    for _ in 0..4 {
        let m = if src.bool() {
            let mut b = Budget::new(src);
            free(src, &w, 1, &mut b)
        } else {
            let ty = w.pick_type(src);
            gen_typed(src, &w.types, ty)
        };
        case.describe(|| format!("values: {:?}", m));
        case.sample(|| format!("{:?}", m));
        classify(&m, &w.types, case);
        compare(&w, &m, case)?;
    }
    Ok(())
}
