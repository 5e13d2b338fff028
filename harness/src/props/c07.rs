//! Unknown fields are kept raw and do not disturb their neighbours.

use crate::engine::*;
use crate::tape::Source;
use crate::wire::*;
use crate::world::*;

pub const PROP: Prop = Prop {
    id: "C07",
    run,
    enumerated: |_| GRAND,
    quick: 200_000,
    thorough: 1_500_000,
    threads: 8,
    rule: "Typed messages into which fields of undeclared numbers (up to 2^61-1) and declared \
           numbers with a wire type that cannot carry the type are inserted at any position and \
           level; the payload with and without them is decoded and compared with the values. \
           Sometimes a field with an invalid wire type follows, which takes the rest, or an undeclared one that is cut off. Non-trivial: \
           at least one field was inserted next to a typed one.",
};

fn insert(src: &mut Source, types: &Types, m: &mut RMsg, inserted: &mut u64) {
    for (_, v) in m.fields.iter_mut() {
        if let RV::Msg(inner) = v {
            if src.bool() {
                insert(src, types, inner, inserted);
            }
        }
    }
    let n = src.below(4);
    for _ in 0..n {
        let t = &types.msgs[m.ty];
        let mut pick = None;
        if !t.numbers.is_empty() && src.bool() {
            let number = *src.pick(&t.numbers);
            if let Some(wt) = mismatching_wire_type(src, &t.fields[&number]) {
                pick = Some((number, wt));
            }
        }
        let (number, wt) = match pick {
            Some(p) => p,
            None => (unknown_number(src, t), *src.pick(&[0u8, 1, 2, 5])),
        };
        let v = gen_raw(src, wt);
        let at = src.below(m.fields.len() + 1);
        m.fields.insert(at, (number, v));
        *inserted += 1;
    }
}

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    if e > 0 {
        // Much of everything.
        let w = match fixed() {
            Some(w) => w,
            None => return Ok(()),
        };
        let m = grand_raw(e - 1);
        let data = encode(&m);
        case.nontrivial(digest(&data));
        return match diff(&m, &from_sut(&w.h, &w.decode(0, &data))) {
            Some(d) => Err(format!("{} fields, some unknown: {}", m.fields.len(), d)),
            None => Ok(()),
        };
    }
    let w = match world(src) {
        Some(w) => w,
        None => {
            case.label("skipped: no context");
            return Ok(());
        }
    };
    for _ in 0..3 {
        let ty = w.pick_type(src);
        let mut b = Budget::new(src);
        let base = gen_msg(src, &w.types, ty, 1, &mut b);
        let mut m = base.clone();
        let mut inserted = 0;
        insert(src, &w.types, &mut m, &mut inserted);
        let mut data = encode(&m);
        if src.chance(15) {
            // The rest belongs to a field with an invalid wire type.
            let t = &w.types.msgs[ty];
            let number = if t.numbers.is_empty() || src.bool() {
                unknown_number(src, t)
            } else {
                *src.pick(&t.numbers)
            };
            let wt = *src.pick(&[3u8, 4, 6, 7]);
            let n = src.below(12);
            let rest = src.bytes(n);
            put_tag(&mut data, number, wt);
            data.extend_from_slice(&rest);
            m.fields.push((number, RV::UInvalid(wt, rest)));
            inserted += 1;
            case.label("invalid wire type");
        } else if src.chance(15) {
            // The last field is not declared and ends too early.
            let t = &w.types.msgs[ty];
            let number = if src.one_in(4) && !t.fields.contains_key(&0) { 0 } else { unknown_number(src, t) };
            let wt = *src.pick(&[0u8, 1, 2, 5]);
            let mut rest;
            match wt {
                0 => {
                    let n = src.below(10);
                    rest = src.bytes(n);
                    rest.iter_mut().for_each(|b| *b |= 0x80);
                }
                1 => {
                    let n = src.below(8);
                    rest = src.bytes(n);
                }
                5 => {
                    let n = src.below(4);
                    rest = src.bytes(n);
                }
                _ => {
                    let n = src.below(12);
                    let b = src.bytes(n);
                    let more = 1 + (src.int() >> 1);
                    rest = vec![];
                    put_varint(&mut rest, n as u64 + more);
                    rest.extend(b);
                    if src.one_in(4) {
                        rest.clear();
                    }
                }
            }
            put_tag(&mut data, number, wt);
            data.extend_from_slice(&rest);
            m.fields.push((number, RV::Incomplete(wt, rest)));
            inserted += 1;
            case.label("cut off");
        }
        case.describe(|| format!("{}\nvalues: {:?}\npayload: {}", w.describe(ty), m, hex(&data)));
        case.sample(|| format!("{:?}", m));
        case.count("inserted fields", inserted);
        if inserted > 0 && !base.fields.is_empty() {
            case.nontrivial(digest(&data) ^ digest(w.text.as_bytes()));
        }
        let got = from_sut(&w.h, &w.decode(ty, &data));
        if let Some(d) = diff(&m, &got) {
            return Err(format!("with the inserted fields, decoding {}: {}", hex(&data), d));
        }
        let plain = encode(&base);
        let got = from_sut(&w.h, &w.decode(ty, &plain));
        if let Some(d) = diff(&base, &got) {
            return Err(format!("without the inserted fields, decoding {}: {}", hex(&plain), d));
        }
    }
    Ok(())
}
