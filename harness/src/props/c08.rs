//! A truncated payload keeps every complete field and the exact remainder.

use crate::engine::*;
use crate::tape::Source;
use crate::wire::*;
use crate::world::*;

pub const PROP: Prop = Prop {
    id: "C08",
    run,
    enumerated: none,
    quick: 150_000,
    thorough: 600_000,
    threads: 8,
    rule: "Well-formed payloads (typed fields, some unknown ones) cut at every byte (payloads up to \
           300 bytes) or at and around field boundaries and at random places, and in a value of up to \
           2^63 bytes at the end; each prefix is decoded and compared with the fields before the cut and the remainder. Non-trivial: at least two \
           fields.",
};

fn run(_: u64, src: &mut Source, case: &mut Case) -> Check {
    let w = match world(src) {
        Some(w) => w,
        None => {
            case.label("skipped: no context");
            return Ok(());
        }
    };
    let ty = w.pick_type(src);
    let mut b = Budget { fields: 15, big: src.chance(15), other_form: true };
    let mut m = gen_msg(src, &w.types, ty, 1, &mut b);
    let n = src.below(3);
    for _ in 0..n {
        let t = &w.types.msgs[ty];
        let number = unknown_number(src, t);
        let wt = *src.pick(&[0u8, 1, 2, 5]);
        let v = gen_raw(src, wt);
        let at = src.below(m.fields.len() + 1);
        m.fields.insert(at, (number, v));
    }
    let parts: Vec<Vec<u8>> = m.fields.iter().map(|(n, v)| encode_field(*n, v)).collect();
    let data: Vec<u8> = parts.concat();
    let mut starts = vec![];
    let mut at = 0;
    for p in &parts {
        starts.push(at);
        at += p.len();
    }
    case.describe(|| format!("{}\nvalues: {:?}\npayload: {}", w.describe(ty), m, hex(&data)));
    case.sample(|| format!("{:?}", m));
    if m.fields.len() >= 2 {
        case.nontrivial(digest(&data) ^ digest(w.text.as_bytes()));
    }
    let mut cuts: Vec<usize> = if data.len() <= 300 {
        (0..=data.len()).collect()
    } else {
        let mut c = vec![];
        for s in &starts {
            for d in 0..6 {
                c.push(s + d);
                c.push(s.saturating_sub(d));
            }
        }
        for _ in 0..20 {
            c.push(src.below(data.len() + 1));
        }
        c.push(data.len());
        c
    };
    cuts.retain(|c| *c <= data.len());
    if src.chance(20) {
        enormous(src, case, &w, ty, &m, &data)?;
    }
    cuts.sort();
    cuts.dedup();
    for cut in cuts {
        case.count("cuts", 1);
        let mut expected = RMsg { ty, ..RMsg::default() };
        for (i, p) in parts.iter().enumerate() {
            if starts[i] + p.len() <= cut {
                expected.fields.push(m.fields[i].clone());
                continue;
            }
            if starts[i] < cut {
                let (number, v) = &m.fields[i];
                let wt = wire_type(v);
                let tag = varint_len((number << 3) | wt as u64);
                if cut - starts[i] < tag {
                    expected.garbage = Some(data[starts[i]..cut].to_vec());
                    case.label("cut in a tag");
                } else {
                    let rest = data[starts[i] + tag..cut].to_vec();
                    case.label_if(rest.is_empty(), "cut right after a tag");
                    expected.fields.push((*number, RV::Incomplete(wt, rest)));
                }
            }
            break;
        }
        let got = from_sut(&w.h, &w.decode(ty, &data[..cut]));
        if let Some(d) = diff(&expected, &got) {
            return Err(format!("first {} of {} bytes, {}: {}", cut, data.len(), hex(&data[..cut]), d));
        }
    }
    Ok(())
}

/// A payload that would go on with a value of gigabytes, cut in that value.
fn enormous(
    src: &mut Source,
    case: &mut Case,
    w: &World,
    ty: usize,
    m: &RMsg,
    before: &[u8],
) -> Check {
    let t = &w.types.msgs[ty];
    let declared: Vec<u64> = t
        .fields
        .iter()
        .filter(|(_, f)| f.ty.wire_type() == 2 || f.repeated())
        .map(|(n, _)| *n)
        .collect();
    let number = if declared.is_empty() || src.chance(15) {
        unknown_number(src, t)
    } else {
        *src.pick(&declared)
    };
    // What there is of the value: it may well look like fields or elements.
    let rest = match src.below(4) {
        0 => before[..src.below(before.len() + 1)].to_vec(),
        1 => vec![*src.pick(&[0u8, 1, 0x7f]); src.below(40)],
        2 => vec![],
        _ => src.bytes(40),
    };
    // Whatever of the length a careless reader drops, there would be enough.
    let short = src.below(rest.len() + 2) as u64;
    let length = match src.below(6) {
        0 => (1 << 32) + short,
        1 => (1 << src.range(17, 62)) + short,
        2 => (src.range(1, 1 << 20) << 32) as u64 + short,
        3 => (1 << 31) + short,
        4 => (1u64 << 63) - 1 - short,
        _ => rest.len() as u64 + 1 + short,
    };
    let length = length.max(rest.len() as u64 + 1);
    let mut data = before.to_vec();
    put_tag(&mut data, number, 2);
    let mut value = vec![];
    put_varint(&mut value, length);
    value.extend_from_slice(&rest);
    data.extend_from_slice(&value);
    let mut expected = m.clone();
    expected.fields.push((number, RV::Incomplete(2, value)));
    case.label("cut in a value of gigabytes");
    let got = from_sut(&w.h, &w.decode(ty, &data));
    match diff(&expected, &got) {
        Some(d) => Err(format!(
            "the value of field {} with a length of {} cut: {}: {}",
            number,
            length,
            hex(&data),
            d
        )),
        None => Ok(()),
    }
}
