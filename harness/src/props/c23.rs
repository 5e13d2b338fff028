//! Concatenated payloads decode to the concatenated fields.

use crate::engine::*;
use crate::tape::Source;
use crate::wire::*;
use crate::world::*;

pub const PROP: Prop = Prop {
    id: "C23",
    run,
    enumerated: |_| GRAND,
    quick: 150_000,
    thorough: 1_500_000,
    threads: 8,
    rule: "Two to four complete payloads (typed and unknown fields, often repeating the same singular \
           fields and oneof members, some with damaged contents inside length-delimited values) of \
           one message type; the concatenation must decode to the concatenated fields of the parts, \
           also inside a nested message. Encoding the concatenation of these field lists and of \
           others with incomplete and invalid values must concatenate the encodings. Non-trivial: \
           at least two parts with fields.",
};

/// Two grand payloads, one after the other.
fn big(w: &World, i: u64, case: &mut Case) -> Check {
    let (a, b) = (grand(i), grand_raw((i + 5) % GRAND));
    let (x, y) = (encode(&a), encode(&b));
    let all = [&x[..], &y[..]].concat();
    case.nontrivial(digest(&all));
    let (first, second, whole) = (w.decode(0, &x), w.decode(0, &y), w.decode(0, &all));
    let mut expected = from_sut(&w.h, &first);
    expected.fields.extend(from_sut(&w.h, &second).fields);
    if let Some(d) = diff(&expected, &from_sut(&w.h, &whole)) {
        return Err(format!("grand messages {} and {}: decoding the concatenation: {}", i, (i + 5) % GRAND, d));
    }
    if whole.encode(&w.ctx)[..] != [&first.encode(&w.ctx)[..], &second.encode(&w.ctx)[..]].concat()[..] {
        return Err(format!("grand messages {} and {}: encoded together they are something else", i, (i + 5) % GRAND));
    }
    Ok(())
}

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    if e > 0 {
        return match fixed() {
            Some(w) => big(&w, e - 1, case),
            None => Ok(()),
        };
    }
    let w = match world(src) {
        Some(w) => w,
        None => {
            case.label("skipped: no context");
            return Ok(());
        }
    };
    for _ in 0..2 {
        let ty = w.pick_type(src);
        let t = &w.types.msgs[ty];
        let n = src.range(2, 4);
        let mut parts: Vec<Vec<u8>> = vec![];
        for i in 0..n {
            if i > 0 && src.chance(15) {
                // The very same fields again.
                let again = src.pick(&parts).clone();
                case.label("repeated part");
                parts.push(again);
                continue;
            }
            let mut b = Budget { fields: 8, big: src.chance(10), other_form: true };
            if src.chance(30) {
                // Complete fields whose contents may be damaged.
                let mut part = vec![];
                for _ in 0..src.below(5) {
                    part.extend(loose_field(src, &w.types, ty, 4, &mut b));
                }
                case.label("part with damaged contents");
                parts.push(part);
                continue;
            }
            let mut m = gen_msg(src, &w.types, ty, 1, &mut b);
            if src.chance(30) {
                let number = unknown_number(src, t);
                let wt = *src.pick(&[0u8, 1, 2, 5]);
                let v = gen_raw(src, wt);
                m.fields.push((number, v));
            }
            parts.push(encode(&m));
        }
        let all = parts.concat();
        case.describe(|| {
            let p: Vec<String> = parts.iter().map(|e| hex(e)).collect();
            format!("{}\npayloads: {:?}", w.describe(ty), p)
        });
        if parts.iter().filter(|p| !p.is_empty()).count() >= 2 {
            case.nontrivial(digest(&all) ^ digest(w.text.as_bytes()));
        }
        let mut expected = RMsg { ty, ..RMsg::default() };
        let mut values = vec![];
        for e in &parts {
            let v = w.decode(ty, e);
            let d = from_sut(&w.h, &v);
            if d.garbage.is_some() {
                return Err(format!("complete payload {} leaves garbage", hex(e)));
            }
            expected.fields.extend(d.fields);
            values.push(v);
        }
        case.sample(|| format!("{} parts: {:?}", parts.len(), expected));
        let whole = w.decode(ty, &all);
        if let Some(d) = diff(&expected, &from_sut(&w.h, &whole)) {
            return Err(format!("decoding the concatenation {}: {}", hex(&all), d));
        }
        // Encoding: the list in one go and in parts. Any list of fields will do, also one with
        // incomplete and invalid values in the middle.
        for _ in 0..src.below(3) {
            let mut b = Budget { fields: 6, big: false, other_form: true };
            let data = loose(src, &w.types, ty, 1, &mut b);
            let mut v = w.decode(ty, &data);
            v.garbage = None;
            let at = src.below(values.len() + 1);
            values.insert(at, v);
        }
        let mut one = to_sut(&w.h, &RMsg { ty, ..RMsg::default() });
        let mut separate = vec![];
        for v in values {
            separate.extend_from_slice(&v.encode(&w.ctx));
            one.fields.extend(v.fields);
        }
        let together = one.encode(&w.ctx);
        if together[..] != separate[..] {
            return Err(format!(
                "encoding the fields {:?} in one go gives {}, in parts {}",
                from_sut(&w.h, &one),
                hex(&together),
                hex(&separate)
            ));
        }
        // The same below another message.
        let outer = w.types.msgs.iter().enumerate().find_map(|(i, m)| {
            m.fields.iter().find(|(_, f)| f.ty == TTy::Msg(ty)).map(|(n, _)| (i, *n))
        });
        if let Some((o, number)) = outer {
            let mut data = vec![];
            put_tag(&mut data, number, 2);
            put_len(&mut data, &all);
            let got = from_sut(&w.h, &w.decode(o, &data));
            let e = RMsg { ty: o, fields: vec![(number, RV::Msg(expected))], garbage: None };
            if let Some(d) = diff(&e, &got) {
                return Err(format!("nested, decoding {}: {}", hex(&data), d));
            }
            case.label("nested");
        }
    }
    Ok(())
}
