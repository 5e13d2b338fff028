//! Damage inside a length-delimited value stays inside it.

use crate::engine::*;
use crate::schema::Scalar;
use crate::tape::Source;
use crate::wire::*;
use crate::world::*;

pub const PROP: Prop = Prop {
    id: "C09",
    run,
    enumerated: none,
    quick: 200_000,
    thorough: 1_200_000,
    threads: 8,
    rule: "A typed message in which the contents of one length-delimited value (nested message, \
           packed array, string, bytes, unknown), at any level, are replaced by damaged or arbitrary \
           bytes. The whole must decode to the same fields around it, and the value to what its bytes \
           decode to on their own. Non-trivial: the damaged value has a neighbour and its contents \
           do not decode cleanly.",
};

/// The message with the victim replaced; the payload bytes and the expected value go separate ways.
fn damage(src: &mut Source, w: &World, m: &RMsg, depth: usize, info: &mut Info) -> (Vec<u8>, RMsg) {
    let types = &w.types;
    // Go deeper?
    let nested: Vec<usize> =
        (0..m.fields.len()).filter(|i| matches!(m.fields[*i].1, RV::Msg(_))).collect();
    if !nested.is_empty() && src.bool() {
        let i = *src.pick(&nested);
        if let RV::Msg(inner) = &m.fields[i].1 {
            let (bytes, expected) = damage(src, w, inner, depth + 1, info);
            let mut out = vec![];
            for (k, (n, v)) in m.fields.iter().enumerate() {
                if k == i {
                    put_tag(&mut out, *n, 2);
                    put_len(&mut out, &bytes);
                } else {
                    out.extend(encode_field(*n, v));
                }
            }
            let mut e = m.clone();
            e.fields[i].1 = RV::Msg(expected);
            info.neighbours += m.fields.len() - 1;
            return (out, e);
        }
    }
    // The victim is a new field.
    let t = &types.msgs[m.ty];
    let candidates: Vec<u64> = t
        .numbers
        .iter()
        .cloned()
        .filter(|n| t.fields[n].ty.wire_type() == 2 || t.fields[n].packs().is_some())
        .collect();
    let number = if candidates.is_empty() || src.one_in(10) {
        unknown_number(src, t)
    } else {
        *src.pick(&candidates)
    };
    let field = t.fields.get(&number).cloned();
    let content = match field {
        Some(TField { ty: TTy::Msg(inner), .. }) => {
            let mut b = Budget { fields: 8, big: false, other_form: true };
            match src.weighted(&[60, 20, 20]) {
                0 if src.one_in(30) => {
                    // More than a page or so of it.
                    let mut d = vec![];
                    put_tag(&mut d, unknown_number(src, &types.msgs[inner]), 2);
                    let n = *src.pick(&[200usize, 1100, 4100, 9000, 66_000]);
                    put_len(&mut d, &vec![src.draw(256) as u8; n]);
                    let mut more = loose(src, types, inner, 4, &mut b);
                    mutate(src, &mut more);
                    if src.bool() {
                        d.extend(more);
                    } else {
                        d = [more, d].concat();
                    }
                    match src.below(3) {
                        0 => {
                            let n = src.range(1, 12);
                            d.extend(vec![0x80 | src.draw(128) as u8; n]);
                        }
                        1 => d.truncate(d.len() - src.range(1, 10)),
                        _ => {}
                    }
                    d
                }
                0 => loose(src, types, inner, 4, &mut b),
                1 => {
                    let v = gen_msg(src, types, inner, 5, &mut b);
                    let mut d = encode(&v);
                    mutate(src, &mut d);
                    d
                }
                _ => {
                    let n = src.below(20);
                    src.bytes(n)
                }
            }
        }
        Some(f) if f.packs().is_some() => {
            let s = f.packs().unwrap();
            let big = src.one_in(30);
            let values = gen_packed(src, s, big);
            let mut d = vec![];
            for v in values {
                put_num(&mut d, s, v);
            }
            match src.weighted(&[40, 20, 20, 20]) {
                0 => {
                    let cut = src.below(d.len() + 1);
                    d.truncate(cut);
                }
                1 => d.push(0x80),
                2 => mutate(src, &mut d),
                _ => d.extend([0xff; 11]),
            }
            d
        }
        _ => {
            let n = src.below(30);
            let mut d = src.bytes(n);
            if src.one_in(50) {
                d.resize(*src.pick(&[300usize, 5000, 70_000]), 0xc3);
            }
            d
        }
    };
    let value = match field {
        Some(TField { ty: TTy::Msg(inner), .. }) => {
            let alone = from_sut(&w.h, &w.decode(inner, &content));
            let mut c = true;
            info.damaged |= alone.garbage.is_some()
                || alone.fields.iter().any(|(_, v)| matches!(v, RV::Incomplete(..) | RV::UInvalid(..)));
            let reference = decode(types, inner, &content, &mut c);
            if let Some(d) = diff(&reference, &alone) {
                info.problem = Some(format!("{} on its own: {}", hex(&content), d));
            }
            RV::Msg(alone)
        }
        Some(f) if f.packs().is_some() => {
            let s = f.packs().unwrap();
            // The elements decode one by one or the array is incomplete.
            let probe = Types {
                msgs: vec![TMsg {
                    name: String::new(),
                    fields: [(1, f)].into_iter().collect(),
                    numbers: vec![1],
                }],
                enums: vec![],
            };
            let mut one = vec![];
            put_tag(&mut one, 1, 2);
            put_len(&mut one, &content);
            let mut c = true;
            match decode(&probe, 0, &one, &mut c).fields.remove(0).1 {
                RV::Packed(_, v) => RV::Packed(s, v),
                _ => {
                    info.damaged = true;
                    let mut whole = vec![];
                    put_len(&mut whole, &content);
                    RV::Incomplete(2, whole)
                }
            }
        }
        Some(TField { ty: TTy::Scalar(Scalar::String), .. }) => {
            info.damaged |= std::str::from_utf8(&content).is_err();
            RV::Str(String::from_utf8_lossy(&content).into_owned())
        }
        Some(TField { ty: TTy::Scalar(Scalar::Bytes), .. }) => {
            info.damaged = true;
            RV::Bytes(content.clone())
        }
        _ => {
            info.damaged = true;
            RV::ULen(content.clone())
        }
    };
    let at = src.below(m.fields.len() + 1);
    let mut out = vec![];
    for (n, v) in &m.fields[..at] {
        out.extend(encode_field(*n, v));
    }
    put_tag(&mut out, number, 2);
    put_len(&mut out, &content);
    for (n, v) in &m.fields[at..] {
        out.extend(encode_field(*n, v));
    }
    let mut e = m.clone();
    e.fields.insert(at, (number, value));
    info.neighbours += m.fields.len();
    info.depth = depth;
    (out, e)
}

#[derive(Default)]
struct Info {
    damaged: bool,
    neighbours: usize,
    depth: usize,
    problem: Option<String>,
}

fn run(_: u64, src: &mut Source, case: &mut Case) -> Check {
    let w = match world(src) {
        Some(w) => w,
        None => {
            case.label("skipped: no context");
            return Ok(());
        }
    };
    for _ in 0..3 {
        let ty = w.pick_type(src);
        let mut b = Budget { fields: 15, big: false, other_form: true };
        let m = if src.one_in(10) {
            let levels = src.range(2, 60);
            gen_spine(src, &w.types, ty, levels, &mut b)
        } else {
            gen_msg(src, &w.types, ty, 1, &mut b)
        };
        let mut info = Info::default();
        let (data, expected) = damage(src, &w, &m, 1, &mut info);
        case.describe(|| {
            format!("{}\nexpected: {:?}\npayload: {}", w.describe(ty), expected, hex(&data))
        });
        case.sample(|| format!("{:?}", expected));
        case.max("level of the damage", info.depth as u64);
        case.label_if(info.damaged, "contents damaged");
        if info.damaged && info.neighbours > 0 {
            case.nontrivial(digest(&data) ^ digest(w.text.as_bytes()));
        }
        if let Some(p) = info.problem {
            return Err(p);
        }
        let got = from_sut(&w.h, &w.decode(ty, &data));
        if let Some(d) = diff(&expected, &got) {
            return Err(format!("decoding {}: {}", hex(&data), d));
        }
    }
    Ok(())
}
