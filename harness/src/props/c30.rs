//! Nested messages decode and encode as they would on their own.

use crate::engine::*;
use crate::tape::Source;
use crate::wire::{self, *};
use crate::world::*;
use protofish::decode::{MessageValue, Value};

pub const PROP: Prop = Prop {
    id: "C30",
    run,
    enumerated: |_| GRAND,
    quick: 30_000,
    thorough: 2_000_000,
    threads: 8,
    rule: "Bytes of any kind, valid or not, decoded as a message type on their own and as the content \
           of a message field, up to 99 messages down, with complete fields before and after on every \
           level: the value down there must equal the value on its own (unless the whole is nested \
           beyond the limit), the others must be there as well, and every level must encode to its \
           fields' encodings one after the other, a message field to its tag, the length and the \
           encoding of the message on its own. Non-trivial: not empty and nested.",
};

/// The fields of some message, each complete.
fn siblings(src: &mut Source, types: &Types, ty: usize) -> Vec<Vec<u8>> {
    if src.chance(60) {
        return vec![];
    }
    let mut budget = Budget::new(src);
    let m = gen_msg(src, types, ty, 98, &mut budget);
    // Hand built types may have numbers that no tag can hold.
    let mut out: Vec<Vec<u8>> = m.fields.iter().filter(|(n, _)| *n < 1 << 61).map(|(n, v)| encode_field(*n, v)).collect();
    if src.one_in(4) {
        let n = unknown_number(src, &types.msgs[ty]);
        let wt = *src.pick(&[0u8, 1, 2, 5]);
        let v = gen_raw(src, wt);
        let at = src.below(out.len() + 1);
        out.insert(at, encode_field(n, &v));
    }
    // More would only be more of the same.
    out.truncate(6);
    out
}

fn alone(m: &MessageValue, i: usize) -> MessageValue {
    MessageValue { msg_ref: m.msg_ref, fields: vec![m.fields[i].clone()], garbage: None }
}

/// Every level is encoded as its fields one by one.
fn composed(w: &World, m: &MessageValue, levels: usize) -> Check {
    let whole = m.encode(&w.ctx);
    let mut parts = vec![];
    for i in 0..m.fields.len() {
        let one = alone(m, i).encode(&w.ctx);
        if let Value::Message(inner) = &m.fields[i].value {
            let content = inner.encode(&w.ctx);
            let mut expected = vec![];
            put_tag(&mut expected, m.fields[i].number, 2);
            put_len(&mut expected, &content);
            if expected != one[..] {
                return Err(format!(
                    "field {} holds a message that encodes as {}, but is encoded as {}",
                    m.fields[i].number, hex(&content), hex(&one)
                ));
            }
            if levels > 0 {
                composed(w, inner, levels - 1)?;
            }
        }
        parts.extend_from_slice(&one);
    }
    if let Some(g) = &m.garbage {
        parts.extend_from_slice(g);
    }
    if parts != whole[..] {
        return Err(format!("the fields encode as {}, all together as {}", hex(&parts), hex(&whole)));
    }
    Ok(())
}

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    let w = match src.draw(4) {
        _ if e > 0 => fixed(),
        0 => fixed(),
        1 => odd_world(src),
        _ => world(src),
    };
    let w = match w {
        Some(w) => w,
        None => {
            case.label("skipped: no context");
            return Ok(());
        }
    };
    let types = &w.types;
    let lead: Vec<Vec<(u64, usize)>> = types
        .msgs
        .iter()
        .map(|m| {
            m.fields
                .iter()
                .filter_map(|(n, f)| match f.ty {
                    TTy::Msg(t) if *n < 1 << 61 => Some((*n, t)),
                    _ => None,
                })
                .collect()
        })
        .collect();
    let starts: Vec<usize> = (0..types.msgs.len()).filter(|i| !lead[*i].is_empty()).collect();
    if starts.is_empty() {
        case.label("skipped: no message fields");
        return Ok(());
    }
    let start = *src.pick(&starts);
    // The way down.
    let wanted = match e {
        0 => *src.pick(&[1usize, 1, 1, 2, 2, 3, 5, 10, 50, 97, 98, 99]),
        _ => 1 + e as usize % 3,
    };
    let mut path = vec![];
    let mut at = start;
    while path.len() < wanted && !lead[at].is_empty() {
        let on: Vec<(u64, usize)> = lead[at].iter().cloned().filter(|(_, t)| !lead[*t].is_empty()).collect();
        let (n, t) = *src.pick(if on.is_empty() { &lead[at] } else { &on });
        path.push((at, n, t));
        at = t;
    }
    let content = match src.draw(6) {
        // Much of everything.
        _ if e > 0 => encode(&grand_raw(e - 1)),
        0 => vec![],
        1 => encode(&gen_typed(src, types, at)),
        2 => {
            let mut b = Budget::new(src);
            loose(src, types, at, 1, &mut b)
        }
        _ => hostile(src, types, at),
    };
    let own = w.decode(at, &content);
    let own_r = from_sut(&w.h, &own);
    case.label(match path.len() {
        1 => "1 level",
        2..=9 => "2 to 9 levels",
        10..=97 => "10 to 97 levels",
        _ => "98 or 99 levels",
    });
    case.label_if(own.garbage.is_some(), "content with garbage");
    if path.len() + own_r.depth() > LIMIT {
        case.label("skipped: nested beyond the limit");
        return Ok(());
    }
    let mut data = content.clone();
    let mut before = vec![];
    for (ty, n, _) in path.iter().rev() {
        let (b, a) = if path.len() > 10 && !src.one_in(10) {
            (vec![], vec![])
        } else {
            (siblings(src, types, *ty), siblings(src, types, *ty))
        };
        let mut next = b.concat();
        put_tag(&mut next, *n, 2);
        put_len(&mut next, &data);
        next.extend(a.concat());
        data = next;
        before.push((b, a));
    }
    before.reverse();
    case.describe(|| {
        format!(
            "{}\npath {:?}, content {} as {}\nwhole {}",
            w.describe(start), path.iter().map(|(_, n, _)| n).collect::<Vec<_>>(), hex(&content),
            types.msgs[at].name, hex(&data)
        )
    });
    case.sample(|| format!("{} levels: {}", path.len(), hex(&data)));
    if !content.is_empty() {
        case.nontrivial(digest(&data) ^ digest(w.text.as_bytes()));
    }
    let whole = w.decode(start, &data);
    let mut m = &whole;
    for (level, (ty, n, _)) in path.iter().enumerate() {
        let (b, a) = &before[level];
        if m.msg_ref != w.h.msgs[*ty] {
            return Err(format!("level {}: a value of another message type", level));
        }
        if m.fields.len() != b.len() + 1 + a.len() || m.garbage.is_some() {
            return Err(format!(
                "level {}: {} fields and garbage {:?} instead of {} fields",
                level, m.fields.len(), m.garbage, b.len() + 1 + a.len()
            ));
        }
        // The fields beside it are what they are without it.
        for (i, f) in b.iter().chain(a).enumerate() {
            let i = if i < b.len() { i } else { i + 1 };
            let single = w.decode(*ty, f);
            let there = alone(m, i);
            let (x, y) = (from_sut(&w.h, &single), from_sut(&w.h, &there));
            if level + x.depth() <= LIMIT {
                if let Some(d) = wire::diff(&x, &y) {
                    return Err(format!("level {}, field {} ({}): {}", level, i, hex(f), d));
                }
            }
        }
        match &m.fields[b.len()] {
            f if f.number != *n => return Err(format!("level {}: field number {} is {}", level, n, f.number)),
            f => match &f.value {
                Value::Message(inner) => m = inner,
                o => return Err(format!("level {}: field {} is no message but {:?}", level, n, o)),
            },
        }
    }
    if m.msg_ref != own.msg_ref {
        return Err("the content is a value of another message type".to_string());
    }
    if let Some(d) = wire::diff(&own_r, &from_sut(&w.h, m)) {
        return Err(format!("{} levels down: {}", path.len(), d));
    }
    let (x, y) = (own.encode(&w.ctx), m.encode(&w.ctx));
    if x != y {
        return Err(format!("the content encodes as {}, nested as {}", hex(&x), hex(&y)));
    }
    composed(&w, &whole, if path.len() > 10 { 3 } else { 12 })?;
    composed(&w, m, 2)
}
