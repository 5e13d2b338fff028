//! Decode then encode is lossless, even for damaged or unknown data.

use crate::engine::*;
use crate::tape::Source;
use crate::wire::*;
use crate::world::*;

pub const PROP: Prop = Prop {
    id: "C06",
    run,
    enumerated: |t| 3 * GRAND + if t { 65536 + 256 } else { 256 },
    quick: 70_000,
    thorough: 1_000_000,
    threads: 8,
    rule: "Payloads of declared, unknown, mismatching and invalid fields, truncated or followed by \
           garbage, at every level; mutated payloads; arbitrary bytes. A reference decoder tells \
           whether varints are canonical and strings valid UTF-8: then the re-encoded bytes must be \
           identical; in any case they must decode to the same value. The enumerated part tries all \
           payloads of up to two bytes (three in the thorough tier). Non-trivial: identity was \
           demanded for a payload that has a damaged or unknown part.",
};

fn damaged(m: &RMsg) -> bool {
    m.garbage.is_some()
        || m.fields.iter().any(|(_, v)| match v {
            RV::Num(..) | RV::Str(_) | RV::Bytes(_) | RV::Packed(..) | RV::Enum(..) => false,
            RV::Msg(m) => damaged(m),
            _ => true,
        })
}

fn check(w: &World, ty: usize, data: &[u8], case: &mut Case, count: bool) -> Check {
    let mut canonical = true;
    let model = decode(&w.types, ty, data, &mut canonical);
    let v = w.decode(ty, data);
    let out = v.encode(&w.ctx);
    if count {
        case.label(if canonical { "canonical" } else { "not canonical" });
        let d = damaged(&model);
        case.label_if(d, "damaged or unknown parts");
        if canonical && d {
            case.nontrivial(digest(data) ^ digest(w.text.as_bytes()));
        }
    }
    if canonical && out[..] != *data {
        return Err(format!(
            "payload    {}\nre-encodes {}\ndecoded as {:?}",
            hex(data),
            hex(&out),
            from_sut(&w.h, &v)
        ));
    }
    let again = w.decode(ty, &out);
    if let Some(d) = diff(&from_sut(&w.h, &v), &from_sut(&w.h, &again)) {
        return Err(format!(
            "payload {} re-encodes to {}, which decodes to another value: {}",
            hex(data),
            hex(&out),
            d
        ));
    }
    Ok(())
}

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    if e > 0 {
        let w = match fixed() {
            Some(w) => w,
            None => return Ok(()),
        };
        let ty = fixed_type(&w);
        case.describe(|| w.describe(ty));
        if e <= 3 * GRAND {
            // Much of everything, whole or not.
            let i = (e - 1) % GRAND;
            let mut data = encode(&if e <= GRAND { grand(i) } else { grand_raw(i) });
            if e > 2 * GRAND {
                data.truncate(data.len() - 1 - i as usize % 7);
            }
            return check(&w, ty, &data, case, true).map_err(|e| format!("{:.3000}", e));
        }
        let e = e - 1 - 3 * GRAND;
        let prefix: Vec<u8> =
            if e < 256 { vec![e as u8] } else { vec![((e - 256) >> 8) as u8, (e - 256) as u8] };
        check(&w, ty, &prefix, case, false)?;
        for b in 0..=255u8 {
            let mut d = prefix.clone();
            d.push(b);
            check(&w, ty, &d, case, false)?;
            case.count("short payloads", 1);
        }
        return Ok(());
    }
    let w = if src.chance(15) { odd_world(src) } else { world(src) };
    let w = match w {
        Some(w) => w,
        None => {
            case.label("skipped: no context");
            return Ok(());
        }
    };
    for _ in 0..4 {
        let ty = w.pick_type(src);
        let data = match src.weighted(&[70, 30]) {
            0 => {
                let mut b = Budget::new(src);
                loose(src, &w.types, ty, 1, &mut b)
            }
            _ => hostile(src, &w.types, ty),
        };
        case.describe(|| format!("{}\npayload: {}", w.describe(ty), hex(&data)));
        case.sample(|| format!("{} <- {}", w.types.msgs[ty].name, hex(&data)));
        case.max("payload bytes", data.len() as u64);
        check(&w, ty, &data, case, true)?;
    }
    Ok(())
}
