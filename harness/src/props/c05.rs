//! Values survive an encode and decode round trip.

use crate::engine::*;
use crate::props::c03::classify;
use crate::tape::Source;
use crate::wire::*;
use crate::world::*;

pub const PROP: Prop = Prop {
    id: "C05",
    run,
    enumerated: |_| GRAND,
    quick: 140_000,
    thorough: 1_500_000,
    threads: 8,
    rule: "Message values that agree with the types of a random schema (parsed or built by hand), \
           up to 100 levels, encoded and decoded by protofish; compared field by field with floats \
           compared by bits, and with protofish's own equality when there is no NaN. Non-trivial: \
           at least two fields.",
};

fn has_nan(m: &RMsg) -> bool {
    use crate::schema::Scalar::*;
    let nan = |s: crate::schema::Scalar, v: u64| match s {
        Double => f64::from_bits(v).is_nan(),
        Float => f32::from_bits(v as u32).is_nan(),
        _ => false,
    };
    m.fields.iter().any(|(_, v)| match v {
        RV::Num(s, v) => nan(*s, *v),
        RV::Packed(s, v) => v.iter().any(|v| nan(*s, *v)),
        RV::Msg(m) => has_nan(m),
        _ => false,
    })
}

fn round(w: &World, ty: usize, m: &RMsg, case: &mut Case) -> Check {
    classify(m, &w.types, case);
    if m.count() >= 2 {
        case.nontrivial(digest(&encode(m)) ^ digest(w.text.as_bytes()));
    }
    let v = to_sut(&w.h, m);
    let data = v.encode(&w.ctx);
    let back = w.decode(ty, &data);
    if let Some(d) = diff(m, &from_sut(&w.h, &back)) {
        return Err(format!("encoded to {}, then decoding: {}", hex(&data), d));
    }
    if !has_nan(m) && v != back {
        return Err(format!("encoded to {}, decodes to a value that is not equal", hex(&data)));
    }
    Ok(())
}

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    if e > 0 {
        // Much of everything.
        return match fixed() {
            Some(w) => round(&w, 0, &grand(e - 1), case).map_err(|e| format!("{:.3000}", e)),
            None => Ok(()),
        };
    }
    let w = match world(src) {
        Some(w) => w,
        None => {
            case.label("skipped: no context");
            return Ok(());
        }
    };
    for _ in 0..3 {
        let ty = w.pick_type(src);
        let m = gen_typed(src, &w.types, ty);
        case.describe(|| format!("{}\nvalues: {:?}", w.describe(ty), m));
        case.sample(|| format!("{:?}", m));
        round(&w, ty, &m, case)?;
    }
    Ok(())
}
