//! Decoding never crashes, whatever the bytes and the schema.

use crate::engine::*;
use crate::tape::Source;
use crate::wire::*;
use crate::world::*;

pub const PROP: Prop = Prop {
    id: "C01",
    run,
    enumerated: |_| 256,
    quick: 30_000,
    thorough: 2_000_000,
    threads: 8,
    rule: "A random schema (parsed, built by hand, or one that only the API can build) and payloads \
           for it: typed and then mutated, structurally damaged, random bytes, repeated patterns, \
           up to 20000 nested messages; decoded and the result encoded on a thread with a 2 MiB \
           stack. The enumerated part tries every payload of one and two bytes on a fixed schema. \
           A random case is non-trivial when a payload is longer than 2 bytes.",
};

fn exercise(w: &World, ty: usize, data: &[u8]) {
    let v = w.decode(ty, data);
    let out = v.encode(&w.ctx);
    let again = w.decode(ty, &out);
    let _ = again.encode(&w.ctx);
    drop(v);
}

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    if e > 0 {
        let w = match fixed() {
            Some(w) => w,
            None => return Ok(()),
        };
        let ty = fixed_type(&w);
        let first = (e - 1) as u8;
        case.describe(|| format!("payloads {:02x} and {:02x}xx", first, first));
        exercise(&w, ty, &[first]);
        for b in 0..=255u8 {
            exercise(&w, ty, &[first, b]);
        }
        case.count("two byte payloads", 257);
        return Ok(());
    }
    let w = if src.chance(35) { odd_world(src) } else { world(src) };
    let w = match w {
        Some(w) => w,
        None => {
            case.label("skipped: no context");
            return Ok(());
        }
    };
    for _ in 0..3 {
        let ty = w.pick_type(src);
        let data = hostile(src, &w.types, ty);
        case.describe(|| format!("{}\npayload: {}", w.describe(ty), hex(&data)));
        case.label("payload");
        case.max("payload bytes", data.len() as u64);
        if data.len() > 2 {
            case.nontrivial(digest(&data) ^ digest(w.text.as_bytes()));
        }
        case.sample(|| format!("{} <- {}", w.types.msgs[ty].name, hex(&data)));
        exercise(&w, ty, &data);
    }
    Ok(())
}
