//! Decoding cost is bounded by the payload, not by lengths claimed in it.

use crate::alloc::measure;
use crate::engine::*;
use crate::tape::Source;
use crate::wire::*;
use crate::world::*;

pub const PROP: Prop = Prop {
    id: "C02",
    run,
    enumerated: none,
    quick: 80_000,
    thorough: 400_000,
    threads: 8,
    rule: "Payloads of up to 256 KiB in families that provoke allocation (claimed lengths, tiny \
           fields, nesting, big leaves below nesting, packed arrays, truncation, random), decoded \
           under a counting allocator. Bound on the bytes requested during decode: 16 KiB + \
           64 per payload byte + 600 per field + 1500 per message of the reference decoding; as \
           both are bounded by the payload size this is a fixed multiple of it. Non-trivial: a \
           payload of at least 64 bytes or one that claims more than it has.",
};

fn fill(src: &mut Source, types: &Types, ty: usize, target: usize) -> (Vec<u8>, &'static str) {
    let t = &types.msgs[ty];
    let number = |src: &mut Source| {
        if t.numbers.is_empty() || src.one_in(4) {
            unknown_number(src, t)
        } else {
            *src.pick(&t.numbers)
        }
    };
    let mut out = vec![];
    match src.weighted(&[20, 15, 15, 15, 15, 10, 10]) {
        0 => {
            // Lengths that are not there, after some complete fields.
            let k = src.below(5);
            for _ in 0..k {
                let n = number(src);
                let wt = *src.pick(&[0u8, 2, 5]);
                let v = gen_raw(src, wt);
                out.extend(encode_field(n, &v));
            }
            let n = number(src);
            put_tag(&mut out, n, 2);
            let claim = match src.draw(3) {
                0 => 1u64 << src.range(10, 31),
                1 => 1u64 << src.range(20, 40),
                _ => src.int() | 1 << 16,
            };
            put_varint(&mut out, claim);
            let have = src.below(64.min(claim as usize));
            out.extend(src.bulk(have));
            (out, "claimed length")
        }
        1 => {
            // Tiny fields.
            let k = src.range(1, 3);
            let mut p = vec![];
            for _ in 0..k {
                let n = number(src);
                match src.draw(3) {
                    0 => {
                        put_tag(&mut p, n, 0);
                        p.push(src.draw(128) as u8);
                    }
                    1 => {
                        put_tag(&mut p, n, 2);
                        p.push(0);
                    }
                    _ => {
                        put_tag(&mut p, n, 2);
                        p.push(2);
                        p.extend(src.bytes(2).iter().map(|b| b & 0x7f));
                    }
                }
            }
            while out.len() < target {
                out.extend_from_slice(&p);
            }
            (out, "tiny fields")
        }
        2 => {
            let levels = *src.pick(&[10usize, 90, 99, 110, 1000, 20000]);
            let inner = src.bulk(4);
            (deep(src, types, ty, levels, &inner), "deep nesting")
        }
        3 => {
            // A big leaf below some levels.
            let levels = *src.pick(&[1usize, 10, 50, 98]);
            let mut leaf = vec![];
            let n = number(src);
            put_tag(&mut leaf, n, 2);
            let c = if src.bool() { src.bulk(target) } else { vec![b'a'; target] };
            put_len(&mut leaf, &c);
            (deep(src, types, ty, levels, &leaf), "big leaf below nesting")
        }
        4 => {
            // Arrays and strings.
            while out.len() < target {
                let n = number(src);
                put_tag(&mut out, n, 2);
                let len = *src.pick(&[1usize, 100, 1000, 10_000, 60_000]);
                let fill = *src.pick(&[0u8, 1, 0x7f, b'a', 0xff]);
                let c = if src.one_in(3) { src.bulk(len) } else { vec![fill; len] };
                put_len(&mut out, &c);
            }
            (out, "arrays and strings")
        }
        5 => {
            // Nested messages claiming the rest, over and over.
            let n = number(src);
            while out.len() < target.min(20_000) {
                put_tag(&mut out, n, 2);
                let claim = (target - out.len().min(target)) as u64;
                put_varint(&mut out, claim);
            }
            (out, "nested claims")
        }
        _ => (src.bulk(target), "random"),
    }
}

fn run(_: u64, src: &mut Source, case: &mut Case) -> Check {
    let w = match world(src) {
        Some(w) => w,
        None => {
            case.label("skipped: no context");
            return Ok(());
        }
    };
    let ty = w.pick_type(src);
    for _ in 0..2 {
        let target = *src.pick(&[256usize, 1024, 1024, 4096, 4096, 16 * 1024, 64 * 1024, 256 * 1024]);
        let target = if src.one_in(8) { target } else { target.min(8192) };
        let (mut data, family) = fill(src, &w.types, ty, target);
        if src.one_in(4) {
            let cut = src.below(data.len() + 1);
            data.truncate(cut);
            case.label("truncated");
        }
        case.label(family);
        case.describe(|| format!("{}\n{} payload: {}", w.describe(ty), family, hex(&data)));
        case.sample(|| format!("{}: {}", family, hex(&data[..data.len().min(40)])));
        if data.len() >= 64 || family == "claimed length" {
            case.nontrivial(digest(&data) ^ digest(w.text.as_bytes()));
        }
        let (v, total, peak) = measure(|| w.decode(ty, &data));
        drop(v);
        let mut c = true;
        let model = decode(&w.types, ty, &data, &mut c);
        let (fields, messages) = sizes(&model);
        let bound = 16 * 1024 + 64 * data.len() + 600 * fields + 1500 * messages;
        case.max("payload bytes", data.len() as u64);
        case.max("bytes requested per payload byte (payloads over 1000 bytes), x100", if data.len() > 1000 {
            total * 100 / data.len() as u64
        } else {
            0
        });
        case.max("percent of the bound", total * 100 / bound as u64);
        if total > bound as u64 {
            return Err(format!(
                "decoding {} bytes ({}; {} fields in {} messages) requested {} bytes of memory (peak {}); \
                 the bound is {}",
                data.len(), family, fields, messages, total, peak, bound
            ));
        }
    }
    Ok(())
}

fn sizes(m: &RMsg) -> (usize, usize) {
    let mut f = m.fields.len();
    let mut n = 1;
    for (_, v) in &m.fields {
        if let RV::Msg(i) = v {
            let (a, b) = sizes(i);
            f += a;
            n += b;
        }
    }
    (f, n)
}
