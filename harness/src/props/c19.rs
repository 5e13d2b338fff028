//! A context built by hand equals the parsed one and behaves like it.

use super::common::*;
use crate::engine::*;
use crate::huge;
use crate::render;
use crate::schema::*;
use crate::tape::Source;
use crate::view;
use crate::wire::{self, from_sut, hex, to_sut, Types};
use crate::world;

pub const PROP: Prop = Prop {
    id: "C19",
    run,
    enumerated: |_| (huge::KINDS * huge::SIZES.len()) as u64,
    quick: 25_000,
    thorough: 500_000,
    threads: 8,
    rule: "Random file sets (one package per file, no services, no enum aliases) are parsed and also \
           built through the API, with the fields of oneofs added into the oneof or the oneof added \
           over existing fields. The contexts must compare equal both ways, and typed and damaged \
           payloads must decode and encode the same with both. The enumerated part has 130, 300 and up to \
           66000 of one thing each. Non-trivial: at least two types.",
};

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    let base = Cfg {
        services: false,
        aliases: false,
        distinct_packages: true,
        nan: false,
        big: src.one_in(10),
        ..Cfg::default()
    };
    let cfg = varied(src, base);
    let fs = if e > 0 {
        // Very many of one thing.
        let (kind, n) = ((e - 1) as usize / huge::SIZES.len(), huge::SIZES[(e - 1) as usize % huge::SIZES.len()]);
        // The API looks through all packages and oneofs for a name.
        let n = if matches!(kind, 7 | 10) { n.min(10_000) } else { n };
        if matches!(kind, 5 | 6 | 11 | 15) || !huge::exists(kind, n) {
            return Ok(());
        }
        case.label("very many of one thing");
        huge::schema(kind, n)
    } else {
        gen(src, cfg)
    };
    let text = render::mixed(&fs, src);
    case.describe(|| all_text(&text));
    let parsed = match parse(&text) {
        Ok(c) => c,
        Err(_) => {
            case.label("skipped: does not parse");
            return Ok(());
        }
    };
    case.sample(|| all_text(&text));
    classify(&fs, case);
    if fs.type_count() >= 2 {
        case.nontrivial(text_digest(&text));
    }
    let order = match src.below(3) {
        0 => None,
        _ => Some(src.draw(u64::MAX)),
    };
    case.label_if(order.is_some(), "oneofs added over existing fields");
    let built = world::build_ordered(&fs, order)?;
    if !(parsed == built) || !(built == parsed) {
        let v = view::expected(&fs);
        let (names, values) = (v.names(), v.enum_values());
        let a = view::actual(&parsed, &names, &values);
        let b = view::actual(&built, &names, &values);
        let d = view::diff(&a, &b)
            .unwrap_or_else(|| format!("parsed: {:?}\nbuilt: {:?}", parsed, built));
        return Err(format!("the parsed and the built context are not equal: {}", d));
    }
    // The same references in both, as they are equal.
    let types = Types::of(&view::expected(&fs));
    let (hp, hb) = match (types.handles(&parsed), types.handles(&built)) {
        (Some(p), Some(b)) => (p, b),
        _ => return Err("a declared type is missing".to_string()),
    };
    if types.msgs.is_empty() {
        return Ok(());
    }
    for _ in 0..2 {
        let ty = src.below(types.msgs.len());
        let data = if src.bool() {
            let m = wire::gen_typed(src, &types, ty);
            let a = to_sut(&hp, &m).encode(&parsed);
            let b = to_sut(&hb, &m).encode(&built);
            if a != b {
                return Err(format!("{:?} encodes to {} and {}", m, hex(&a), hex(&b)));
            }
            a.to_vec()
        } else {
            wire::hostile(src, &types, ty)
        };
        let a = parsed.decode(hp.msgs[ty], &data);
        let b = built.decode(hb.msgs[ty], &data);
        let (ra, rb) = (from_sut(&hp, &a), from_sut(&hb, &b));
        if let Some(d) = wire::diff(&ra, &rb) {
            return Err(format!("{} as {}: parsed and built: {}", hex(&data), types.msgs[ty].name, d));
        }
        let (ea, eb) = (a.encode(&parsed), b.encode(&built));
        if ea != eb {
            return Err(format!("{} encodes again to {} and {}", hex(&data), hex(&ea), hex(&eb)));
        }
        case.label("payload compared");
    }
    Ok(())
}
