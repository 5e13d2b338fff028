//! Different versions of a schema work together.

use super::common::{gen_or_huge, HUGE};
use crate::engine::*;
use crate::evolve::{older, Edits};
use crate::schema::*;
use crate::tape::Source;
use crate::wire::*;
use crate::world::*;
use protofish::context as pc;

pub const PROP: Prop = Prop {
    id: "C24",
    run,
    enumerated: |_| HUGE,
    quick: 60_000,
    thorough: 1_200_000,
    threads: 8,
    rule: "A random schema and an older version of it: types, fields and enum values removed, fields \
           relabelled, retyped compatibly, renamed, moved in or out of oneofs. Payloads of the new \
           schema (typed and damaged) are decoded and encoded with the old one and then read with \
           the new one; payloads of the old schema are relayed by the new one. Fields declared the \
           same must have the same value in both, others the same bytes. Contexts also grow while \
           in use: types inserted later change no decoding. Enumerated: thousands of each kind of declaration. Non-trivial: the versions differ and \
           the payload has at least two fields.",
};

/// What has become of the fields `full` of a payload when decoded with the other version.
fn compare(
    a: &World,
    b: &World,
    m: &RMsg,
    other: &RMsg,
    path: &str,
    tally: &mut (u64, u64),
) -> Check {
    if m.garbage != other.garbage {
        return Err(format!("{}: garbage {:?} and {:?}", path, m.garbage, other.garbage));
    }
    if m.fields.len() != other.fields.len() {
        return Err(format!("{}: {} and {} fields", path, m.fields.len(), other.fields.len()));
    }
    let (ta, tb) = (&a.types.msgs[m.ty], &b.types.msgs[other.ty]);
    for (i, ((n, x), (o, y))) in m.fields.iter().zip(&other.fields).enumerate() {
        let at = format!("{}/{}:{}", path, i, n);
        if n != o {
            return Err(format!("{}: number {} in the other version", at, o));
        }
        match (x, y) {
            (RV::Msg(x), RV::Msg(y)) => {
                // Same message type by name.
                let (nx, ny) = (&a.types.msgs[x.ty].name, &b.types.msgs[y.ty].name);
                if nx != ny {
                    return Err(format!("{}: a {} and a {}", at, nx, ny));
                }
                compare(a, b, x, y, &at, tally)?;
                continue;
            }
            (RV::Enum(p, x), RV::Enum(q, y)) => {
                let (nx, ny) = (&a.types.enums[*p].0, &b.types.enums[*q].0);
                if nx != ny || x != y {
                    return Err(format!("{}: {} {} and {} {}", at, nx, x, ny, y));
                }
                tally.0 += 1;
                continue;
            }
            _ => {}
        }
        let (fa, fb) = (ta.fields.get(n), tb.fields.get(n));
        let same = match (fa, fb) {
            (Some(f), Some(g)) => match (f.ty, g.ty) {
                (TTy::Scalar(s), TTy::Scalar(t)) => s == t && f.repeated() == g.repeated(),
                _ => false,
            },
            (None, None) => true,
            _ => false,
        };
        if same {
            tally.0 += 1;
            if x != y {
                return Err(format!("{}: declared the same, but {:?} and {:?}", at, x, y));
            }
        } else {
            tally.1 += 1;
        }
        if fb.is_none() && !matches!(y, RV::UVarint(_) | RV::UFixed64(_) | RV::UFixed32(_) | RV::ULen(_) | RV::Incomplete(..) | RV::UInvalid(..)) {
            return Err(format!("{}: not declared in the other version, but {:?}", at, y));
        }
    }
    Ok(())
}

/// Sends a payload written for `to` through `via`.
fn relay(
    via: &World,
    via_ty: usize,
    to: &World,
    to_ty: usize,
    data: &[u8],
    what: &str,
    case: &mut Case,
) -> Check {
    let mut canonical = true;
    decode(&via.types, via_ty, data, &mut canonical);
    let mut canonical_to = true;
    decode(&to.types, to_ty, data, &mut canonical_to);
    let direct = from_sut(&to.h, &to.decode(to_ty, data));
    let seen = via.decode(via_ty, data);
    let seen_model = from_sut(&via.h, &seen);
    if canonical && canonical_to {
        let mut tally = (0, 0);
        compare(to, via, &direct, &seen_model, what, &mut tally)
            .map_err(|e| format!("{}\npayload {}\nread as {:?}\nand as  {:?}", e, hex(data), direct, seen_model))?;
        case.count("values declared the same in both versions", tally.0);
        case.count("values declared differently", tally.1);
        let out = seen.encode(&via.ctx);
        if out[..] != *data {
            return Err(format!(
                "{}: payload {}\nis passed on as {}\nread as {:?}",
                what,
                hex(data),
                hex(&out),
                seen_model
            ));
        }
        let relayed = from_sut(&to.h, &to.decode(to_ty, &out));
        if let Some(d) = diff(&direct, &relayed) {
            return Err(format!("{}: payload {} arrives changed: {}", what, hex(data), d));
        }
        case.label("relayed");
    } else {
        case.label("not canonical");
    }
    Ok(())
}

fn grow(src: &mut Source, w: &mut World, case: &mut Case) {
    for i in 0..src.range(1, 4) {
        let name = format!("Later{}__", i);
        let pkg = match w.ctx.insert_package(pc::Package::new(Some(name.clone()))) {
            Ok(p) => p,
            Err(p) => p,
        };
        let mut m = pc::MessageInfo::new(name.clone(), pc::TypeParent::Package(pkg));
        for n in 1..src.range(1, 5) as u64 {
            let ty = match src.below(3) {
                0 => pc::ValueType::String,
                1 => pc::ValueType::Message(*src.pick(&w.h.msgs)),
                _ => pc::ValueType::SInt64,
            };
            let _ = m.add_field(pc::MessageField::new(format!("f{}", n), n, ty));
        }
        let parent = match w.ctx.insert_message(m) {
            Ok(r) if src.bool() => pc::TypeParent::Message(r),
            _ => pc::TypeParent::Message(*src.pick(&w.h.msgs)),
        };
        let _ = w.ctx.insert_message(pc::MessageInfo::new(format!("{}i", name), parent));
        let _ = w.ctx.insert_enum(pc::EnumInfo::new(format!("{}e", name), parent));
    }
    case.label("types inserted");
}

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    let cfg = wire_cfg(src);
    let fs = gen_or_huge(e, src, cfg, &[], case);
    let (old_fs, edits): (FileSet, Edits) = older(src, &fs);
    let new = world_of(&fs, src.chance(30));
    let old = world_of(&old_fs, src.chance(30));
    let (mut new, mut old) = match (new, old) {
        (Some(n), Some(o)) => (n, o),
        _ => {
            case.label("skipped: no context");
            return Ok(());
        }
    };
    case.label_if(edits.dropped_fields > 0, "fields removed");
    case.label_if(edits.dropped_types > 0, "types removed");
    case.label_if(edits.dropped_values > 0, "enum values removed");
    case.label_if(edits.relabelled > 0, "relabelled");
    case.label_if(edits.retyped > 0, "retyped");
    case.label_if(edits.renamed > 0, "renamed");
    case.label_if(edits.moved > 0, "moved in or out of a oneof");
    let differ = edits.dropped_fields + edits.dropped_types + edits.dropped_values + edits.relabelled + edits.retyped
        + edits.moved
        > 0;
    // Message types in both versions.
    let both: Vec<(usize, usize)> = new
        .types
        .msgs
        .iter()
        .enumerate()
        .filter_map(|(i, m)| {
            old.types.msgs.iter().position(|o| o.name == m.name).map(|j| (i, j))
        })
        .collect();
    if both.is_empty() {
        case.label("skipped: no common type");
        return Ok(());
    }
    for round in 0..3 {
        if round == 2 {
            if src.bool() {
                grow(src, &mut new, case);
            } else {
                grow(src, &mut old, case);
            }
        }
        let full: Vec<(usize, usize)> =
            both.iter().cloned().filter(|(i, _)| !new.types.msgs[*i].fields.is_empty()).collect();
        let (n, o) = *src.pick(if full.is_empty() { &both } else { &full });
        // From new to new through old, and from old to old through new.
        let (to, to_ty, via, via_ty, what) = if src.chance(70) {
            (&new, n, &old, o, "new through old")
        } else {
            (&old, o, &new, n, "old through new")
        };
        let data = if src.chance(70) {
            encode(&gen_typed(src, &to.types, to_ty))
        } else {
            let mut b = Budget::new(src);
            loose(src, &to.types, to_ty, 1, &mut b)
        };
        case.describe(|| {
            format!(
                "new version:\n{}\nolder version:\n{}\nmessage type {}, {}\npayload: {}",
                new.text,
                old.text,
                new.types.msgs[n].name,
                what,
                hex(&data)
            )
        });
        case.sample(|| format!("{} {}: {}", what, new.types.msgs[n].name, hex(&data)));
        if differ && from_sut(&to.h, &to.decode(to_ty, &data)).fields.len() >= 2 {
            case.nontrivial(digest(&data) ^ digest(old.text.as_bytes()));
        }
        relay(via, via_ty, to, to_ty, &data, what, case)?;
    }
    Ok(())
}
