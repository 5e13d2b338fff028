//! The order and grouping of files and declarations do not matter.

use super::common::*;
use super::graph;
use crate::engine::*;
use crate::render;
use crate::schema::*;
use crate::tape::Source;
use crate::view;
use crate::wire::{self, from_sut, hex, Types};

pub const PROP: Prop = Prop {
    id: "C21",
    run,
    enumerated: |_| HUGE,
    quick: 30_000,
    thorough: 600_000,
    threads: 8,
    rule: "A random file set is parsed as it is and after a random rearrangement: files in another \
           order, split into more files of the same package or merged into fewer, declarations \
           within files and messages, oneof members, enum values and rpcs shuffled. The views by \
           name must be the same, and payloads must decode and encode the same. Enumerated: thousands of each kind of declaration. Non-trivial: \
           the rearranged text differs.",
};

fn shuffle_message(src: &mut Source, m: &mut Msg) {
    for mem in &mut m.members {
        match mem {
            Member::Message(n) => shuffle_message(src, n),
            Member::Enum(e) => src.shuffle(&mut e.values),
            Member::Oneof(o) => src.shuffle(&mut o.fields),
            Member::Field(_) => {}
        }
    }
    src.shuffle(&mut m.members);
}

fn rearrange(src: &mut Source, fs: &FileSet, case: &mut Case) -> FileSet {
    let mut out = fs.clone();
    if src.chance(60) {
        case.label("declarations shuffled");
        for f in &mut out.files {
            for i in &mut f.items {
                match i {
                    Item::Message(m) => shuffle_message(src, m),
                    Item::Enum(e) => src.shuffle(&mut e.values),
                    Item::Service(s) => src.shuffle(&mut s.rpcs),
                }
            }
            src.shuffle(&mut f.items);
        }
    }
    if src.chance(40) {
        // Split: each item goes to one of up to three files.
        case.label("files split");
        let files = std::mem::take(&mut out.files);
        for f in files {
            let parts = src.range(1, 3);
            let mut split: Vec<FileDecl> =
                (0..parts).map(|_| FileDecl { package: f.package.clone(), items: vec![] }).collect();
            for i in f.items {
                let k = src.below(parts);
                split[k].items.push(i);
            }
            out.files.extend(split);
        }
    }
    if src.chance(40) {
        // Merge files of the same package.
        let files = std::mem::take(&mut out.files);
        let before = files.len();
        for f in files {
            let at = out.files.iter().position(|g| g.package == f.package);
            match at {
                Some(i) if src.chance(70) => out.files[i].items.extend(f.items),
                _ => out.files.push(f),
            }
        }
        case.label_if(out.files.len() < before, "files merged");
    }
    if src.chance(70) {
        case.label_if(out.files.len() > 1, "files shuffled");
        src.shuffle(&mut out.files);
    }
    out
}

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    let base = Cfg { aliases: false, big: false, options: src.chance(30), ..Cfg::default() };
    let mut cfg = varied(src, base);
    if src.chance(40) {
        // Several files of the same few packages.
        cfg = Cfg { max_files: 5, max_package_parts: 1, shadow: 80, max_members: 4, ..cfg };
    }
    let fs = gen_or_huge(e, src, cfg, &[], case);
    let text = render::plain(&fs);
    case.describe(|| format!("as generated:\n{}", all_text(&text)));
    let first = match parse(&text) {
        Ok(c) => c,
        Err(_) => {
            case.label("skipped: does not parse");
            return Ok(());
        }
    };
    let v = view::expected(&fs);
    let (names, values) = (v.names(), v.enum_values());
    let view1 = view::actual(&first, &names, &values).unordered();
    let types = Types::of(&v);
    let h1 = types.handles(&first);
    classify(&fs, case);
    for _ in 0..2 {
        let other = rearrange(src, &fs, case);
        let text2 = render::plain(&other);
        case.describe(|| format!("rearranged:\n{}", all_text(&text2)));
        case.sample(|| all_text(&text2));
        if text2 != text {
            case.nontrivial(text_digest(&text2));
        }
        let mut second = parse(&text2).map_err(|e| format!("the rearranged files are rejected: {}", e))?;
        let view2 = view::actual(&second, &names, &values).unordered();
        if let Some(d) = view::diff(&view1, &view2) {
            return Err(format!("rearranging changed: {}", d));
        }
        if e > 0 || src.one_in(8) {
            // Packages and parents are not part of the view by name.
            let mut g = super::c18::graph_of(&other);
            graph::check(&g, &second).map_err(|e| format!("rearranged: {}", e))?;
            graph::probe(&mut g, &mut second).map_err(|e| format!("rearranged: {}", e))?;
            case.label("places compared");
        }
        let (h1, h2) = match (&h1, types.handles(&second)) {
            (Some(a), Some(b)) => (a, b),
            _ => continue,
        };
        if types.msgs.is_empty() {
            continue;
        }
        for _ in 0..2 {
            let ty = src.below(types.msgs.len());
            let data = if src.bool() {
                wire::encode(&wire::gen_typed(src, &types, ty))
            } else {
                wire::hostile(src, &types, ty)
            };
            let a = first.decode(h1.msgs[ty], &data);
            let b = second.decode(h2.msgs[ty], &data);
            if let Some(d) = wire::diff(&from_sut(h1, &a), &from_sut(&h2, &b)) {
                return Err(format!("{} as {}: {}", hex(&data), types.msgs[ty].name, d));
            }
            let (a, b) = (a.encode(&first), b.encode(&second));
            if a != b {
                return Err(format!("{} encodes again to {} and {}", hex(&data), hex(&a), hex(&b)));
            }
            case.label("payload compared");
        }
    }
    Ok(())
}
