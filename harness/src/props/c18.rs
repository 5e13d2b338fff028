//! Every reference in a context leads to the item it denotes.

use super::common::*;
use super::graph::{self, Graph, Node};
use super::hist;
use crate::engine::*;
use crate::render;
use crate::schema::*;
use crate::tape::Source;
use crate::view::{self, TyView};
use protofish::context::{Context, TypeRef, ValueType};

pub const PROP: Prop = Prop {
    id: "C18",
    run,
    enumerated: |_| HUGE,
    quick: 80_000,
    thorough: 1_000_000,
    threads: 8,
    rule: "Contexts parsed from random file sets, and contexts grown by random insertions (into an \
           empty context or on top of parsed ones): every reference the API exposes is followed \
           and must lead to an item that knows itself by the same reference, of the right kind (the \
           declared one, where a file names it), with mirrored links and composed names. Packages are opaque, so they are probed by \
           inserting types into them. Enumerated: thousands of each kind of declaration. Non-trivial: at least three types.",
};

pub fn graph_of(fs: &FileSet) -> Graph {
    let mut g = Graph::default();
    for f in &fs.files {
        let package = f.package.as_ref().map(|p| p.join("."));
        let path = f.package_path();
        for i in &f.items {
            match i {
                Item::Message(_) => {}
                Item::Enum(e) => {
                    g.types.insert(
                        join(&path, &e.name),
                        Node {
                            message: false,
                            parent: None,
                            package: package.clone(),
                            name: e.name.clone(),
                        },
                    );
                }
                Item::Service(s) => {
                    g.services.insert(join(&path, &s.name), (package.clone(), s.name.clone()));
                }
            }
        }
    }
    // each_message gives paths only, so the package is what the outermost message is not part of.
    for f in &fs.files {
        let package = f.package.as_ref().map(|p| p.join("."));
        let depth = f.package_path().len();
        let one = FileSet { files: vec![f.clone()] };
        one.each_message(&mut |path, m| {
            let full = path.join(".");
            let parent = if path.len() == depth + 1 {
                None
            } else {
                Some(path[..path.len() - 1].join("."))
            };
            g.types.insert(
                full.clone(),
                Node { message: true, parent, package: package.clone(), name: m.name.clone() },
            );
            for mem in &m.members {
                if let Member::Enum(e) = mem {
                    g.types.insert(
                        join(path, &e.name),
                        Node {
                            message: false,
                            parent: Some(full.clone()),
                            package: package.clone(),
                            name: e.name.clone(),
                        },
                    );
                }
            }
        });
    }
    g
}

/// The references of fields and rpcs lead to what the names written there denote.
fn denotes(fs: &FileSet, ctx: &Context) -> Check {
    let v = view::expected(fs);
    for (full, m) in &v.messages {
        let info = match ctx.get_message(full) {
            Some(m) => m,
            None => return Err(format!("get_message({:?}) is None", full)),
        };
        for (n, f) in &m.fields {
            let want = match &f.ty {
                TyView::Message(t) | TyView::Enum(t) => t,
                _ => continue,
            };
            let r = match info.get_field(*n).map(|f| &f.field_type) {
                Some(ValueType::Message(r)) => TypeRef::Message(*r),
                Some(ValueType::Enum(r)) => TypeRef::Enum(*r),
                t => return Err(format!("{}: field {} is of type {:?}, expected {}", full, n, t, want)),
            };
            let name = graph::name_of(ctx, &r);
            if name != want {
                return Err(format!("{}: field {} refers to {}, expected {}", full, n, name, want));
            }
        }
    }
    for (full, s) in &v.services {
        let info = match ctx.get_service(full) {
            Some(s) => s,
            None => return Err(format!("get_service({:?}) is None", full)),
        };
        if info.rpcs.len() != s.rpcs.len() {
            return Err(format!("{} has {} rpcs, expected {}", full, info.rpcs.len(), s.rpcs.len()));
        }
        for (r, want) in info.rpcs.iter().zip(&s.rpcs) {
            for (arg, want) in [(&r.input, &want.input), (&r.output, &want.output)] {
                let name = &ctx.resolve_message(arg.message).full_name;
                if name != want {
                    return Err(format!("{}.{} refers to {}, expected {}", full, r.name, name, want));
                }
            }
        }
    }
    Ok(())
}

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    if e == 0 && src.chance(40) {
        case.label("insertion history");
        let mut h = match hist::start(src, case) {
            Some(h) => h,
            None => {
                case.label("skipped: no context");
                return Ok(());
            }
        };
        let n = src.range(3, 25);
        for _ in 0..n {
            // Whether the outcome is the right one is for C20 to say.
            h.step(src, case, false)?;
        }
        case.sample(|| h.log.join("; "));
        if h.graph.types.len() >= 3 {
            case.nontrivial(digest(h.log.join(";").as_bytes()));
        }
        graph::check(&h.graph, &h.a)?;
        return graph::probe(&mut h.graph, &mut h.a);
    }
    let base = Cfg { options: src.chance(20), aliases: true, big: false, ..Cfg::default() };
    let cfg = varied(src, base);
    let fs = gen_or_huge(e, src, cfg, &[], case);
    let text = render::mixed(&fs, src);
    case.describe(|| all_text(&text));
    let mut ctx = match parse(&text) {
        Ok(c) => c,
        Err(_) => {
            case.label("skipped: no context");
            return Ok(());
        }
    };
    case.label("parsed");
    case.sample(|| all_text(&text));
    classify(&fs, case);
    let mut g = graph_of(&fs);
    if g.types.len() >= 3 {
        case.nontrivial(text_digest(&text));
    }
    graph::check(&g, &ctx)?;
    denotes(&fs, &ctx)?;
    // References handed out before later insertions stay what they are.
    let held: Vec<_> =
        g.types.keys().map(|n| (n.clone(), graph::type_ref(ctx.get_type(n).unwrap()))).collect();
    graph::probe(&mut g, &mut ctx)?;
    for (name, r) in held {
        if graph::name_of(&ctx, &r) != name {
            return Err(format!("after insertions {:?} of {} is {}", r, name, graph::name_of(&ctx, &r)));
        }
    }
    Ok(())
}
