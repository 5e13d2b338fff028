//! Shared by the checks on schemas.

use crate::engine::*;
use crate::huge;
use crate::schema::*;
use crate::tape::Source;
use crate::view;
use protofish::context as pc;
use protofish::context::Context;
use std::collections::{BTreeMap, BTreeSet};

pub fn parse(files: &[String]) -> Result<Context, pc::ParseError> {
    Context::parse(files)
}

pub fn all_text(files: &[String]) -> String {
    files.join("\n// ---- next file ----\n")
}

pub fn text_digest(files: &[String]) -> u64 {
    files.iter().fold(0, |h, f| h.rotate_left(7) ^ digest(f.as_bytes()))
}

/// Compares the name based view of the context with the declarations.
pub fn compare(fs: &FileSet, ctx: &Context) -> Check {
    let expected = view::expected(fs);
    compare_view(fs, &expected, ctx, |v| v)
}

/// The same for the aspects `project` keeps.
pub fn compare_view(
    fs: &FileSet,
    expected: &view::View,
    ctx: &Context,
    project: impl Fn(view::View) -> view::View,
) -> Check {
    let actual = view::actual(ctx, &expected.names(), &expected.enum_values());
    // Either name of an enum value with several may be found by value.
    let aliased = view::aliases(fs);
    let mut masks: BTreeMap<String, BTreeSet<i64>> = BTreeMap::new();
    for (name, values) in &aliased {
        for (value, choices) in values {
            masks.entry(name.clone()).or_default().insert(*value);
            let found = actual.enums.get(name).and_then(|e| e.values.get(value));
            match found {
                Some(f) if choices.contains(f) => {}
                f => {
                    return Err(format!(
                        "enum {} value {}: found {:?}, declared {:?}",
                        name, value, f, choices
                    ))
                }
            }
        }
    }
    let e = project(expected.clone().without_alias_choice(&masks));
    let a = project(actual.without_alias_choice(&masks));
    match view::diff(&e, &a) {
        None => Ok(()),
        Some(d) => Err(d),
    }
}

/// Keeps only which declaration every reference leads to.
pub fn only_references(mut v: view::View) -> view::View {
    for m in v.messages.values_mut() {
        for f in m.fields.values_mut() {
            f.opts.clear();
            f.mult = view::Mult::Other;
            f.oneof = None;
        }
        m.oneofs.clear();
    }
    for e in v.enums.values_mut() {
        e.values.clear();
    }
    for s in v.services.values_mut() {
        s.opts.clear();
        for r in &mut s.rpcs {
            r.opts.clear();
        }
    }
    v
}

/// Keeps only the options.
pub fn only_options(mut v: view::View) -> view::View {
    for m in v.messages.values_mut() {
        m.inner.clear();
        m.parent = None;
        for f in m.fields.values_mut() {
            f.mult = view::Mult::Other;
            f.oneof = None;
            f.ty = view::TyView::Scalar(Scalar::Bool);
        }
        for o in &mut m.oneofs {
            o.fields.clear();
        }
    }
    for e in v.enums.values_mut() {
        e.parent = None;
    }
    for s in v.services.values_mut() {
        for r in &mut s.rpcs {
            r.input.clear();
            r.output.clear();
            r.input_stream = false;
            r.output_stream = false;
        }
    }
    v
}

/// A random file set, or rarely one with a few hundred of one thing, though none of the kinds in `not`.
pub fn gen_or_many(src: &mut Source, cfg: Cfg, not: &[usize], case: &mut Case) -> FileSet {
    if src.one_in(250) {
        let kind = src.below(huge::KINDS);
        let n = if src.bool() { src.range(20, 120) } else { src.range(120, 300) };
        if !not.contains(&kind) {
            case.label("hundreds of one thing");
            return huge::schema(kind, n);
        }
    }
    gen(src, cfg)
}

/// The enumerated part where one case is one kind of schema with very many of one thing.
pub const HUGE: u64 = huge::KINDS as u64;

/// As `gen_or_many`, and for an enumerated case the file set with thousands of one thing.
pub fn gen_or_huge(e: u64, src: &mut Source, cfg: Cfg, not: &[usize], case: &mut Case) -> FileSet {
    if e == 0 {
        return gen_or_many(src, cfg, not, case);
    }
    let kind = (e - 1) as usize % huge::KINDS;
    let n = match kind {
        12 => 300,
        13 | 14 => 66_000,
        _ => 5_000,
    };
    if not.contains(&kind) {
        return gen(src, cfg);
    }
    case.label("thousands of one thing");
    huge::schema(kind, n)
}

/// Counts what a file set exercises.
pub fn classify(fs: &FileSet, case: &mut Case) {
    case.max("files", fs.files.len() as u64);
    case.max("types", fs.type_count() as u64);
    let mut nested = 0;
    let mut fields = 0;
    let mut oneofs = 0;
    let mut refs = 0;
    let mut opts = 0;
    let packages: BTreeSet<usize> = fs.files.iter().map(|f| f.package_path().len()).collect();
    case.max("package components", packages.iter().next_back().cloned().unwrap_or(0) as u64);
    fs.each_message(&mut |path, m| {
        nested = nested.max(path.len());
        let f = m.fields();
        fields += f.len();
        oneofs += m.oneofs().len();
        for (f, _) in f {
            refs += matches!(f.ty, Ty::Ref(_)) as usize;
            opts += f.opts.len();
        }
    });
    case.max("path length", nested as u64);
    case.max("fields", fields as u64);
    case.label_if(oneofs > 0, "with oneofs");
    case.label_if(refs > 0, "with type references");
    case.label_if(opts > 0, "with field options");
    case.label_if(fs.files.len() > 1, "several files");
    let services = fs
        .files
        .iter()
        .flat_map(|f| &f.items)
        .filter(|i| matches!(i, Item::Service(s) if !s.rpcs.is_empty()))
        .count();
    case.label_if(services > 0, "with services");
}

/// Some variety in the size and shape of file sets.
pub fn varied(src: &mut Source, base: Cfg) -> Cfg {
    match src.weighted(&[50, 20, 15, 15]) {
        0 => base,
        1 => Cfg { max_depth: 6, max_items: 2, max_files: 2, ..base },
        2 => Cfg { max_files: 5, max_items: 3, shadow: 60, ..base },
        _ => Cfg { max_files: 1, max_items: 8, max_members: 14, ..base },
    }
}

/// Names close to the declared ones that nothing declares.
pub fn undeclared(src: &mut Source, names: &[String], fs: &FileSet) -> Vec<String> {
    let mut out = vec![String::new(), ".".to_string()];
    for f in &fs.files {
        let p = f.package_path();
        for i in 1..=p.len() {
            out.push(p[..i].join("."));
        }
    }
    for n in names {
        out.push(format!(".{}", n));
        out.push(format!("{}.", n));
        out.push(format!(" {}", n));
        let last = n.rsplit('.').next().unwrap_or("");
        out.push(last.to_string());
        out.push(format!("{}.{}", n, last));
        out.push(n.to_lowercase());
        out.push(n.to_uppercase());
        out.push(n.replace('.', ""));
        if let Some((first, rest)) = n.split_once('.') {
            out.push(rest.to_string());
            out.push(first.to_string());
        }
        if let Some((rest, _)) = n.rsplit_once('.') {
            out.push(rest.to_string());
        }
        let mut cut = n.clone();
        cut.pop();
        out.push(cut);
        out.push(format!("{}{}", n, src.pick(&["x", "_", "1", "A"])));
    }
    fs.each_message(&mut |path, m| {
        for (f, _) in m.fields().into_iter().take(2) {
            out.push(join(path, &f.name));
        }
        for o in m.oneofs().into_iter().take(1) {
            out.push(join(path, &o.name));
        }
    });
    let declared: BTreeSet<&String> = names.iter().collect();
    out.retain(|n| !declared.contains(n));
    out.sort();
    out.dedup();
    out
}
