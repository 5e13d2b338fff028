//! Parsing costs stay in proportion to the text.

use super::clock::*;
use super::common::*;
use crate::alloc::measure;
use crate::engine::*;
use crate::tape::Source;
use protofish::context::Context;

pub const PROP: Prop = Prop {
    id: "C26",
    run,
    enumerated: |_| single().len() as u64,
    quick: 6_000,
    thorough: 60_000,
    threads: 6,
    rule: "Texts of up to 1 MB that repeat or nest some construct (declarations, members, options, \
           literals, comments, white space, files, references), valid or broken at the start, in the \
           middle or at the end, parsed under a counting allocator and a processor time clock. Bound \
           on the bytes requested: 64 KiB + 1000 per byte of text and of full type names; bound on \
           the processor time of the fastest of up to six runs: 50 ms + 5 us per byte. One case in thirty, and the \
           enumerated part with each construct on its own, \
           compares a text with one sixteen times as long of the same kind: the time per byte of the \
           fastest runs must not grow fourfold. Non-trivial: a text of at least 1000 bytes.",
};

/// Members of a message; # is a running number.
const MEMBERS: [&str; 22] = [
    "int32 f# = #;\n",
    "repeated string f# = # [packed = false];\n",
    "optional M f# = #;\n",
    ".p.M f# = # [a = 1, (b).c = 'x', d = 1.5];\n",
    "repeated p.M f#=#;",
    "oneof o# { int32 f# = #; }\n",
    "oneof o# { option x = y; ; M f# = #; }",
    "message N# { }\n",
    "message N# { N# a = 1; M b = 2; enum E { X = 0; } E c = 3; }\n",
    "enum E# { X# = 0; Y# = -1; }\n",
    "option o# = #;\n",
    "option (a.b#).c.d = 'text \\n \\x41 \\101';\n",
    "option o# = -1.5e3;",
    "reserved #;\n",
    "reserved # to max, #;\n",
    "reserved 'a#', \"b\";\n",
    ";\n",
    "// comment #\n",
    "/* comment # */",
    " \t\r\n",
    "Outer.Inner f# = #;\n",
    "Outer.Inner.Deep f# = #; // why\n",
];

const TOP: [&str; 14] = [
    "message T# { }\n",
    "message T# { T# a = 1; M b = 2; int32 c = 3 [x = y]; }\n",
    "message T# { oneof o { M a = 1; .p.M b = 2; } message I { } repeated I i = 3; }\n",
    "message T# { message A { message B { message C { A a = 1; B b = 2; M m = 3; } } } }\n",
    "enum E# { Z# = 0; }\n",
    "enum E# { option allow_alias = true; Z# = 0; Y# = 0 [a = 'b']; }\n",
    "service S# { }\n",
    "service S# { rpc A(M) returns (M); rpc B(stream .p.M) returns (stream p.M) { option x = 1; } }\n",
    "import \"file#\";\n",
    "option o# = 'x';\n",
    ";",
    "// comment #\n",
    "/* * # / */\n",
    "\r\n",
];

const VALUES: [&str; 6] = [
    "V# = #;\n",
    "V# = -# [a = 1];\n",
    "option o# = #;\n",
    "reserved #, # to #;\n",
    ";",
    "// c\n",
];

const RPCS: [&str; 5] = [
    "rpc R#(M) returns (M);\n",
    "rpc R#(stream p.M) returns (stream .p.M) { option a# = 1; ; }\n",
    "option o# = #;\n",
    ";",
    "/* c */",
];

/// A construct repeated in place: what around it, what to repeat.
const RUNS: [(&str, &str, &str); 50] = [
    ("message L { int32 a = 1 [", "o# = #, ", "z = 1]; }"),
    ("message L { int32 a = 1 [", "(a.b#).c = 'x', ", "z = 1]; }"),
    ("message L { reserved ", "#, ", "1; }"),
    ("message L { reserved ", "'a#', ", "'z'; }"),
    ("message L { oneof o { ", "M f# = #; ", "} }"),
    ("option a = '", "\\x41", "';"),
    ("option a = '", "\\\\", "';"),
    ("option a = \"", "a", "\";"),
    ("option a = \"", "é", "\";"),
    ("option a = b", ".b#", ";"),
    ("option (a", ".b#", ").c = 1;"),
    ("option a", ".b#", " = 1;"),
    ("option a = ", "9", ".5;"),
    ("option a = 0.", "9", ";"),
    ("option a = 0x", "0", "1;"),
    ("option a = 0", "0", "1;"),
    ("message L { int32 a = 1 [b = ", "/**/", "1]; }"),
    ("message n", "a", " { }"),
    ("message L { n", "a", " f = 1; }"),
    ("message L { p", ".p#", " f = 1; }"),
    ("message L { ", "message A# { ", ""),
    ("", "message A# { ", "}"),
    ("", "{", ""),
    ("message L ", "{ ; ", ""),
    ("message L { oneof ", "o { oneof ", ""),
    ("option a = ", "(", ""),
    ("option (", "(", ""),
    ("", "/*", ""),
    ("", "/* */", ""),
    ("", "//", ""),
    ("", "\n", ""),
    ("service L { rpc ", "A ( rpc ", ""),
    ("enum L { A = ", "-", "1; }"),
    ("import ", "'a' 'b' ", ";"),
    ("message L { int32 a = 1 [b = '", "a", "']; }"),
    ("message L { int32 a = 1 [b = \"", "é", "\"]; }"),
    ("message L { int32 a = 1 [b = '", "\\x41", "']; }"),
    ("message L { int32 a = 1 [b = '", "\\101\\n", "']; }"),
    ("message L { int32 a = 1 [b = '", "\\xff\\xfe", "']; }"),
    ("message L { int32 a = 1 [b = c", ".b#", "]; }"),
    ("message L { int32 a = 1 [(a", ".b#", ").c = 1]; }"),
    ("message L { int32 a = 1 [a", ".b#", " = 1]; }"),
    ("message L { int32 a = 1 [a = ", "9", ".5]; }"),
    ("message L { int32 a = 1 [a = 0", "0", "1]; }"),
    ("message L { oneof o { int32 a = 1 [b = '", "ab", "']; } }"),
    ("enum L { A = 0 [b = '", "a\\t", "']; }"),
    ("enum L { A = 0", " [b = #]", "; }"),
    ("service L { option b = \"", "é", "\"; }"),
    ("service L { rpc A(M) returns (M) { option b = '", "abc", "'; } }"),
    ("message L { reserved '", "a", "'; }"),
];

fn repeat(out: &mut String, unit: &[&str], target: usize) {
    let mut n = 0u64;
    while out.len() < target {
        for u in unit {
            n += 1;
            out.push_str(&u.replace('#', &n.to_string()));
        }
    }
}

fn units(src: &mut Source, from: &[&'static str]) -> Vec<&'static str> {
    (0..src.range(1, 3)).map(|_| *src.pick(from)).collect()
}

/// A kind of text that can be written in any size.
struct Plan {
    family: usize,
    units: Vec<&'static str>,
    run: (&'static str, &'static str, &'static str),
    levels: usize,
    /// How the files of a plan with many files are named.
    package: usize,
    fault: Option<Fault>,
}

/// Where the text is broken and how.
struct Fault {
    place: usize,
    near: usize,
    part: usize,
    with: &'static str,
    cut: bool,
}

const FAMILIES: [&str; 7] =
    ["members", "top level", "enum", "service", "run", "nesting", "many files"];

fn plan(src: &mut Source) -> Plan {
    let family = src.weighted(&[20, 15, 10, 10, 25, 10, 10]);
    let units = match family {
        0 => units(src, &MEMBERS),
        6 if src.one_in(4) => vec![],
        1 | 6 => units(src, &TOP),
        2 => units(src, &VALUES),
        3 => units(src, &RPCS),
        5 => units(src, &MEMBERS[..6]),
        _ => vec![],
    };
    let run = if family == 4 { *src.pick(&RUNS) } else { RUNS[0] };
    let levels = if family == 5 { src.range(2, 98) } else { 0 };
    let package = if family == 6 { src.below(4) } else { 0 };
    let fault = if src.chance(35) {
        Some(Fault {
            place: src.below(4),
            near: src.below(40),
            part: src.below(1000),
            with: *src.pick(&["?", "{", "}", "\"", "'", "/*", "//", "(", "=", "option", "1", "\0"]),
            cut: src.one_in(4),
        })
    } else {
        None
    };
    Plan { family, units, run, levels, package, fault }
}

impl Plan {
    fn texts(&self, target: usize) -> Vec<String> {
        let head = "syntax = \"proto3\";\npackage p;\n";
        let base = "message M { }\nmessage Outer { message Inner { message Deep { } } }\n";
        let mut t = format!("{}{}", head, base);
        let mut files = vec![];
        match self.family {
            0 | 2 | 3 => {
                t.push_str(["message L {\n", "", "enum L {\n", "service L {\n"][self.family]);
                repeat(&mut t, &self.units, target);
                t.push_str("}\n");
            }
            1 => repeat(&mut t, &self.units, target),
            4 => {
                let (open, unit, close) = self.run;
                t.push_str(open);
                repeat(&mut t, &[unit], target);
                t.push_str(close);
            }
            5 => {
                // Nested messages, everything mentioned from everywhere.
                let per = target / self.levels;
                for i in 0..self.levels {
                    t.push_str(&format!("message A{} {{\n", i));
                    let mut body = String::new();
                    repeat(&mut body, &self.units, per);
                    t.push_str(&body);
                }
                t.push_str(&"}".repeat(self.levels));
            }
            _ => {
                let mut n = 0u64;
                let mut size = 0;
                while size < target {
                    n += 1;
                    let p = match self.package {
                        0 => String::new(),
                        1 => "package p;\n".to_string(),
                        2 => format!("package p.q{};\n", n),
                        _ => format!("package r{}.p;\n", n % 7),
                    };
                    let mut f = format!("syntax = \"proto3\";\n{}", p);
                    for x in &self.units {
                        f.push_str(&x.replace('#', &n.to_string()));
                    }
                    size += f.len();
                    files.push(f);
                }
            }
        }
        files.insert(0, t);
        if let Some(b) = &self.fault {
            let f = files.len() * b.part / 1000;
            let len = files[f].len();
            let near = b.near.min(len);
            let mut at = match b.place {
                0 => near,
                1 => len * b.part / 1000,
                2 => len - near,
                _ => len / 2,
            };
            while !files[f].is_char_boundary(at) {
                at -= 1;
            }
            if b.cut {
                files[f].truncate(at);
            } else {
                files[f].insert_str(at, b.with);
            }
        }
        files
    }
}

fn parse_time(files: &[String]) -> u64 {
    let t0 = cpu() / 1000;
    let r = parse(files);
    let t = cpu() / 1000 - t0;
    drop(r);
    t
}

/// Every construct on its own in every place it can be.
fn single() -> Vec<Plan> {
    let make = |family: usize, unit: Option<&'static str>| Plan {
        family,
        units: unit.into_iter().collect(),
        run: RUNS[0],
        levels: 40,
        package: 0,
        fault: None,
    };
    let mut out = vec![];
    for (family, units) in
        [(0, &MEMBERS[..]), (1, &TOP[..]), (2, &VALUES[..]), (3, &RPCS[..]), (5, &MEMBERS[..6])]
    {
        out.extend(units.iter().map(|u| make(family, Some(u))));
    }
    for run in RUNS {
        out.push(Plan { run, ..make(4, None) });
    }
    for package in 0..4 {
        for u in TOP[..8].iter().chain(&["", "; "]) {
            out.push(Plan { package, ..make(6, Some(u)) });
        }
    }
    out
}

/// A text sixteen times as long must not take much more than sixteen times as long.
fn scaling(plan: &mut Plan, small: usize, case: &mut Case) -> Check {
    let (a, b) = (plan.texts(small), plan.texts(16 * small));
    // A fault may cut the short text shorter than the long one; it saves time if anything.
    plan.fault = None;
    let whole = plan.texts(small);
    let size = |f: &[String]| f.iter().map(|f| f.len()).sum::<usize>() as u64;
    let (na, nb) = (size(&a), size(&b));
    case.label("scaling");
    case.describe(|| all_text(&b));
    case.nontrivial(text_digest(&b));
    let (mut ta, mut tw, mut tb) = (u64::MAX, u64::MAX, u64::MAX);
    let mut ratio = 0;
    for round in 0..8 {
        for _ in 0..3 {
            ta = ta.min(parse_time(&a));
            tw = tw.min(parse_time(&whole));
        }
        tb = tb.min(parse_time(&b));
        // Percent of the time per byte; what takes no time does not count.
        ratio = (tb * na * 100) / ((ta.max(tw) + 1000) * nb);
        if ratio <= LIMIT && (round > 0 || ratio < 150) || ratio > 2 * LIMIT && round > 0 {
            break;
        }
    }
    case.max("percent: time per byte of a sixteen times as long text", ratio);
    if ratio > LIMIT {
        return Err(format!(
            "parsing {} bytes of text ({}, {} files) takes {} us, and {} bytes of the same kind take {} us",
            na, FAMILIES[plan.family], a.len(), ta.max(tw), nb, tb
        ));
    }
    Ok(())
}

const LIMIT: u64 = 400;

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    keep_memory();
    if e > 0 {
        return scaling(&mut single().swap_remove(e as usize - 1), 40_000, case);
    }
    let target = *src.pick(&[300usize, 1000, 1000, 2000, 4000, 4000, 8000, 16_000, 32_000, 128_000]);
    let target = if target <= 8000 || src.one_in(5) { target } else { 3000 };
    let target = if src.one_in(250) { 1_000_000 } else { target };
    let mut plan = plan(src);
    if plan.fault.is_some() {
        case.label("broken");
    }
    let family = FAMILIES[plan.family];
    case.label(family);
    if src.one_in(30) {
        let small = *src.pick(&[8_000usize, 16_000, 16_000, 32_000]);
        return scaling(&mut plan, small, case);
    }
    let files = plan.texts(target);
    let size: usize = files.iter().map(|f| f.len()).sum();
    case.describe(|| all_text(&files));
    case.sample(|| format!("{} bytes, {}: {:.300}", size, family, all_text(&files)));
    if size >= 1000 {
        case.nontrivial(text_digest(&files));
    }
    let t0 = cpu() / 1000;
    let (r, total, peak) = measure(|| parse(&files));
    let mut time = cpu() / 1000 - t0;
    case.label(if r.is_ok() { "context" } else { "error" });
    let names = match &r {
        Ok(c) => full_names(c, &files),
        Err(_) => 0,
    };
    drop(r);
    let memory_bound = (64 * 1024 + 1000 * (size + names) + 400 * files.len()) as u64;
    case.max("percent of the memory bound", total * 100 / memory_bound);
    if total > memory_bound {
        return Err(format!(
            "parsing {} bytes of text ({}, {} files, full names of {} bytes) requested {} bytes of memory (peak {}), \
             the bound is {}",
            size, family, files.len(), names, total, peak, memory_bound
        ));
    }
    let time_bound = 50_000 + 5 * size as u64;
    for _ in 0..5 {
        // A multiple of the bound is no accident.
        if time <= time_bound || time > 4 * time_bound {
            break;
        }
        let t0 = cpu() / 1000;
        drop(parse(&files));
        time = time.min(cpu() / 1000 - t0);
    }
    case.max("text bytes", size as u64);
    case.max("percent of the time bound", time * 100 / time_bound);
    case.max("ns per byte (texts over 8000 bytes)", if size > 8000 { time * 1000 / size as u64 } else { 0 });
    if time > time_bound {
        return Err(format!(
            "parsing {} bytes of text ({}, {} files) took {} us of processor time, the bound is {} us",
            size, family, files.len(), time, time_bound
        ));
    }
    Ok(())
}

/// The length of the full names of the types, which a context holds: with nesting they can be
/// longer than the text.
fn full_names(c: &Context, files: &[String]) -> usize {
    // Every nested type adds at most the length of the names around it; the deepest chain is
    // walked from the types of the families above.
    let _ = c;
    files
        .iter()
        .map(|f| {
            let (mut depth, mut sum, mut open) = (0usize, 0usize, vec![]);
            let mut word = 0;
            for b in f.bytes() {
                match b {
                    b'{' => {
                        open.push(word + 1);
                        depth += word + 1;
                        sum += depth;
                    }
                    b'}' => depth -= open.pop().unwrap_or(0).min(depth),
                    b' ' | b'\n' => {}
                    _ => word = if b.is_ascii_alphanumeric() { (word + 1).min(12) } else { 0 },
                }
            }
            sum
        })
        .sum()
}
