//! Option constants keep their exact value.

use super::common::*;
use crate::engine::*;
use crate::render;
use crate::schema::*;
use crate::tape::Source;
use crate::view;

pub const PROP: Prop = Prop {
    id: "C17",
    run,
    enumerated: |_| 8 + HUGE,
    quick: 60_000,
    thorough: 600_000,
    threads: 8,
    rule: "Random files with many options on fields, oneof members, oneofs, enum values, services and \
           rpcs: names with and without parentheses and suffixes, constants of all kinds in random \
           notation; each option must come out in order with its name, kind and exact value. The \
           enumerated part covers all escapes of all bytes, every radix of integers next to powers of \
           two, and float notations with known bit patterns. Enumerated: thousands of each kind of declaration. Non-trivial: at least two options.",
};

/// Literal text and the value it stands for, in the place of a field option.
fn check_literals(literals: &[(String, view::ConstView)], case: &mut Case) -> Check {
    let mut text = "syntax = \"proto3\"; message M { int32 f = 1 [".to_string();
    for (i, (l, _)) in literals.iter().enumerate() {
        if i > 0 {
            text.push_str(", ");
        }
        text.push_str(&format!("o{} = {}", i, l));
    }
    text.push_str("]; }");
    case.describe(|| text.clone());
    case.nontrivial(digest(text.as_bytes()));
    let ctx = match protofish::context::Context::parse(&[&text]) {
        Ok(c) => c,
        Err(e) => {
            // Find the one to blame.
            for (l, _) in literals {
                let t = format!("syntax = \"proto3\"; message M {{ int32 f = 1 [o = {}]; }}", l);
                if let Err(e) = protofish::context::Context::parse(&[&t]) {
                    return Err(format!("the constant {} was rejected: {}", l, e));
                }
            }
            return Err(format!("rejected together: {}", e));
        }
    };
    let m = ctx.get_message("M").ok_or("no message M")?;
    let f = m.get_field(1).ok_or("no field 1")?;
    let got = view::actual_opts(&f.options);
    if got.len() != literals.len() {
        return Err(format!("{} options of {}", got.len(), literals.len()));
    }
    for (i, (l, v)) in literals.iter().enumerate() {
        if got[i].0 != format!("o{}", i) || got[i].1 != *v {
            return Err(format!("constant {}: got {:?}, expected {:?}", l, got[i], v));
        }
    }
    case.count("enumerated constants", literals.len() as u64);
    Ok(())
}

fn enumerated(e: u64, case: &mut Case) -> Check {
    use view::ConstView as V;
    let mut l: Vec<(String, V)> = vec![];
    match e {
        0 => {
            // Every byte by octal and hex escape, alone and followed by digits and letters.
            for b in 0..=255u8 {
                for after in ["", "0", "7", "9", "a", "f", "g", "\\\\"] {
                    let mut tail = after.as_bytes().to_vec();
                    if after == "\\\\" {
                        tail = vec![b'\\'];
                    }
                    let v = V::Str([vec![b], tail].concat());
                    for q in ["'", "\""] {
                        l.push((format!("{}\\{:03o}{}{}", q, b, after, q), v.clone()));
                        l.push((format!("{}\\x{:02x}{}{}", q, b, after, q), v.clone()));
                        l.push((format!("{}\\X{:02X}{}{}", q, b, after, q), v.clone()));
                        let digit = after.starts_with(|c: char| c.is_digit(8));
                        if b < 0o100 && !digit {
                            l.push((format!("{}\\{:02o}{}{}", q, b, after, q), v.clone()));
                        }
                        if b < 0o10 && !digit {
                            l.push((format!("{}\\{:o}{}{}", q, b, after, q), v.clone()));
                        }
                    }
                }
            }
        }
        1 => {
            // Simple escapes and plain characters in both kinds of quotes.
            for (c, b) in [
                ('a', 7u8), ('b', 8), ('f', 12), ('n', 10), ('r', 13), ('t', 9), ('v', 11), ('\\', 92),
                ('\'', 39), ('"', 34),
            ] {
                for q in ["'", "\""] {
                    l.push((format!("{}\\{}{}", q, c, q), V::Str(vec![b])));
                    l.push((format!("{}x\\{}\\{}y{}", q, c, c, q), V::Str(vec![b'x', b, b, b'y'])));
                }
            }
            for u in (1..0x3000u32).chain([0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff]) {
                let c = match char::from_u32(u) {
                    Some(c) if c != '\n' && c != '\\' => c,
                    _ => continue,
                };
                for q in ['\'', '"'] {
                    if c != q {
                        l.push((format!("{}{}{}", q, c, q), V::Str(c.to_string().into_bytes())));
                    }
                }
            }
            l.push(("''".into(), V::Str(vec![])));
            l.push(("\"\"".into(), V::Str(vec![])));
            for t in ["// no comment", "/* no comment */", "a  b", " a ", "\t", "{}[];=,", "proto3"] {
                l.push((format!("'{}'", t), V::Str(t.as_bytes().to_vec())));
                l.push((format!("\"{}\"", t), V::Str(t.as_bytes().to_vec())));
            }
        }
        2 | 3 | 4 => {
            // Integers next to powers of two, and small ones.
            let mut values: Vec<i128> = (-20..300).collect();
            for bit in 0..64 {
                for d in -2..=2 {
                    values.push((1i128 << bit) + d);
                    values.push(-(1i128 << bit) + d);
                }
            }
            values.retain(|v| *v >= i64::MIN as i128 && *v <= i64::MAX as i128);
            values.sort();
            values.dedup();
            for v in values {
                let m = v.unsigned_abs();
                let text = match e {
                    2 => vec![m.to_string()],
                    3 => vec![format!("0{:o}", m), format!("000{:o}", m)],
                    _ => vec![
                        format!("0x{:x}", m),
                        format!("0X{:X}", m),
                        format!("0x{:X}", m),
                        format!("0x000{:x}", m),
                    ],
                };
                for t in text {
                    if v >= 0 {
                        l.push((t.clone(), V::Int(v as i64)));
                        l.push((format!("+{}", t), V::Int(v as i64)));
                        l.push((format!("+ {}", t), V::Int(v as i64)));
                    }
                    if v <= 0 {
                        l.push((format!("-{}", t), V::Int(v as i64)));
                        l.push((format!("- {}", t), V::Int(v as i64)));
                    }
                }
            }
        }
        5 => {
            // Floats with known bit patterns, in every notation.
            let known: [(&str, u64); 34] = [
                ("0.0", 0),
                ("0.", 0),
                (".0", 0),
                ("0e0", 0),
                ("0.5", 0x3fe0000000000000),
                (".5", 0x3fe0000000000000),
                ("5e-1", 0x3fe0000000000000),
                ("5E-1", 0x3fe0000000000000),
                ("50.e-2", 0x3fe0000000000000),
                ("0.05e1", 0x3fe0000000000000),
                (".05e+1", 0x3fe0000000000000),
                ("1.", 0x3ff0000000000000),
                ("1.0", 0x3ff0000000000000),
                ("1e0", 0x3ff0000000000000),
                ("1e+0", 0x3ff0000000000000),
                ("1e-0", 0x3ff0000000000000),
                ("10e-1", 0x3ff0000000000000),
                ("1.e0", 0x3ff0000000000000),
                ("1.5", 0x3ff8000000000000),
                ("2.0", 0x4000000000000000),
                ("3.141592653589793", 0x400921fb54442d18),
                ("2.718281828459045", 0x4005bf0a8b145769),
                ("0.1", 0x3fb999999999999a),
                ("1e-1", 0x3fb999999999999a),
                ("1e10", 0x4202a05f20000000),
                ("1e22", 0x4480f0cf064dd592),
                ("1e23", 0x44b52d02c7e14af6),
                ("1.7976931348623157e308", 0x7fefffffffffffff),
                ("2.2250738585072014e-308", 0x0010000000000000),
                ("5e-324", 1),
                ("4.9406564584124654e-324", 1),
                ("9007199254740993.0", 0x4340000000000000),
                ("1e400", 0x7ff0000000000000),
                ("1e-400", 0),
            ];
            for (t, bits) in known {
                l.push((t.to_string(), V::Float(bits)));
                l.push((format!("+{}", t), V::Float(bits)));
                l.push((format!("-{}", t), V::Float(bits | 1 << 63)));
                l.push((format!("- {}", t), V::Float(bits | 1 << 63)));
            }
            l.push(("inf".into(), V::Float(f64::INFINITY.to_bits())));
            l.push(("+inf".into(), V::Float(f64::INFINITY.to_bits())));
            l.push(("-inf".into(), V::Float(f64::NEG_INFINITY.to_bits())));
            for t in ["nan", "+nan", "-nan"] {
                l.push((t.into(), V::Float(f64::NAN.to_bits())));
            }
        }
        6 => {
            // Powers of two have an exact decimal notation.
            for e in -60i32..=62 {
                let v = 2f64.powi(e);
                l.push((format!("{:.70}", v), V::Float(v.to_bits())));
                l.push((format!("-{:.70}e0", v), V::Float((-v).to_bits())));
                l.push((format!("{:e}", v).replace('e', ".e").replacen("..", ".", 1), V::Float(v.to_bits())));
            }
            l.retain(|(t, _)| t.matches('.').count() == 1);
        }
        _ => {
            for b in [true, false] {
                l.push((b.to_string(), V::Bool(b)));
            }
            for t in [
                "a", "A", "a.b", "a.b.c", "true_", "falsex", "trueX", "infx", "nan1", "inf_", "e1", "x0",
                "TRUE", "False", "true.x", "false.false", "inf.x", "nan.nan", "a_b.c_d", "x1.y2.z3",
                "SPEED", "LITE_RUNTIME", "option", "message.enum", "int32", "max", "to",
            ] {
                l.push((t.to_string(), V::Ident(t.to_string())));
                if t.contains('.') {
                    l.push((t.replace('.', " . "), V::Ident(t.to_string())));
                }
            }
        }
    }
    for chunk in l.chunks(500) {
        check_literals(chunk, case)?;
    }
    Ok(())
}

fn count(fs: &FileSet, case: &mut Case) -> usize {
    let mut n = [0usize; 6];
    fs.each_message(&mut |_, m| {
        for (f, o) in m.fields() {
            n[if o.is_some() { 1 } else { 0 }] += f.opts.len();
        }
        for o in m.oneofs() {
            n[2] += o.opts.len();
        }
        for mem in &m.members {
            if let Member::Enum(e) = mem {
                n[3] += e.values.iter().map(|v| v.opts.len()).sum::<usize>();
            }
        }
    });
    for f in &fs.files {
        for i in &f.items {
            match i {
                Item::Enum(e) => n[3] += e.values.iter().map(|v| v.opts.len()).sum::<usize>(),
                Item::Service(s) => {
                    n[4] += s.opts.len();
                    n[5] += s.rpcs.iter().map(|r| r.opts.len()).sum::<usize>();
                }
                _ => {}
            }
        }
    }
    case.count("options on fields", n[0] as u64);
    case.count("options on oneof members", n[1] as u64);
    case.count("options on oneofs", n[2] as u64);
    case.count("options on enum values", n[3] as u64);
    case.count("options on services", n[4] as u64);
    case.count("options on rpcs", n[5] as u64);
    n.iter().sum()
}

/// More options than usual everywhere.
fn sprinkle(src: &mut Source, fs: &mut FileSet) {
    fn more(src: &mut Source, opts: &mut Vec<Opt>) {
        let mut n = if src.chance(40) { src.range(1, 4) } else { 0 };
        if src.one_in(300) {
            n = 60;
        }
        for _ in 0..n {
            let o = Gen::new(src, Cfg::default()).option();
            if o.name() == "packed" {
                continue;
            }
            let at = opts.len() - src.below(opts.len() + 1);
            opts.insert(at, o.clone());
            if src.one_in(15) {
                // The same name once more.
                let v = Gen::new(src, Cfg::default()).constant();
                opts.push(Opt { value: v, ..o });
            }
        }
    }
    fn message(src: &mut Source, m: &mut Msg) {
        for mem in &mut m.members {
            match mem {
                Member::Field(f) => more(src, &mut f.opts),
                Member::Oneof(o) => {
                    more(src, &mut o.opts);
                    for f in &mut o.fields {
                        more(src, &mut f.opts);
                    }
                }
                Member::Message(n) => message(src, n),
                Member::Enum(e) => {
                    for v in &mut e.values {
                        more(src, &mut v.opts);
                    }
                }
            }
        }
    }
    for f in &mut fs.files {
        for i in &mut f.items {
            match i {
                Item::Message(m) => message(src, m),
                Item::Enum(e) => {
                    for v in &mut e.values {
                        more(src, &mut v.opts);
                    }
                }
                Item::Service(s) => {
                    more(src, &mut s.opts);
                    for r in &mut s.rpcs {
                        more(src, &mut r.opts);
                    }
                }
            }
        }
    }
}

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    if e > 0 && e <= 8 {
        return enumerated(e - 1, case);
    }
    let cfg = Cfg { max_files: 1, max_items: 4, max_depth: 2, ..Cfg::default() };
    let mut fs = gen_or_huge(e.saturating_sub(8), src, cfg, &[], case);
    if e == 0 {
        sprinkle(src, &mut fs);
    }
    let style = render::any_style(src);
    let text = render::styled(&fs, src, style);
    case.describe(|| all_text(&text));
    case.sample(|| all_text(&text));
    if count(&fs, case) >= 2 {
        case.nontrivial(text_digest(&text));
    }
    let ctx = parse(&text).map_err(|e| format!("valid files were rejected: {}", e))?;
    compare_view(&fs, &view::expected(&fs), &ctx, only_options)
}
