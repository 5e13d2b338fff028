//! Syntax errors point at the place of the fault.

use super::common::*;
use crate::engine::*;
use crate::render;
use crate::schema::*;
use crate::tape::Source;
use protofish::context::{Context, ParseError};

pub const PROP: Prop = Prop {
    id: "C32",
    run,
    enumerated: none,
    quick: 60_000,
    thorough: 1_000_000,
    threads: 8,
    rule: "A random valid set of files in random layout (comments, all line endings, byte order marks, \
           strings that look like code) of which one gets one fault between two tokens: a character \
           that begins no token, the end of the text, a number out of range, or a map field. Parsing \
           must fail with a syntax error whose line and column lie between the beginning of the \
           statement with the fault and the fault itself, as counted in that file. Non-trivial: the \
           fault is not on the first line.",
};

/// Tokens of any text the renderer writes, without comments and white space: start, end.
fn tokens(text: &str) -> Vec<(usize, usize)> {
    let b = text.as_bytes();
    let mut out = vec![];
    let mut i = if text.starts_with('\u{feff}') { 3 } else { 0 };
    while i < b.len() {
        let start = i;
        let c = b[i];
        if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' {
            i += 1;
            continue;
        }
        if b[i..].starts_with(b"//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if b[i..].starts_with(b"/*") {
            i = text[i + 2..].find("*/").map_or(b.len(), |n| i + 2 + n + 2);
            continue;
        }
        if c.is_ascii_alphabetic() {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
        } else if c.is_ascii_digit() || (c == b'.' && b.get(i + 1).map_or(false, |d| d.is_ascii_digit())) {
            let hex = c == b'0' && b.get(i + 1).map_or(false, |x| *x == b'x' || *x == b'X');
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.') {
                i += 1;
                if !hex
                    && (b[i - 1] == b'e' || b[i - 1] == b'E')
                    && i < b.len()
                    && (b[i] == b'-' || b[i] == b'+')
                {
                    i += 1;
                }
            }
        } else if c == b'"' || c == b'\'' {
            i += 1;
            while b[i] != c {
                if b[i] == b'\\' {
                    i += 1;
                }
                i += 1;
            }
            i += 1;
        } else {
            i += 1;
        }
        out.push((start, i));
    }
    out
}

/// Line and column of a byte offset, both from one.
fn place(text: &str, at: usize) -> (usize, usize) {
    let before = &text[..at];
    let line = before.matches('\n').count() + 1;
    let column = before.rsplit('\n').next().unwrap_or("").chars().count() + 1;
    (line, column)
}

/// The line and column an error shows.
fn shown(error: &str) -> Option<(usize, usize)> {
    let rest = &error[error.find("-->")? + 3..];
    let rest = rest.trim_start();
    let line: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
    let rest = rest[line.len()..].strip_prefix(':')?;
    let column: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
    Some((line.parse().ok()?, column.parse().ok()?))
}

/// The text with a fault, what the fault is, and where it is: the statement's beginning and the fault.
fn broken(src: &mut Source, text: &str) -> Option<(String, &'static str, usize, usize)> {
    let t = tokens(text);
    let at = |i: usize| &text[t[i].0..t[i].1];
    // The end of the token that ends what comes before the statement token `i` belongs to.
    let begin = |i: usize| {
        (0..i)
            .rev()
            .find(|k| matches!(at(*k), ";" | "{" | "}"))
            .map_or(0, |k| t[k].1)
    };
    Some(match src.weighted(&[60, 25, 10, 5]) {
        0 => {
            let i = src.below(t.len() + 1);
            let bad = *src.pick(&["?", "#", "@", "$", "%", "^", "&", "`", "~", "!", "*", "|", "é", "\u{3b1}", "\u{2028}", "\\"]);
            // In front of the token, behind the one before it, or at the very end.
            let pos = if i < t.len() && (i == 0 || src.bool()) {
                t[i].0
            } else {
                t[i - 1].1
            };
            let out = format!("{}{}{}", &text[..pos], bad, &text[pos..]);
            (out, "stray character", begin(i), pos)
        }
        1 => {
            let i = src.below(t.len());
            let depth = (0..=i).fold(0i64, |d, k| d + (at(k) == "{") as i64 - (at(k) == "}") as i64);
            if depth == 0 && matches!(at(i), ";" | "}") {
                return None;
            }
            (text[..t[i].1].to_string(), "end of text", begin(i + 1), t[i].1)
        }
        2 => {
            // A field number or enum value, which stands after the only `=` of its statement so far.
            let c: Vec<usize> = (4..t.len())
                .filter(|i| {
                    let b = (0..*i).rev().find(|k| matches!(at(*k), ";" | "{" | "}")).map_or(0, |k| k + 1);
                    at(*i - 1) == "="
                        && at(*i).as_bytes()[0].is_ascii_digit()
                        && at(b) != "option"
                        && (b..*i - 1).all(|k| at(k) != "=" && at(k) != "[")
                        && matches!(at(*i + 1), ";" | "[")
                })
                .collect();
            if c.is_empty() {
                return None;
            }
            let i = *src.pick(&c);
            let n = *src.pick(&["18446744073709551616", "0x10000000000000000", "99999999999999999999999999", "02000000000000000000000"]);
            let out = format!("{}{}{}", &text[..t[i].0], n, &text[t[i].1..]);
            (out, "number out of range", begin(i), t[i].0)
        }
        _ => {
            // In front of the end of a message's body or of its first field.
            let c: Vec<usize> = (0..t.len().saturating_sub(2))
                .filter(|i| {
                    at(*i) == "message"
                        && (*i == 0 || matches!(at(*i - 1), ";" | "{" | "}"))
                        && at(*i + 2) == "{"
                })
                .collect();
            if c.is_empty() {
                return None;
            }
            let i = *src.pick(&c) + 2;
            let pos = t[i].1;
            let map = format!("{}map<string, int32> m = 77;", src.pick(&["", " ", "\n", "/* x */"]));
            let out = format!("{}{}{}", &text[..pos], map, &text[pos..]);
            (out, "map field", pos, pos + map.len())
        }
    })
}

fn run(_: u64, src: &mut Source, case: &mut Case) -> Check {
    let cfg = varied(src, Cfg::default());
    let fs = gen(src, cfg);
    let style = render::any_style(src);
    let mut files = render::styled(&fs, src, style);
    let n = src.below(files.len());
    let (text, what, from, to) = match broken(src, &files[n]) {
        Some(b) => b,
        None => {
            case.label("skipped: no place");
            return Ok(());
        }
    };
    files[n] = text;
    let text = &files[n];
    case.describe(|| format!("fault in file {}: {}\n{}", n + 1, what, all_text(&files)));
    case.label(what);
    case.max("files", files.len() as u64);
    let (low, high) = (place(text, from), place(text, to));
    case.max("line", high.0 as u64);
    case.label_if(text.contains("\r\n"), "with CRLF");
    case.label_if(text.starts_with('\u{feff}'), "with byte order mark");
    case.label_if(low == high, "exact place");
    if high.0 > 1 {
        case.nontrivial(text_digest(&files));
    }
    case.sample(|| format!("{} at {:?}..{:?}: {}", what, low, high, text.chars().take(300).collect::<String>()));
    let result = Context::parse(&files);
    if let Err(e @ ParseError::SyntaxError { .. }) = &result {
        let p = shown(&e.to_string());
        if p.map_or(true, |p| p < low || p > high) {
            return Err(format!("{} at {:?} of file {}: printed as\n{}", what, high, n + 1, e));
        }
    }
    match result {
        Ok(_) => Err(format!("{} at {:?} of file {} was accepted", what, high, n + 1)),
        Err(ParseError::SyntaxError { source }) => {
            let e = source.to_string();
            match shown(&e) {
                None => Err(format!("the error names no place:\n{}", e)),
                Some(p) if p < low || p > high => Err(format!(
                    "{} at {:?} of file {}, in the statement from {:?}; the error points at {:?}:\n{}",
                    what,
                    high,
                    n + 1,
                    low,
                    p,
                    e
                )),
                Some(_) => Ok(()),
            }
        }
        Err(e) => Err(format!("{} at {:?}: not a syntax error but: {}", what, high, e)),
    }
}
