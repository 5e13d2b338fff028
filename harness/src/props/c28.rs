//! Decoding and encoding costs stay in proportion to the payload.

use super::clock::*;
use crate::alloc::measure;
use crate::engine::*;
use crate::tape::Source;
use crate::wire::*;
use protofish::context::{Context, MessageRef};
use protofish::decode::{MessageValue, Value};
use std::sync::OnceLock;

pub const PROP: Prop = Prop {
    id: "C28",
    run,
    enumerated: |_| (plain().len() + LARGE.len()) as u64,
    quick: 800,
    thorough: 20_000,
    threads: 6,
    rule: "Payloads of 4 to 64 KB made of one to three kinds of field (every scalar type, plain, \
           repeated and packed, undeclared numbers, mismatching wire types, strings, nested, empty, \
           damaged, truncated), flat, inside a leaf, or below up to 110 levels, against one sixteen \
           times as long of the same kind: processor time per byte of decoding and of encoding, \
           fastest of several runs, must not grow fivefold; against the same content at half the \
           depth: encoding must not take more than twelve times as long; against the same content \
           beside as many messages: decoding must not take more than five times as long; against a \
           context with a thousand times as many fields, messages, enum values or oneof members: \
           must not take fifteen times as long. The bytes encode requests: at most 4 KiB + 80 per \
           field or array element + 10 per byte and level. Enumerated: every kind on its own. Non-trivial: payloads of at least 1000 bytes.",
};

const TYPES: [(&str, u8); 16] = [
    ("double", 1), ("float", 5), ("int32", 0), ("int64", 0), ("uint32", 0), ("uint64", 0),
    ("sint32", 0), ("sint64", 0), ("fixed32", 5), ("fixed64", 1), ("sfixed32", 5), ("sfixed64", 1),
    ("bool", 0), ("E", 0), ("string", 2), ("bytes", 2),
];

/// Fields 1 to 16 are plain, 21 to 36 repeated, 41 to 56 repeated and not packed, 61 to 76 members
/// of a oneof; M is at 81 and repeated at 82, an empty message at 83.
fn grid() -> &'static (Context, MessageRef) {
    static G: OnceLock<(Context, MessageRef)> = OnceLock::new();
    G.get_or_init(|| {
        let mut t = String::from("syntax = \"proto3\"; enum E { Z = 0; A = 1; } message X { }\nmessage M {\n");
        for (i, (ty, _)) in TYPES.iter().enumerate() {
            t.push_str(&format!("{} a{} = {};\nrepeated {} b{} = {};\n", ty, i, i + 1, ty, i, i + 21));
            if i < 13 {
                t.push_str(&format!("repeated {} c{} = {} [packed = false];\n", ty, i, i + 41));
            }
        }
        t.push_str("oneof o {\n");
        for (i, (ty, _)) in TYPES.iter().enumerate() {
            t.push_str(&format!("{} d{} = {};\n", ty, i, i + 61));
        }
        t.push_str("}\nM m = 81;\nrepeated M ms = 82;\nX x = 83;\n}\n");
        let c = Context::parse(&[t]).expect("the schema of C28");
        let m = c.get_message("M").expect("M").self_ref;
        (c, m)
    })
}

/// One field of a payload, or a few.
#[derive(Clone)]
struct Tile {
    name: String,
    make: Make,
}

#[derive(Clone)]
enum Make {
    Fixed(Vec<u8>),
    /// Each time another field number.
    Number(u8),
    /// Each time another value.
    Value(u64, u8),
    /// Each time a message with another value.
    Message(u64),
}

impl Tile {
    fn put(&self, out: &mut Vec<u8>, i: u64) {
        match &self.make {
            Make::Fixed(b) => out.extend_from_slice(b),
            Make::Number(wt) => out.extend(field(100 + i, *wt, &content(*wt, false))),
            Make::Value(n, wt) => out.extend(field(*n, *wt, &counted(*wt, i))),
            Make::Message(n) => {
                let mut inner = field(3, 0, &counted(0, i));
                inner.extend(field(99, 2, &counted(2, i)));
                out.extend(lenfield(*n, &inner));
            }
        }
    }
}

fn counted(wt: u8, i: u64) -> Vec<u8> {
    let mut v = vec![];
    match wt {
        0 => put_varint(&mut v, i),
        1 => v.extend(i.to_le_bytes()),
        5 => v.extend((i as u32).to_le_bytes()),
        _ => put_len(&mut v, format!("{}", i).as_bytes()),
    }
    v
}

fn content(wt: u8, long: bool) -> Vec<u8> {
    match wt {
        0 if long => vec![0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1],
        0 => vec![1],
        1 => vec![1; 8],
        5 => vec![1; 4],
        _ if long => {
            let mut v = vec![];
            put_len(&mut v, "some text, \u{e9} and \u{4e2d}".as_bytes());
            v
        }
        _ => vec![0],
    }
}

fn field(number: u64, wt: u8, content: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    put_tag(&mut out, number, wt);
    out.extend_from_slice(content);
    out
}

fn lenfield(number: u64, content: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    put_tag(&mut out, number, 2);
    put_len(&mut out, content);
    out
}

/// Content below some levels of M.
fn below(levels: usize, number: u64, inner: &[u8]) -> Vec<u8> {
    let mut heads = vec![];
    let mut len = inner.len();
    for _ in 0..levels {
        let mut h = vec![];
        put_tag(&mut h, number, 2);
        put_varint(&mut h, len as u64);
        len += h.len();
        heads.push(h);
    }
    let mut out = vec![];
    for h in heads.iter().rev() {
        out.extend_from_slice(h);
    }
    out.extend_from_slice(inner);
    out
}

fn tiles() -> &'static Vec<Tile> {
    static T: OnceLock<Vec<Tile>> = OnceLock::new();
    T.get_or_init(|| {
        let mut out = vec![];
        let mut add = |name: String, bytes: Vec<u8>| out.push(Tile { name, make: Make::Fixed(bytes) });
        for (i, (ty, wt)) in TYPES.iter().enumerate() {
            for (base, what) in [(1, "plain"), (21, "repeated"), (41, "unpacked"), (61, "oneof")] {
                if base == 41 && i >= 13 {
                    continue;
                }
                let n = (base + i) as u64;
                for long in [false, true] {
                    if long && matches!(wt, 1 | 5) {
                        continue;
                    }
                    add(format!("{} {} long={}", what, ty, long), field(n, *wt, &content(*wt, long)));
                }
                for other in [0u8, 1, 2, 5] {
                    if other != *wt && (base == 1 || base == 21) {
                        add(format!("{} {} as wire type {}", what, ty, other), field(n, other, &content(other, false)));
                    }
                }
                if i < 13 && (base == 21 || base == 41) {
                    for k in [0usize, 1, 7] {
                        let c: Vec<u8> = (0..k).flat_map(|j| content(*wt, j == 3)).collect();
                        add(format!("{} array of {} {}", what, k, ty), lenfield(n, &c));
                    }
                }
            }
        }
        for wt in [0u8, 1, 2, 5] {
            for n in [99u64, 1 << 20, (1 << 29) - 1, 1 << 40, (1 << 61) - 1] {
                for long in [false, true] {
                    add(format!("undeclared {} wire type {} long={}", n, wt, long), field(n, wt, &content(wt, long)));
                }
            }
        }
        for n in [81u64, 82, 83] {
            add(format!("empty message {}", n), lenfield(n, b""));
            add(format!("message {} with a field", n), lenfield(n, &field(3, 0, &[5])));
            add(format!("message {} with an undeclared field", n), lenfield(n, &field(99, 2, &[1, b'x'])));
            add(format!("message {} with garbage", n), lenfield(n, &[0x80]));
            add(format!("message {} with an incomplete field", n), lenfield(n, &field(15, 2, &[9, b'x'])));
            add(format!("message {} with a damaged array", n), lenfield(n, &lenfield(24, &[1, 2, 0x80])));
            add(format!("message {} with an invalid field", n), lenfield(n, &field(3, 7, b"abc")));
        }
        for levels in [2usize, 10, 60] {
            add(format!("{} levels", levels), below(levels, 81, &field(3, 0, &[5])));
            add(format!("{} repeated levels", levels), below(levels, 82, b""));
        }
        let mut add = |name: String, make: Make| out.push(Tile { name, make });
        for wt in [0u8, 1, 2, 5] {
            add(format!("other undeclared numbers, wire type {}", wt), Make::Number(wt));
            add(format!("other undeclared values, wire type {}", wt), Make::Value(99, wt));
        }
        for (i, (ty, wt)) in TYPES.iter().enumerate() {
            for base in [1, 21, 41, 61] {
                if base == 41 && i >= 13 {
                    continue;
                }
                add(format!("other values of {} at {}", ty, base), Make::Value((base + i) as u64, *wt));
            }
            if i < 13 {
                add(format!("other arrays of {}", ty), Make::Value(21 + i as u64, 2));
            }
        }
        for n in [81u64, 82, 83] {
            add(format!("other messages {}", n), Make::Message(n));
        }
        out
    })
}

/// What the tiles are put into.
#[derive(Clone, Copy)]
enum Shape {
    Flat,
    /// The tiles below so many messages.
    Below(usize, u64),
    /// Part of the tiles at each of so many levels.
    Comb(usize, u64),
    /// One string, byte string or undeclared value.
    Leaf(u64, u8),
    /// One array; each element alike.
    Array(u64, bool),
    /// One array that breaks off at its end.
    Broken(u64),
    /// Fields, then something wrong with all the rest.
    Rest(u8),
    /// Each field claims what follows and more.
    Claims(u64),
}

#[derive(Clone)]
struct Plan {
    tiles: Vec<Tile>,
    shape: Shape,
    /// Levels around the leaf shapes.
    levels: usize,
    cut: bool,
}

fn fill(tiles: &[Tile], size: usize) -> Vec<u8> {
    let mut out = Vec::with_capacity(size + 100);
    let mut i = 0;
    while out.len() < size {
        for t in tiles {
            t.put(&mut out, i);
        }
        i += 1;
    }
    out
}

const CHARS: [&[u8]; 5] = [b"a", "\u{e9}".as_bytes(), "\u{10348}".as_bytes(), b"\xff", b"a\xe2\x82"];

impl Plan {
    fn payload(&self, size: usize) -> Vec<u8> {
        let mut out = match self.shape {
            Shape::Flat => fill(&self.tiles, size),
            Shape::Below(levels, n) => below(levels, n, &fill(&self.tiles, size)),
            Shape::Comb(levels, n) => {
                let part = fill(&self.tiles, size / levels);
                let mut out = part.clone();
                for i in 0..levels {
                    let mut next = if i % 2 == 0 { part.clone() } else { vec![] };
                    next.extend(lenfield(n, &out));
                    if i % 2 == 1 {
                        next.extend_from_slice(&part);
                    }
                    out = next;
                }
                out
            }
            Shape::Leaf(n, c) => {
                let unit = CHARS[c as usize];
                let content: Vec<u8> = unit.iter().cloned().cycle().take(size / unit.len() * unit.len()).collect();
                below(self.levels, 81, &lenfield(n, &content))
            }
            Shape::Array(n, long) => {
                let (_, wt) = TYPES[((n - 21) % 20) as usize];
                let unit = content(wt, long);
                let mut content: Vec<u8> = unit.iter().cloned().cycle().take(size / unit.len() * unit.len()).collect();
                if !long {
                    // Each element another one.
                    content.clear();
                    let mut i = 0;
                    while content.len() < size {
                        content.extend(counted(wt, i));
                        i += 1;
                    }
                }
                below(self.levels, 81, &lenfield(n, &content))
            }
            Shape::Broken(n) => {
                let (_, wt) = TYPES[((n - 21) % 20) as usize];
                let unit = content(wt, false);
                let mut content: Vec<u8> = unit.iter().cloned().cycle().take(size / unit.len() * unit.len()).collect();
                content.push(0x80);
                below(self.levels, 82, &lenfield(n, &content))
            }
            Shape::Rest(wt) => {
                let mut out = fill(&self.tiles, size / 4);
                match wt {
                    0 => {
                        // Garbage: no end to the tag.
                        out.extend(std::iter::repeat(0x80).take(size));
                    }
                    1 => {
                        // A value without end.
                        out.extend(field(4, 0, &vec![0xff; size]));
                    }
                    2 => {
                        // A claim of more than there is.
                        put_tag(&mut out, 15, 2);
                        put_varint(&mut out, size as u64 + 1);
                        out.extend(std::iter::repeat(b'x').take(size));
                    }
                    _ => out.extend(field(7, wt, &vec![0x0f; size])),
                }
                out
            }
            Shape::Claims(n) => {
                let mut out = vec![];
                while out.len() < size {
                    put_tag(&mut out, n, 2);
                    let left = size.saturating_sub(out.len()) as u64;
                    put_varint(&mut out, left);
                }
                out
            }
        };
        if self.cut {
            out.truncate(out.len() - 1);
        }
        out
    }

    fn name(&self) -> String {
        let t: Vec<&str> = self.tiles.iter().map(|t| t.name.as_str()).collect();
        let shape = match self.shape {
            Shape::Flat => "repeated".to_string(),
            Shape::Below(l, n) => format!("repeated below {} messages in field {}", l, n),
            Shape::Comb(l, n) => format!("repeated at each of {} levels of field {}", l, n),
            Shape::Leaf(n, c) => format!("one value in field {} of {:x?}, {} levels down", n, CHARS[c as usize], self.levels),
            Shape::Array(n, l) => format!("one array in field {} long={}, {} levels down", n, l, self.levels),
            Shape::Broken(n) => format!("one broken array in field {}, {} levels down", n, self.levels),
            Shape::Rest(w) => format!("repeated and then a bad rest of kind {}", w),
            Shape::Claims(n) => format!("claims in field {}", n),
        };
        format!("[{}] {}{}", t.join(" + "), shape, if self.cut { ", cut" } else { "" })
    }
}

/// Each thing on its own.
fn plain() -> &'static Vec<Plan> {
    static P: OnceLock<Vec<Plan>> = OnceLock::new();
    P.get_or_init(|| {
        let mut out = vec![];
        for t in tiles() {
            out.push(Plan { tiles: vec![t.clone()], shape: Shape::Flat, levels: 0, cut: false });
        }
        let simple = vec![Tile { name: "plain int32".into(), make: Make::Fixed(field(3, 0, &[5])) }];
        let mut add = |shape, levels| out.push(Plan { tiles: simple.clone(), shape, levels, cut: false });
        for levels in [1usize, 20, 98, 99, 100, 101, 110] {
            add(Shape::Below(levels, 81), 0);
            add(Shape::Comb(levels, 82), 0);
        }
        for n in [15u64, 16, 35, 36, 75, 76, 99, 3, 23] {
            for c in 0..CHARS.len() as u8 {
                add(Shape::Leaf(n, c), 0);
            }
            add(Shape::Leaf(n, 1), 50);
        }
        for i in 0..13u64 {
            for base in [21u64, 41] {
                add(Shape::Array(base + i, false), 0);
                add(Shape::Array(base + i, true), 3);
                add(Shape::Broken(base + i), 0);
            }
        }
        for w in 0..8u8 {
            if w != 5 {
                add(Shape::Rest(w), 0);
            }
        }
        for n in [15u64, 22, 81, 82, 99] {
            add(Shape::Claims(n), 0);
        }
        out
    })
}

fn plan(src: &mut Source) -> Plan {
    let tiles: Vec<Tile> = (0..src.range(1, 3)).map(|_| src.pick(tiles()).clone()).collect();
    let array = |src: &mut Source| *src.pick(&[21u64, 41]) + src.draw(13);
    let shape = match src.weighted(&[25, 25, 20, 8, 8, 4, 8, 4]) {
        0 => Shape::Flat,
        1 => Shape::Below(*src.pick(&[1usize, 2, 5, 10, 30, 60, 98, 99, 100, 110]), *src.pick(&[81, 82])),
        2 => Shape::Comb(*src.pick(&[2usize, 5, 10, 30, 60, 98, 99, 100, 110]), *src.pick(&[81, 82])),
        3 => Shape::Leaf(*src.pick(&[15u64, 16, 35, 36, 75, 76, 83, 99, 3, 23]), src.draw(5) as u8),
        4 => Shape::Array(array(src), src.bool()),
        5 => Shape::Broken(array(src)),
        6 => Shape::Rest(*src.pick(&[0u8, 1, 2, 3, 4, 6, 7])),
        _ => Shape::Claims(*src.pick(&[15u64, 16, 22, 35, 81, 82, 99])),
    };
    let levels = if src.bool() { 0 } else { src.range(1, 105) };
    Plan { tiles, shape, levels, cut: src.one_in(5) }
}

/// The time of one run, of so many that they take long enough.
fn time(runs: u64, f: &mut dyn FnMut()) -> u64 {
    let t0 = cpu();
    for _ in 0..runs {
        f();
    }
    (cpu() - t0) / runs
}

/// How many runs take a quarter of a millisecond or more.
fn runs(f: &mut dyn FnMut()) -> u64 {
    let t = time(1, f).min(time(1, f));
    (250_000 / (t + 500)).clamp(1, 200)
}

/// Percent that the time of `b` is of `factor` times the time of `a`; fastest of several rounds,
/// more of them when it looks like too much.
fn ratio(a: &mut dyn FnMut(), b: &mut dyn FnMut(), factor: f64, limit: u64) -> (u64, u64, u64) {
    let (ra, rb) = (runs(a), runs(b));
    let (mut ta, mut tb) = (u64::MAX, u64::MAX);
    let mut r = 0;
    for round in 0..10 {
        ta = ta.min(time(ra, a));
        ta = ta.min(time(ra, a));
        tb = tb.min(time(rb, b));
        r = (tb as f64 * 100.0 / ((ta + 500) as f64 * factor)) as u64;
        if r <= limit / 2 || r <= limit && round > 1 || r > 3 * limit && round > 1 {
            break;
        }
    }
    (r, ta, tb)
}

const LIMIT: u64 = 500;

fn levels_of(m: &MessageValue) -> usize {
    let inner = m.fields.iter().map(|f| match &f.value {
        Value::Message(m) => levels_of(m),
        _ => 0,
    });
    1 + inner.max().unwrap_or(0)
}

fn count(m: &MessageValue) -> usize {
    m.fields
        .iter()
        .map(|f| match &f.value {
            Value::Message(m) => 1 + count(m),
            _ => 1,
        })
        .sum()
}

/// The elements of packed arrays, which may take few bytes each.
fn elements(m: &MessageValue) -> usize {
    use protofish::decode::PackedArray::*;
    m.fields
        .iter()
        .map(|f| match &f.value {
            Value::Message(m) => elements(m),
            Value::Packed(p) => match p {
                Double(v) => v.len(),
                Float(v) => v.len(),
                Int32(v) => v.len(),
                Int64(v) => v.len(),
                UInt32(v) => v.len(),
                UInt64(v) => v.len(),
                SInt32(v) => v.len(),
                SInt64(v) => v.len(),
                Fixed32(v) => v.len(),
                Fixed64(v) => v.len(),
                SFixed32(v) => v.len(),
                SFixed64(v) => v.len(),
                Bool(v) => v.len(),
            },
            _ => 0,
        })
        .sum()
}

fn scaling(plan: &Plan, small: usize, case: &mut Case) -> Check {
    let (ctx, m) = grid();
    let (a, b) = (plan.payload(small), plan.payload(16 * small));
    case.describe(|| format!("{}: {} and {} bytes\n{}", plan.name(), a.len(), b.len(), hex(&a)));
    case.sample(|| format!("{}: {} and {} bytes", plan.name(), a.len(), b.len()));
    if b.len() >= 1000 {
        case.nontrivial(digest(&b));
    }
    let factor = b.len() as f64 / a.len() as f64;
    let (r, ta, tb) = ratio(
        &mut || drop(ctx.decode(*m, &a)),
        &mut || drop(ctx.decode(*m, &b)),
        factor,
        LIMIT,
    );
    case.max("percent: decode time per byte of a sixteen times as long payload", r);
    if r > LIMIT {
        return Err(format!(
            "{}: decoding {} bytes takes {} ns, and {} bytes of the same kind take {} ns",
            plan.name(), a.len(), ta, b.len(), tb
        ));
    }
    let va = ctx.decode(*m, &a);
    let vb = ctx.decode(*m, &b);
    let (out, total, _) = measure(|| vb.encode(ctx));
    let bound = 4096 + 80 * (count(&vb) + elements(&vb)) + 10 * out.len() * levels_of(&vb);
    case.max("percent of the memory bound of encode", total * 100 / bound as u64);
    if total > bound as u64 {
        return Err(format!(
            "{}: encoding {} fields in {} levels as {} bytes requested {} bytes of memory, the bound is {}",
            plan.name(), count(&vb), levels_of(&vb), out.len(), total, bound
        ));
    }
    let (r, ta, tb) =
        ratio(&mut || drop(va.encode(ctx)), &mut || drop(vb.encode(ctx)), factor, LIMIT);
    case.max("percent: encode time per byte of a sixteen times as long payload", r);
    if r > LIMIT {
        return Err(format!(
            "{}: encoding {} bytes takes {} ns, and {} bytes of the same kind take {} ns",
            plan.name(), a.len(), ta, b.len(), tb
        ));
    }
    Ok(())
}

/// The same content ever deeper.
fn depth(plan: &Plan, src: &mut Source, case: &mut Case) -> Check {
    let (ctx, m) = grid();
    let content = plan.payload(400);
    case.label("depth");
    case.describe(|| format!("{} below more and more levels: {}", plan.name(), hex(&content)));
    case.nontrivial(digest(&content) ^ 1);
    let mut levels = 3;
    while levels <= 48 {
        let (a, b) = (below(levels, 82, &content), below(2 * levels, 82, &content));
        let (va, vb) = (ctx.decode(*m, &a), ctx.decode(*m, &b));
        let (r, ta, tb) = ratio(&mut || drop(va.encode(ctx)), &mut || drop(vb.encode(ctx)), 2.0, 600);
        case.max("percent: encode time per level at twice the depth", r);
        if r > 600 {
            return Err(format!(
                "encoding {} bytes below {} levels takes {} ns, and below {} levels {} ns",
                content.len(), levels, ta, 2 * levels, tb
            ));
        }
        levels *= 2;
    }
    // For decoding it must not matter whether the content is below the messages or beside them.
    let content = plan.payload(*src.pick(&[400usize, 4000]));
    for levels in [12, 96] {
        let mut flat = vec![];
        (0..levels).for_each(|_| flat.extend(lenfield(82, &field(3, 0, &[5]))));
        flat.extend_from_slice(&content);
        let deep = below(levels, 82, &content);
        let (r, ta, tb) =
            ratio(&mut || drop(ctx.decode(*m, &flat)), &mut || drop(ctx.decode(*m, &deep)), 1.0, LIMIT);
        case.max("percent: decode time below messages of that beside them", r);
        if r > LIMIT {
            return Err(format!(
                "{}: decoding {} bytes beside {} small messages takes {} ns, and below as many messages {} ns",
                plan.name(), content.len(), levels, ta, tb
            ));
        }
    }
    Ok(())
}

const LARGE: [&str; 6] = ["fields", "fields of a oneof", "messages", "enum values", "oneofs", "packages"];
const SCHEMA_LIMIT: u64 = 1500;

/// A schema with many of something, and a message for which that must not matter.
fn large(kind: usize, n: usize) -> &'static (Context, MessageRef) {
    static L: [[OnceLock<(Context, MessageRef)>; 2]; 6] =
        [const { [const { OnceLock::new() }; 2] }; 6];
    L[kind][(n > 100) as usize].get_or_init(|| {
        let mut t = String::from("syntax = \"proto3\";\nenum E { Z = 0;\n");
        if kind == 3 {
            (1..n).for_each(|i| t.push_str(&format!("V{} = {};\n", i, i)));
        }
        t.push_str("}\n");
        if kind == 2 {
            (1..n).for_each(|i| t.push_str(&format!("message T{} {{ T{} t = 1; }}\n", i, n - i)));
        }
        t.push_str("message M {\n");
        let member = |i: usize| {
            let ty = ["int32", "repeated int32", "string", "M", "E", "repeated E", "repeated M"][i % 7];
            format!("{} f{} = {};\n", ty, i, i)
        };
        match kind {
            0 => (1..n).for_each(|i| t.push_str(&member(i))),
            1 => {
                t.push_str("oneof o {\n");
                (1..n).for_each(|i| t.push_str(&member(i).replace("repeated ", "")));
                t.push_str("}\n");
            }
            4 => (1..n).for_each(|i| {
                t.push_str(&format!("oneof o{} {{ {} }}\n", i, member(i).replace("repeated ", "")))
            }),
            _ => (1..16).for_each(|i| t.push_str(&member(i))),
        }
        t.push_str("}\n");
        let mut files = vec![t];
        if kind == 5 {
            (1..n / 8).for_each(|i| {
                files.push(format!("syntax = \"proto3\";\npackage q{};\nmessage M {{ .M m = 1; }}\n", i))
            });
        }
        let c = Context::parse(&files).expect("a large schema");
        let m = c.get_message("M").expect("M").self_ref;
        (c, m)
    })
}

fn schema(kind: usize, src: &mut Source, case: &mut Case) -> Check {
    case.label("large schema");
    let n = 16_000;
    // The numbers are the low ones, so that both payloads are the same, or the high ones, so that
    // both are of the same length.
    let high = src.bool();
    let pattern: Vec<(u64, u8)> = (0..src.range(1, 6))
        .map(|_| (src.range(2064, n - 1) as u64, *src.pick(&[0u8, 2, 2])))
        .collect();
    let payload = |wide: bool| {
        let mut out = vec![];
        while out.len() < 8000 {
            for (num, wt) in &pattern {
                let num = if wide { *num } else { 1 + num % 15 };
                out.extend(field(num, *wt, &content(*wt, false)));
            }
        }
        out
    };
    let wide = high && matches!(kind, 0 | 1 | 4);
    let (a, b) = (payload(false), payload(wide));
    let (ca, ma) = large(kind, 16);
    let (cb, mb) = large(kind, n);
    case.describe(|| format!("{} {} against 16\n{}", n, LARGE[kind], hex(&b)));
    case.nontrivial(digest(&b) ^ kind as u64);
    let (r, ta, tb) =
        ratio(&mut || drop(ca.decode(*ma, &a)), &mut || drop(cb.decode(*mb, &b)), 1.0, SCHEMA_LIMIT);
    case.max("percent: decode time with a large schema", r);
    if r > SCHEMA_LIMIT {
        return Err(format!(
            "decoding {} bytes takes {} ns with 16 {} and {} ns with {}",
            b.len(), ta, LARGE[kind], tb, n
        ));
    }
    let (va, vb) = (ca.decode(*ma, &a), cb.decode(*mb, &b));
    let (r, ta, tb) =
        ratio(&mut || drop(va.encode(ca)), &mut || drop(vb.encode(cb)), 1.0, SCHEMA_LIMIT);
    case.max("percent: encode time with a large schema", r);
    if r > SCHEMA_LIMIT {
        return Err(format!(
            "encoding {} bytes takes {} ns with 16 {} and {} ns with {}",
            b.len(), ta, LARGE[kind], tb, n
        ));
    }
    Ok(())
}

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    keep_memory();
    if e > 0 {
        let e = e as usize - 1;
        if e < plain().len() {
            case.label("single kind");
            return scaling(&plain()[e], 4000, case);
        }
        return schema(e - plain().len(), src, case);
    }
    match src.weighted(&[70, 20, 10]) {
        0 => {
            case.label("scaling");
            let p = plan(src);
            let small = *src.pick(&[1000usize, 2000, 4000]);
            scaling(&p, small, case)
        }
        1 => {
            let p = plan(src);
            depth(&p, src, case)
        }
        _ => {
            let kind = src.below(LARGE.len());
            schema(kind, src, case)
        }
    }
}
