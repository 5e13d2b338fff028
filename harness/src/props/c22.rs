//! Parsing and decoding are pure and safe to share.

use super::common::*;
use crate::engine::*;
use crate::evolve;
use crate::render;
use crate::schema::*;
use crate::tape::Source;
use crate::view;
use crate::wire::{self, from_sut, hex, to_sut, Handles, RMsg, Types, RV};
use protofish::context::Context;
use std::marker::PhantomData;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Barrier;

pub const PROP: Prop = Prop {
    id: "C22",
    run,
    enumerated: |_| 1,
    quick: 13_000,
    thorough: 400_000,
    threads: 8,
    rule: "Up to four contexts whose schemas share type names are alive at once; random sequences of \
           parsing, dropping, decoding (also other payloads in between, and payloads and schemas \
           that differ a little from earlier ones) and encoding. Parsing again \
           must give an equal context; each decoding and encoding must give what the reference \
           codec gives or, where it disagrees, what a fresh process gives for that operation \
           alone; repetitions must agree. In some cases threads share the contexts. At the end the \
           contexts equal freshly parsed ones. Non-trivial: at least two contexts and six operations.",
};

// Whether a type can be shared, without failing to compile when it cannot.
struct ProbeSend<T>(PhantomData<T>);
struct ProbeSync<T>(PhantomData<T>);
trait NotSend {
    const SEND: bool = false;
}
trait NotSync {
    const SYNC: bool = false;
}
impl<T> NotSend for ProbeSend<T> {}
impl<T> NotSync for ProbeSync<T> {}
#[allow(dead_code)]
impl<T: Send> ProbeSend<T> {
    const SEND: bool = true;
}
#[allow(dead_code)]
impl<T: Sync> ProbeSync<T> {
    const SYNC: bool = true;
}

fn markers() -> Check {
    use protofish::decode as d;
    let all = [
        ("Context: Sync", ProbeSync::<Context>::SYNC),
        ("Context: Send", ProbeSend::<Context>::SEND),
        ("MessageValue: Send", ProbeSend::<d::MessageValue>::SEND),
        ("MessageValue: Sync", ProbeSync::<d::MessageValue>::SYNC),
        ("MessageInfo: Sync", ProbeSync::<protofish::context::MessageInfo>::SYNC),
        ("EnumInfo: Sync", ProbeSync::<protofish::context::EnumInfo>::SYNC),
        ("Service: Sync", ProbeSync::<protofish::context::Service>::SYNC),
    ];
    for (what, holds) in all {
        if !holds {
            return Err(format!("{} does not hold, so a context cannot be shared between threads", what));
        }
    }
    Ok(())
}

struct Shared<'a>(&'a [World]);
// The check must build, and report, when Context is not Sync.
unsafe impl Sync for Shared<'_> {}

struct World {
    fs: FileSet,
    text: Vec<String>,
    types: Types,
    ctx: Context,
    h: Handles,
}

fn schema(src: &mut Source, case: &mut Case) -> Result<Option<World>, String> {
    let cfg = Cfg {
        max_files: 2,
        max_items: 3,
        max_members: 8,
        max_depth: 2,
        options: src.chance(20),
        services: src.chance(20),
        weird_names: 0,
        shadow: 90,
        max_package_parts: 1,
        big: false,
        nan: false,
        aliases: false,
        ..Cfg::default()
    };
    made(gen(src, cfg), case)
}

/// One that differs a little from another.
fn similar(src: &mut Source, w: &World, case: &mut Case) -> Result<Option<World>, String> {
    let mut fs = w.fs.clone();
    for _ in 0..src.range(1, 2) {
        if let Some((f, _)) = evolve::change(src, &fs, true) {
            fs = f;
        }
    }
    if src.one_in(4) {
        // Every type and member becomes another one, the text as long as before.
        fs = evolve::rename(&fs, &mut |n| {
            let last = n.chars().last().unwrap();
            let other = match last {
                'a'..='y' | 'A'..='Y' => (last as u8 + 1) as char,
                'z' => 'a',
                'Z' => 'A',
                _ => last,
            };
            format!("{}{}", &n[..n.len() - 1], other)
        });
    }
    case.label("a context like another");
    made(fs, case)
}

fn made(fs: FileSet, case: &mut Case) -> Result<Option<World>, String> {
    let text = render::plain(&fs);
    let types = Types::of(&view::expected(&fs));
    if types.msgs.is_empty() {
        return Ok(None);
    }
    let parsed = parse(&text);
    if let Ok(ctx) = parsed {
        if let Some(h) = types.handles(&ctx) {
            return Ok(Some(World { fs, text, types, ctx, h }));
        }
    }
    // Nothing wrong if it is always like this.
    case.label("no such context");
    match fresh(&text, &types, 0, &[]) {
        Some(s) if !s.is_empty() => Err(format!(
            "parsing fails or lacks a type, but not in a fresh process:\n{}",
            all_text(&text)
        )),
        _ => Ok(None),
    }
}

fn show(m: &RMsg, data: &[u8]) -> String {
    format!("{:?} -> {}", m, hex(data))
}

/// Decodes and encodes again.
fn one(w: &World, ty: usize, data: &[u8]) -> (RMsg, Vec<u8>) {
    let v = w.ctx.decode(w.h.msgs[ty], data);
    let r = from_sut(&w.h, &v);
    let e = v.encode(&w.ctx).to_vec();
    (r, e)
}

static SPAWNED: AtomicUsize = AtomicUsize::new(0);

/// What a process that has done nothing else answers. None: asked too often already.
fn fresh(text: &[String], types: &Types, ty: usize, data: &[u8]) -> Option<String> {
    if SPAWNED.fetch_add(1, Ordering::Relaxed) > 400 {
        return None;
    }
    use std::io::Write;
    let mut child = Command::new(std::env::current_exe().ok()?)
        .arg("fresh")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let mut input = vec![];
    let mut put = |b: &[u8]| {
        input.extend_from_slice(&(b.len() as u64).to_le_bytes());
        input.extend_from_slice(b);
    };
    put(&(text.len() as u64).to_le_bytes());
    for t in text {
        put(t.as_bytes());
    }
    put(&(types.msgs.len() as u64).to_le_bytes());
    for m in &types.msgs {
        put(m.name.as_bytes());
    }
    put(&(types.enums.len() as u64).to_le_bytes());
    for e in &types.enums {
        put(e.0.as_bytes());
    }
    put(&(ty as u64).to_le_bytes());
    put(data);
    child.stdin.take()?.write_all(&input).ok()?;
    let out = child.wait_with_output().ok()?;
    String::from_utf8(out.stdout).ok()
}

/// The other side of `fresh`.
pub fn fresh_main() -> i32 {
    use std::io::Read;
    let mut input = vec![];
    let _ = std::io::stdin().read_to_end(&mut input);
    let mut at = 0;
    let mut get = || -> Vec<u8> {
        let n = u64::from_le_bytes(input[at..at + 8].try_into().unwrap()) as usize;
        at += 8 + n;
        input[at - n..at].to_vec()
    };
    fn num(b: Vec<u8>) -> usize {
        u64::from_le_bytes(b.try_into().unwrap()) as usize
    }
    let n = num(get());
    let text: Vec<String> = (0..n).map(|_| String::from_utf8(get()).unwrap()).collect();
    let mut types = Types::default();
    let n = num(get());
    for _ in 0..n {
        let name = String::from_utf8(get()).unwrap();
        types.msgs.push(wire::TMsg { name, ..Default::default() });
    }
    let n = num(get());
    for _ in 0..n {
        types.enums.push((String::from_utf8(get()).unwrap(), vec![]));
    }
    let ty = num(get());
    let data = get();
    let ctx = match parse(&text) {
        Ok(c) => c,
        Err(_) => return 1,
    };
    let h = match types.handles(&ctx) {
        Some(h) => h,
        None => return 1,
    };
    let w = World { fs: FileSet { files: vec![] }, text, types, ctx, h };
    let (r, e) = on_thread(move || one(&w, ty, &data));
    print!("{}", show(&r, &e));
    0
}

fn payload(src: &mut Source, w: &World) -> (usize, Vec<u8>) {
    let ty = src.below(w.types.msgs.len());
    let data = if src.chance(70) {
        let mut m = wire::gen_typed(src, &w.types, ty);
        if src.one_in(6) {
            lengthen(src, &mut m);
        }
        wire::encode(&m)
    } else {
        wire::hostile(src, &w.types, ty)
    };
    (ty, data)
}

/// Longer contents for some of the strings.
fn lengthen(src: &mut Source, m: &mut RMsg) {
    let mut n = 3;
    for (_, v) in &mut m.fields {
        if n == 0 {
            return;
        }
        match v {
            RV::Str(s) => {
                let k = src.range(16, 300);
                *s = (0..k).map(|i| (b'a' + (i * i % 23) as u8) as char).collect();
                n -= 1;
            }
            RV::Bytes(b) | RV::ULen(b) => {
                let k = src.range(16, 300);
                *b = (0..k).map(|i| (i * i % 251) as u8).collect();
                n -= 1;
            }
            RV::Msg(m) => lengthen(src, m),
            _ => {}
        }
    }
}

/// Much like something decoded before: what a careless cache takes for the same.
fn like(src: &mut Source, data: &[u8]) -> Vec<u8> {
    let mut d = data.to_vec();
    if d.len() < 2 {
        return d;
    }
    let (i, j) = (src.below(d.len()), src.below(d.len()));
    match src.below(6) {
        0 => d[i] ^= 1 << src.below(8),
        1 | 2 => d.swap(i, j),
        3 => {
            // Neighbours, so that both are likely to be parts of the same value.
            let i = i.min(d.len() - 2);
            d.swap(i, i + 1);
        }
        4 => {
            d[i] = d[i].wrapping_add(1);
            d[j] = d[j].wrapping_sub(1);
        }
        _ => {
            d.truncate(i);
        }
    }
    d
}

/// Compares the outcome of an operation with the one it has on its own.
fn judge(w: &World, ty: usize, data: &[u8], got: &(RMsg, Vec<u8>), case: &mut Case) -> Check {
    let mut canonical = true;
    let expected = wire::decode(&w.types, ty, data, &mut canonical);
    let e = wire::encode(&expected);
    if expected == got.0 && e == got.1 {
        return Ok(());
    }
    // The reference is not the judge here: another property may be broken.
    match fresh(&w.text, &w.types, ty, data) {
        None => {
            case.label("disagreement with the reference, not examined");
            Ok(())
        }
        Some(f) if f == show(&got.0, &got.1) => {
            case.label("disagreement with the reference, but not with a fresh process");
            Ok(())
        }
        Some(f) => Err(format!(
            "decoding {} as {} gives\n{}\nbut in a fresh process\n{}",
            hex(data),
            w.types.msgs[ty].name,
            show(&got.0, &got.1),
            f
        )),
    }
}

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    if e > 0 {
        return markers();
    }
    let n = src.range(1, 4);
    let mut worlds: Vec<World> = vec![];
    for _ in 0..n {
        let w = if !worlds.is_empty() && src.one_in(3) {
            let like = src.below(worlds.len());
            similar(src, &worlds[like], case)?
        } else {
            schema(src, case)?
        };
        worlds.extend(w);
    }
    if worlds.is_empty() {
        case.label("skipped: no context");
        return Ok(());
    }
    case.max("contexts alive", worlds.len() as u64);
    let mut log: Vec<String> =
        worlds.iter().map(|w| format!("context:\n{}", all_text(&w.text))).collect();
    let mut past: Vec<(usize, usize, Vec<u8>, (RMsg, Vec<u8>))> = vec![];
    let steps = src.range(2, 14);
    let mut result = Ok(());
    for _ in 0..steps {
        let k = src.below(worlds.len());
        let r: Check = match src.weighted(&[55, 15, 10, 12, 8]) {
            0 => {
                let w = &worlds[k];
                let (ty, data) = match past.is_empty() || src.chance(60) {
                    true => payload(src, w),
                    false => {
                        let (of, ty, data, _) = src.pick(&past);
                        let data = if src.chance(70) { like(src, data) } else { data.clone() };
                        (if *of == k { *ty } else { src.below(w.types.msgs.len()) }, data)
                    }
                };
                log.push(format!("decode {} as {} of context {}", hex(&data), w.types.msgs[ty].name, k));
                let got = one(w, ty, &data);
                let r = judge(w, ty, &data, &got, case);
                past.push((k, ty, data, got));
                r
            }
            1 => {
                if past.is_empty() {
                    continue;
                }
                let (k, ty, data, before) = src.pick(&past).clone();
                log.push(format!("decode {} again in context {}", hex(&data), k));
                let now = one(&worlds[k], ty, &data);
                if now == before {
                    Ok(())
                } else {
                    Err(format!(
                        "decoding {} again gives\n{}\nbut the first time\n{}",
                        hex(&data),
                        show(&now.0, &now.1),
                        show(&before.0, &before.1)
                    ))
                }
            }
            2 => {
                let w = &worlds[k];
                let ty = src.below(w.types.msgs.len());
                let m = wire::gen_typed(src, &w.types, ty);
                log.push(format!("encode {:?} of context {}", m, k));
                let v = to_sut(&w.h, &m);
                let a = v.encode(&w.ctx);
                let b = v.encode(&w.ctx);
                if a != b {
                    Err(format!("encoding twice gives {} and {}", hex(&a), hex(&b)))
                } else if from_sut(&w.h, &v) != m {
                    Err("encoding changed the value".to_string())
                } else {
                    Ok(())
                }
            }
            3 => {
                log.push(format!("parse context {} again", k));
                match parse(&worlds[k].text) {
                    Ok(c) if c == worlds[k].ctx => {
                        if src.bool() {
                            // Goes on with the new one.
                            worlds[k].h = match worlds[k].types.handles(&c) {
                                Some(h) => h,
                                None => return Err("a type of an equal context is missing".to_string()),
                            };
                            worlds[k].ctx = c;
                        }
                        Ok(())
                    }
                    Ok(_) => Err("parsing the same texts again gives another context".to_string()),
                    Err(e) => Err(format!("parsing the same texts again gives {}", e)),
                }
            }
            _ => {
                let w = if src.one_in(3) { similar(src, &worlds[k], case)? } else { schema(src, case)? };
                if let Some(w) = w {
                    log.push(format!("drop context {}, in its place:\n{}", k, all_text(&w.text)));
                    worlds[k] = w;
                    past.retain(|p| p.0 != k);
                }
                Ok(())
            }
        };
        if r.is_err() {
            result = r;
            break;
        }
    }
    if worlds.len() > 1 && log.len() > worlds.len() + 5 {
        case.nontrivial(digest(log.join("\n").as_bytes()));
    }
    case.sample(|| log.join(" | "));
    if result.is_ok() && src.chance(10) {
        case.label("threads share the contexts");
        result = threads(src, &worlds, case);
        log.push("threads".to_string());
    }
    case.describe(|| log.join("\n"));
    result?;
    for w in &worlds {
        match parse(&w.text) {
            Ok(c) if c == w.ctx => {}
            _ => return Err("after decoding, a context no longer equals a freshly parsed one".to_string()),
        }
    }
    Ok(())
}

fn threads(src: &mut Source, worlds: &[World], case: &mut Case) -> Check {
    let n = src.range(2, 4);
    let mut jobs: Vec<Vec<(usize, usize, Vec<u8>)>> = vec![];
    for _ in 0..n {
        let k = src.range(4, 12);
        jobs.push(
            (0..k)
                .map(|_| {
                    let i = src.below(worlds.len());
                    let (ty, data) = payload(src, &worlds[i]);
                    (i, ty, data)
                })
                .collect(),
        );
    }
    if src.bool() {
        // Everyone does the same.
        let first = jobs[0].clone();
        jobs.iter_mut().for_each(|j| *j = first.clone());
    }
    let parse_too = src.chance(30);
    let shared = Shared(worlds);
    let barrier = Barrier::new(jobs.len());
    // `Shared` is captured as a whole.
    let (shared, barrier) = (&shared, &barrier);
    let results: Vec<Result<Vec<(RMsg, Vec<u8>)>, String>> = std::thread::scope(|s| {
        let handles: Vec<_> = jobs
            .iter()
            .map(|job| {
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn_scoped(s, move || {
                        let worlds = { shared }.0;
                        barrier.wait();
                        let mut out = vec![];
                        let mut err = Ok(());
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            for round in 0..5 {
                                for (at, (i, ty, data)) in job.iter().enumerate() {
                                    let got = one(&worlds[*i], *ty, data);
                                    if round == 0 {
                                        out.push(got);
                                    } else if out[at] != got {
                                        err = Err(format!(
                                            "on a thread, decoding {} gives\n{}\nand\n{}",
                                            hex(data),
                                            show(&out[at].0, &out[at].1),
                                            show(&got.0, &got.1)
                                        ));
                                        return;
                                    }
                                    if parse_too && at == 0 {
                                        match parse(&worlds[*i].text) {
                                            Ok(c) if c == worlds[*i].ctx => {}
                                            _ => {
                                                err = Err("parsing on several threads gives another context".to_string());
                                                return;
                                            }
                                        }
                                    }
                                }
                            }
                        }));
                        err?;
                        match r {
                            Ok(()) => Ok(out),
                            Err(_) => Err("a panic while threads share a context".to_string()),
                        }
                    })
                    .expect("thread")
            })
            .collect();
        handles.into_iter().map(|h| h.join().expect("join")).collect()
    });
    for (job, r) in jobs.iter().zip(results) {
        let out = r?;
        for ((i, ty, data), got) in job.iter().zip(&out) {
            judge(&worlds[*i], *ty, data, got, case)?;
        }
    }
    Ok(())
}
