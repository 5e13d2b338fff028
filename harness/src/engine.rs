//! Case generation, isolation, shrinking and evidence.

use crate::json;
use crate::tape::{mix, Source};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fs::File;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Check = Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    /// Run case number `e - 1` of the enumerated part (e > 0), or a random case (e == 0).
    pub run: fn(e: u64, src: &mut Source, case: &mut Case) -> Check,
    /// Size of the enumerated part.
    pub enumerated: fn(thorough: bool) -> u64,
    pub quick: u64,
    pub thorough: u64,
    pub threads: usize,
    pub rule: &'static str,
}

pub fn none(_: bool) -> u64 {
    0
}

#[derive(Default)]
pub struct Case {
    pub thorough: bool,
    nontrivial: bool,
    digest: u64,
    labels: Vec<(&'static str, u64)>,
    max: Vec<(&'static str, u64)>,
    sample: Option<String>,
    want_sample: bool,
    pub describe: Option<String>,
    want_describe: bool,
    known: Vec<String>,
}

impl Case {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push((l, 1));
    }
    pub fn label_if(&mut self, cond: bool, l: &'static str) {
        if cond {
            self.labels.push((l, 1));
        }
    }
    pub fn count(&mut self, l: &'static str, n: u64) {
        if n > 0 {
            self.labels.push((l, n));
        }
    }
    pub fn max(&mut self, l: &'static str, n: u64) {
        self.max.push((l, n));
    }
    /// Marks the case non-trivial; `digest` identifies it.
    pub fn nontrivial(&mut self, digest: u64) {
        self.nontrivial = true;
        self.digest = mix(self.digest ^ digest);
    }
    /// A short rendering of the case for the evidence file.
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.sample = Some(f());
        }
    }
    /// A full rendering of the case for the replay file.
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_describe {
            let text = f();
            match &mut self.describe {
                Some(d) => {
                    d.push('\n');
                    d.push_str(&text)
                }
                None => self.describe = Some(text),
            }
        }
    }
    /// A listed defect that was observed again. Returns an error when it is not listed.
    pub fn known(&mut self, property: &str, key: &str, what: String) -> Check {
        if known_findings().contains(&(property.to_string(), key.to_string())) {
            self.known.push(format!("property={} {}: {}", property, key, what));
            Ok(())
        } else {
            Err(what)
        }
    }
}

pub fn digest(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    mix(h ^ bytes.len() as u64)
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("PF_VERIF").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

/// Lines `finding: property=<id> key=<key> ...` of known_findings.txt.
fn known_findings() -> &'static BTreeSet<(String, String)> {
    use std::sync::OnceLock;
    static F: OnceLock<BTreeSet<(String, String)>> = OnceLock::new();
    F.get_or_init(|| {
        let mut out = BTreeSet::new();
        let text =
            std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
        for line in text.lines() {
            if let Some(rest) = line.strip_prefix("finding:") {
                let mut p = None;
                let mut k = None;
                for w in rest.split_whitespace() {
                    if let Some(v) = w.strip_prefix("property=") {
                        p = p.or(Some(v.to_string()));
                    }
                    if let Some(v) = w.strip_prefix("key=") {
                        k = k.or(Some(v.to_string()));
                    }
                }
                if let (Some(p), Some(k)) = (p, k) {
                    out.insert((p, k));
                }
            }
        }
        out
    })
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_else(|| "?".to_string());
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub enum Outcome {
    Pass,
    Violation(String),
    /// The harness itself failed.
    Internal(String),
}

/// Runs `f`; a panic raised outside the harness counts as a panic of the code under test.
pub fn guarded(f: impl FnOnce() -> Check) -> Outcome {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(e)) => Outcome::Violation(e),
        Err(_) => {
            let (loc, msg) = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| ("?".to_string(), "?".to_string()));
            let text = format!("panic at {}: {}", loc, msg);
            if loc.starts_with("src/") || loc.contains("harness/src/") {
                Outcome::Internal(text)
            } else {
                Outcome::Violation(text)
            }
        }
    }
}

pub fn run_case(prop: &Prop, src: &mut Source, case: &mut Case) -> Outcome {
    guarded(|| {
        let e = src.draw(0);
        (prop.run)(e, src, case)
    })
}

fn id_hash(id: &str) -> u64 {
    digest(id.as_bytes())
}

pub fn case_source(prop: &Prop, seed: u64, idx: u64, thorough: bool) -> Source {
    let n = (prop.enumerated)(thorough);
    let prefix = if idx < n { idx + 1 } else { 0 };
    Source::random(vec![prefix], mix(seed ^ mix(id_hash(prop.id) ^ mix(idx))))
}

pub struct Env {
    pub seed: u64,
    pub thorough: bool,
}

pub fn env() -> Env {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    Env { seed, thorough }
}

fn total_cases(prop: &Prop, env: &Env) -> u64 {
    let random = if env.thorough { prop.thorough } else { prop.quick };
    let scale: f64 =
        std::env::var("PF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    (prop.enumerated)(env.thorough) + (random as f64 * scale) as u64
}

fn work_dir(id: &str) -> PathBuf {
    let base = std::env::var_os("PF_WORK")
        .map(PathBuf::from)
        .unwrap_or_else(|| std::env::temp_dir().join(format!("pf-{}", std::process::id())));
    base.join(id)
}

fn replay_path(id: &str) -> PathBuf {
    verif_dir().join("replays").join(format!("{}.replay", id))
}

fn write_replay(prop: &Prop, env: &Env, tape: &[u64], message: &str, description: &str) -> PathBuf {
    let path = replay_path(prop.id);
    let _ = std::fs::create_dir_all(path.parent().unwrap());
    let mut out = String::new();
    out.push_str(&format!("property {}\n", prop.id));
    out.push_str(&format!("tier {}\n", if env.thorough { "thorough" } else { "quick" }));
    let t: Vec<String> = tape.iter().map(|v| v.to_string()).collect();
    out.push_str(&format!("tape {}\n", t.join(" ")));
    out.push_str("# run again with: /verif/run.sh replay <this file>\n");
    for line in message.lines() {
        out.push_str(&format!("# {}\n", line));
    }
    out.push_str("# ---- case ----\n");
    for line in description.lines() {
        out.push_str(&format!("# {}\n", line));
    }
    let _ = std::fs::write(&path, out);
    path
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    nontrivial_total: u64,
    labels: BTreeMap<&'static str, u64>,
    max: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, String)>,
    known: BTreeSet<String>,
}

const MAX_SAMPLES: usize = 8;

impl Stats {
    fn add(&mut self, idx: u64, case: Case) {
        self.evaluations += 1;
        if case.nontrivial {
            self.nontrivial_total += 1;
            self.nontrivial.insert(case.digest);
        }
        for (l, n) in case.labels {
            *self.labels.entry(l).or_default() += n;
        }
        for (l, n) in case.max {
            let e = self.max.entry(l).or_default();
            *e = n.max(*e);
        }
        if let Some(s) = case.sample {
            if case.nontrivial {
                self.samples.push((idx, s));
            }
        }
        self.known.extend(case.known);
    }
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial_total += o.nontrivial_total;
        self.nontrivial.extend(o.nontrivial);
        for (l, n) in o.labels {
            *self.labels.entry(l).or_default() += n;
        }
        for (l, n) in o.max {
            let e = self.max.entry(l).or_default();
            *e = n.max(*e);
        }
        self.samples.extend(o.samples);
        self.known.extend(o.known);
    }
}

fn write_evidence(
    prop: &Prop,
    env: &Env,
    stats: &Stats,
    total: u64,
    wall: f64,
    violations: u64,
    note: &str,
) {
    let mut samples: Vec<(u64, String)> = stats.samples.clone();
    samples.sort();
    samples.truncate(MAX_SAMPLES);
    let samples: Vec<String> = samples
        .into_iter()
        .map(|(i, s)| {
            let mut s: String = s.chars().take(1500).collect();
            s.insert_str(0, &format!("case {}: ", i));
            s
        })
        .collect();
    let labels: Vec<String> =
        stats.labels.iter().map(|(l, n)| format!("{}: {}", json::string(l), n)).collect();
    let maxima: Vec<String> =
        stats.max.iter().map(|(l, n)| format!("{}: {}", json::string(l), n)).collect();
    let text = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"planned\": {},\n    \"enumerated_cases\": {},\n    \"nontrivial\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"classes\": {{{}}},\n    \"maxima\": {{{}}},\n    \"samples\": {},\n    \"note\": {}\n  }},\n  \"known_findings\": {},\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        json::string(prop.id),
        json::string(if env.thorough { "thorough" } else { "quick" }),
        env.seed,
        stats.evaluations,
        total,
        (prop.enumerated)(env.thorough),
        stats.nontrivial_total,
        stats.nontrivial.len(),
        json::string(prop.rule),
        labels.join(", "),
        maxima.join(", "),
        json::strings(samples.iter()),
        json::string(note),
        json::strings(stats.known.iter()),
        wall,
        violations
    );
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", prop.id)), text);
}

fn describe_tape(prop: &Prop, thorough: bool, tape: &[u64]) -> (Option<String>, String) {
    let mut case = Case { thorough, want_describe: true, ..Case::default() };
    let mut src = Source::replay(tape.to_vec());
    let out = run_case(prop, &mut src, &mut case);
    let msg = match out {
        Outcome::Pass => None,
        Outcome::Violation(m) => Some(m),
        Outcome::Internal(m) => Some(format!("harness: {}", m)),
    };
    (msg, case.describe.unwrap_or_default())
}

/// Greedy tape minimisation. `fails` tells whether a candidate still fails.
fn shrink(tape: Vec<u64>, max_execs: usize, mut fails: impl FnMut(&[u64]) -> bool) -> Vec<u64> {
    let mut best = tape;
    let mut execs = 0;
    let started = Instant::now();
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>| -> bool {
        if execs >= max_execs || started.elapsed() > Duration::from_secs(40) {
            return false;
        }
        execs += 1;
        if cand != *best && fails(&cand) {
            *best = cand;
            true
        } else {
            false
        }
    };
    for _round in 0..6 {
        let before = best.clone();
        // Cut the tail.
        let mut cut = best.len() / 2;
        while cut >= 1 {
            while best.len() > cut + 1 {
                let cand = best[..best.len() - cut].to_vec();
                if !attempt(cand, &mut best) {
                    break;
                }
            }
            cut /= 2;
        }
        // Delete blocks; position 0 selects the kind of case and stays.
        for size in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 1 {
                let start = i.saturating_sub(size).max(1);
                if i - start == size.min(i - 1) && start + size <= best.len() {
                    let mut cand = best.clone();
                    cand.drain(start..start + size);
                    if attempt(cand, &mut best) {
                        i = start.min(best.len());
                        continue;
                    }
                }
                i = i.saturating_sub(if size > 4 { size / 2 } else { 1 });
            }
        }
        // Zero blocks.
        for size in [16usize, 4, 1] {
            let mut i = 1;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    cand[i..end].iter_mut().for_each(|v| *v = 0);
                    attempt(cand, &mut best);
                }
                i += size;
            }
        }
        // Reduce values.
        for i in 1..best.len() {
            let mut lo = 0u64;
            while i < best.len() && best[i] > lo {
                let mid = lo + (best[i] - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if !attempt(cand, &mut best) {
                    lo = mid + 1;
                }
            }
        }
        if best == before {
            break;
        }
    }
    while best.len() > 1 && *best.last().unwrap() == 0 {
        best.pop();
    }
    best
}

/// The child process: runs all cases on all threads.
pub fn worker(prop: &'static Prop) -> i32 {
    limit(RLIMIT_CORE, 0);
    limit(RLIMIT_AS, 20 << 30);
    let env = env();
    let started = Instant::now();
    let dir = work_dir(prop.id);
    let progress = File::options()
        .create(true)
        .write(true)
        .truncate(true)
        .open(dir.join("progress"))
        .expect("progress file");
    let total = total_cases(prop, &env);
    let next = AtomicU64::new(0);
    let first_fail = AtomicU64::new(u64::MAX);
    let failures: Mutex<BTreeMap<u64, (Vec<u64>, Outcome)>> = Mutex::new(BTreeMap::new());
    let stats = Mutex::new(Stats::default());
    let chunk = 1u64;

    std::thread::scope(|scope| {
        for t in 0..prop.threads {
            let (progress, next, first_fail, failures, stats, env) =
                (&progress, &next, &first_fail, &failures, &stats, &env);
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(scope, move || {
                    let mut local = Stats::default();
                    'outer: loop {
                        let base = next.fetch_add(chunk, Ordering::Relaxed);
                        if base >= total {
                            break;
                        }
                        for idx in base..(base + chunk).min(total) {
                            if idx > first_fail.load(Ordering::Relaxed) {
                                break 'outer;
                            }
                            let _ = progress.write_at(&(idx + 1).to_le_bytes(), t as u64 * 8);
                            let mut src = case_source(prop, env.seed, idx, env.thorough);
                            let mut case = Case {
                                thorough: env.thorough,
                                want_sample: local.samples.len() < MAX_SAMPLES
                                    && idx % 7 == t as u64 % 7,
                                ..Case::default()
                            };
                            let out = run_case(prop, &mut src, &mut case);
                            match out {
                                Outcome::Pass => {}
                                out => {
                                    first_fail.fetch_min(idx, Ordering::Relaxed);
                                    failures
                                        .lock()
                                        .unwrap()
                                        .insert(idx, (src.tape.clone(), out));
                                }
                            }
                            local.add(idx, case);
                        }
                    }
                    let _ = progress.write_at(&0u64.to_le_bytes(), t as u64 * 8);
                    stats.lock().unwrap().merge(local);
                })
                .expect("thread");
        }
    });

    let stats = stats.into_inner().unwrap();
    let failures = failures.into_inner().unwrap();
    let first = failures.into_iter().next();
    match first {
        None => {
            for k in &stats.known {
                println!("KNOWN-FINDING: {}", k);
            }
            write_evidence(prop, &env, &stats, total, started.elapsed().as_secs_f64(), 0, "");
            println!(
                "OK property={} cases={} distinct_nontrivial={} wall={:.1}s",
                prop.id,
                stats.evaluations,
                stats.nontrivial.len(),
                started.elapsed().as_secs_f64()
            );
            0
        }
        Some((idx, (_, Outcome::Internal(msg)))) => {
            eprintln!("INTERNAL property={} case={} {}", prop.id, idx, msg);
            2
        }
        Some((idx, (tape, out))) => {
            let msg = match out {
                Outcome::Violation(m) => m,
                _ => unreachable!(),
            };
            // Publish the unshrunk case first, in case shrinking runs into a crash.
            let path = write_replay(prop, &env, &tape, &msg, "(not shrunk)");
            let _ = std::fs::write(dir.join("found"), msg.as_bytes());
            write_evidence(prop, &env, &stats, total, started.elapsed().as_secs_f64(), 1, &msg);
            let thorough = env.thorough;
            let small = on_thread(move || {
                let small = shrink(tape, 4000, |cand| {
                    let mut case = Case { thorough, ..Case::default() };
                    let mut src = Source::replay(cand.to_vec());
                    matches!(run_case(prop, &mut src, &mut case), Outcome::Violation(_))
                });
                let (m, d) = describe_tape(prop, thorough, &small);
                (small, m, d)
            });
            let (small, m2, desc) = small;
            // A violation that depends on timing may not repeat; keep the first message then.
            if let Some(m2) = m2 {
                write_replay(prop, &env, &small, &m2, &desc);
                println!("# case {} shrunk to {} choices: {}", idx, small.len(), first_lines(&m2));
            } else {
                println!("# case {}: {}", idx, first_lines(&msg));
            }
            println!("VIOLATION property={} replay={}", prop.id, path.display());
            1
        }
    }
}

fn first_lines(s: &str) -> String {
    let t: String = s.lines().take(6).collect::<Vec<_>>().join(" | ");
    t.chars().take(600).collect()
}

pub fn on_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(2 << 20).spawn(f).expect("thread").join().expect("join")
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

fn limit(resource: i32, value: u64) {
    let r = [value, value + 5];
    unsafe {
        setrlimit(resource, &r);
    }
}

const RLIMIT_CPU: i32 = 0;
const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;

/// CPU seconds a single case may take before it counts as not terminating. A normal case takes
/// milliseconds.
const CASE_CPU_SECONDS: u64 = 45;
const STALL_SECONDS: u64 = 90;

/// Child process: one single case, by index, logging its tape.
pub fn single_index(prop: &'static Prop, idx: u64) -> i32 {
    limit(RLIMIT_CPU, CASE_CPU_SECONDS);
    limit(RLIMIT_CORE, 0);
    limit(RLIMIT_AS, 8 << 30);
    let env = env();
    // Dry runs of the generator are not separable from the code under test, so the tape of a
    // crashing case is recorded while it is drawn.
    let tape_path = work_dir(prop.id).join("tape");
    on_thread(move || {
        let mut src = case_source(prop, env.seed, idx, env.thorough);
        src.log_to(File::create(tape_path).expect("tape file"));
        let mut case = Case { thorough: env.thorough, ..Case::default() };
        match run_case(prop, &mut src, &mut case) {
            Outcome::Pass => 0,
            Outcome::Violation(_) => 1,
            Outcome::Internal(_) => 2,
        }
    })
}

/// Child process: one single case from a tape file of little endian u64.
pub fn single_tape(prop: &'static Prop, path: &Path) -> i32 {
    limit(RLIMIT_CPU, CASE_CPU_SECONDS);
    limit(RLIMIT_CORE, 0);
    limit(RLIMIT_AS, 8 << 30);
    let env = env();
    let tape = read_tape(path);
    on_thread(move || {
        let mut case = Case { thorough: env.thorough, ..Case::default() };
        match run_case(prop, &mut Source::replay(tape), &mut case) {
            Outcome::Pass => 0,
            Outcome::Violation(_) => 1,
            Outcome::Internal(_) => 2,
        }
    })
}

fn read_tape(path: &Path) -> Vec<u64> {
    let raw = std::fs::read(path).unwrap_or_default();
    raw.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

fn me() -> Command {
    Command::new(std::env::current_exe().expect("exe"))
}

const SIGKILL: i32 = 9;
const SIGXCPU: i32 = 24;

fn signal_name(s: i32) -> String {
    match s {
        4 => "SIGILL".into(),
        6 => "SIGABRT (abort, stack overflow or memory exhausted)".into(),
        7 => "SIGBUS".into(),
        11 => "SIGSEGV".into(),
        24 => format!("SIGXCPU (did not terminate within {} s of CPU time)", CASE_CPU_SECONDS),
        s => format!("signal {}", s),
    }
}

/// The parent: starts the worker and deals with a worker that dies or hangs.
pub fn run(prop: &'static Prop) -> i32 {
    let env = env();
    let started = Instant::now();
    let dir = work_dir(prop.id);
    let _ = std::fs::create_dir_all(&dir);
    let code = run_in(prop, &env, started, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    if std::env::var_os("PF_WORK").is_none() {
        if let Some(base) = dir.parent() {
            let _ = std::fs::remove_dir(base);
        }
    }
    code
}

fn run_in(prop: &'static Prop, env: &Env, started: Instant, dir: &Path) -> i32 {
    let _ = std::fs::remove_file(replay_path(prop.id));
    let mut deaths = 0;
    let mut notes = String::new();
    for attempt in 0..2 {
        let _ = std::fs::remove_file(dir.join("found"));
        let mut child = me()
            .args(["worker", prop.id])
            .env("PF_WORK", dir.parent().unwrap())
            .stdin(Stdio::null())
            .stderr(Stdio::piped())
            .spawn()
            .expect("spawn worker");
        // Drain stderr so that the runtime's "stack overflow" message is not lost.
        let mut err = child.stderr.take().unwrap();
        let err_thread = std::thread::spawn(move || {
            let mut s = Vec::new();
            let _ = std::io::Read::read_to_end(&mut err, &mut s);
            String::from_utf8_lossy(&s).to_string()
        });
        let mut last = Vec::new();
        let mut found_at = None;
        let mut hung = false;
        let status = loop {
            match child.try_wait().expect("wait") {
                Some(s) => break s,
                None => std::thread::sleep(Duration::from_millis(20)),
            }
            let now = std::fs::read(dir.join("progress")).unwrap_or_default();
            // Any slot that moves is progress of that slot only; a hang shows as one slot that
            // stays while it is not idle.
            if found_at.is_none() && dir.join("found").exists() {
                found_at = Some(Instant::now());
            }
            let shrink_hangs =
                found_at.map_or(false, |t: Instant| t.elapsed() > Duration::from_secs(100));
            if shrink_hangs || stalled(&mut last, &now) {
                hung = true;
                let _ = child.kill();
                break child.wait().expect("wait");
            }
        };
        let stderr = err_thread.join().unwrap_or_default();
        if let Some(code) = status.code() {
            if !stderr.is_empty() {
                eprint!("{}", stderr);
            }
            return code;
        }
        let sig = status.signal().unwrap_or(0);
        notes = format!(
            "worker ended by {}{}: {}",
            signal_name(sig),
            if hung { " after a case made no progress" } else { "" },
            first_lines(&stderr)
        );
        eprintln!("# {}", notes);
        if dir.join("found").exists() {
            // A violation was found already; shrinking it crashed or hung.
            let msg = std::fs::read_to_string(dir.join("found")).unwrap_or_default();
            println!("# {}", first_lines(&msg));
            println!("VIOLATION property={} replay={}", prop.id, replay_path(prop.id).display());
            return 1;
        }
        let progress = std::fs::read(dir.join("progress")).unwrap_or_default();
        let mut candidates: Vec<u64> = progress
            .chunks_exact(8)
            .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
            .filter(|v| *v > 0)
            .map(|v| v - 1)
            .collect();
        candidates.sort();
        for idx in &candidates {
            if let Some(code) = triage(prop, env, started, dir, *idx, &stderr) {
                return code;
            }
        }
        if sig != SIGKILL && !hung {
            deaths += 1;
        }
        eprintln!("# attempt {}: no single case reproduces it (candidates {:?})", attempt, candidates);
    }
    if deaths == 2 {
        // It dies every time, but not from one case on its own: it depends on what ran before
        // or at the same time.
        let msg = format!("{} (twice; not reproduced by a single case)", notes);
        let path = write_replay(prop, env, &[], &msg, "rerun the check with the same seed");
        write_evidence(
            prop,
            env,
            &Stats::default(),
            total_cases(prop, env),
            started.elapsed().as_secs_f64(),
            1,
            &msg,
        );
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        return 1;
    }
    eprintln!("INTERNAL property={} {}", prop.id, notes);
    2
}

fn stalled(last: &mut Vec<(u64, Option<Instant>)>, now: &[u8]) -> bool {
    let mut stall = false;
    for (i, c) in now.chunks_exact(8).enumerate() {
        let v = u64::from_le_bytes(c.try_into().unwrap());
        if last.len() <= i {
            last.push((v, Some(Instant::now())));
        }
        if last[i].0 != v {
            last[i] = (v, Some(Instant::now()));
        } else if v != 0 {
            if let Some(t) = last[i].1 {
                if t.elapsed() > Duration::from_secs(STALL_SECONDS) {
                    stall = true;
                }
            }
        }
    }
    stall
}

/// Runs one case in a process of its own; if it dies there, that is a violation.
fn triage(
    prop: &'static Prop,
    env: &Env,
    started: Instant,
    dir: &Path,
    idx: u64,
    stderr: &str,
) -> Option<i32> {
    let run_index = || {
        me().args(["index", prop.id, &idx.to_string()])
            .env("PF_WORK", dir.parent().unwrap())
            .stdin(Stdio::null())
            .stderr(Stdio::null())
            .status()
            .expect("spawn")
    };
    let first = run_index();
    let sig = first.signal()?;
    if sig == SIGKILL {
        return None;
    }
    // Must die the same way again.
    let second = run_index().signal()?;
    if second == SIGKILL {
        return None;
    }
    let mut tape = read_tape(&dir.join("tape"));
    let mut msg = format!("the process was ended by {}", signal_name(sig));
    if stderr.contains("overflowed its stack") {
        msg.push_str(" (stack overflow)");
    }
    write_replay(prop, env, &tape, &msg, "(not shrunk)");
    if sig != SIGXCPU {
        let cand_path = dir.join("cand");
        tape = shrink(tape, 300, |cand| {
            let raw: Vec<u8> = cand.iter().flat_map(|v| v.to_le_bytes()).collect();
            if std::fs::write(&cand_path, raw).is_err() {
                return false;
            }
            me().args(["tape", prop.id, cand_path.to_str().unwrap()])
                .stdin(Stdio::null())
                .stderr(Stdio::null())
                .stdout(Stdio::null())
                .status()
                .map(|s| s.signal() == Some(sig))
                .unwrap_or(false)
        });
    }
    let path = write_replay(prop, env, &tape, &msg, &format!("case {} of seed {}", idx, env.seed));
    write_evidence(
        prop,
        env,
        &Stats::default(),
        total_cases(prop, env),
        started.elapsed().as_secs_f64(),
        1,
        &msg,
    );
    println!("# case {}: {}", idx, msg);
    println!("VIOLATION property={} replay={}", prop.id, path.display());
    Some(1)
}

/// Replays a replay file: prints the case and its outcome.
pub fn replay(path: &Path, props: &'static [Prop]) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", path.display(), e);
            return 2;
        }
    };
    let mut prop = None;
    let mut thorough = false;
    let mut tape = vec![];
    for line in text.lines() {
        if let Some(id) = line.strip_prefix("property ") {
            prop = props.iter().find(|p| p.id == id.trim());
        } else if let Some(t) = line.strip_prefix("tier ") {
            thorough = t.trim() == "thorough";
        } else if let Some(t) = line.strip_prefix("tape ") {
            tape = t.split_whitespace().filter_map(|v| v.parse().ok()).collect();
        }
    }
    let prop = match prop {
        Some(p) => p,
        None => {
            eprintln!("no such property");
            return 2;
        }
    };
    let path = path.display().to_string();
    let (msg, desc) = on_thread(move || describe_tape(prop, thorough, &tape));
    println!("{}", desc);
    match msg {
        Some(m) => {
            println!("{}", m);
            println!("VIOLATION property={} replay={}", prop.id, path);
            let _ = std::io::stdout().flush();
            1
        }
        None => {
            println!("the case passes");
            0
        }
    }
}

/// The tape that the bytes of a fuzzer stand for.
fn fuzz_tape(data: &[u8]) -> Vec<u64> {
    let mut tape = vec![0u64];
    tape.extend(data.chunks(2).map(|c| match c {
        [a, b] => u16::from_le_bytes([*a, *b]) as u64,
        c => c[0] as u64,
    }));
    tape
}

/// Entry for coverage guided fuzzing. A violation ends the process.
pub fn fuzz_entry(prop: &'static Prop, data: &[u8]) {
    let mut case = Case::default();
    let mut src = Source::replay(fuzz_tape(data));
    match run_case(prop, &mut src, &mut case) {
        Outcome::Pass => {}
        Outcome::Violation(m) => {
            eprintln!("violation: {}", m);
            std::process::abort();
        }
        Outcome::Internal(m) => {
            eprintln!("internal: {}", m);
            std::process::abort();
        }
    }
}

/// Tapes of random cases as the first inputs of a fuzzer.
pub fn fuzz_seeds(prop: &'static Prop, count: u64, dir: &Path) -> i32 {
    let env = env();
    let dir = dir.to_path_buf();
    on_thread(move || {
        let first = (prop.enumerated)(env.thorough);
        for i in 0..count {
            let mut src = case_source(prop, env.seed, first + i, env.thorough);
            let mut case = Case::default();
            let _ = run_case(prop, &mut src, &mut case);
            let raw: Vec<u8> =
                src.tape.iter().skip(1).flat_map(|v| (*v as u16).to_le_bytes()).collect();
            if raw.len() <= 4096 && std::fs::write(dir.join(format!("{:06}", i)), raw).is_err() {
                return 2;
            }
        }
        0
    })
}

/// An input with which the fuzzer ended: run again on its own, made smaller and reported.
pub fn fuzz_found(prop: &'static Prop, path: &Path) -> i32 {
    let env = env();
    let data = std::fs::read(path).unwrap_or_default();
    let cand_path = work_dir(prop.id).join("cand");
    let _ = std::fs::create_dir_all(work_dir(prop.id));
    let outcome = |tape: &[u64]| -> i32 {
        let raw: Vec<u8> = tape.iter().flat_map(|v| v.to_le_bytes()).collect();
        if std::fs::write(&cand_path, raw).is_err() {
            return -1;
        }
        let status = me()
            .args(["tape", prop.id, cand_path.to_str().unwrap()])
            .stdin(Stdio::null())
            .stderr(Stdio::null())
            .stdout(Stdio::null())
            .status();
        match status {
            Ok(s) => s.code().unwrap_or_else(|| 128 + s.signal().unwrap_or(0)),
            Err(_) => -1,
        }
    };
    let tape = fuzz_tape(&data);
    let code = outcome(&tape);
    if code == 0 || code == 128 + SIGKILL || outcome(&tape) != code {
        println!("# the fuzzer's input passes on its own");
        return 0;
    }
    if code != 1 && code < 128 {
        eprintln!("INTERNAL property={} the fuzzer's input gives exit code {}", prop.id, code);
        return 2;
    }
    let tape = match code == 128 + SIGXCPU {
        true => tape,
        false => shrink(tape, 400, |t| outcome(t) == code),
    };
    let (msg, desc) = match code {
        1 => {
            let t = tape.clone();
            on_thread(move || describe_tape(prop, false, &t))
        }
        c => (Some(format!("the process was ended by {}", signal_name(c - 128))), String::new()),
    };
    let msg = msg.unwrap_or_default();
    let path = write_replay(prop, &Env { seed: 0, thorough: false }, &tape, &msg, &desc);
    println!("# {}", msg);
    println!("VIOLATION property={} replay={}", prop.id, path.display());
    1
}
