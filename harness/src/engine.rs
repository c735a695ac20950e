//! Monitored-execution engine: runs generated cases of the real code on worker threads, watches
//! panics, aborts, CPU time and memory, and writes evidence / replay files.
use crate::rng::{hash_str, mix, Rng};
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    fs,
    io::Write as _,
    os::unix::{fs::FileExt, process::ExitStatusExt},
    panic::{self, AssertUnwindSafe},
    path::{Path, PathBuf},
    process::Command,
    sync::{
        atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*},
        Mutex,
    },
    time::{Duration, Instant},
};

// ------------------------------------------------------------------ allocation monitor
pub struct CountingAlloc;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static WORKER: Cell<usize> = const { Cell::new(usize::MAX) };
}
static MEM_FLAG: AtomicI64 = AtomicI64::new(-1);
const MEM_LIMIT: i64 = 2 << 30;
static TOTAL_ALLOCS: AtomicU64 = AtomicU64::new(0);

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|v| {
            let n = v.get() + l.size() as i64;
            v.set(n);
            if n > MEM_LIMIT {
                let _ = WORKER.try_with(|w| {
                    if w.get() != usize::MAX {
                        MEM_FLAG.store(w.get() as i64, Relaxed)
                    }
                });
            }
        });
        let _ = ALLOCS.try_with(|v| v.set(v.get() + 1));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|v| v.set(v.get() - l.size() as i64));
        System.dealloc(p, l)
    }
}

// ------------------------------------------------------------------ case context
#[derive(Debug, Clone)]
pub struct Fail {
    /// stable signature: what kind of thing went wrong (used to match known findings)
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;

pub struct Ctx {
    pub rng: Rng,
    pub thorough: bool,
    counts: BTreeMap<&'static str, u64>,
    evals: u64,
    distinct: HashSet<u64>,
    trace: Option<Vec<String>>,
}
const DISTINCT_CAP: usize = 4_000_000;

impl Ctx {
    fn new(thorough: bool, trace: bool) -> Self {
        Ctx {
            rng: Rng::new(0),
            thorough,
            counts: BTreeMap::new(),
            evals: 0,
            distinct: HashSet::new(),
            trace: if trace { Some(vec![]) } else { None },
        }
    }
    pub fn tracing(&self) -> bool {
        self.trace.is_some()
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if let Some(t) = &mut self.trace {
            if t.len() < 400 {
                let mut s = f();
                if s.len() > 4000 {
                    clip(&mut s, 4000);
                    s.push_str("...");
                }
                t.push(s);
            }
        }
    }
    /// record that an event of this kind was observed
    pub fn seen(&mut self, kind: &'static str) {
        *self.counts.entry(kind).or_insert(0) += 1;
    }
    pub fn seen_n(&mut self, kind: &'static str, n: u64) {
        *self.counts.entry(kind).or_insert(0) += n;
    }
    /// record one oracle decision
    pub fn eval(&mut self, n: u64) {
        self.evals += n;
    }
    /// record a distinct non-trivial case by a textual / numeric key
    pub fn distinct<T: std::hash::Hash>(&mut self, key: T) {
        if self.distinct.len() < DISTINCT_CAP {
            use std::hash::Hasher;
            let mut h = Fnv(0xcbf2_9ce4_8422_2325);
            key.hash(&mut h);
            self.distinct.insert(mix(h.finish()));
        }
    }
    /// one oracle decision
    pub fn check<F: FnOnce() -> String>(&mut self, ok: bool, sig: &str, f: F) -> R {
        self.evals += 1;
        if ok {
            Ok(())
        } else {
            Err(Fail {
                sig: sig.to_string(),
                msg: f(),
            })
        }
    }
}
struct Fnv(u64);
impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &b in b {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $cond:expr, $sig:expr, $($arg:tt)*) => {{
        let cond = $cond;
        $c.check(cond, $sig, || format!($($arg)*))?
    }};
}

pub struct Group {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx, u64) -> R,
}
pub struct Prop {
    pub id: &'static str,
    pub groups: Vec<Group>,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// workloads that manage their own threads run on one worker
    pub single: bool,
}
impl Prop {
    pub fn new(id: &'static str, rule: &'static str, groups: Vec<Group>) -> Self {
        Prop {
            id,
            groups,
            rule,
            assumptions: &[],
            single: false,
        }
    }
}
/// How often the counts of a property's randomised workloads are repeated: chosen so that each check
/// spends some twenty seconds running on eight cores. Enumerations (quick == thorough) are not scaled.
fn scale(id: &str) -> u64 {
    match id {
        "C01" => 8,
        "C02" => 5,
        "C03" => 10,
        "C04" => 15,
        "C05" => 12,
        "C06" => 8,
        "C07" => 8,
        "C08" => 4,
        "C09" => 2,
        "C11" => 2,
        "C12" => 4,
        "C13" => 8,
        "C14" => 3,
        "C16" => 3,
        "C17" => 6,
        "C18" => 3,
        "C19" => 6,
        "C21" => 3,
        "C22" => 10,
        "C23" => 8,
        "C24" => 4,
        "C25" => 20,
        "C26" => 2,
        "C27" => 30,
        _ => 1,
    }
}
impl Group {
    fn cases(&self, id: &str, thorough: bool) -> u64 {
        if self.quick == self.thorough {
            return self.quick;
        }
        let (k, quick) = (scale(id), self.quick);
        if thorough {
            self.thorough.max(quick * k * 8)
        } else {
            quick * k
        }
    }
}
pub fn g(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Ctx, u64) -> R) -> Group {
    Group {
        name,
        quick,
        thorough,
        run,
    }
}

// ------------------------------------------------------------------ panics
thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} (at {})", msg, loc));
    }));
}
/// runs f; Err(message) if it panicked
pub fn catch<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

pub fn case_seed(seed: u64, group: &str, index: u64) -> u64 {
    mix(mix(seed) ^ hash_str(group) ^ mix(index.wrapping_mul(0x1234_5678_9ABC_DEF1)))
}

fn run_case(ctx: &mut Ctx, gr: &Group, seed: u64, index: u64) -> R {
    ctx.rng = Rng::new(case_seed(seed, gr.name, index));
    match catch(|| (gr.run)(ctx, index)) {
        Ok(r) => r,
        Err(m) => Err(Fail {
            sig: "panic".into(),
            msg: format!("panic while the property's preconditions hold: {}", m),
        }),
    }
}

// ------------------------------------------------------------------ reports
/// shorten at a character boundary
pub fn clip(s: &mut String, n: usize) {
    let mut k = n.min(s.len());
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    s.truncate(k);
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}
pub struct Settings {
    pub seed: u64,
    pub thorough: bool,
}
pub fn settings() -> Settings {
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|v| v.trim().parse::<i64>().ok())
        .unwrap_or(1) as u64;
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    Settings { seed, thorough }
}

#[derive(Default)]
struct Totals {
    evals: u64,
    cases: u64,
    counts: BTreeMap<&'static str, u64>,
    group_cases: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    samples: Vec<(String, Vec<String>)>,
    max_case_ms: f64,
    truncated: bool,
    allocs: u64,
}

fn write_evidence(p: &Prop, s: &Settings, t: &Totals, wall: f64, violations: u64, extra: &str) {
    let mut o = String::new();
    let tier = if s.thorough { "thorough" } else { "quick" };
    let _ = write!(
        o,
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n",
        jstr(p.id),
        tier,
        s.seed as i64
    );
    let _ = write!(o, " \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", t.evals, t.distinct.len(), jstr(p.rule));
    let _ = write!(o, "  \"cases_run\": {},\n  \"allocations_observed\": {},\n  \"max_case_cpu_ms\": {:.1},\n  \"truncated_by_wall_cap\": {},\n", t.cases, t.allocs, t.max_case_ms, t.truncated);
    o.push_str("  \"cases_per_workload\": {");
    o.push_str(
        &t.group_cases
            .iter()
            .map(|(k, v)| format!("{}: {}", jstr(k), v))
            .collect::<Vec<_>>()
            .join(", "),
    );
    o.push_str("},\n  \"events_observed\": {");
    o.push_str(
        &t.counts
            .iter()
            .map(|(k, v)| format!("{}: {}", jstr(k), v))
            .collect::<Vec<_>>()
            .join(", "),
    );
    o.push_str("},\n  \"samples\": [");
    o.push_str(
        &t.samples
            .iter()
            .map(|(k, v)| {
                format!(
                    "\n   {{\"case\": {}, \"trace\": [{}]}}",
                    jstr(k),
                    v.iter().map(|l| jstr(l)).collect::<Vec<_>>().join(", ")
                )
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("]\n },\n");
    let _ = write!(
        o,
        " \"assumptions\": [{}],\n",
        p.assumptions
            .iter()
            .chain(&["num-bigint, num-rational, num-integer and num-traits compute correctly", "the workload is a sample: nothing is claimed about inputs it did not generate"])
            .map(|l| jstr(l))
            .collect::<Vec<_>>()
            .join(", ")
    );
    let _ = write!(
        o,
        " \"wall_s\": {:.3},\n \"violations\": {}{}\n}}\n",
        wall, violations, extra
    );
    let dir = root().join("evidence");
    let _ = fs::create_dir_all(&dir);
    let tmp = dir.join(format!(".{}.tmp", p.id));
    if fs::write(&tmp, o).is_ok() {
        let _ = fs::rename(&tmp, dir.join(format!("{}.json", p.id)));
    }
}

struct KnownFinding {
    property: String,
    group: String,
    sig: String,
    what: String,
}
fn known_findings() -> Vec<KnownFinding> {
    // one finding per line: known: property=<id> group=<workload> sig=<signature> what=<text to end of line>
    let text = fs::read_to_string(root().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("known: ") {
            let get = |key: &str, to_end: bool| -> String {
                match rest.find(&format!("{}=", key)) {
                    Some(i) => {
                        let t = &rest[i + key.len() + 1..];
                        if to_end {
                            t.to_string()
                        } else {
                            t.split_whitespace().next().unwrap_or("").to_string()
                        }
                    }
                    None => String::new(),
                }
            };
            v.push(KnownFinding {
                property: get("property", false),
                group: get("group", false),
                sig: get("sig", false),
                what: get("what", true),
            });
        }
    }
    v
}

fn write_replay(p: &Prop, s: &Settings, group: &str, index: u64, f: &Fail, trace: &[String]) -> PathBuf {
    let dir = root().join("replays");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.txt", p.id, group, index));
    let mut o = String::new();
    let _ = write!(
        o,
        "property: {}\ngroup: {}\nindex: {}\nseed: {}\ntier: {}\nsignature: {}\n\n# replay: bash /verif/check.sh {} --replay {}\n\nviolation: {}\n\ntrace:\n",
        p.id,
        group,
        index,
        s.seed as i64,
        if s.thorough { "thorough" } else { "quick" },
        f.sig,
        p.id,
        path.display(),
        f.msg
    );
    for l in trace {
        o.push_str("  ");
        o.push_str(l);
        o.push('\n');
    }
    let _ = fs::write(&path, o);
    path
}

fn report(p: &Prop, s: &Settings, group: &str, index: u64, f: &Fail, trace: &[String]) {
    let path = write_replay(p, s, group, index, f, trace);
    for l in trace.iter().take(40) {
        eprintln!("  {}", l);
    }
    let mut m = f.msg.clone();
    if m.len() > 3000 {
        clip(&mut m, 3000);
    }
    eprintln!("[{}] workload {} case {}: {}: {}", p.id, group, index, f.sig, m);
    println!("VIOLATION property={} replay={}", p.id, path.display());
    let _ = std::io::stdout().flush();
}

// ------------------------------------------------------------------ child: run all cases
struct Slot {
    seq: AtomicU64,
    busy: AtomicBool,
    tid: AtomicI64,
    group: AtomicUsize,
    index: AtomicU64,
}

fn gettid() -> i64 {
    // /proc/thread-self -> <pid>/task/<tid>
    fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|s| s.to_string_lossy().into_owned()))
        .and_then(|s| s.parse().ok())
        .unwrap_or(-1)
}
/// CPU time (not wall time) consumed by a thread of this process, in seconds
fn thread_cpu(tid: i64) -> Option<f64> {
    let s = fs::read_to_string(format!("/proc/self/task/{}/schedstat", tid)).ok();
    if let Some(ns) = s.and_then(|s| s.split_whitespace().next().and_then(|v| v.parse::<f64>().ok())) {
        if ns > 0.0 {
            return Some(ns / 1e9);
        }
    }
    let s = fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split_whitespace().collect();
    let u: f64 = f.get(11)?.parse().ok()?;
    let k: f64 = f.get(12)?.parse().ok()?;
    Some((u + k) / 100.0)
}

pub fn workers() -> usize {
    std::env::var("VERIF_JOBS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
        .clamp(1, 16)
}

/// CPU seconds one case may use before it counts as not terminating. On the unchanged tree the slowest
/// case uses about a second; this is CPU time of the worker thread, so machine load does not count.
const CASE_CPU_LIMIT: f64 = 75.0;

pub fn child(p: &Prop, journal: Option<&str>, only: Option<(String, u64, u64)>) -> i32 {
    let s = settings();
    let start = Instant::now();
    let wall_cap = Duration::from_secs(if s.thorough { 3000 } else { 330 });
    let nworkers = if p.single || only.is_some() { 1 } else { workers() };
    let journal = journal.map(|j| fs::OpenOptions::new().create(true).write(true).open(j).expect("journal"));
    // chunk list, round-robin over groups so that every workload progresses
    let mut chunks: Vec<(usize, u64, u64)> = vec![];
    {
        let mut per: Vec<Vec<(usize, u64, u64)>> = vec![];
        for (gi, gr) in p.groups.iter().enumerate() {
            let mut v = vec![];
            match &only {
                Some((name, a, b)) => {
                    if name == gr.name {
                        for i in *a..*b {
                            v.push((gi, i, i + 1));
                        }
                    }
                }
                None => {
                    let n = gr.cases(p.id, s.thorough);
                    let size = (n / 200).clamp(1, 512);
                    let mut i = 0;
                    while i < n {
                        let e = (i + size).min(n);
                        v.push((gi, i, e));
                        i = e;
                    }
                }
            }
            v.reverse();
            per.push(v);
        }
        let maxlen = per.iter().map(|v| v.len()).max().unwrap_or(0).max(1);
        let mut acc: Vec<f64> = vec![0.0; per.len()];
        let rates: Vec<f64> = per.iter().map(|v| v.len() as f64 / maxlen as f64).collect();
        while per.iter().any(|v| !v.is_empty()) {
            for i in 0..per.len() {
                acc[i] += rates[i];
                while acc[i] >= 1.0 - 1e-9 {
                    acc[i] -= 1.0;
                    match per[i].pop() {
                        Some(c) => chunks.push(c),
                        None => break,
                    }
                }
            }
        }
    }
    let known = known_findings();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let totals = Mutex::new(Totals::default());
    let failure: Mutex<Option<(usize, u64, Fail, Vec<String>)>> = Mutex::new(None);
    let known_seen: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());
    let sampled: Vec<AtomicUsize> = p.groups.iter().map(|_| AtomicUsize::new(0)).collect();
    let slots: Vec<Slot> = (0..nworkers)
        .map(|_| Slot {
            seq: AtomicU64::new(0),
            busy: AtomicBool::new(false),
            tid: AtomicI64::new(-1),
            group: AtomicUsize::new(0),
            index: AtomicU64::new(0),
        })
        .collect();
    std::thread::scope(|scope| {
        let mut handles = vec![];
        for w in 0..nworkers {
            let (chunks, next, stop, totals, failure, slots, sampled, known, known_seen, journal, s) = (
                &chunks, &next, &stop, &totals, &failure, &slots, &sampled, &known, &known_seen, &journal, &s,
            );
            let h = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(scope, move || {
                    WORKER.with(|v| v.set(w));
                    let slot = &slots[w];
                    slot.tid.store(gettid(), SeqCst);
                    let mut ctx = Ctx::new(s.thorough, false);
                    let mut cases = 0u64;
                    let mut group_cases: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let mut max_ms = 0f64;
                    let mut truncated = false;
                    'outer: loop {
                        if stop.load(Relaxed) {
                            break;
                        }
                        if start.elapsed() > wall_cap {
                            truncated = true;
                            break;
                        }
                        let i = next.fetch_add(1, Relaxed);
                        let Some(&(gi, a, b)) = chunks.get(i) else { break };
                        let gr = &p.groups[gi];
                        if let Some(j) = journal {
                            let mut line = format!("{} {} {}", gr.name, a, b).into_bytes();
                            line.resize(127, b' ');
                            line.push(b'\n');
                            let _ = j.write_at(&line, (w * 128) as u64);
                        }
                        for index in a..b {
                            slot.group.store(gi, Relaxed);
                            slot.index.store(index, Relaxed);
                            slot.seq.fetch_add(1, SeqCst);
                            slot.busy.store(true, SeqCst);
                            let t0 = Instant::now();
                            LIVE.with(|v| v.set(0));
                            let mut r = run_case(&mut ctx, gr, s.seed, index);
                            let ms = t0.elapsed().as_secs_f64() * 1e3;
                            if std::env::var_os("VERIF_SLOW").is_some() && ms > 1000.0 {
                                eprintln!("slow: {} {} {:.0} ms", gr.name, index, ms);
                            }
                            if ms > max_ms {
                                max_ms = ms;
                            }
                            cases += 1;
                            *group_cases.entry(gr.name).or_insert(0) += 1;
                            if let Err(f) = &r {
                                if let Some(k) = known
                                    .iter()
                                    .find(|k| k.property == p.id && k.group == gr.name && k.sig == f.sig)
                                {
                                    known_seen
                                        .lock()
                                        .unwrap()
                                        .insert(format!("{} {}", k.group, k.sig), k.what.clone());
                                    r = Ok(());
                                }
                            }
                            if let Err(f) = r {
                                // run again with the trace on, for the witness
                                let mut c2 = Ctx::new(s.thorough, true);
                                let (f2, again) = match run_case(&mut c2, gr, s.seed, index) {
                                    Err(f2) => (f2, true),
                                    Ok(()) => (f, false),
                                };
                                let mut tr = c2.trace.take().unwrap_or_default();
                                if !again {
                                    tr.push("(the violation did not recur when the case was run again alone: it depends on history or schedule)".into());
                                }
                                let mut fl = failure.lock().unwrap();
                                if fl.is_none() {
                                    *fl = Some((gi, index, f2, tr));
                                }
                                stop.store(true, SeqCst);
                                slot.busy.store(false, SeqCst);
                                break 'outer;
                            }
                            slot.busy.store(false, SeqCst);
                            // keep a written-out sample of the first cases of each workload
                            if sampled[gi].load(Relaxed) < 1 && index % 7 == 3.min(b - 1) % 7 && sampled[gi].fetch_add(1, Relaxed) < 1 {
                                let mut c2 = Ctx::new(s.thorough, true);
                                slot.seq.fetch_add(1, SeqCst);
                                slot.busy.store(true, SeqCst);
                                let _ = run_case(&mut c2, gr, s.seed, index);
                                slot.busy.store(false, SeqCst);
                                let mut tr = c2.trace.take().unwrap_or_default();
                                tr.truncate(6);
                                for l in &mut tr {
                                    if l.len() > 500 {
                                        let mut k = 500;
                                        while !l.is_char_boundary(k) {
                                            k -= 1;
                                        }
                                        l.truncate(k);
                                        l.push_str("...");
                                    }
                                }
                                totals.lock().unwrap().samples.push((format!("{}#{}", gr.name, index), tr));
                            }
                        }
                    }
                    let mut t = totals.lock().unwrap();
                    t.evals += ctx.evals;
                    t.cases += cases;
                    for (k, v) in &ctx.counts {
                        *t.counts.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in &group_cases {
                        *t.group_cases.entry(k).or_insert(0) += v;
                    }
                    t.distinct.extend(ctx.distinct.iter());
                    t.max_case_ms = t.max_case_ms.max(max_ms);
                    t.truncated |= truncated;
                    let a = ALLOCS.with(|v| v.get());
                    t.allocs += a;
                    TOTAL_ALLOCS.fetch_add(a, Relaxed);
                })
                .expect("spawn");
            handles.push(h);
        }
        // monitor thread: CPU and memory budgets of the case each worker is in
        let (slots, done, s) = (&slots, &done, &s);
        let mon = scope.spawn(move || {
            let mut last: Vec<(u64, f64)> = vec![(0, 0.0); slots.len()];
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(50));
                let mf = MEM_FLAG.load(Relaxed);
                for (w, slot) in slots.iter().enumerate() {
                    let seq = slot.seq.load(SeqCst);
                    if !slot.busy.load(SeqCst) {
                        last[w].0 = 0;
                        continue;
                    }
                    let mem = mf == w as i64;
                    let over = if seq != last[w].0 {
                        let cpu = thread_cpu(slot.tid.load(SeqCst)).unwrap_or(0.0);
                        last[w] = (seq, cpu);
                        false
                    } else if !p.single {
                        let cpu = thread_cpu(slot.tid.load(SeqCst)).unwrap_or(0.0);
                        cpu - last[w].1 > CASE_CPU_LIMIT
                    } else {
                        false
                    };
                    if (over || mem) && slot.busy.load(SeqCst) && slot.seq.load(SeqCst) == seq {
                        let gi = slot.group.load(SeqCst);
                        let index = slot.index.load(SeqCst);
                        let f = if mem {
                            Fail {
                                sig: "unbounded-memory".into(),
                                msg: format!("the operations of this case hold more than {} bytes; the unchanged code needs a few MB", MEM_LIMIT),
                            }
                        } else {
                            Fail {
                                sig: "no-result".into(),
                                msg: format!("the operations of this case gave no result within {} s of CPU time", CASE_CPU_LIMIT),
                            }
                        };
                        report(p, s, p.groups[gi].name, index, &f, &[]);
                        let mut t = Totals::default();
                        t.cases = index;
                        write_evidence(p, s, &t, start.elapsed().as_secs_f64(), 1, "");
                        std::process::exit(1);
                    }
                }
            }
        });
        for h in handles {
            let _ = h.join();
        }
        done.store(true, SeqCst);
        let _ = mon.join();
    });
    let t = totals.into_inner().unwrap();
    let fl = failure.into_inner().unwrap();
    let wall = start.elapsed().as_secs_f64();
    let known_seen = known_seen.into_inner().unwrap();
    for (k, what) in &known_seen {
        println!("KNOWN-FINDING: property={} {} ({})", p.id, what, k);
    }
    let extra = if known_seen.is_empty() {
        String::new()
    } else {
        format!(",\n \"known_findings_seen\": {}", known_seen.len())
    };
    write_evidence(p, &s, &t, wall, fl.is_some() as u64, &extra);
    match fl {
        Some((gi, index, f, tr)) => {
            report(p, &s, p.groups[gi].name, index, &f, &tr);
            1
        }
        None => {
            if only.is_none() && (t.evals == 0 || t.distinct.is_empty()) {
                eprintln!("[{}] inconclusive: nothing was observed", p.id);
                return 3;
            }
            println!(
                "[{}] held on {} oracle decisions over {} cases ({} distinct non-trivial){} in {:.1} s; slowest case {:.0} ms",
                p.id,
                t.evals,
                t.cases,
                t.distinct.len(),
                if t.truncated { ", truncated by the wall cap" } else { "" },
                wall,
                t.max_case_ms
            );
            0
        }
    }
}

// ------------------------------------------------------------------ parent: survive aborts of the child
pub fn parent(p: &Prop) -> i32 {
    let exe = std::env::current_exe().expect("current_exe");
    let dir = root().join("build").join("journal");
    let _ = fs::create_dir_all(&dir);
    let jpath = dir.join(format!("{}-{}", p.id, std::process::id()));
    let _ = fs::remove_file(&jpath);
    let start = Instant::now();
    let st = Command::new(&exe).arg("child").arg(p.id).arg(&jpath).status();
    let code = match st {
        Ok(st) => match (st.code(), st.signal()) {
            (Some(c), _) => c,
            (None, Some(sig)) => {
                eprintln!("[{}] the monitored process died of signal {}", p.id, sig);
                if sig == 9 {
                    3 // killed from outside (memory, operator): inconclusive
                } else {
                    confirm_crash(p, &exe, &jpath, start)
                }
            }
            _ => 3,
        },
        Err(e) => {
            eprintln!("cannot start the monitored process: {}", e);
            3
        }
    };
    let _ = fs::remove_file(&jpath);
    code
}

/// the child died of SIGSEGV/SIGABRT/...: run the chunks that were in flight one case at a time in
/// processes of their own; a case that dies again is the witness.
fn confirm_crash(p: &Prop, exe: &Path, jpath: &Path, start: Instant) -> i32 {
    let s = settings();
    let text = fs::read_to_string(jpath).unwrap_or_default();
    for line in text.lines() {
        let f: Vec<&str> = line.split_whitespace().collect();
        if f.len() != 3 {
            continue;
        }
        let (a, b): (u64, u64) = match (f[1].parse(), f[2].parse()) {
            (Ok(a), Ok(b)) => (a, b),
            _ => continue,
        };
        let run = |a: u64, b: u64| {
            Command::new(exe)
                .args(["only", p.id, f[0], &a.to_string(), &b.to_string()])
                .status()
                .ok()
                .and_then(|st| st.signal())
        };
        if run(a, b).map_or(true, |s| s == 9) {
            continue;
        }
        for i in a..b {
            if start.elapsed() > Duration::from_secs(600) {
                return 3;
            }
            if let Some(sig) = run(i, i + 1) {
                if sig != 9 {
                    let fail = Fail {
                        sig: "crash".into(),
                        msg: format!("the process running this case dies of signal {} (stack overflow or abort), repeatably", sig),
                    };
                    report(p, &s, f[0], i, &fail, &[]);
                    let t = Totals { cases: i, ..Default::default() };
                    write_evidence(p, &s, &t, start.elapsed().as_secs_f64(), 1, "");
                    return 1;
                }
            }
        }
    }
    3
}

pub fn replay(p: &Prop, file: &str) -> i32 {
    let text = fs::read_to_string(file).expect("replay file");
    let get = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(&format!("{}: ", k)).map(|v| v.trim().to_string()))
            .unwrap_or_default()
    };
    let group = get("group");
    let index: u64 = get("index").parse().expect("index");
    let seed = get("seed").parse::<i64>().expect("seed") as u64;
    let gr = p.groups.iter().find(|g| g.name == group).expect("group");
    let mut c = Ctx::new(get("tier") == "thorough", true);
    let r = run_case(&mut c, gr, seed, index);
    for l in c.trace.take().unwrap_or_default() {
        println!("  {}", l);
    }
    match r {
        Ok(()) => {
            println!("replay: property {} holds on this case", p.id);
            0
        }
        Err(f) => {
            println!("replay: {}: {}", f.sig, f.msg);
            println!("VIOLATION property={} replay={}", p.id, file);
            1
        }
    }
}
