//! Bounded exhaustive exploration engine.
//!
//! A check is a list of *sections*.  A section is a finite, index-coded space of cases
//! (`0..size`): an input, a configuration, or a whole operation history written in mixed radix.
//! Every index is executed against the real crate (no sampling, no early cut-off except on a
//! violation); the case closure runs the oracle and returns `Err` on a violation.
//! A case is therefore replayable from `(section, index)` alone.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub type Res = Result<(), String>;

/// Per-case recorder.
pub struct T {
    pub ops: u64,
    pub checks: u64,
    pub vacuous: bool,
    want_note: bool,
    pub notes: Vec<String>,
    out: u64,
    has_out: bool,
}
impl T {
    fn new(want_note: bool) -> T {
        T {
            ops: 0,
            checks: 0,
            vacuous: false,
            want_note,
            notes: Vec::new(),
            out: 0xcbf29ce484222325,
            has_out: false,
        }
    }
    /// Count `n` calls into the implementation.
    #[inline]
    pub fn ops(&mut self, n: u64) {
        self.ops += n;
    }
    /// Record an observed outcome value (for counting distinct outcomes).
    #[inline]
    pub fn out(&mut self, v: u64) {
        self.has_out = true;
        self.out = (self.out ^ v).wrapping_mul(0x100000001b3).rotate_left(23);
    }
    #[inline]
    pub fn out_f(&mut self, v: f64) {
        self.out(v.to_bits())
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_note {
            self.notes.push(f());
        }
    }
    /// The precondition of the property is not met by this case.
    pub fn vacuous(&mut self) -> Res {
        self.vacuous = true;
        Ok(())
    }
}

#[macro_export]
macro_rules! ensure {
    ($t:expr, $c:expr, $($arg:tt)*) => {{
        $t.checks += 1;
        if !($c) { return Err(format!($($arg)*)); }
    }};
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub section: String,
    pub index: u64,
    pub message: String,
    pub notes: Vec<String>,
}

pub struct Section {
    pub name: String,
    pub what: String,
    pub size: u64,
    pub explored: u64,
    pub vacuous: u64,
    pub ops: u64,
    pub checks: u64,
    pub distinct: u64,
    pub distinct_capped: bool,
    pub samples: Vec<String>,
    pub wall: f64,
    pub complete: bool,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: i64,
    pub replay: Option<(String, u64)>,
    pub verif: String,
    pub threads: usize,
    pub sections: Vec<Section>,
    pub violations: Vec<Violation>,
    pub known_hits: Vec<String>,
    pub assumptions: Vec<String>,
    known: Vec<(String, u64, String)>,
    start: Instant,
    slots: Arc<Vec<Slot>>,
    cur_section: Arc<Mutex<String>>,
}

pub struct Slot {
    started_ms: AtomicU64, // 0 = idle
    index: AtomicU64,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

const CASE_LIMIT_MS: u64 = 30_000;
const RSS_LIMIT_KB: u64 = 20 * 1024 * 1024;
const DISTINCT_CAP: usize = 60_000;

fn rss_kb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("VmRSS:") {
            return r.trim().trim_end_matches("kB").trim().parse().unwrap_or(0);
        }
    }
    0
}

impl Ctx {
    pub fn new(id: &str, tier: Tier, replay: Option<(String, u64)>) -> Ctx {
        std::panic::set_hook(Box::new(|info| {
            let msg = payload_str(info.payload());
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
        }));
        let threads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16));
        let slots: Arc<Vec<Slot>> = Arc::new(
            (0..threads)
                .map(|_| Slot { started_ms: AtomicU64::new(0), index: AtomicU64::new(0) })
                .collect(),
        );
        let verif = std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into());
        let known = load_known(&verif, id);
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let ctx = Ctx {
            id: id.to_string(),
            tier,
            seed,
            replay,
            verif: verif.clone(),
            threads,
            sections: Vec::new(),
            violations: Vec::new(),
            known_hits: Vec::new(),
            assumptions: Vec::new(),
            known,
            start: Instant::now(),
            slots: slots.clone(),
            cur_section: Arc::new(Mutex::new(String::new())),
        };
        // Watchdog: a case that does not come back is a violation (the library is total), not a hang.
        let (slots, cur, start, id, tier) =
            (slots, ctx.cur_section.clone(), ctx.start, ctx.id.clone(), ctx.tier);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(300));
            let now = start.elapsed().as_millis() as u64 + 1;
            let over_rss = rss_kb() > RSS_LIMIT_KB;
            let mut worst: Option<(u64, u64)> = None;
            for s in slots.iter() {
                let b = s.started_ms.load(Ordering::Relaxed);
                if b != 0 {
                    let d = now.saturating_sub(b);
                    if worst.map_or(true, |w| d > w.0) {
                        worst = Some((d, s.index.load(Ordering::Relaxed)));
                    }
                }
            }
            if let Some((d, idx)) = worst {
                if d > CASE_LIMIT_MS || (over_rss && d > 3_000) {
                    let sec = cur.lock().unwrap().clone();
                    let msg = if over_rss {
                        format!("a single case exceeded {} MB of memory", RSS_LIMIT_KB / 1024)
                    } else {
                        format!("a single case did not terminate within {} ms", CASE_LIMIT_MS)
                    };
                    let v = Violation { section: sec, index: idx, message: msg, notes: vec![] };
                    let path = write_replay(&verif, &id, tier, &v);
                    let ev = format!(
                        "{{\"property\":{},\"tier\":{},\"seed\":1,\"level\":\"model_checking\",\"coverage\":{{\"states\":0,\"transitions\":0,\"traces_validated_against_impl\":0,\"samples\":[{}]}},\"wall_s\":{:.3},\"violations\":1}}",
                        js(&id), js(tier_name(tier)), js(&v.message), start.elapsed().as_secs_f64()
                    );
                    let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
                    let _ = std::fs::write(format!("{}/evidence/{}.json", verif, id), ev);
                    println!("section={} index={}: {}", v.section, v.index, v.message);
                    println!("VIOLATION property={} replay={}", id, path);
                    std::process::exit(1);
                }
            }
        });
        ctx
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn pick(&self, q: u64, t: u64) -> u64 {
        if self.quick() { q } else { t }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    fn is_known(&self, section: &str, index: u64) -> Option<&str> {
        self.known
            .iter()
            .find(|k| k.0 == section && k.1 == index)
            .map(|k| k.2.as_str())
    }

    pub fn setup_failed(&mut self, m: String) {
        self.violations.push(Violation { section: "setup".into(), index: 0, message: m, notes: vec![] });
    }

    /// Explore every case of an index-coded space, in parallel.
    pub fn space<F>(&mut self, name: &str, what: &str, size: u64, f: F)
    where
        F: Fn(u64, &mut T) -> Res + Sync,
    {
        *self.cur_section.lock().unwrap() = name.to_string();
        let t0 = Instant::now();
        if let Some((sec, idx)) = &self.replay {
            if sec != name {
                return;
            }
            let mut t = T::new(true);
            let r = run_case(&f, *idx, &mut t);
            for n in &t.notes {
                println!("  {}", n);
            }
            match r {
                Ok(()) => println!("REPLAY {}#{}: holds", name, idx),
                Err(m) => {
                    println!("REPLAY {}#{}: {}", name, idx, m);
                    self.violations.push(Violation {
                        section: name.into(),
                        index: *idx,
                        message: m,
                        notes: t.notes,
                    });
                }
            }
            return;
        }
        let chunk = (size / (self.threads as u64 * 64)).clamp(1, 8192);
        let next = AtomicU64::new(0);
        let stop_above = AtomicU64::new(u64::MAX);
        let aborted = AtomicBool::new(false);
        let ndone = AtomicUsize::new(0);
        struct Part {
            explored: u64,
            vacuous: u64,
            ops: u64,
            checks: u64,
            distinct: HashSet<u64>,
            capped: bool,
            viol: Vec<Violation>,
        }
        let sample_at: Vec<u64> = if size == 0 {
            vec![]
        } else {
            let mut v = vec![0, size / 3, (size / 3) * 2 + (size > 2) as u64, size - 1];
            v.dedup();
            v
        };
        let start = self.start;
        let slots = self.slots.clone();
        let mut parts: Vec<Part> = Vec::new();
        let known_idx: HashSet<u64> =
            self.known.iter().filter(|k| k.0 == name).map(|k| k.1).collect();
        std::thread::scope(|s| {
            let mut hs = Vec::new();
            for w in 0..self.threads {
                let (next, stop_above, f, slots, known_idx, aborted, ndone) =
                    (&next, &stop_above, &f, &slots, &known_idx, &aborted, &ndone);
                hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                    let mut p = Part {
                        explored: 0,
                        vacuous: 0,
                        ops: 0,
                        checks: 0,
                        distinct: HashSet::new(),
                        capped: false,
                        viol: vec![],
                    };
                    loop {
                        let lo = next.fetch_add(chunk, Ordering::Relaxed);
                        if lo >= size {
                            break;
                        }
                        if lo > stop_above.load(Ordering::Relaxed) {
                            aborted.store(true, Ordering::Relaxed);
                            break;
                        }
                        for i in lo..(lo + chunk).min(size) {
                            slots[w].index.store(i, Ordering::Relaxed);
                            slots[w]
                                .started_ms
                                .store(start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                            let mut t = T::new(false);
                            let r = run_case(f, i, &mut t);
                            p.explored += 1;
                            p.ops += t.ops;
                            p.checks += t.checks;
                            if t.vacuous {
                                p.vacuous += 1;
                            }
                            if t.has_out && !p.capped {
                                p.distinct.insert(t.out);
                                if p.distinct.len() >= DISTINCT_CAP {
                                    p.capped = true;
                                }
                            }
                            if let Err(m) = r {
                                let mut t2 = T::new(true);
                                let _ = run_case(f, i, &mut t2);
                                if !known_idx.contains(&i) {
                                    stop_above.fetch_min(i, Ordering::Relaxed);
                                }
                                if p.viol.len() < 64 || known_idx.contains(&i) {
                                    p.viol.push(Violation {
                                        section: name.into(),
                                        index: i,
                                        message: m,
                                        notes: t2.notes,
                                    });
                                }
                            }
                        }
                        slots[w].started_ms.store(0, Ordering::Relaxed);
                    }
                    slots[w].started_ms.store(0, Ordering::Relaxed);
                    ndone.fetch_add(1, Ordering::Relaxed);
                    p
                }).expect("spawn"));
            }
            for h in hs {
                parts.push(h.join().expect("worker"));
            }
        });
        let mut sec = Section {
            name: name.into(),
            what: what.into(),
            size,
            explored: 0,
            vacuous: 0,
            ops: 0,
            checks: 0,
            distinct: 0,
            distinct_capped: false,
            samples: vec![],
            wall: 0.0,
            complete: !aborted.load(Ordering::Relaxed),
        };
        let mut all: HashSet<u64> = HashSet::new();
        let mut viol: Vec<Violation> = Vec::new();
        for p in parts {
            sec.explored += p.explored;
            sec.vacuous += p.vacuous;
            sec.ops += p.ops;
            sec.checks += p.checks;
            sec.distinct_capped |= p.capped;
            all.extend(p.distinct);
            viol.extend(p.viol);
        }
        sec.distinct = all.len() as u64;
        for i in sample_at {
            let mut t = T::new(true);
            let _ = run_case(&f, i, &mut t);
            let mut s = format!("{}#{}", name, i);
            for n in t.notes.iter().take(4) {
                let _ = write!(s, " | {}", n);
            }
            sec.samples.push(s);
        }
        sec.wall = t0.elapsed().as_secs_f64();
        viol.sort_by_key(|v| v.index);
        for v in viol {
            if let Some(k) = self.is_known(&v.section, v.index) {
                self.known_hits.push(format!("{}#{} {}", v.section, v.index, k));
            } else {
                self.violations.push(v);
            }
        }
        println!(
            "  [{}] {}: {} cases, {} impl calls, {} oracle checks, {} vacuous, distinct outcomes {}{}, {:.2}s",
            self.id,
            sec.name,
            sec.explored,
            sec.ops,
            sec.checks,
            sec.vacuous,
            if sec.distinct_capped { ">=" } else { "" },
            sec.distinct,
            sec.wall
        );
        self.sections.push(sec);
    }

    /// Explicit-state breadth-first search.  `init` and `step` return canonical keys of real states;
    /// `step(state, op)` executes the real transition and checks the invariant.
    pub fn bfs<S, F>(&mut self, name: &str, what: &str, init: Vec<S>, nops: u64, depth: u32, max_states: usize, step: F)
    where
        S: Clone + Hash + Eq + Send + Sync + std::fmt::Debug,
        F: Fn(&S, u64, &mut T) -> Result<Option<S>, String> + Sync,
    {
        let mut seen: HashSet<S> = init.iter().cloned().collect();
        let mut frontier: Vec<S> = init;
        let mut level = 0;
        while !frontier.is_empty() && level < depth {
            let out: Mutex<BTreeMap<u64, S>> = Mutex::new(BTreeMap::new());
            let fr = &frontier;
            let nm = format!("{}@{}", name, level);
            let before = self.violations.len();
            self.space(&nm, what, fr.len() as u64 * nops, |i, t| {
                let s = &fr[(i / nops) as usize];
                if let Some(n) = step(s, i % nops, t)? {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    n.hash(&mut h);
                    t.out(h.finish());
                    out.lock().unwrap().insert(i, n);
                }
                Ok(())
            });
            if self.replay.is_some() {
                // the frontier of later levels needs the earlier ones: recompute without checks
                for i in 0..fr.len() as u64 * nops {
                    let mut t = T::new(false);
                    if let Ok(Some(n)) = step(&fr[(i / nops) as usize], i % nops, &mut t) {
                        out.lock().unwrap().insert(i, n);
                    }
                }
            }
            if self.violations.len() > before {
                break;
            }
            let mut nextf = Vec::new();
            for (_, n) in out.into_inner().unwrap() {
                if seen.len() < max_states && seen.insert(n.clone()) {
                    nextf.push(n);
                }
            }
            frontier = nextf;
            level += 1;
        }
        if !frontier.is_empty() && level < depth {
            self.assume(&format!("{}: search stopped at level {}", name, level));
        }
        println!("  [{}] {}: {} distinct states after {} levels", self.id, name, seen.len(), level);
    }

    /// Write evidence, print the verdict, return the exit code.
    pub fn finish(mut self) -> i32 {
        if self.replay.is_some() {
            return if self.violations.is_empty() { 0 } else { 1 };
        }
        self.violations.sort_by_key(|v| v.index);
        let states: u64 = self.sections.iter().map(|s| s.explored).sum();
        let trans: u64 = self.sections.iter().map(|s| s.ops).sum();
        let checks: u64 = self.sections.iter().map(|s| s.checks).sum();
        let vac: u64 = self.sections.iter().map(|s| s.vacuous).sum();
        let wall = self.start.elapsed().as_secs_f64();
        let complete = self.sections.iter().all(|s| s.complete && s.explored == s.size);
        let mut e = String::new();
        let _ = write!(
            e,
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"oracle_assertions\": {},\n  \"vacuous_cases\": {},\n  \"exhaustive\": {},\n  \"rule\": \"states = cases of the index-coded spaces below, every one executed; transitions = calls into the real crate; traces_validated_against_impl = complete non-vacuous executions of the real crate judged by the oracle\",\n  \"sections\": [\n",
            js(&self.id), js(tier_name(self.tier)), self.seed, states, trans, states - vac, checks, vac, complete
        );
        for (i, s) in self.sections.iter().enumerate() {
            let _ = write!(
                e,
                "   {{\"name\": {}, \"what\": {}, \"size\": {}, \"explored\": {}, \"vacuous\": {}, \"impl_calls\": {}, \"oracle_assertions\": {}, \"distinct_outcomes\": {}, \"distinct_outcomes_is_lower_bound\": {}, \"wall_s\": {:.3}}}{}\n",
                js(&s.name), js(&s.what), s.size, s.explored, s.vacuous, s.ops, s.checks, s.distinct, s.distinct_capped, s.wall,
                if i + 1 < self.sections.len() { "," } else { "" }
            );
        }
        let samples: Vec<String> =
            self.sections.iter().flat_map(|s| s.samples.iter()).take(40).map(|s| js(s)).collect();
        let _ = write!(e, "  ],\n  \"samples\": [\n   {}\n  ]\n }},\n", samples.join(",\n   "));
        let asm: Vec<String> = self.assumptions.iter().map(|s| js(s)).collect();
        let _ = write!(
            e,
            " \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            asm.join(", "),
            wall,
            self.violations.len()
        );
        let _ = std::fs::create_dir_all(format!("{}/evidence", self.verif));
        if let Err(err) = std::fs::write(format!("{}/evidence/{}.json", self.verif, self.id), e) {
            eprintln!("cannot write evidence: {}", err);
            return 3;
        }
        for k in &self.known_hits {
            println!("KNOWN-FINDING: property={} {}", self.id, k);
        }
        println!(
            "{} {}: states={} transitions={} oracle_assertions={} vacuous={} wall={:.1}s",
            self.id, tier_name(self.tier), states, trans, checks, vac, wall
        );
        if self.violations.is_empty() && (states == 0 || checks == 0) {
            eprintln!("nothing explored: the check is broken");
            return 3;
        }
        if let Some(v) = self.violations.first() {
            for v in self.violations.iter().take(5) {
                println!("section={} index={}: {}", v.section, v.index, v.message);
                for n in v.notes.iter().take(8) {
                    println!("    {}", n);
                }
            }
            let path = write_replay(&self.verif, &self.id, self.tier, v);
            println!("VIOLATION property={} replay={}", self.id, path);
            return 1;
        }
        0
    }
}

fn run_case<F>(f: &F, i: u64, t: &mut T) -> Res
where
    F: Fn(u64, &mut T) -> Res,
{
    match catch_unwind(AssertUnwindSafe(|| f(i, t))) {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

/// Run `f`, turning a panic of the code under test into an error value.
pub fn guarded<R, F: FnOnce() -> R>(f: F) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

pub fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

fn write_replay(verif: &str, id: &str, tier: Tier, v: &Violation) -> String {
    let dir = format!("{}/evidence/replay", verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.txt", dir, id);
    let mut s = format!(
        "property={}\ntier={}\nsection={}\nindex={}\nmessage={}\n",
        id,
        tier_name(tier),
        v.section,
        v.index,
        v.message.replace('\n', " ")
    );
    for n in &v.notes {
        s.push_str(&format!("note={}\n", n.replace('\n', " ")));
    }
    s.push_str(&format!("# replay: bash {}/run.sh {} replay {}\n", verif, id, path));
    let _ = std::fs::write(&path, s);
    path
}

pub fn read_replay(path: &str) -> Option<(Tier, (String, u64))> {
    let s = std::fs::read_to_string(path).ok()?;
    let mut sec = None;
    let mut idx = None;
    for l in s.lines() {
        if let Some(x) = l.strip_prefix("section=") {
            sec = Some(x.to_string());
        }
        if let Some(x) = l.strip_prefix("index=") {
            idx = x.parse().ok();
        }
    }
    let tier = if s.lines().any(|l| l == "tier=quick") { Tier::Quick } else { Tier::Thorough };
    Some((tier, (sec?, idx?)))
}

/// known_findings.txt: `known: property=<id> section=<name> index=<n> <what fails>`
fn load_known(verif: &str, id: &str) -> Vec<(String, u64, String)> {
    let mut v = Vec::new();
    let s = std::fs::read_to_string(format!("{}/known_findings.txt", verif)).unwrap_or_default();
    for l in s.lines() {
        let Some(rest) = l.trim().strip_prefix("known: ") else { continue };
        let mut it = rest.splitn(4, ' ');
        let (Some(p), Some(sec), Some(ix)) = (it.next(), it.next(), it.next()) else { continue };
        let what = it.next().unwrap_or("").to_string();
        if p.strip_prefix("property=") != Some(id) {
            continue;
        }
        if let (Some(sec), Some(Ok(ix))) =
            (sec.strip_prefix("section="), ix.strip_prefix("index=").map(|x| x.parse::<u64>()))
        {
            v.push((sec.to_string(), ix, what));
        }
    }
    v
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Decode a mixed-radix index into digits (least significant first).
pub fn digits(mut i: u64, radix: &[u64]) -> Vec<u64> {
    let mut v = Vec::with_capacity(radix.len());
    for r in radix {
        v.push(i % r);
        i /= r;
    }
    v
}
pub fn prod(radix: &[u64]) -> u64 {
    radix.iter().product()
}
/// Number of sequences of length 0..=d over n symbols, and decoding.
pub fn seq_count(n: u64, d: u32) -> u64 {
    (0..=d).map(|k| n.pow(k)).sum()
}
pub fn seq_decode(mut i: u64, n: u64, d: u32) -> Vec<u64> {
    for k in 0..=d {
        let c = n.pow(k);
        if i < c {
            let mut v = Vec::new();
            for _ in 0..k {
                v.push(i % n);
                i /= n;
            }
            v.reverse();
            return v;
        }
        i -= c;
    }
    unreachable!()
}
