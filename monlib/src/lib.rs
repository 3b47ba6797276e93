//! Shared machinery of all monitors: seeded randomness, counting of what was observed,
//! three-valued verdicts, evidence files, known findings, panic capture.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::path::PathBuf;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

use serde_json::{Value, json};

// ---------------------------------------------------------------- randomness

#[derive(Clone, Debug)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.u64();
        r.u64();
        r
    }
    /// Independent stream for case `n`.
    pub fn fork(seed: u64, n: u64) -> Rng {
        Rng::new(seed.wrapping_mul(0x2545_f491_4f6c_dd1d) ^ n.wrapping_mul(0xd134_2543_de82_ef95))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// 0..n (0 if n == 0)
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    // FNV-1a: stable between runs
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
            }
        }
    }
    let mut h = F(0xcbf2_9ce4_8422_2325);
    t.hash(&mut h);
    h.0
}

// ---------------------------------------------------------------- panics

static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
static PANIC_COUNT: AtomicUsize = AtomicUsize::new(0);

/// Record panics instead of printing them.
pub fn capture_panics() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        PANIC_COUNT.fetch_add(1, Ordering::SeqCst);
        PANICS.lock().unwrap_or_else(|e| e.into_inner()).push(format!("{msg} at {loc}"));
        if loc.starts_with("src/") {
            // a defect of the harness itself, never of the code under test (its paths are absolute)
            eprintln!("[harness panic] {msg} at {loc}");
        }
        if std::env::var_os("MON_SHOW_PANICS").is_some() {
            eprintln!("[panic] {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
}
pub fn take_panics() -> Vec<String> {
    std::mem::take(&mut *PANICS.lock().unwrap_or_else(|e| e.into_inner()))
}
pub fn panic_count() -> usize {
    PANIC_COUNT.load(Ordering::SeqCst)
}

// ---------------------------------------------------------------- stalls

/// Code under test that never returns stops the thread that would judge it; a second
/// thread watches for that. A stall is 25 s of processor time of the main thread without a
/// sign of life, or (where `Alive` says that the thread never has to sleep) being asleep in
/// 60 successive samples, or a section that outlasts the limit it set for itself.
static BEATS: AtomicU64 = AtomicU64::new(0);
/// 0: may sleep; 1: never sleeps; n > 1: has to end within n seconds
static ALIVE: AtomicU64 = AtomicU64::new(0);
static CASES: AtomicU64 = AtomicU64::new(0);

pub fn beat() {
    BEATS.fetch_add(1, Ordering::Relaxed);
}

/// A section of the main thread with a rule of its own for stalls.
pub struct Alive;

impl Alive {
    pub fn awake() -> Alive {
        Alive::set(1)
    }
    pub fn within(secs: u64) -> Alive {
        Alive::set(secs.max(2))
    }
    fn set(n: u64) -> Alive {
        beat();
        ALIVE.store(n, Ordering::Relaxed);
        Alive
    }
}

impl Drop for Alive {
    fn drop(&mut self) {
        beat();
        ALIVE.store(0, Ordering::Relaxed);
    }
}

fn main_thread() -> Option<(char, u64)> {
    let pid = std::process::id();
    let s = std::fs::read_to_string(format!("/proc/self/task/{pid}/stat")).ok()?;
    let f: Vec<&str> = s.rsplit(')').next()?.split_whitespace().collect();
    Some((f.first()?.chars().next()?, f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?))
}

fn watch(prop: String, seed: u64, tier: Tier) {
    std::thread::spawn(move || {
        let (mut seen, mut cpu0, mut asleep, mut samples) = (u64::MAX, 0, 0, 0u64);
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let Some((state, cpu)) = main_thread() else { return };
            let b = BEATS.load(Ordering::Relaxed);
            if b != seen {
                (seen, cpu0, asleep, samples) = (b, cpu, 0, 0);
                continue;
            }
            samples += 1;
            asleep = if state == 'S' { asleep + 1 } else { 0 };
            let alive = ALIVE.load(Ordering::Relaxed);
            let why = if cpu - cpu0 > 2500 {
                format!("the broker's code runs for {} s of processor time and does not return", (cpu - cpu0) / 100)
            } else if alive == 1 && asleep >= 60 {
                "the broker's code blocks its thread and does not return".to_string()
            } else if alive > 1 && samples > alive {
                format!("a run with several threads has not ended after {samples} s")
            } else {
                continue;
            };
            let n = CASES.load(Ordering::Relaxed);
            if part() != Part::All {
                hand_over_one("broker-stalls", &format!("{why}; executions this process finished before: {n}"));
                let _ = std::io::stdout().flush();
                unsafe { libc_exit(0) }
            }
            let dir = verif_dir().join("evidence");
            let _ = std::fs::create_dir_all(dir.join("replay"));
            let rp = dir.join("replay").join(format!("{prop}-{seed}-stall.txt"));
            let _ = std::fs::write(&rp, format!("property {prop}\nseed {seed}\ntier {tier:?}\nsignature broker-stalls\n\n{why}; executions finished before: {n}\n"));
            println!("--- broker-stalls\n{why}; executions finished before: {n}");
            println!("VIOLATION property={prop} replay={}", rp.display());
            let _ = std::io::stdout().flush();
            // the main thread may hold any lock, so nothing is cleaned up
            unsafe { libc_exit(1) }
        }
    });
}

unsafe extern "C" {
    #[link_name = "_exit"]
    fn libc_exit(code: i32) -> !;
    fn prctl(option: i32, arg: u64, a: u64, b: u64, c: u64) -> i32;
}

/// A violation seen outside the normal course of a part.
fn hand_over_one(sig: &str, detail: &str) {
    let v = json!({"evaluations": CASES.load(Ordering::Relaxed), "violations": [[sig, detail]]});
    let _ = std::fs::write(part_file(), v.to_string());
}

/// Runs one property's monitor on all cores: processes which do every n-th case each, then, if
/// there is one, the part with several threads. The parts' findings are put together.
/// A part that is ended by a signal of its own making is a finding too.
pub fn lead(prop: &str, scale: u64, tail: bool, monitor: impl FnOnce()) {
    if part() != Part::All {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(monitor));
        if r.is_err() {
            let ps = take_panics();
            let Some(p) = ps.last().filter(|p| p.contains("akasa-core/")) else { std::process::exit(101) };
            hand_over_one(&format!("panic:{}", p.rsplit('/').next().unwrap_or("")), &format!("panic in the thread of its caller: {p}"));
            std::process::exit(0);
        }
        return;
    }
    let env = |k: &str| std::env::var_os(k).is_some();
    if cfg!(miri) || instrumented() || env("MON_CASE") || env("MON_LOG") || env("MON_SHOW_PANICS") || env("MON_ALONE") {
        return monitor();
    }
    let n = std::env::var("MON_PARTS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |x| x.get() as u64)).clamp(1, 16);
    let mut run = Run::new(prop, "", (0, 0));
    let scale = if run.quick() { scale } else { n };
    let dir = verif_dir().join("evidence").join(format!(".parts-{prop}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("parts");
    let start = |what: String, file: PathBuf| {
        use std::os::unix::process::CommandExt;
        let mut c = std::process::Command::new(std::env::current_exe().expect("own path"));
        c.args(std::env::args_os().skip(1)).env("MON_PART", what).env("MON_PART_FILE", file).env("MON_SCALE", scale.to_string());
        // parts end with the process that leads them
        unsafe { c.pre_exec(|| if prctl(1, 9, 0, 0, 0) == 0 { Ok(()) } else { Err(std::io::Error::last_os_error()) }) };
        c.spawn().expect("part")
    };
    let mut waves: Vec<Vec<String>> = vec![(0..n).map(|k| format!("{k}/{n}")).collect()];
    if tail {
        waves.push(vec!["tail".into()]);
    }
    let mut odd = None;
    for wave in waves {
        if run.violated() || odd.is_some() {
            break;
        }
        let mut parts: Vec<_> = wave
            .into_iter()
            .map(|w| {
                let f = dir.join(w.replace('/', "-"));
                (start(w, f.clone()), f)
            })
            .collect();
        while !parts.is_empty() {
            std::thread::sleep(Duration::from_millis(20));
            beat();
            let mut i = 0;
            while i < parts.len() {
                let Ok(st) = parts[i].0.try_wait() else { panic!("wait") };
                let Some(st) = st else {
                    i += 1;
                    continue;
                };
                let (_, f) = parts.swap_remove(i);
                use std::os::unix::process::ExitStatusExt;
                match std::fs::read_to_string(&f).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
                    Some(v) if st.success() => run.take_over(&v, &std::fs::read(f.with_extension("distinct")).unwrap_or_default()),
                    _ => match st.signal() {
                        Some(s) if [4, 6, 7, 8, 11].contains(&s) => run.violation("broker-dies", format!("the process running the broker was ended by signal {s}")),
                        Some(s) => run.inconclusive(format!("part {} was ended from outside by signal {s}", f.display())),
                        None => odd = Some(st.code().unwrap_or(-1)),
                    },
                }
                if run.violated() || odd.is_some() {
                    // the others are not needed any more
                    for (c, _) in &mut parts {
                        let _ = c.kill();
                        let _ = c.wait();
                    }
                    parts.clear();
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    if let (Some(c), false) = (odd, run.violated()) {
        eprintln!("{prop}: a part of the monitor failed with code {c}");
        std::process::exit(3);
    }
    run.finish()
}

// ---------------------------------------------------------------- run

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Runs under a sanitizer or an interpreter whose report is the verdict.
pub fn instrumented() -> bool {
    static ON: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *ON.get_or_init(|| std::env::var_os("MON_SINK").is_some())
}

pub struct Run {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub only: Option<u64>,
    pub deadline: Instant,
    start: Instant,
    rule: String,
    evaluations: u64,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    counters: BTreeMap<String, u64>,
    violations: Vec<(String, String)>,
    inconclusive: Vec<String>,
    known: Vec<(String, String)>,
    known_hits: BTreeMap<String, u64>,
    assumptions: Vec<String>,
    part: Part,
}

/// What of a property's cases this process does.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Part {
    All,
    /// every n-th case
    Share(u64, u64),
    /// only what follows the numbered cases
    Tail,
}

fn part() -> Part {
    match std::env::var("MON_PART").ok().as_deref() {
        Some("tail") => Part::Tail,
        Some(s) => match s.split_once('/').and_then(|(k, n)| Some((k.parse().ok()?, n.parse().ok()?))) {
            Some((k, n)) => Part::Share(k, n),
            None => Part::All,
        },
        None => Part::All,
    }
}

fn part_file() -> PathBuf {
    PathBuf::from(std::env::var_os("MON_PART_FILE").expect("MON_PART_FILE"))
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

impl Run {
    /// `secs`: (quick, thorough) time budget of the exploration loop.
    pub fn new(prop: &str, rule: &str, secs: (u64, u64)) -> Run {
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let only = std::env::var("MON_CASE").ok().and_then(|s| s.parse().ok());
        let mut known = Vec::new();
        if let Ok(text) = std::fs::read_to_string(verif_dir().join("known_findings.json")) {
            let v: Value = serde_json::from_str(&text).expect("known_findings.json");
            for f in v["findings"].as_array().into_iter().flatten() {
                if f["status"] == "known" && f["property"] == prop {
                    known.push((
                        f["signature"].as_str().unwrap_or("").to_string(),
                        f["what"].as_str().unwrap_or("").to_string(),
                    ));
                }
            }
        }
        if part() == Part::All
            && let Ok(d) = std::fs::read_dir(verif_dir().join("evidence/replay"))
        {
            for f in d.flatten() {
                if f.file_name().to_string_lossy().starts_with(&format!("{prop}-")) {
                    let _ = std::fs::remove_file(f.path());
                }
            }
        }
        if !cfg!(miri) && !instrumented() {
            watch(prop.into(), seed, tier);
        }
        let now = Instant::now();
        let budget = match tier {
            Tier::Quick => secs.0,
            Tier::Thorough => secs.1,
        };
        let budget = std::env::var("MON_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(budget);
        Run {
            prop: prop.into(),
            tier,
            seed,
            only,
            deadline: now + Duration::from_secs(budget),
            start: now,
            rule: rule.into(),
            evaluations: 0,
            distinct: HashSet::new(),
            samples: Vec::new(),
            counters: BTreeMap::new(),
            violations: Vec::new(),
            inconclusive: Vec::new(),
            known,
            known_hits: BTreeMap::new(),
            assumptions: Vec::new(),
            part: part(),
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// Case budget by tier.
    pub fn cases(&self, quick: u64, thorough: u64) -> u64 {
        let scale = std::env::var("MON_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let n: u64 = scale * if self.quick() { quick } else { thorough };
        self.only.map_or(n, |o| o + 1)
    }
    /// Whether what follows the numbered cases is this process's business.
    pub fn tail(&self) -> bool {
        matches!(self.part, Part::All | Part::Tail)
    }
    pub fn more(&self) -> bool {
        Instant::now() < self.deadline && self.violations.len() < 3
    }
    /// Case numbers `lo..hi`, cut off by the deadline. `MON_CASE=n` runs only case n.
    pub fn selected(&self, n: u64) -> bool {
        match self.part {
            Part::All => self.only.is_none_or(|o| o == n),
            Part::Share(k, of) => n % of == k,
            Part::Tail => false,
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }
    /// Count one explored execution; `key` identifies its observable shape.
    pub fn case<T: Hash>(&mut self, nontrivial: bool, key: &T) {
        self.case_hash(nontrivial, hash_of(key));
    }
    pub fn case_hash(&mut self, nontrivial: bool, key: u64) {
        self.evaluations += 1;
        beat();
        CASES.store(self.evaluations, Ordering::Relaxed);
        if instrumented() && (cfg!(miri) || self.evaluations.is_power_of_two()) {
            self.progress();
        }
        if nontrivial {
            self.distinct.insert(key);
        }
    }
    pub fn sample<T: Debug>(&mut self, t: T) {
        if self.samples.len() < 5 {
            let mut s = format!("{t:?}");
            if s.len() > 1500 {
                let mut n = 1500;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.samples.push(Value::String(s));
        }
    }
    pub fn count(&mut self, what: &str, n: u64) {
        *self.counters.entry(what.into()).or_insert(0) += n;
    }
    pub fn counter(&self, what: &str) -> u64 {
        self.counters.get(what).copied().unwrap_or(0)
    }
    pub fn violated(&self) -> bool {
        !self.violations.is_empty()
    }
    pub fn inconclusive(&mut self, why: String) {
        self.count("inconclusive", 1);
        if self.inconclusive.len() < 20 {
            self.inconclusive.push(why);
        }
    }
    /// `sig` names the failing input class / history class; listed signatures are known findings.
    pub fn violation(&mut self, sig: &str, detail: String) {
        if instrumented() {
            // another check judges behaviour; here only the instrumentation does
            self.count("behaviour-not-judged-here", 1);
            return;
        }
        if self.known.iter().any(|(s, _)| s == sig) {
            *self.known_hits.entry(sig.into()).or_insert(0) += 1;
            return;
        }
        if self.violations.len() < 5 {
            self.violations.push((sig.into(), detail));
        }
    }
    fn progress(&self) {
        println!("OBSERVED {}", json!({"prop": self.prop, "evaluations": self.evaluations, "distinct": self.distinct.len(), "counters": self.counters}));
    }
    /// Panics raised inside the code under test.
    pub fn check_panics(&mut self, ctx: &str) {
        for p in take_panics() {
            let sig = format!("panic:{}", p.rsplit(" at ").next().unwrap_or("").rsplit('/').next().unwrap_or(""));
            self.violation(&sig, format!("panic: {p}\ncontext: {ctx}"));
        }
    }
    fn hand_over(&self) {
        let v = json!({
            "rule": self.rule,
            "evaluations": self.evaluations,
            "samples": self.samples,
            "counters": self.counters,
            "violations": self.violations,
            "inconclusive": self.inconclusive,
            "known_hits": self.known_hits,
            "assumptions": self.assumptions,
        });
        let mut b = Vec::with_capacity(self.distinct.len() * 8);
        for d in &self.distinct {
            b.extend_from_slice(&d.to_le_bytes());
        }
        std::fs::write(part_file().with_extension("distinct"), b).expect("part");
        std::fs::write(part_file(), v.to_string()).expect("part");
    }
    fn take_over(&mut self, v: &Value, distinct: &[u8]) {
        if self.rule.is_empty() {
            self.rule = v["rule"].as_str().unwrap_or("").into();
        }
        self.evaluations += v["evaluations"].as_u64().unwrap_or(0);
        for b in distinct.chunks_exact(8) {
            self.distinct.insert(u64::from_le_bytes(b.try_into().unwrap()));
        }
        let texts = |k: &str| v[k].as_array().into_iter().flatten().filter_map(|x| x.as_str()).map(String::from).collect::<Vec<_>>();
        for s in v["samples"].as_array().into_iter().flatten() {
            if self.samples.len() < 5 {
                self.samples.push(s.clone());
            }
        }
        for (k, n) in v["counters"].as_object().into_iter().flatten() {
            self.count(k, n.as_u64().unwrap_or(0));
        }
        for x in v["violations"].as_array().into_iter().flatten() {
            if self.violations.len() < 5 {
                self.violations.push((x[0].as_str().unwrap_or("").into(), x[1].as_str().unwrap_or("").into()));
            }
        }
        for x in texts("inconclusive") {
            if self.inconclusive.len() < 20 {
                self.inconclusive.push(x);
            }
        }
        for (k, n) in v["known_hits"].as_object().into_iter().flatten() {
            *self.known_hits.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
        }
        for x in texts("assumptions") {
            if !self.assumptions.contains(&x) {
                self.assumptions.push(x);
            }
        }
    }
    /// Write the evidence, print the verdict, end the process.
    pub fn finish(mut self) -> ! {
        if instrumented() {
            self.progress();
            let _ = std::io::stdout().flush();
            std::process::exit(0);
        }
        if self.part != Part::All {
            self.hand_over();
            let _ = std::io::stdout().flush();
            std::process::exit(0);
        }
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(dir.join("replay"));
        if self.evaluations == 0 && self.only.is_none() {
            eprintln!("{}: nothing was observed", self.prop);
            std::process::exit(3);
        }
        let mut cov = json!({
            "evaluations": self.evaluations,
            "distinct_nontrivial": self.distinct.len(),
            "rule": self.rule,
            "samples": self.samples,
        });
        for (k, v) in &self.counters {
            cov[format!("observed.{k}")] = json!(v);
        }
        if !self.inconclusive.is_empty() {
            cov["inconclusive_reasons"] = json!(self.inconclusive);
        }
        for (sig, what) in &self.known {
            let hits = self.known_hits.get(sig).copied().unwrap_or(0);
            cov[format!("known_finding.{sig}")] = json!(hits);
            println!("KNOWN-FINDING: property={} {} (seen {} times in this run)", self.prop, what, hits);
        }
        let ev = json!({
            "property": self.prop,
            "tier": if self.quick() { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": (self.start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
            "violations": self.violations.len(),
        });
        let path = dir.join(format!("{}.json", self.prop));
        let tmp = dir.join(format!(".{}.json.tmp", self.prop));
        std::fs::write(&tmp, serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
        std::fs::rename(&tmp, &path).expect("evidence");
        println!(
            "{}: {} executions, {} distinct non-trivial, {} violations, {:.1}s",
            self.prop,
            self.evaluations,
            self.distinct.len(),
            self.violations.len(),
            self.start.elapsed().as_secs_f64()
        );
        for (k, v) in &self.counters {
            println!("  {k} = {v}");
        }
        for w in self.inconclusive.iter().take(5) {
            println!("  inconclusive: {w}");
        }
        let code = if self.violations.is_empty() { 0 } else { 1 };
        for (i, (sig, detail)) in std::mem::take(&mut self.violations).into_iter().enumerate() {
            let rp = dir.join("replay").join(format!("{}-{}-{}.txt", self.prop, self.seed, i));
            let mut f = std::fs::File::create(&rp).expect("replay");
            let _ = writeln!(f, "property {}\nseed {}\ntier {:?}\nsignature {}\n\n{}", self.prop, self.seed, self.tier, sig, detail);
            println!("--- {}\n{}", sig, detail.chars().take(1200).collect::<String>());
            println!("VIOLATION property={} replay={}", self.prop, rp.display());
        }
        let _ = std::io::stdout().flush();
        std::process::exit(code)
    }
}
