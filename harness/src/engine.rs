//! Case runner, verdicts, watchdog and evidence.
//!
//! Verdicts are three-valued:
//!  * exit 0  - every case executed satisfied the oracle (held on what was observed)
//!  * exit 1  - a case refuted the property; `VIOLATION property=<id> replay=<path>`
//!  * exit 3  - inconclusive: a harness error, or too little was observed
use crate::rng::{hash_bytes, Rng};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Why a case stopped.
#[derive(Debug)]
pub enum Stop {
    /// The property is refuted.
    Violation(String),
    /// The harness itself is at fault (never mapped to a violation).
    Harness(String),
}
pub type Res<T = ()> = Result<T, Stop>;

pub fn violation<T>(s: impl Into<String>) -> Res<T> {
    Err(Stop::Violation(s.into()))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !$c { return Err($crate::engine::Stop::Violation(format!($($t)*))); }
    };
}

/// What the monitors observed during one case / one run.
#[derive(Default)]
pub struct Obs {
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, f64>,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, u64>,
}

impl Obs {
    pub fn count(&mut self, k: &str, n: usize) {
        *self.counters.entry(k.into()).or_insert(0) += n as u64;
    }
    pub fn max(&mut self, k: &str, v: f64) {
        let e = self.maxima.entry(k.into()).or_insert(f64::MIN);
        if v > *e {
            *e = v;
        }
    }
    /// A workload class reached (for coverage of the input space).
    pub fn class(&mut self, k: impl Into<String>) {
        *self.classes.entry(k.into()).or_insert(0) += 1;
    }
    /// Fingerprint of one distinct, non-trivial case.
    pub fn nontrivial(&mut self, h: u64) {
        self.distinct.insert(h);
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(s());
        }
    }
    fn merge(&mut self, o: Obs) {
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.classes {
            *self.classes.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.maxima {
            self.max(&k, v);
        }
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    /// Number of cases per tier.
    pub quick: usize,
    pub thorough: usize,
    /// Fewest distinct non-trivial cases (quick tier) for the run to count as an observation.
    pub min_nontrivial: usize,
    /// Counters that must be non-zero for the run to count as an observation.
    pub must_observe: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub case: fn(&mut Rng, usize, Tier, &mut Obs) -> Res,
}

// ---------------------------------------------------------------------------------------------
// Guarded calls into the system under test

thread_local! {
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

const SLOTS: usize = 64;
struct Slot {
    tid: AtomicU64,
    /// CPU milliseconds of the thread when the current call into the SUT began; 0 = not in a call.
    since: AtomicU64,
    case: AtomicU64,
}
#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: Slot = Slot {
    tid: AtomicU64::new(0),
    since: AtomicU64::new(0),
    case: AtomicU64::new(0),
};
static SLOTS_TAB: [Slot; SLOTS] = [EMPTY; SLOTS];
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);

fn cpu_ms(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let ut: u64 = f.get(11)?.parse().ok()?;
    let st: u64 = f.get(12)?.parse().ok()?;
    Some((ut + st) * 10 + 1)
}

fn my_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| {
            p.file_name()
                .and_then(|f| f.to_str().and_then(|s| s.parse().ok()))
        })
        .unwrap_or(0)
}

static MARK: AtomicU64 = AtomicU64::new(1);

/// Runs a call into the code under test. A panic inside it is a violation: the monitored
/// properties all require the call to return.
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    IN_SUT.with(|c| c.set(true));
    let slot = SLOT.with(|s| s.get());
    if slot < SLOTS {
        // the watchdog fills in the CPU time it sees the first time it notices this mark
        SLOTS_TAB[slot]
            .since
            .store(MARK.fetch_add(1, Ordering::Relaxed), Ordering::Relaxed);
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    if slot < SLOTS {
        SLOTS_TAB[slot].since.store(0, Ordering::Relaxed);
    }
    IN_SUT.with(|c| c.set(false));
    r.map_err(|_| {
        let m = PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into());
        Stop::Violation(format!("{what}: the code under test panicked: {m}"))
    })
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{info}").replace('\n', " ");
        PANIC.with(|p| *p.borrow_mut() = Some(m));
    }));
}

/// For use by threads the harness starts itself.
pub fn take_panic() -> Option<String> {
    PANIC.with(|p| p.borrow_mut().take())
}

/// CPU time one call into the code under test may use before it counts as not returning.
/// Ordinary calls use milliseconds; the largest a few seconds.
const CALL_CPU_LIMIT_MS: u64 = 90_000;

fn watchdog(id: &'static str, cfg: RunCfg) {
    let mut seen: Vec<(u64, u64)> = vec![(0, 0); SLOTS];
    loop {
        std::thread::sleep(Duration::from_millis(250));
        for (i, s) in SLOTS_TAB.iter().enumerate() {
            let mark = s.since.load(Ordering::Relaxed);
            if mark == 0 {
                continue;
            }
            let Some(now) = cpu_ms(s.tid.load(Ordering::Relaxed)) else {
                continue;
            };
            if seen[i].0 != mark {
                seen[i] = (mark, now);
            } else if now > seen[i].1 + CALL_CPU_LIMIT_MS {
                let case = s.case.load(Ordering::Relaxed) as usize;
                report_violation(
                    id,
                    &cfg,
                    case,
                    &format!(
                        "a call into the code under test did not return within {} s of CPU time",
                        CALL_CPU_LIMIT_MS / 1000
                    ),
                );
                std::process::exit(1);
            }
        }
        if let Some(why) = crate::alloc::runaway() {
            report_violation(id, &cfg, usize::MAX, &why);
            std::process::exit(1);
        }
    }
}

#[derive(Clone, Copy)]
pub struct RunCfg {
    pub seed: u64,
    pub tier: Tier,
    pub only: Option<usize>,
    /// Overrides the number of cases; nothing is required to be observed then.
    pub cases: Option<usize>,
    pub scale: f64,
}

fn replay_dir() -> String {
    std::env::var("MON_REPLAY_DIR").unwrap_or_else(|_| "/verif/replays".into())
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

static REPORTED: Mutex<bool> = Mutex::new(false);

pub fn report_violation(id: &str, cfg: &RunCfg, case: usize, msg: &str) {
    let mut g = REPORTED.lock().unwrap_or_else(|e| e.into_inner());
    let dir = replay_dir();
    let _ = std::fs::create_dir_all(&dir);
    let tier = if cfg.tier == Tier::Quick {
        "quick"
    } else {
        "thorough"
    };
    let path = format!("{dir}/{id}-{}-{}-{}.json", cfg.seed, tier, case);
    let _ = std::fs::write(
        &path,
        format!(
            "{{\"property\":\"{id}\",\"seed\":{},\"tier\":\"{tier}\",\"case\":{case},\"message\":\"{}\",\"replay_cmd\":\"/verif/check.sh {id} --seed {} --tier {tier} --case {case}\"}}\n",
            cfg.seed, esc(msg), cfg.seed
        ),
    );
    let short: String = msg.chars().take(600).collect();
    println!("{id}: case {case} (seed {}, {tier}): {short}", cfg.seed);
    if !*g {
        println!("VIOLATION property={id} replay={path}");
        *g = true;
    }
}

pub fn case_seed(id: &str, seed: u64, idx: usize) -> u64 {
    hash_bytes(hash_bytes(seed, id.as_bytes()), &(idx as u64).to_le_bytes())
}

/// Names the case when the library takes the process down (check.sh draws the conclusion).
#[cfg(not(miri))]
fn install_crash_note() {
    extern "C" {
        fn signal(sig: i32, handler: usize) -> usize;
        fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
        fn raise(sig: i32) -> i32;
    }
    extern "C" fn note(sig: i32) {
        // nothing here allocates or locks
        let slot = SLOT.with(|s| s.get());
        if slot < SLOTS {
            let mut c = SLOTS_TAB[slot].case.load(Ordering::Relaxed);
            let mut b = *b"\ncrashed in case 00000000000000000000\n";
            let mut digits = [0u8; 20];
            let mut n = 0;
            loop {
                digits[n] = b'0' + (c % 10) as u8;
                n += 1;
                c /= 10;
                if c == 0 {
                    break;
                }
            }
            let start = 17;
            for k in 0..n {
                b[start + k] = digits[n - 1 - k];
            }
            b[start + n] = b'\n';
            unsafe { write(2, b.as_ptr().cast(), start + n + 1) };
        }
        unsafe {
            signal(sig, 0);
            raise(sig);
        }
    }
    for sig in [6, 8, 4] {
        unsafe { signal(sig, note as extern "C" fn(i32) as usize) };
    }
}

pub fn run(p: &Prop, cfg: RunCfg) -> i32 {
    install_panic_hook();
    #[cfg(not(miri))]
    install_crash_note();
    let start = Instant::now();
    let n = match cfg.tier {
        Tier::Quick => p.quick,
        Tier::Thorough => p.thorough,
    };
    let n = cfg
        .cases
        .unwrap_or(((n as f64 * cfg.scale) as usize).max(1));
    let soft = match cfg.tier {
        Tier::Quick => Duration::from_secs(400),
        Tier::Thorough => Duration::from_secs(3 * 3600),
    };
    let id = p.id;
    if !cfg!(miri) {
        std::thread::spawn(move || watchdog(id, cfg));
    }

    let next = AtomicUsize::new(0);
    let done = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let bad: Mutex<Vec<(usize, Stop)>> = Mutex::new(vec![]);
    let total = Mutex::new(Obs::default());
    let threads = std::env::var("MON_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| {
            std::thread::available_parallelism()
                .map(|n| n.get())
                .unwrap_or(4)
                .min(16)
        });
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| {
                let slot = NEXT_SLOT.fetch_add(1, Ordering::Relaxed);
                if slot < SLOTS {
                    SLOTS_TAB[slot].tid.store(my_tid(), Ordering::Relaxed);
                    SLOT.with(|s| s.set(slot));
                }
                let mut obs = Obs::default();
                loop {
                    if stop.load(Ordering::Relaxed) || start.elapsed() > soft {
                        break;
                    }
                    let mut idx = next.fetch_add(1, Ordering::Relaxed);
                    if let Some(o) = cfg.only {
                        if idx > 0 {
                            break;
                        }
                        idx = o;
                    } else if idx >= n {
                        break;
                    }
                    if slot < SLOTS {
                        SLOTS_TAB[slot].case.store(idx as u64, Ordering::Relaxed);
                    }
                    let mut rng = Rng::new(case_seed(p.id, cfg.seed, idx));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        (p.case)(&mut rng, idx, cfg.tier, &mut obs)
                    }));
                    let r = match r {
                        Ok(r) => r,
                        Err(_) => Err(Stop::Harness(format!(
                            "harness panicked: {}",
                            take_panic().unwrap_or_default()
                        ))),
                    };
                    done.fetch_add(1, Ordering::Relaxed);
                    if let Err(e) = r {
                        let hard = matches!(e, Stop::Violation(_));
                        bad.lock().unwrap().push((idx, e));
                        if hard {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
                total.lock().unwrap().merge(obs);
            });
        }
    });

    let obs = total.into_inner().unwrap();
    let bad = bad.into_inner().unwrap();
    let done = done.load(Ordering::Relaxed);
    let mut violations = 0;
    let mut harness = 0;
    for (i, e) in &bad {
        match e {
            Stop::Violation(m) => {
                violations += 1;
                if violations <= 3 {
                    report_violation(p.id, &cfg, *i, m);
                }
            }
            Stop::Harness(m) => {
                harness += 1;
                if harness <= 3 {
                    println!("{}: case {i}: INCONCLUSIVE: {m}", p.id);
                }
            }
        }
    }
    for (k, v) in &obs.known {
        println!("KNOWN-FINDING: property={} {k} (seen in {v} cases)", p.id);
    }
    if cfg.only.is_none() {
        write_evidence(
            p,
            &cfg,
            &obs,
            done,
            violations,
            start.elapsed().as_secs_f64(),
        );
    }
    println!(
        "{}: {done} cases, {} distinct non-trivial, {:.1} s, counters {:?}",
        p.id,
        obs.distinct.len(),
        start.elapsed().as_secs_f64(),
        obs.counters
    );
    if violations > 0 {
        return 1;
    }
    if harness > 0 {
        return 3;
    }
    if cfg.only.is_none() && cfg.cases.is_none() {
        // (half of what is usual: a share of the cases may turn out trivial)
        let need = ((p.min_nontrivial as f64) * 0.5 * cfg.scale.min(1.0)) as usize;
        if obs.distinct.len() < need {
            println!(
                "{}: INCONCLUSIVE: only {} distinct non-trivial cases, need {need}",
                p.id,
                obs.distinct.len()
            );
            return 3;
        }
        for m in p.must_observe {
            if obs.counters.get(*m).copied().unwrap_or(0) == 0 {
                println!("{}: INCONCLUSIVE: never observed `{m}`", p.id);
                return 3;
            }
        }
    }
    0
}

fn write_evidence(p: &Prop, cfg: &RunCfg, obs: &Obs, done: usize, violations: usize, wall: f64) {
    let dir = std::env::var("MON_EVIDENCE_DIR").unwrap_or_else(|_| "/verif/evidence".into());
    let _ = std::fs::create_dir_all(&dir);
    let q = |s: &str| format!("\"{}\"", esc(s));
    let counters = obs
        .counters
        .iter()
        .map(|(k, v)| format!("{}:{v}", q(k)))
        .collect::<Vec<_>>()
        .join(",");
    let maxima = obs
        .maxima
        .iter()
        .map(|(k, v)| {
            format!(
                "{}:{}",
                q(k),
                if v.is_finite() {
                    format!("{v:e}")
                } else {
                    "null".into()
                }
            )
        })
        .collect::<Vec<_>>()
        .join(",");
    let classes = obs
        .classes
        .iter()
        .map(|(k, v)| format!("{}:{v}", q(k)))
        .collect::<Vec<_>>()
        .join(",");
    let known = obs
        .known
        .iter()
        .map(|(k, v)| format!("{}:{v}", q(k)))
        .collect::<Vec<_>>()
        .join(",");
    let samples = if obs.samples.is_empty() {
        q("none")
    } else {
        obs.samples
            .iter()
            .map(|s| q(s))
            .collect::<Vec<_>>()
            .join(",")
    };
    let assumptions = p
        .assumptions
        .iter()
        .map(|s| q(s))
        .collect::<Vec<_>>()
        .join(",");
    let j = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {done},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{samples}],\n  \"observed\": {{{counters}}},\n  \"maxima\": {{{maxima}}},\n  \"workload_classes\": {{{classes}}},\n  \"known_findings_seen\": {{{known}}},\n  \"exhaustive\": false\n }},\n \"assumptions\": [{assumptions}],\n \"wall_s\": {wall:.3},\n \"violations\": {violations}\n}}\n",
        q(p.id),
        q(if cfg.tier == Tier::Quick { "quick" } else { "thorough" }),
        cfg.seed,
        obs.distinct.len(),
        q(p.rule),
    );
    let name = std::env::var("MON_EVIDENCE_NAME").unwrap_or_else(|_| p.id.to_string());
    let path = format!("{dir}/{name}.json");
    if let Err(e) = std::fs::write(&path, j) {
        println!("{}: cannot write {path}: {e}", p.id);
    }
}
