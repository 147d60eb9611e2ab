//! Runner: cases, verdicts, evidence.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// SplitMix64 / xorshift generator, independent from the crates used by the code under test.
#[derive(Clone)]
pub struct Rng(u64);
pub fn mix64(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix64(seed))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// Uniform in [0,1)
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    /// Uniform in (0,1)
    pub fn fo(&mut self) -> f64 {
        ((self.u64() >> 12) as f64 + 0.5) / (1u64 << 52) as f64
    }
    /// Uniform integer in [0,n)
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.u64() % n as u64) as usize
    }
    /// Uniform integer in [lo,hi]
    pub fn int(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn range(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.f()
    }
    /// log-uniform
    pub fn logu(&mut self, lo: f64, hi: f64) -> f64 {
        (lo.ln() + (hi.ln() - lo.ln()) * self.f()).exp()
    }
    /// A seed for the library; often an unusual one.
    pub fn seed(&mut self) -> u64 {
        match self.below(12) {
            0 => 0,
            1 => self.below(300) as u64,
            2 => u64::MAX - self.below(3) as u64,
            3 => 1u64 << self.below(64),
            4 => self.u64() << 32,
            5 => self.u64() >> 32,
            _ => self.u64(),
        }
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn exp(&mut self) -> f64 {
        -self.fo().ln()
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix64(h)
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub msg: String,
    /// Stable signature, compared with the known findings.
    pub sig: Option<String>,
}
pub type Res<T = ()> = Result<T, Violation>;
impl Violation {
    pub fn new(msg: impl Into<String>) -> Violation {
        Violation {
            msg: msg.into(),
            sig: None,
        }
    }
    pub fn ctx(mut self, c: &str) -> Violation {
        self.msg = format!("{}: {}", c, self.msg);
        self
    }
}
#[macro_export]
macro_rules! fail { ($($a:tt)*) => { return Err($crate::core::Violation::new(format!($($a)*))) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::core::Violation::new(format!($($a)*))) } } }

pub fn panic_text(e: Box<dyn Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "<non textual panic>".into()
    }
}

thread_local! {
    static LAST_PANIC: RefCell<(String, bool)> = RefCell::new((String::new(), false));
    /// Depth of `lib` / `refuses` calls on this thread.
    static IN_LIB: std::cell::Cell<usize> = std::cell::Cell::new(0);
    static IS_CASE: std::cell::Cell<bool> = std::cell::Cell::new(false);
}
/// Last panic of a thread which does not belong to the runner (workers of thread pools).
static WORKER_PANIC: Mutex<(String, bool)> = Mutex::new((String::new(), false));

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if std::env::var("RV_PANICS").is_ok() {
            eprintln!("panic: {info}");
        }
        // Outside of `lib` a panic is normally a bug of the monitors; the stack tells whether it
        // came from the library.
        let from_lib = IN_LIB.with(|x| x.get()) == 0
            && !cfg!(miri)
            && std::backtrace::Backtrace::force_capture()
                .to_string()
                .contains("reCTBN::");
        if IS_CASE.with(|x| x.get()) {
            LAST_PANIC.with(|p| *p.borrow_mut() = (loc, from_lib));
        } else {
            *WORKER_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = (loc, from_lib);
        }
    }));
}
fn last_panic() -> (String, bool) {
    let p = LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()));
    if p.0.is_empty() {
        WORKER_PANIC
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .clone()
    } else {
        p
    }
}

struct InLib;
impl InLib {
    fn new() -> InLib {
        IN_LIB.with(|x| x.set(x.get() + 1));
        LAST_PANIC.with(|p| *p.borrow_mut() = Default::default());
        InLib
    }
}
impl Drop for InLib {
    fn drop(&mut self) {
        IN_LIB.with(|x| x.set(x.get() - 1));
    }
}

/// Run code of the library: a panic there is an observation (violation of "returns normally").
pub fn lib<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    let _g = InLib::new();
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let t = panic_text(e);
        let loc = last_panic().0;
        Violation::new(format!("{what}: panicked with {t:?} (at {loc})"))
    })
}
/// Did the library refuse (panic)?
pub fn refuses<T>(f: impl FnOnce() -> T) -> bool {
    let _g = InLib::new();
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

static WATCH: Mutex<BTreeMap<(String, u64), Instant>> = Mutex::new(BTreeMap::new());
/// Every case normally takes a few seconds at most; one which is still running after `limit_s` is
/// reported as an operation which does not terminate.
pub fn watchdog(prop: &str, replay_dir: &str, limit_s: u64) {
    let (prop, dir) = (prop.to_string(), replay_dir.to_string());
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let w = WATCH.lock().unwrap();
        for ((s, cs), t) in w.iter() {
            if t.elapsed().as_secs() > limit_s {
                let _ = std::fs::create_dir_all(&dir);
                let path = format!("{dir}/{prop}-{}-{cs}.txt", s.replace(|c: char| !c.is_ascii_alphanumeric(), "-"));
                let _ = std::fs::write(&path, format!("property={prop}\nsection={s}\ncase_seed={cs}\nstill running after {limit_s} s (hang)\nreplay: bash /verif/run.sh {prop} quick --section {s} --case {cs}\n"));
                println!("  [{s}] case_seed={cs}: still running after {limit_s} s: does not terminate");
                println!("VIOLATION property={prop} replay={path}");
                std::process::exit(1);
            }
        }
    });
}

pub struct Case {
    pub rng: Rng,
    pub desc: String,
    pub ev: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub fp: u64,
    pub known: Vec<Violation>,
}
impl Case {
    pub fn ev(&mut self, k: &'static str, n: usize) {
        *self.ev.entry(k).or_insert(0) += n as u64;
    }
    pub fn mix(&mut self, x: u64) {
        self.fp = mix64(self.fp ^ x);
    }
    pub fn mixf(&mut self, x: f64) {
        self.mix(x.to_bits())
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    ev: BTreeMap<&'static str, u64>,
    sections: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: Vec<(String, u64, Violation)>,
    known: BTreeMap<String, u64>,
    assumptions: Vec<String>,
    rules: Vec<String>,
    inconclusive: Vec<String>,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub scale: f64,
    only: Option<(String, Option<u64>)>,
    known_sigs: Vec<(String, String)>,
    st: Mutex<Stats>,
    start: Instant,
    pub threads: usize,
}

impl Ctx {
    pub fn new(
        prop: &str,
        thorough: bool,
        seed: u64,
        scale: f64,
        only: Option<(String, Option<u64>)>,
        known_sigs: Vec<(String, String)>,
        threads: usize,
    ) -> Ctx {
        Ctx {
            prop: prop.into(),
            thorough,
            seed,
            scale,
            only,
            known_sigs,
            st: Mutex::new(Stats::default()),
            start: Instant::now(),
            threads,
        }
    }
    pub fn rule(&self, r: &str) {
        self.st.lock().unwrap().rules.push(r.into());
    }
    pub fn assume(&self, r: &str) {
        self.st.lock().unwrap().assumptions.push(r.into());
    }
    /// Run `quick` (or `quick*factor` when thorough) cases of a section.
    pub fn cases(
        &self,
        section: &str,
        quick: usize,
        factor: usize,
        f: impl Fn(&mut Case) -> Res + Sync,
    ) {
        // these judge what the other sections of the property have observed
        let whole = |s: &str| s == "aggregate" || s.ends_with(" together");
        if let Some((s, _)) = &self.only {
            if s != section && !whole(s) {
                return;
            }
        }
        let mut n = if self.thorough { quick * factor } else { quick };
        n = ((n as f64 * self.scale).ceil() as usize).max(1);
        let base = mix64(hash_str(&format!("{}/{}", self.prop, section)) ^ mix64(self.seed));
        let seeds: Vec<u64> = match &self.only {
            Some((s, Some(cs))) if !whole(s) => vec![*cs],
            _ => (0..n).map(|i| mix64(base.wrapping_add(i as u64))).collect(),
        };
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let workers = self.threads.min(seeds.len()).max(1);
        std::thread::scope(|sc| {
            for _ in 0..workers {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, || loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= seeds.len() || stop.load(Ordering::Relaxed) {
                            return;
                        }
                        let cs = seeds[i];
                        let mut case = Case {
                            rng: Rng::new(cs),
                            desc: String::new(),
                            ev: BTreeMap::new(),
                            nontrivial: true,
                            fp: hash_str(section),
                            known: vec![],
                        };
                        WATCH
                            .lock()
                            .unwrap()
                            .insert((section.to_string(), cs), Instant::now());
                        IS_CASE.with(|x| x.set(true));
                        LAST_PANIC.with(|p| *p.borrow_mut() = Default::default());
                        let r = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
                        WATCH.lock().unwrap().remove(&(section.to_string(), cs));
                        let mut st = self.st.lock().unwrap();
                        st.evaluations += 1;
                        *st.sections.entry(section.into()).or_insert(0) += 1;
                        for (k, v) in &case.ev {
                            *st.ev.entry(k).or_insert(0) += v;
                        }
                        if case.nontrivial {
                            let h = mix64(case.fp ^ hash_str(&case.desc));
                            st.nontrivial.insert(h);
                        }
                        let ns = st
                            .samples
                            .iter()
                            .filter(|s| s.starts_with(&format!("[{section}]")))
                            .count();
                        if ns < 2 && st.samples.len() < 24 {
                            let mut d = case.desc.clone();
                            if d.len() > 600 {
                                let mut e = 600;
                                while !d.is_char_boundary(e) {
                                    e -= 1;
                                }
                                d.truncate(e);
                                d.push_str("...");
                            }
                            st.samples.push(format!(
                                "[{section}] case_seed={cs} {d} observed={:?}",
                                case.ev
                            ));
                        }
                        match r {
                            Ok(Ok(())) => {}
                            Ok(Err(v)) => case.known.push(v),
                            Err(e) => {
                                let t = panic_text(e);
                                let (loc, from_lib) = last_panic();
                                case.known.push(Violation::new(if from_lib {
                                    format!("the library panicked with {t:?} (at {loc})")
                                } else {
                                    // unwrap(), index or shape mismatch on something the library returned
                                    format!("the monitor cannot use what the library returned: {t:?} (at {loc})")
                                }));
                            }
                        }
                        for v in case.known {
                            let known = v.sig.as_ref().map_or(false, |s| {
                                self.known_sigs
                                    .iter()
                                    .any(|(p, k)| p == &self.prop && k == s)
                            });
                            if known {
                                *st.known.entry(v.sig.clone().unwrap()).or_insert(0) += 1;
                            } else {
                                st.violations.push((
                                    section.into(),
                                    cs,
                                    v.ctx(&format!("case {{{}}}", case.desc)),
                                ));
                                if st.violations.len() >= 3 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    })
                    .unwrap();
            }
        });
        if std::env::var("RV_TIME").is_ok() {
            eprintln!(
                "{} section {section}: {} cases, {:.1}s since start",
                self.prop,
                seeds.len(),
                self.start.elapsed().as_secs_f64()
            );
        }
    }
    /// The monitors must have observed at least `min` events of kind `k`; otherwise the run is inconclusive.
    pub fn require(&self, k: &'static str, min: u64) {
        if self.only.is_some() || self.scale < 0.5 {
            return;
        }
        let mut st = self.st.lock().unwrap();
        let got = *st.ev.get(k).unwrap_or(&0);
        if got < min && st.violations.is_empty() {
            st.inconclusive
                .push(format!("only {got} events '{k}' observed, {min} needed"));
        }
    }
    pub fn note_event(&self, k: &'static str, n: u64) {
        *self.st.lock().unwrap().ev.entry(k).or_insert(0) += n;
    }
    pub fn finish(self, evidence: &str, replay_dir: &str, known_text: &[(String, String, String)]) -> i32 {
        let st = self.st.into_inner().unwrap();
        let wall = self.start.elapsed().as_secs_f64();
        let mut j = String::new();
        let arr = |v: &[String]| {
            v.iter()
                .map(|s| js(s))
                .collect::<Vec<_>>()
                .join(",\n   ")
        };
        j.push_str(&format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [\n   {}\n  ],\n  \"observed_events\": {{{}}},\n  \"cases_per_section\": {{{}}},\n  \"known_findings_seen\": {{{}}}\n }},\n \"assumptions\": [\n   {}\n ],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            js(&self.prop),
            js(if self.thorough { "thorough" } else { "quick" }),
            self.seed,
            st.evaluations,
            st.nontrivial.len(),
            js(&st.rules.join(" | ")),
            arr(&st.samples),
            st.ev.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "),
            st.sections.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "),
            st.known.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "),
            arr(&st.assumptions),
            wall,
            st.violations.len()
        ));
        if self.only.is_none() {
            if let Err(e) = std::fs::write(evidence, j) {
                eprintln!("cannot write evidence {evidence}: {e}");
                return 2;
            }
        }
        for (p, sig, what) in known_text {
            if p == &self.prop && st.known.contains_key(sig) {
                println!("KNOWN-FINDING: property={p} {what}");
            }
        }
        if !st.violations.is_empty() {
            let _ = std::fs::create_dir_all(replay_dir);
            for (s, cs, v) in &st.violations {
                let path = format!("{replay_dir}/{}-{}-{}.txt", self.prop, s.replace(|c: char| !c.is_ascii_alphanumeric(), "-"), cs);
                let _ = std::fs::write(
                    &path,
                    format!(
                        "property={}\nsection={}\ncase_seed={}\nreplay: bash /verif/run.sh {} quick --section {} --case {}\n\n{}\n",
                        self.prop, s, cs, self.prop, s, cs, v.msg
                    ),
                );
                let mut m = v.msg.clone();
                if m.len() > 1500 {
                    let mut e = 1500;
                    while !m.is_char_boundary(e) {
                        e -= 1;
                    }
                    m.truncate(e);
                }
                println!("  [{s}] case_seed={cs}: {m}");
                println!("VIOLATION property={} replay={}", self.prop, path);
            }
            return 1;
        }
        if !st.inconclusive.is_empty() {
            for e in &st.inconclusive {
                println!("INCONCLUSIVE {e}");
            }
            return 2;
        }
        println!(
            "{}: held on {} cases ({} distinct non-trivial), events {:?}, {:.1}s",
            self.prop,
            st.evaluations,
            st.nontrivial.len(),
            st.ev,
            wall
        );
        0
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
