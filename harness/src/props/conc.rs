//! C29: schedule independence of the parallel operations.
use crate::core::*;
use crate::gen::*;
use crate::props::rew::RW;
use crate::props::structure::parents_of;
use reCTBN::parameter_learning::*;
use reCTBN::params;
use reCTBN::process::{self, ctbn::CtbnNetwork, NetworkProcess, NetworkProcessState};
use reCTBN::reward::reward_evaluation::*;
use reCTBN::reward::*;
use reCTBN::structure_learning::constraint_based_algorithm::*;
use reCTBN::structure_learning::hypothesis_test::*;
use reCTBN::structure_learning::score_based_algorithm::*;
use reCTBN::structure_learning::score_function::*;
use reCTBN::structure_learning::StructuralLearningAlgorithm;
use reCTBN::tools::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

/// What the monitor saw during one parallel operation.
#[derive(Default)]
pub struct Seen {
    queries: AtomicUsize,
    threads: AtomicU64,
    delays: AtomicUsize,
    /// Order in which (thread, node) queries happened (bounded).
    order: Mutex<Vec<(u8, u16)>>,
}
static NEXT: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static ID: usize = NEXT.fetch_add(1, Ordering::Relaxed);
    static TICK: std::cell::Cell<u64> = std::cell::Cell::new(0);
}

#[cfg(feature = "mon")]
pub struct Mon<'a> {
    pub inner: CtbnNetwork,
    pub chaos: u64,
    pub log: bool,
    pub seen: &'a Seen,
}
#[cfg(feature = "mon")]
impl<'a> Mon<'a> {
    fn hit(&self, node: usize) {
        self.seen.queries.fetch_add(1, Ordering::Relaxed);
        let id = ID.with(|x| *x);
        self.seen
            .threads
            .fetch_or(1 << (id % 64), Ordering::Relaxed);
        if self.log {
            let mut o = self.seen.order.lock().unwrap();
            if o.len() < 4096 {
                o.push((id as u8, node as u16));
            }
        }
        if self.chaos != 0 {
            let t = TICK.with(|x| {
                x.set(x.get() + 1);
                x.get()
            });
            let h = mix64(self.chaos ^ mix64(t ^ ((id as u64) << 40)));
            match h % 64 {
                0 => {
                    self.seen.delays.fetch_add(1, Ordering::Relaxed);
                    std::thread::sleep(std::time::Duration::from_micros(h >> 58))
                }
                1..=6 => {
                    self.seen.delays.fetch_add(1, Ordering::Relaxed);
                    std::thread::yield_now()
                }
                7..=10 => {
                    self.seen.delays.fetch_add(1, Ordering::Relaxed);
                    for _ in 0..(h >> 54) {
                        std::hint::spin_loop()
                    }
                }
                _ => {}
            }
        }
    }
}
#[cfg(feature = "mon")]
impl<'a> NetworkProcess for Mon<'a> {
    fn initialize_adj_matrix(&mut self) {
        self.inner.initialize_adj_matrix()
    }
    fn add_node(&mut self, n: params::Params) -> Result<usize, process::NetworkError> {
        self.inner.add_node(n)
    }
    fn add_edge(&mut self, p: usize, c: usize) {
        self.inner.add_edge(p, c)
    }
    fn get_node_indices(&self) -> std::ops::Range<usize> {
        self.inner.get_node_indices()
    }
    fn get_number_of_nodes(&self) -> usize {
        self.inner.get_number_of_nodes()
    }
    fn get_node(&self, i: usize) -> &params::Params {
        self.hit(i);
        self.inner.get_node(i)
    }
    fn get_node_mut(&mut self, i: usize) -> &mut params::Params {
        self.inner.get_node_mut(i)
    }
    fn get_param_index_network(&self, i: usize, s: &NetworkProcessState) -> usize {
        self.inner.get_param_index_network(i, s)
    }
    fn get_param_index_from_custom_parent_set(
        &self,
        s: &Vec<params::StateType>,
        p: &BTreeSet<usize>,
    ) -> usize {
        self.inner.get_param_index_from_custom_parent_set(s, p)
    }
    fn get_parent_set(&self, i: usize) -> BTreeSet<usize> {
        self.inner.get_parent_set(i)
    }
    fn get_children_set(&self, i: usize) -> BTreeSet<usize> {
        self.hit(i);
        self.inner.get_children_set(i)
    }
}
#[cfg(not(feature = "mon"))]
pub type Mon<'a> = CtbnNetwork;

#[cfg(feature = "mon")]
fn wrap<'a>(net: CtbnNetwork, chaos: u64, log: bool, seen: &'a Seen) -> Mon<'a> {
    Mon {
        inner: net,
        chaos,
        log,
        seen,
    }
}
#[cfg(not(feature = "mon"))]
fn wrap<'a>(net: CtbnNetwork, _chaos: u64, _log: bool, _seen: &'a Seen) -> CtbnNetwork {
    net
}
#[cfg(feature = "mon")]
fn unwrap(m: Mon) -> CtbnNetwork {
    m.inner
}
#[cfg(not(feature = "mon"))]
fn unwrap(m: CtbnNetwork) -> CtbnNetwork {
    m
}

#[derive(PartialEq, Clone, Debug)]
enum Out {
    Edges(Vec<Vec<usize>>),
    Rewards(BTreeMap<Vec<usize>, u64>),
    /// The F test panicked on a state which is never left (known finding of C17 and C18): the
    /// same has to happen under every schedule.
    Starved,
}
/// A panic of `op`, except the one of the known finding, is a violation.
fn run(which: usize, f: impl FnOnce() -> Out) -> Res<Out> {
    match lib(OPS[which], f) {
        Err(v) if (2..4).contains(&which) && crate::props::structure::f_panic(&v) => Ok(Out::Starved),
        r => r,
    }
}
const OPS: [&str; 5] = [
    "HillClimbing(BIC)",
    "HillClimbing(LogLikelihood)",
    "CTPC(MLE)",
    "CTPC(Bayesian)",
    "evaluate_state_space",
];
struct Work {
    spec: NetSpec,
    ds: Dataset,
    rw: RW,
    seed: u64,
    cap: Option<usize>,
    iters: usize,
}
fn op(w: &Work, which: usize, chaos: u64, log: bool, seen: &Seen, plain: bool) -> Out {
    let mut r = Rng::new(w.seed);
    if which == 4 {
        let net = w.spec.build(&mut r);
        let f = w.rw.lib(&net);
        let mc = MonteCarloReward::new(
            w.iters,
            0.3,
            0.1,
            1.0,
            RewardCriteria::FiniteHorizon,
            Some(w.seed),
        );
        let m = if plain {
            mc.evaluate_state_space(&net, &f)
        } else {
            mc.evaluate_state_space(&wrap(net, chaos, log, seen), &f)
        };
        return Out::Rewards(m.iter().map(|(k, v)| (un(k), v.to_bits())).collect());
    }
    let net = NetSpec {
        card: w.spec.card.clone(),
        pa: vec![vec![]; w.spec.n()],
        cim: vec![],
    }
    .skeleton(&mut r);
    fn learn<T: NetworkProcess>(net: T, w: &Work, which: usize) -> T {
        match which {
            0 => HillClimbing::new(BIC::new(1, 1.0), w.cap).fit_transform(net, &w.ds),
            1 => HillClimbing::new(LogLikelihood::new(1, 1.0), w.cap).fit_transform(net, &w.ds),
            2 => CTPC::new(MLE {}, F::new(1e-3), ChiSquare::new(1e-3)).fit_transform(net, &w.ds),
            _ => CTPC::new(
                BayesianApproach { alpha: 1, tau: 1.0 },
                F::new(0.05),
                ChiSquare::new(0.05),
            )
            .fit_transform(net, &w.ds),
        }
    }
    if plain {
        Out::Edges(parents_of(&learn(net, w, which)))
    } else {
        Out::Edges(parents_of(&unwrap(learn(
            wrap(net, chaos, log, seen),
            w,
            which,
        ))))
    }
}
fn work(c: &mut Case, tiny: bool) -> Work {
    let card = if tiny {
        small_cards(&mut c.rng, 2, 3, 2)
    } else {
        small_cards(&mut c.rng, 3, 6, 3)
    };
    let dens = c.rng.range(0.2, 0.7);
    let spec = NetSpec::random(&mut c.rng, card, dens, 27, Some(Style::Dense), 1.0);
    let rows = if tiny { 30.0 } else { c.rng.logu(200.0, 4000.0) };
    let tot = spec.total_exit(&spec.random_state(&mut c.rng));
    let trajs: Vec<Traj> = (0..3)
        .map(|_| simulate(&spec, &mut c.rng, rows / 3.0 / tot, 2000))
        .collect();
    Work {
        rw: RW::random(&mut c.rng, &spec.card, 0.0, 2.0),
        ds: dataset(&trajs),
        spec,
        seed: c.rng.u64(),
        cap: if c.rng.chance(0.5) {
            None
        } else {
            Some(c.rng.below(4))
        },
        iters: if tiny { 5 } else { c.rng.int(5, 30) },
    }
}
pub fn c29(ctx: &Ctx, mode: &str) {
    let long = mode == "tsanlong" || mode == "asan";
    let tsan = mode == "tsan" || long;
    let miri = mode == "miri";
    ctx.rule("every parallel operation (both learning algorithms, reward of the state space) on rayon pools of 1-16 threads, with delays injected in the network queries, from concurrent OS threads sharing the same data and nested inside other parallel work: results are compared bit by bit with a one-thread run; observed threads, delays and query interleavings are counted; the same workload runs under ThreadSanitizer; non-trivial: at least two threads took part");
    let inter: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    if miri {
        // The global pool only (a dropped pool leaks its threads under the interpreter).
        ctx.cases("interpreted", 1, 1, |c| {
            let w = work(c, true);
            c.desc = w.spec.desc();
            for k in [0usize, 2, 4] {
                let seen = Seen::default();
                let a = run(k, || op(&w, k, 0, false, &seen, true))?;
                let b = run(k, || op(&w, k, 0, false, &seen, false))?;
                ensure!(a == b, "{}: two runs differ: {a:?} {b:?}", OPS[k]);
                c.ev("parallel operations compared", 1);
            }
            Ok(())
        });
        return;
    }
    let n = if long { 240 } else if tsan { 24 } else { 160 };
    ctx.cases("schedules", n, 8, |c| {
        let w = work(c, false);
        c.desc = w.spec.desc();
        let one = rayon::ThreadPoolBuilder::new()
            .num_threads(1)
            .build()
            .unwrap();
        let dummy = Seen::default();
        let mut multi = false;
        for k in 0..5 {
            let want = run(k, || {
                one.install(|| op(&w, k, 0, false, &dummy, true))
            })?;
            for _ in 0..3 {
                let threads = *c.rng.pick(&[2usize, 3, 4, 8, 16]);
                let pool = rayon::ThreadPoolBuilder::new()
                    .num_threads(threads)
                    .build()
                    .unwrap();
                let chaos = if c.rng.chance(0.8) { c.rng.u64() | 1 } else { 0 };
                let log = !tsan && c.rng.chance(0.5);
                let seen = Seen::default();
                let plain = c.rng.chance(0.1);
                let got = run(k, || {
                    pool.install(|| op(&w, k, chaos, log, &seen, plain))
                })?;
                ensure!(
                    got == want,
                    "{} on {threads} threads gives {got:?}, on one thread {want:?}",
                    OPS[k]
                );
                c.ev("parallel operations compared", 1);
                c.ev("network queries observed", seen.queries.load(Ordering::Relaxed));
                c.ev("delays injected", seen.delays.load(Ordering::Relaxed));
                let t = seen.threads.load(Ordering::Relaxed).count_ones();
                if t > 1 {
                    multi = true;
                    c.ev("operations with several threads", 1);
                }
                if log {
                    // thread numbers normalised by first appearance
                    let o = seen.order.lock().unwrap();
                    let mut names: BTreeMap<u8, u64> = BTreeMap::new();
                    let mut h = 0u64;
                    for (t, n) in o.iter() {
                        let l = names.len() as u64;
                        let id = *names.entry(*t).or_insert(l);
                        h = mix64(h ^ (id << 20) ^ *n as u64);
                    }
                    inter.lock().unwrap().insert(h);
                }
            }
        }
        c.nontrivial = multi;
        Ok(())
    });
    ctx.cases("shared", if long { 80 } else if tsan { 8 } else { 50 }, 8, |c| {
        let w = work(c, false);
        c.desc = w.spec.desc();
        let dummy = Seen::default();
        let one = rayon::ThreadPoolBuilder::new()
            .num_threads(1)
            .build()
            .unwrap();
        let want: Vec<Out> = (0..5)
            .map(|k| run(k, || one.install(|| op(&w, k, 0, false, &dummy, true))))
            .collect::<Res<_>>()?;
        let pool = rayon::ThreadPoolBuilder::new()
            .num_threads(c.rng.int(2, 6))
            .build()
            .unwrap();
        let seen = Seen::default();
        let seed = c.rng.u64();
        let bad: Mutex<Vec<Violation>> = Mutex::new(vec![]);
        let check = |k: usize, chaos: u64| match run(k, || op(&w, k, chaos, false, &seen, false)) {
            Err(e) => bad.lock().unwrap().push(e),
            Ok(g) => {
                if g != want[k] {
                    bad.lock().unwrap().push(Violation::new(format!(
                        "{} run concurrently gives {g:?}, alone {:?}",
                        OPS[k], want[k]
                    )))
                }
            }
        };
        // concurrent OS threads, one pool
        std::thread::scope(|sc| {
            for t in 0..4u64 {
                let (check, pool) = (&check, &pool);
                sc.spawn(move || {
                    let mut r = Rng::new(seed ^ t);
                    for _ in 0..3 {
                        let k = r.below(5);
                        let ch = r.u64() | 1;
                        pool.install(|| check(k, ch));
                    }
                });
            }
        });
        // nested in other parallel work
        pool.install(|| {
            rayon::join(
                || rayon::join(|| check(0, seed | 1), || check(2, seed)),
                || rayon::join(|| check(4, seed | 3), || check(3, seed)),
            )
        });
        c.ev("parallel operations compared", 16);
        c.ev("network queries observed", seen.queries.load(Ordering::Relaxed));
        if let Some(b) = bad.into_inner().unwrap().into_iter().next() {
            return Err(b);
        }
        Ok(())
    });
    ctx.note_event("distinct query interleavings", inter.into_inner().unwrap().len() as u64);
    if !tsan {
        ctx.require("parallel operations compared", 500);
    }
    let _ = || -> Res { fail!("") };
}
