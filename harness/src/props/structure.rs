//! C16-C19, C21, C32: structure learning.
use crate::core::*;
use crate::gen::*;
use crate::oracle::{self, Dec, Tester};
use crate::stats::*;
use ndarray::Array3;
use reCTBN::parameter_learning::*;
use reCTBN::params::*;
use reCTBN::process::{ctbn::CtbnNetwork, NetworkProcess};
use reCTBN::structure_learning::constraint_based_algorithm::*;
use reCTBN::structure_learning::hypothesis_test::*;
use reCTBN::structure_learning::score_based_algorithm::*;
use reCTBN::structure_learning::score_function::*;
use reCTBN::structure_learning::StructuralLearningAlgorithm;
use reCTBN::tools::*;
use std::collections::{BTreeMap, BTreeSet};

fn bare(card: &[usize]) -> CtbnNetwork {
    let mut net = CtbnNetwork::new();
    for (i, k) in card.iter().enumerate() {
        net.add_node(param(&format!("n{i}"), *k)).unwrap();
    }
    net
}
pub fn parents_of(net: &CtbnNetwork) -> Vec<Vec<usize>> {
    net.get_node_indices()
        .map(|i| net.get_parent_set(i).into_iter().collect())
        .collect()
}

// ---------------------------------------------------------------- C16
#[cfg(feature = "mon")]
mod table {
    use super::*;
    use reCTBN::process;
    use std::sync::atomic::{AtomicUsize, Ordering};
    use std::sync::Mutex;
    pub struct Table {
        pub seed: u64,
        pub kind: usize,
        pub calls: AtomicUsize,
        pub bad: Mutex<Option<String>>,
        pub n: usize,
    }
    impl Table {
        /// The parents of a node in the order in which they pay: descending, ascending or any.
        fn order(&self, node: usize) -> Vec<usize> {
            let mut o: Vec<usize> = (0..self.n).filter(|p| *p != node).collect();
            match self.seed % 4 {
                0 => {}
                1 => o.sort_by_key(|p| mix64(self.seed ^ *p as u64)),
                _ => o.reverse(),
            }
            o
        }
        pub fn value(&self, node: usize, set: &BTreeSet<usize>) -> f64 {
            if self.kind == 9 {
                // a path which adds all parents one by one and then removes them one by one: a single
                // move of each set on it is an improvement
                let o = self.order(node);
                let m = o.len();
                let inside = o.iter().take_while(|p| set.contains(p)).count();
                if inside == set.len() {
                    return inside as f64;
                }
                let outside = o.iter().take_while(|p| !set.contains(p)).count();
                if outside == m - set.len() {
                    return (m + outside) as f64;
                }
                return -1.0 - set.len() as f64;
            }
            let mut h = mix64(self.seed ^ (node as u64) << 32);
            for p in set {
                h = mix64(h ^ (*p as u64 + 1));
            }
            let u = (h >> 11) as f64 / (1u64 << 53) as f64;
            let w = |p: &usize| {
                mix64(self.seed ^ ((node as u64) << 20) ^ (*p as u64).wrapping_mul(77)) % 7
            };
            match self.kind {
                0 => u * 100.0 - 50.0,
                1 => (h % 4) as f64,
                2 => set.iter().map(|p| w(p) as f64 - 3.0).sum::<f64>() + u * 0.5,
                3 => set.iter().map(|p| w(p) as f64 - 3.0).sum::<f64>(),
                // pays only for pairs
                4 => {
                    let s: u64 = set.iter().map(w).sum();
                    if set.len() % 2 == 0 {
                        s as f64
                    } else {
                        s as f64 - 4.0
                    }
                }
                5 => -1e6 - u,
                6 => 10f64.powi(-12 - (self.seed % 4 * 60) as i32) * u,
                10 => -1e6 - 1e-7 * u,
                // some sets are impossible
                8 if h % 3 == 0 => f64::NEG_INFINITY,
                8 => set.iter().map(|p| w(p) as f64 - 3.0).sum::<f64>() + u * 0.5,
                _ => 0.0,
            }
        }
    }
    impl ScoreFunction for Table {
        fn call<T: process::NetworkProcess>(
            &self,
            _net: &T,
            node: usize,
            set: &BTreeSet<usize>,
            _d: &Dataset,
        ) -> f64 {
            self.calls.fetch_add(1, Ordering::Relaxed);
            if set.contains(&node) || set.iter().any(|x| *x >= self.n) || node >= self.n {
                *self.bad.lock().unwrap() =
                    Some(format!("score requested for node {node} with parents {set:?}"));
            }
            self.value(node, set)
        }
    }
    impl ScoreFunction for &'static Table {
        fn call<T: process::NetworkProcess>(
            &self,
            net: &T,
            node: usize,
            set: &BTreeSet<usize>,
            d: &Dataset,
        ) -> f64 {
            (**self).call(net, node, set, d)
        }
    }
    /// C21 on scores with many local optima.
    pub fn starts(ctx: &Ctx) {
        ctx.cases("tables", 120, 12, |c| {
            let n = match c.rng.below(12) {
                0 => c.rng.int(66, 140),
                1 | 2 => c.rng.int(17, 40),
                3..=5 => c.rng.int(8, 16),
                _ => c.rng.int(2, 8),
            };
            let cap = match c.rng.below(3) {
                0 => None,
                1 => Some(c.rng.below(4)),
                _ => Some(c.rng.below(n + 2)),
            };
            let kind = match n {
                41.. => *c.rng.pick(&[0, 3, 4, 8]),
                _ => c.rng.below(10),
            };
            let card = vec![2; n];
            let t: &'static Table = Box::leak(Box::new(Table {
                seed: c.rng.u64(),
                kind,
                calls: AtomicUsize::new(0),
                bad: Mutex::new(None),
                n,
            }));
            let tr = random_trajs(&mut c.rng, &card, 1, 4, false);
            let ds = dataset(&tr);
            c.desc = format!("n={n} maximum={cap:?} table kind={kind}");
            c.mix(c.rng.clone().u64());
            let hc = HillClimbing::new(t, cap);
            let want = parents_of(&lib("HillClimbing", || hc.fit_transform(bare(&card), &ds))?);
            for k in 0..3 {
                let dens = match k {
                    0 => c.rng.f(),
                    _ => c.rng.range(0.2, 3.0) / n as f64,
                };
                let mut net = bare(&card);
                let mut before: Vec<Vec<usize>> = vec![vec![]; n];
                for a in 0..n {
                    for b in 0..n {
                        if a != b && c.rng.chance(dens) {
                            net.add_edge(a, b);
                            before[b].push(a);
                        }
                    }
                }
                let used = c.rng.chance(0.5);
                let out = lib("HillClimbing", || {
                    if used {
                        hc.fit_transform(net, &ds)
                    } else {
                        HillClimbing::new(t, cap).fit_transform(net, &ds)
                    }
                })?;
                let got = parents_of(&out);
                for i in 0..n {
                    ensure!(
                        got[i] == want[i],
                        "node {i}: parents {:?} instead of {:?} when it had {:?} before",
                        got[i],
                        want[i],
                        before[i]
                    );
                }
                c.nontrivial = before.iter().any(|p| !p.is_empty());
                c.ev("networks compared", 1);
            }
            Ok(())
        });
    }
    pub fn run(ctx: &Ctx) {
        ctx.cases("tables", 1500, 12, |c| {
            let huge = c.rng.chance(0.01);
            let long = !huge && c.rng.chance(0.01);
            let n = match c.rng.below(8) {
                _ if long => c.rng.int(30, 70),
                _ if huge => c.rng.int(66, 280),
                0 => c.rng.int(12, 40),
                1 => 1,
                _ => c.rng.int(2, 8),
            };
            let cap = match c.rng.below(3) {
                0 => None,
                1 => Some(c.rng.below(4)),
                _ => Some(c.rng.below(n + 2)),
            };
            let kind = match () {
                _ if huge => c.rng.int(2, 3),
                _ if long => 9,
                _ => c.rng.below(11),
            };
            let cap = if long && c.rng.chance(0.7) { None } else { cap };
            c.desc = format!("n={n} maximum={cap:?} table kind={kind}");
            c.mix(c.rng.clone().u64());
            let t: &'static Table = Box::leak(Box::new(Table {
                seed: c.rng.u64(),
                kind,
                calls: AtomicUsize::new(0),
                bad: Mutex::new(None),
                n,
            }));
            let card = vec![2; n];
            let net = bare(&card);
            let tr = random_trajs(&mut c.rng, &card, 1, 4, false);
            let hc = HillClimbing::new(t, cap);
            let net = lib("HillClimbing", || hc.fit_transform(net, &dataset(&tr)))?;
            if let Some(b) = t.bad.lock().unwrap().take() {
                fail!("{b}");
            }
            let pa = parents_of(&net);
            let mut moves = 0;
            for i in 0..n {
                ensure!(!pa[i].contains(&i), "node {i} is its own parent");
                if let Some(m) = cap {
                    ensure!(
                        pa[i].len() <= m,
                        "node {i} has {} parents, at most {m} are allowed",
                        pa[i].len()
                    );
                }
                let cur: BTreeSet<usize> = pa[i].iter().cloned().collect();
                let v = t.value(i, &cur);
                for p in 0..n {
                    if p == i {
                        continue;
                    }
                    let mut s = cur.clone();
                    if !s.remove(&p) {
                        if cap.map_or(false, |m| s.len() >= m) {
                            continue;
                        }
                        s.insert(p);
                    }
                    let w = t.value(i, &s);
                    moves += 1;
                    ensure!(
                        w <= v,
                        "node {i}: parents {cur:?} score {v}, {s:?} is one move away and scores {w} (maximum {cap:?})"
                    );
                }
                ensure!(
                    v >= t.value(i, &BTreeSet::new()),
                    "node {i}: worse than no parents"
                );
            }
            c.ev("neighbouring parent sets compared", moves);
            c.ev("score requests observed", t.calls.load(Ordering::Relaxed));
            c.nontrivial = pa.iter().any(|p| !p.is_empty());
            Ok(())
        });
    }
}

fn real_scores(c: &mut Case) -> Res {
    let card = small_cards(&mut c.rng, 2, 6, 3);
    let n = card.len();
    let dens = c.rng.f();
    let mut spec = NetSpec::random(&mut c.rng, card, dens, 27, Some(Style::Dense), 1.0);
    let te = c.rng.logu(2.0, 60.0);
    let mut trajs: Vec<Traj> = if c.rng.chance(0.8) {
        (0..c.rng.int(1, 10))
            .map(|_| simulate(&spec, &mut c.rng, te, 3000))
            .collect()
    } else {
        random_trajs(&mut c.rng, &spec.card, 4, 60, true)
    };
    let unit = time_unit(&mut c.rng);
    change_unit(&mut spec, &mut trajs, unit);
    let bic = c.rng.chance(0.5);
    let alpha = c.rng.int(1, 5);
    let tau = c.rng.range(0.1, 3.0) * if c.rng.chance(0.7) { unit } else { 1.0 };
    let cap = if c.rng.chance(0.5) {
        None
    } else {
        Some(c.rng.below(n + 1))
    };
    c.desc = format!(
        "{} rows={} {} alpha={alpha} tau={tau:e} maximum={cap:?}",
        spec.desc(),
        trajs.iter().map(|t| t.t.len()).sum::<usize>(),
        if bic { "BIC" } else { "LogLikelihood" }
    );
    let ds = dataset(&trajs);
    let net = bare(&spec.card);
    let net = lib("HillClimbing", || {
        if bic {
            HillClimbing::new(BIC::new(alpha, tau), cap).fit_transform(net, &ds)
        } else {
            HillClimbing::new(LogLikelihood::new(alpha, tau), cap).fit_transform(net, &ds)
        }
    })?;
    let size: usize = trajs.iter().map(|x| x.t.len() - 1).sum();
    let score = |i: usize, set: &[usize]| {
        let (m, t) = oracle::suff(&spec.card, &trajs, i, set);
        let s = oracle::log_lik(&m, &t, alpha as f64, tau);
        let pen = if bic {
            (size as f64).ln() / 2.0 * oracle::n_params(&m)
        } else {
            0.0
        };
        (s.v - pen, s.mag + pen)
    };
    let pa = parents_of(&net);
    for i in 0..n {
        ensure!(!pa[i].contains(&i), "node {i} is its own parent");
        if let Some(m) = cap {
            ensure!(pa[i].len() <= m, "node {i}: {} parents, maximum {m}", pa[i].len());
        }
        let (v, mag) = score(i, &pa[i]);
        for p in 0..n {
            if p == i {
                continue;
            }
            let mut s = pa[i].clone();
            if let Some(k) = s.iter().position(|x| *x == p) {
                s.remove(k);
            } else {
                if cap.map_or(false, |m| s.len() >= m) {
                    continue;
                }
                s.push(p);
                s.sort();
            }
            let (w, mag2) = score(i, &s);
            ensure!(
                w <= v + 1e-10 * (mag + mag2) + 1e-9,
                "node {i}: parents {:?} score {v}, {s:?} is one move away and scores {w}",
                pa[i]
            );
            c.ev("neighbouring parent sets compared", 1);
        }
    }
    c.nontrivial = pa.iter().any(|p| !p.is_empty());
    Ok(())
}
pub fn c16(ctx: &Ctx) {
    ctx.rule("hill climbing on arbitrary score tables (random, tied, additive, pairwise, constant, with impossible sets, or with a single improving move out of each set, up to 138 moves; 1-280 variables, caps from none to 0) and on the library scores over simulated data: every single addition or removal from the result is scored independently; non-trivial: some node received parents");
    #[cfg(feature = "mon")]
    table::run(ctx);
    ctx.cases("scores", 260, 12, real_scores);
    ctx.require("neighbouring parent sets compared", 5000);
}

// ---------------------------------------------------------------- C17
fn alpha(rng: &mut Rng) -> f64 {
    match rng.below(4) {
        0 => rng.logu(1e-12, 1e-4),
        1 => rng.range(0.05, 0.6),
        _ => rng.logu(1e-4, 0.1),
    }
}
pub const F_SIG: &str = "f-test-state-never-left";
pub const CHI_SIG: &str = "chi-squared-unobserved-transition";
/// The panic of the F test on states which are never left (known finding).
pub fn f_panic(v: &Violation) -> bool {
    v.msg.contains("panicked") && v.msg.contains("BadParams")
}
fn known(mut v: Violation, sig: &str) -> Violation {
    v.sig = Some(sig.into());
    v
}
/// Can a test with all the other variables as parents meet a state which is never left?
pub fn starved(card: &[usize], trajs: &[Traj]) -> bool {
    (0..card.len()).any(|i| {
        let others: Vec<usize> = (0..card.len()).filter(|x| *x != i).collect();
        let (m, _) = oracle::suff(card, trajs, i, &others);
        m.iter().any(|m| oracle::never_left(m, m))
    })
}
/// Conditional independences fixed in advance: the parameters of a node depend on the set of its
/// parents only.
#[cfg(feature = "mon")]
mod oracle_params {
    use super::*;
    use std::sync::atomic::{AtomicUsize, Ordering};
    use std::sync::Mutex;
    pub struct Planned {
        pub seed: u64,
        pub levels: u64,
        pub card: Vec<usize>,
        /// Sets whose rate (transitions) are those of another set.
        pub same: BTreeMap<(usize, Vec<usize>), Vec<usize>>,
        pub asked: AtomicUsize,
        /// Far more requests than any search needs.
        pub budget: AtomicUsize,
        /// Size of the largest parent set any search needs.
        pub most: AtomicUsize,
        pub bad: Mutex<Option<String>>,
    }
    pub const LAYERED: u64 = 1000;
    impl Planned {
        /// (rate, direction of the transitions)
        pub fn value(&self, node: usize, set: &[usize]) -> (u64, bool) {
            let mut set = set.to_vec();
            let mut guard = 0;
            while let Some(s) = self.same.get(&(node, set.clone())) {
                set = s.clone();
                guard += 1;
                assert!(guard < 100);
            }
            let mut h = mix64(self.seed ^ (node as u64) << 32);
            for p in &set {
                h = mix64(h ^ (*p as u64 + 1));
            }
            let dir = self.card[node] > 2 && self.levels % 2 == 1 && (h >> 40) & 1 == 1;
            if self.levels == LAYERED {
                // sets of different size are never alike unless planned
                return (10 * set.len() as u64 + h % 10, dir);
            }
            (h % self.levels, dir)
        }
        pub fn indep(&self, node: usize, p: usize, sep: &[usize]) -> bool {
            let mut big = sep.to_vec();
            big.push(p);
            big.sort();
            self.value(node, sep) == self.value(node, &big)
        }
        /// Parents of all nodes; also limits the requests to several times what is needed.
        pub fn all(&self, runs: usize, tests: &mut usize) -> Vec<Vec<usize>> {
            let v = (0..self.card.len()).map(|i| self.parents(i, tests)).collect();
            self.budget.store(runs * (8 * *tests + 1000), Ordering::Relaxed);
            v
        }
        pub fn parents(&self, child: usize, tests: &mut usize) -> Vec<usize> {
            let mut cand: Vec<usize> = (0..self.card.len()).filter(|x| *x != child).collect();
            let mut size = 0;
            while size < cand.len() {
                let keep: Vec<usize> = cand
                    .iter()
                    .cloned()
                    .filter(|p| {
                        let others: Vec<usize> =
                            cand.iter().cloned().filter(|x| x != p).collect();
                        !oracle::combinations(&others, size).iter().any(|s| {
                            *tests += 1;
                            self.indep(child, *p, s)
                        })
                    })
                    .collect();
                cand = keep;
                size += 1;
                self.most.fetch_max(size, Ordering::Relaxed);
            }
            cand
        }
    }
    impl ParameterLearning for &'static Planned {
        fn fit<T: NetworkProcess>(
            &self,
            net: &T,
            _d: &Dataset,
            node: usize,
            set: Option<BTreeSet<usize>>,
        ) -> Params {
            if self.asked.fetch_add(1, Ordering::Relaxed) > self.budget.load(Ordering::Relaxed) {
                panic!("the search does not end: parameters are requested again and again");
            }
            let set: Vec<usize> = set.unwrap_or_else(|| net.get_parent_set(node)).into_iter().collect();
            if set.contains(&node) || set.iter().any(|x| *x >= self.card.len()) {
                *self.bad.lock().unwrap() =
                    Some(format!("parameters requested for node {node} with parents {set:?}"));
                return param("bad", 2);
            }
            if set.len() > self.most.load(Ordering::Relaxed) + 2 {
                panic!("the search goes on to {} parents of node {node}", set.len());
            }
            let nc: usize = set.iter().map(|x| self.card[*x]).product();
            let k = self.card[node];
            let (e, dir) = self.value(node, &set);
            let q = 1e-9 * 4f64.powi(e as i32);
            let share = |x: usize, y: usize| {
                if k == 2 {
                    1.0
                } else if y == if dir { (x + 1) % k } else { (x + k - 1) % k } {
                    0.9
                } else {
                    0.1 / (k - 2) as f64
                }
            };
            let m = Array3::from_shape_fn((nc, k, k), |(_, x, y)| {
                if x == y {
                    0
                } else {
                    (share(x, y) * 1000.0).round() as usize
                }
            });
            let cim = Array3::from_shape_fn((nc, k, k), |(_, x, y)| {
                if x == y {
                    -q
                } else {
                    share(x, y) * q
                }
            });
            let rt = ndarray::Array2::from_elem((nc, k), 1000.0 / q);
            let mut p = param(&format!("n{node}"), k);
            let r = inner_mut(&mut p);
            r.set_transitions(m);
            r.set_residence_time(rt);
            let _ = r.set_cim(cim);
            p
        }
    }
    /// C21 for CTPC with arbitrary systems of independences.
    pub fn starts(ctx: &Ctx) {
        ctx.cases("planned independences", 60, 12, |c| {
            let n = match c.rng.below(10) {
                0 => c.rng.int(66, 100),
                1 => c.rng.int(8, 12),
                _ => c.rng.int(2, 7),
            };
            let card = vec![2; n];
            // few levels in wide networks: most variables are separated at once
            let levels = if n > 7 { c.rng.int(1, 2) } else { c.rng.int(2, 28) } as u64;
            let t: &'static Planned = Box::leak(Box::new(Planned {
                seed: c.rng.u64(),
                levels,
                card: card.clone(),
                same: BTreeMap::new(),
                asked: AtomicUsize::new(0),
                budget: AtomicUsize::new(usize::MAX),
                most: AtomicUsize::new(0),
                bad: Mutex::new(None),
            }));
            let tr = random_trajs(&mut c.rng, &card, 1, 4, false);
            let ds = dataset(&tr);
            c.desc = format!("{n} variables levels={levels}");
            c.mix(c.rng.clone().u64());
            t.all(4, &mut 0);
            let pc = CTPC::new(t, F::new(1e-3), ChiSquare::new(1e-3));
            let want = parents_of(&lib("CTPC", || pc.fit_transform(bare(&card), &ds))?);
            for k in 0..3 {
                let dens = match k {
                    0 => c.rng.f(),
                    _ => c.rng.range(0.2, 3.0) / n as f64,
                };
                let mut net = bare(&card);
                let mut before: Vec<Vec<usize>> = vec![vec![]; n];
                for a in 0..n {
                    for b in 0..n {
                        if a != b && c.rng.chance(dens) {
                            net.add_edge(a, b);
                            before[b].push(a);
                        }
                    }
                }
                let got = parents_of(&lib("CTPC", || pc.fit_transform(net, &ds))?);
                for i in 0..n {
                    ensure!(
                        got[i] == want[i],
                        "node {i}: parents {:?} instead of {:?} when it had {:?} before",
                        got[i],
                        want[i],
                        before[i]
                    );
                }
                c.nontrivial = before.iter().any(|p| !p.is_empty());
                c.ev("networks compared", 1);
            }
            Ok(())
        });
    }
    pub fn run(ctx: &Ctx) {
        ctx.cases("planned independences", 300, 12, |c| {
            let wide = c.rng.chance(0.12);
            let n = match c.rng.below(8) {
                _ if wide => c.rng.int(10, 13),
                0 => c.rng.int(8, 9),
                _ => c.rng.int(1, 7),
            };
            let card: Vec<usize> = (0..n)
                .map(|_| {
                    if n > 7 || c.rng.chance(0.6) {
                        2
                    } else {
                        c.rng.int(3, 4)
                    }
                })
                .collect();
            let kind = if wide { 2 } else { c.rng.below(3) };
            let levels = match kind {
                0 => c.rng.int(2, 5),
                1 => c.rng.int(5, 28),
                _ if c.rng.chance(0.5) => LAYERED as usize,
                _ => c.rng.int(25, 28),
            } as u64;
            let mut same = BTreeMap::new();
            if kind == 2 {
                for child in 0..n {
                    let mut cand: Vec<usize> = (0..n).filter(|x| *x != child).collect();
                    c.rng.shuffle(&mut cand);
                    // many candidates which stay up to the larger separating sets
                    let late = wide && c.rng.chance(0.5);
                    let true_parents = if late && c.rng.chance(0.5) {
                        c.rng.below(cand.len())
                    } else {
                        c.rng.below(cand.len().min(3) + 1)
                    };
                    for p in cand.clone().into_iter().skip(true_parents) {
                        let mut others: Vec<usize> =
                            cand.iter().cloned().filter(|x| *x != p).collect();
                        let most = others.len().min(if wide { 3 } else { 8 });
                        let k = if late && c.rng.chance(0.9) { most } else { c.rng.below(most + 1) };
                        if c.rng.chance(0.5) {
                            c.rng.shuffle(&mut others);
                        } else {
                            // the last set in lexicographic order
                            others.sort();
                            others.reverse();
                        }
                        let mut s: Vec<usize> = others.into_iter().take(k).collect();
                        s.sort();
                        let mut b = s.clone();
                        b.push(p);
                        b.sort();
                        // larger sets refer to smaller ones: no cycles
                        same.entry((child, b)).or_insert(s);
                    }
                }
            }
            let (af, ac) = (alpha(&mut c.rng), alpha(&mut c.rng));
            c.desc = format!("{n} variables card={card:?} kind={kind} levels={levels} alphaF={af:e} alphaChi={ac:e} sets={}", same.len());
            c.mix(c.rng.clone().u64());
            let t: &'static Planned = Box::leak(Box::new(Planned {
                seed: c.rng.u64(),
                levels,
                card: card.clone(),
                same,
                asked: AtomicUsize::new(0),
                budget: AtomicUsize::new(usize::MAX),
                most: AtomicUsize::new(0),
                bad: Mutex::new(None),
            }));
            let mut tests = 0;
            let wanted = t.all(1, &mut tests);
            let net = bare(&card);
            let tr = random_trajs(&mut c.rng, &card, 1, 4, false);
            let net = lib("CTPC", || {
                CTPC::new(t, F::new(af), ChiSquare::new(ac)).fit_transform(net, &dataset(&tr))
            })?;
            if let Some(b) = t.bad.lock().unwrap().take() {
                fail!("{b}");
            }
            let pa = parents_of(&net);
            let (mut kept, mut removed) = (0, 0);
            for i in 0..n {
                let want = &wanted[i];
                ensure!(
                    pa[i] == *want,
                    "node {i}: learned parents {:?}, the planned independences give {want:?}",
                    pa[i]
                );
                c.ev("parent sets compared", 1);
                kept += want.len();
                removed += n - 1 - want.len();
            }
            c.ev("planned tests", tests);
            c.ev("parameters requested", t.asked.load(Ordering::Relaxed));
            c.ev("edges kept", kept);
            c.ev("edges removed", removed);
            c.nontrivial = kept > 0 && removed > 0;
            Ok(())
        });
        // one node with thousands of separating sets, of which the last ones separate
        ctx.cases("many separating sets", 2, 10, |c| {
            let n = c.rng.int(16, 21);
            let card = vec![2; n];
            let child = c.rng.below(n);
            let k = c.rng.int(3, 4);
            let mut same = BTreeMap::new();
            for i in 0..n {
                let mut cand: Vec<usize> = (0..n).filter(|x| *x != i).collect();
                c.rng.shuffle(&mut cand);
                let np = if i == child { c.rng.below(4) } else { 0 };
                for p in cand.iter().skip(np) {
                    let mut s: Vec<usize> = if i == child {
                        let mut o: Vec<usize> = (0..n).filter(|x| x != p && *x != i).collect();
                        o.reverse();
                        // at or near the end of the lexicographic order
                        let from = c.rng.below(3);
                        o.into_iter().skip(from).take(k).collect()
                    } else {
                        vec![]
                    };
                    s.sort();
                    let mut b = s.clone();
                    b.push(*p);
                    b.sort();
                    same.entry((i, b)).or_insert(s);
                }
            }
            c.desc = format!("{n} variables, node {child} with separating sets of {k}");
            c.mix(c.rng.clone().u64());
            let t: &'static Planned = Box::leak(Box::new(Planned {
                seed: c.rng.u64(),
                levels: LAYERED,
                card: card.clone(),
                same,
                asked: AtomicUsize::new(0),
                budget: AtomicUsize::new(usize::MAX),
                most: AtomicUsize::new(0),
                bad: Mutex::new(None),
            }));
            let mut tests = 0;
            let wanted = t.all(1, &mut tests);
            let net = bare(&card);
            let tr = random_trajs(&mut c.rng, &card, 1, 4, false);
            let net = lib("CTPC", || {
                CTPC::new(t, F::new(1e-3), ChiSquare::new(1e-3)).fit_transform(net, &dataset(&tr))
            })?;
            if let Some(b) = t.bad.lock().unwrap().take() {
                fail!("{b}");
            }
            let pa = parents_of(&net);
            for i in 0..n {
                let want = &wanted[i];
                ensure!(
                    pa[i] == *want,
                    "node {i} of {n}: learned parents {:?}, the planned independences give {want:?}",
                    pa[i]
                );
                c.ev("parent sets compared", 1);
                c.ev("edges kept", want.len());
                c.ev("edges removed", n - 1 - want.len());
            }
            c.ev("planned tests", tests);
            Ok(())
        });
        // many variables, nearly all of them separated at once
        ctx.cases("many variables", 3, 10, |c| {
            let n = c.rng.int(66, 280);
            let card = vec![2; n];
            let mut same = BTreeMap::new();
            for child in 0..n {
                let mut cand: Vec<usize> = (0..n).filter(|x| *x != child).collect();
                c.rng.shuffle(&mut cand);
                let np = c.rng.below(4);
                for (j, p) in cand.iter().enumerate().skip(np) {
                    let k = if j < np + 3 { c.rng.below(3) } else { 0 };
                    let mut s: Vec<usize> = cand.iter().filter(|x| *x != p).take(k).cloned().collect();
                    s.sort();
                    let mut b = s.clone();
                    b.push(*p);
                    b.sort();
                    same.entry((child, b)).or_insert(s);
                }
            }
            c.desc = format!("{n} variables");
            c.mix(c.rng.clone().u64());
            let t: &'static Planned = Box::leak(Box::new(Planned {
                seed: c.rng.u64(),
                levels: LAYERED,
                card: card.clone(),
                same,
                asked: AtomicUsize::new(0),
                budget: AtomicUsize::new(usize::MAX),
                most: AtomicUsize::new(0),
                bad: Mutex::new(None),
            }));
            let mut tests = 0;
            let wanted = t.all(1, &mut tests);
            let net = bare(&card);
            let tr = random_trajs(&mut c.rng, &card, 1, 4, false);
            let net = lib("CTPC", || {
                CTPC::new(t, F::new(1e-3), ChiSquare::new(1e-3)).fit_transform(net, &dataset(&tr))
            })?;
            if let Some(b) = t.bad.lock().unwrap().take() {
                fail!("{b}");
            }
            let pa = parents_of(&net);
            for i in 0..n {
                let want = &wanted[i];
                ensure!(
                    pa[i] == *want,
                    "node {i} of {n}: learned parents {:?}, the planned independences give {want:?}",
                    pa[i]
                );
                c.ev("parent sets compared", 1);
                c.ev("edges kept", want.len());
                c.ev("edges removed", n - 1 - want.len());
            }
            c.ev("planned tests", tests);
            Ok(())
        });
    }
}
pub fn c17(ctx: &Ctx) {
    ctx.rule("simulated and arbitrary datasets over 2-7 variables, maximum likelihood and Bayesian parameters, random significance levels: learned parents against an order independent PC search with independent test decisions (nodes with a decision at its threshold are skipped), and arbitrary systems of independences planted through the learned parameters (1-13 variables, 16-21 with thousands of separating sets for one node, and 66-280 nearly all separated at once; separating sets of chosen size and position); non-trivial: at least one parent kept and one removed");
    #[cfg(feature = "mon")]
    oracle_params::run(ctx);
    ctx.cases("searches", 400, 12, |c| {
        let small = c.rng.chance(0.85);
        let mut card = if small {
            small_cards(&mut c.rng, 2, 5, 3)
        } else {
            small_cards(&mut c.rng, 6, 7, 2)
        };
        if c.rng.chance(0.1) {
            card[0] = c.rng.int(4, 6);
        }
        let n = card.len();
        let dens = c.rng.range(0.1, 0.8);
        let mut spec = NetSpec::random(&mut c.rng, card, dens, 27, Some(Style::Dense), 1.0);
        let joint = spec.card.iter().product::<usize>() as f64;
        let rows = if c.rng.chance(0.15) {
            c.rng.logu(30.0, 6000.0)
        } else {
            (joint * c.rng.logu(10.0, 150.0)).min(15000.0)
        };
        let mut trajs: Vec<Traj> = if joint > 20.0 || c.rng.chance(0.85) {
            let nt = c.rng.int(1, 6);
            let tot = spec.total_exit(&spec.random_state(&mut c.rng));
            (0..nt)
                .map(|_| simulate(&spec, &mut c.rng, rows / nt as f64 / tot, 15000))
                .collect()
        } else {
            random_trajs(&mut c.rng, &spec.card, 3, 200, false)
        };
        let (af, ac) = (alpha(&mut c.rng), alpha(&mut c.rng));
        let bayes = c.rng.chance(0.4);
        let unit = time_unit(&mut c.rng);
        change_unit(&mut spec, &mut trajs, unit);
        let (a, t) = (c.rng.int(1, 4), c.rng.range(0.2, 3.0) * unit);
        c.desc = format!(
            "{} rows={} alphaF={af:e} alphaChi={ac:e} {}",
            spec.desc(),
            trajs.iter().map(|t| t.t.len()).sum::<usize>(),
            if bayes {
                format!("Bayesian({a},{t:e})")
            } else {
                "MLE".into()
            }
        );
        let ds = dataset(&trajs);
        let net = bare(&spec.card);
        let net = lib("CTPC", || {
            if bayes {
                CTPC::new(BayesianApproach { alpha: a, tau: t }, F::new(af), ChiSquare::new(ac))
                    .fit_transform(net, &ds)
            } else {
                CTPC::new(MLE {}, F::new(af), ChiSquare::new(ac)).fit_transform(net, &ds)
            }
        });
        let mut tester = Tester {
            card: &spec.card,
            trajs: &trajs,
            alpha_f: af,
            alpha_chi: ac,
            prior: if bayes { (a as f64, t) } else { (0.0, 0.0) },
            cache: BTreeMap::new(),
        };
        let net = match net {
            Ok(n) => n,
            Err(v) => {
                c.nontrivial = false;
                c.ev("searches which panicked", 1);
                if f_panic(&v)
                    && (0..n).any(|i| oracle::ctpc_parents(&mut tester, i, n, true, true).never_left)
                {
                    c.known.push(known(v, F_SIG));
                    return Ok(());
                }
                return Err(v);
            }
        };
        let pa = parents_of(&net);
        let (mut kept, mut removed) = (0, 0);
        for i in 0..n {
            let w = oracle::ctpc_parents(&mut tester, i, n, false, false);
            let q = oracle::ctpc_parents(&mut tester, i, n, true, false);
            c.ev("conditional independence decisions", w.tests);
            match (w.parents, q.parents) {
                (Some(w), q) => {
                    if pa[i] != w {
                        let v = Violation::new(format!(
                            "node {i}: learned parents {:?}, the search gives {w:?}",
                            pa[i]
                        ));
                        match q {
                            None => {
                                c.ev("nodes skipped (decision at its threshold)", 1);
                                continue;
                            }
                            Some(q) if pa[i] == q => {
                                c.known.push(known(v, CHI_SIG));
                                c.ev("parent sets as in the known finding", 1);
                            }
                            _ => return Err(v),
                        }
                    } else {
                        c.ev("parent sets compared", 1);
                    }
                    kept += pa[i].len();
                    removed += n - 1 - pa[i].len();
                }
                _ => c.ev("nodes skipped (decision at its threshold)", 1),
            }
        }
        c.ev("edges kept", kept);
        c.ev("edges removed", removed);
        c.nontrivial = kept > 0 && removed > 0;
        Ok(())
    });
    ctx.require("parent sets compared", 1000);
    ctx.require("edges kept", 300);
    ctx.require("edges removed", 300);
}

// ---------------------------------------------------------------- C18, C19
fn random_counts(rng: &mut Rng, k: usize) -> Vec<Vec<u64>> {
    let big = if rng.chance(0.1) { rng.logu(3000.0, 3e5) / k as f64 } else { rng.logu(1.0, 3000.0) };
    let empty_row = rng.chance(0.1);
    let p0 = if rng.chance(0.3) { 0.15 } else { 0.0 };
    let skip = rng.below(k);
    (0..k)
        .map(|x| {
            (0..k)
                .map(|y| {
                    if x == y || rng.chance(p0) || (empty_row && x == skip) {
                        0
                    } else {
                        (big * rng.f()) as u64 + (p0 == 0.0) as u64
                    }
                })
                .collect()
        })
        .collect()
}
fn perturb(rng: &mut Rng, m: &[Vec<u64>]) -> Vec<Vec<u64>> {
    let mode = rng.below(4);
    let f = rng.logu(0.3, 3.0);
    let k = m.len();
    let pick = (rng.below(k), rng.below(k));
    let mut o: Vec<Vec<u64>> = m.to_vec();
    for x in 0..k {
        for y in 0..k {
            if x != y {
                o[x][y] = match mode {
                    0 => m[x][y],
                    1 => (m[x][y] as f64 * f) as u64,
                    2 => {
                        let s = (m[x][y] as f64).sqrt();
                        (m[x][y] as f64 + s * rng.range(-2.0, 2.0)).max(0.0) as u64
                    }
                    _ => {
                        if (x, y) == pick {
                            (m[x][y] as f64 * f + 5.0) as u64
                        } else {
                            m[x][y]
                        }
                    }
                };
            }
        }
    }
    o
}
fn arr(m: &[Vec<Vec<u64>>]) -> Array3<usize> {
    let k = m[0].len();
    Array3::from_shape_fn((m.len(), k, k), |(a, b, c)| m[a][b][c] as usize)
}
fn arrf(m: &[Vec<Vec<f64>>]) -> Array3<f64> {
    let k = m[0].len();
    Array3::from_shape_fn((m.len(), k, k), |(a, b, c)| m[a][b][c])
}
fn decide(c: &mut Case, got: bool, want: Dec, unobserved: bool, what: &str) -> Res {
    match want {
        Dec::Indep if unobserved && !got => {
            c.ev("decisions as in the known finding", 1);
            c.known.push(known(
                Violation::new(format!("{what}: dependence reported without evidence")),
                CHI_SIG,
            ));
        }
        Dec::Unsure => c.ev("decisions skipped (at the threshold)", 1),
        Dec::Indep => {
            ensure!(got, "{what}: dependence reported, the statistic is inside the acceptance region");
            c.ev("independent", 1);
        }
        Dec::Dep => {
            ensure!(!got, "{what}: independence reported, the statistic is in the rejection region");
            c.ev("dependent", 1);
        }
    }
    Ok(())
}
fn test_case(c: &mut Case, chi: bool) -> Res {
    let d = super::learn::data(&mut c.rng, false);
    let n = d.spec.n();
    if n < 2 {
        c.nontrivial = false;
        return Ok(());
    }
    let child = c.rng.below(n);
    let parent = (child + 1 + c.rng.below(n - 1)) % n;
    let mut sep = if c.rng.chance(0.05) {
        subset(&mut c.rng, n, child, &d.spec.card, 2048, 11)
    } else {
        subset(&mut c.rng, n, child, &d.spec.card, 64, 5)
    };
    sep.retain(|x| *x != parent);
    let al = alpha(&mut c.rng);
    let bayes = c.rng.chance(0.5);
    let (a, t) = (c.rng.int(1, 4), c.rng.range(0.2, 3.0));
    c.desc = format!(
        "{} child={child} parent={parent} separating={sep:?} alpha={al:e} {}",
        d.desc,
        if bayes { "Bayesian" } else { "MLE" }
    );
    let mut tester = Tester {
        card: &d.spec.card,
        trajs: &d.trajs,
        alpha_f: al,
        alpha_chi: al,
        prior: if bayes { (a as f64, t) } else { (0.0, 0.0) },
        cache: BTreeMap::new(),
    };
    let want = tester.tests(child, parent, &sep);
    let set: BTreeSet<usize> = sep.iter().cloned().collect();
    let got = lib("test", || {
        if bayes {
            let pl = BayesianApproach { alpha: a, tau: t };
            let mut cache = Cache::new(&pl);
            if chi {
                ChiSquare::new(al).call(&d.net, child, parent, &set, &d.ds, &mut cache)
            } else {
                F::new(al).call(&d.net, child, parent, &set, &d.ds, &mut cache)
            }
        } else {
            let pl = MLE {};
            let mut cache = Cache::new(&pl);
            if chi {
                ChiSquare::new(al).call(&d.net, child, parent, &set, &d.ds, &mut cache)
            } else {
                F::new(al).call(&d.net, child, parent, &set, &d.ds, &mut cache)
            }
        }
    });
    if chi {
        decide(c, got?, want.x, want.unobserved, "conditional independence")
    } else {
        match got {
            Err(v) if f_panic(&v) && want.never_left => {
                c.ev("panics as in the known finding", 1);
                c.known.push(known(v, F_SIG));
                Ok(())
            }
            got => decide(c, got?, want.f, false, "conditional independence"),
        }
    }
}
pub fn c18(ctx: &Ctx) {
    ctx.rule("random pairs of count/intensity matrices (2-300 states, equal, proportional, noisy, one entry changed, unobserved rows, counts up to 10^5, configuration picked from several) and conditional tests on random datasets; decision against the two-sided F acceptance region computed with an independent incomplete beta (decisions at the threshold skipped); non-trivial: all");
    ctx.cases("matrices", 6000, 10, |c| {
        let k = match c.rng.below(100) {
            0 if c.rng.chance(0.2) => c.rng.int(257, 300),
            0..=1 => c.rng.int(13, 60),
            2..=11 => c.rng.int(6, 12),
            _ => c.rng.int(2, 5),
        };
        let (n1, n2) = (c.rng.int(1, 4), c.rng.int(1, 4));
        let m1: Vec<_> = (0..n1).map(|_| random_counts(&mut c.rng, k)).collect();
        let (i, j) = (c.rng.below(n1), c.rng.below(n2));
        let m2: Vec<_> = (0..n2)
            .map(|q| {
                if q == j && c.rng.chance(0.7) {
                    perturb(&mut c.rng, &m1[i])
                } else {
                    random_counts(&mut c.rng, k)
                }
            })
            .collect();
        let mk = |rng: &mut Rng, m: &Vec<Vec<Vec<u64>>>, base: &[f64]| -> Vec<Vec<Vec<f64>>> {
            m.iter()
                .map(|x| {
                    let mut o = vec![vec![0.0; k]; k];
                    for r in 0..k {
                        let s: u64 = x[r].iter().sum();
                        let q = base[r] * if rng.chance(0.4) { rng.logu(0.5, 2.0) } else { rng.range(0.95, 1.05) };
                        for y in 0..k {
                            if y != r {
                                o[r][y] = q * x[r][y] as f64 / (s.max(1)) as f64;
                            }
                        }
                        o[r][r] = -q;
                    }
                    o
                })
                .collect()
        };
        let base: Vec<f64> = (0..k).map(|_| c.rng.logu(1e-3, 1e3)).collect();
        let c1 = mk(&mut c.rng, &m1, &base);
        let mut c2 = mk(&mut c.rng, &m2, &base);
        let same = c.rng.chance(0.1);
        if same {
            c2[j] = c1[i].clone();
        }
        let al = alpha(&mut c.rng);
        c.desc = format!("k={k} i={i} j={j} alpha={al:e} M1={:?} M2={:?}", m1[i], m2[j]);
        let got = lib("F::compare_matrices", || {
            F::new(al).compare_matrices(i, &arr(&m1), &arrf(&c1), j, &arr(&m2), &arrf(&c2))
        });
        if oracle::never_left(&m1[i], &m2[j]) {
            if let Err(v) = &got {
                if f_panic(v) {
                    c.ev("panics as in the known finding", 1);
                    c.known.push(known(v.clone(), F_SIG));
                    return Ok(());
                }
            }
        }
        let want = oracle::f_rows(&m1[i], &c1[i], &m2[j], &c2[j], al);
        decide(c, got?, want, false, "F test")
    });
    ctx.cases("conditional", 500, 12, |c| test_case(c, false));
    ctx.require("independent", 500);
    ctx.require("dependent", 500);
}
pub fn c19(ctx: &Ctx) {
    ctx.rule("as C18 for the two-sample chi-squared test, acceptance region computed with an independent incomplete gamma; non-trivial: all");
    ctx.cases("matrices", 6000, 10, |c| {
        let k = match c.rng.below(100) {
            0 if c.rng.chance(0.2) => c.rng.int(257, 300),
            0..=1 => c.rng.int(13, 60),
            2..=11 => c.rng.int(6, 12),
            _ => c.rng.int(2, 5),
        };
        let (n1, n2) = (c.rng.int(1, 4), c.rng.int(1, 4));
        let m1: Vec<_> = (0..n1).map(|_| random_counts(&mut c.rng, k)).collect();
        let (i, j) = (c.rng.below(n1), c.rng.below(n2));
        let m2: Vec<_> = (0..n2)
            .map(|q| {
                if q == j && c.rng.chance(0.8) {
                    perturb(&mut c.rng, &m1[i])
                } else {
                    random_counts(&mut c.rng, k)
                }
            })
            .collect();
        let al = alpha(&mut c.rng);
        c.desc = format!("k={k} i={i} j={j} alpha={al:e} M1={:?} M2={:?}", m1[i], m2[j]);
        let got = lib("ChiSquare::compare_matrices", || {
            ChiSquare::new(al).compare_matrices(i, &arr(&m1), j, &arr(&m2))
        })?;
        decide(c, got, oracle::chi_rows(&m1[i], &m2[j], al), oracle::unobserved(&m1[i], &m2[j]), "chi-squared test")?;
        // exchanging the samples does not matter
        let back = lib("ChiSquare::compare_matrices", || {
            ChiSquare::new(al).compare_matrices(j, &arr(&m2), i, &arr(&m1))
        })?;
        decide(c, back, oracle::chi_rows(&m2[j], &m1[i], al), oracle::unobserved(&m1[i], &m2[j]), "chi-squared test, samples exchanged")
    });
    ctx.cases("conditional", 500, 12, |c| test_case(c, true));
    ctx.require("independent", 500);
    ctx.require("dependent", 500);
}

// ---------------------------------------------------------------- C21
fn learn(net: CtbnNetwork, ds: &Dataset, which: usize, cap: Option<usize>) -> CtbnNetwork {
    match which {
        0 => HillClimbing::new(BIC::new(1, 1.0), cap).fit_transform(net, ds),
        1 => HillClimbing::new(LogLikelihood::new(1, 1.0), cap).fit_transform(net, ds),
        2 => CTPC::new(MLE {}, F::new(1e-4), ChiSquare::new(1e-4)).fit_transform(net, ds),
        _ => CTPC::new(
            BayesianApproach { alpha: 1, tau: 1.0 },
            F::new(0.01),
            ChiSquare::new(0.01),
        )
        .fit_transform(net, ds),
    }
}
/// One algorithm object on two datasets in turn.
fn learn_twice(card: &[usize], d1: &Dataset, d2: &Dataset, which: usize, cap: Option<usize>) -> CtbnNetwork {
    fn go<A: StructuralLearningAlgorithm>(a: A, card: &[usize], d1: &Dataset, d2: &Dataset) -> CtbnNetwork {
        a.fit_transform(bare(card), d1);
        a.fit_transform(bare(card), d2)
    }
    match which {
        0 => go(HillClimbing::new(BIC::new(1, 1.0), cap), card, d1, d2),
        1 => go(HillClimbing::new(LogLikelihood::new(1, 1.0), cap), card, d1, d2),
        2 => go(CTPC::new(MLE {}, F::new(1e-4), ChiSquare::new(1e-4)), card, d1, d2),
        _ => go(
            CTPC::new(
                BayesianApproach { alpha: 1, tau: 1.0 },
                F::new(0.01),
                ChiSquare::new(0.01),
            ),
            card,
            d1,
            d2,
        ),
    }
}
const ALGS: [&str; 4] = [
    "HillClimbing(BIC)",
    "HillClimbing(LogLikelihood)",
    "CTPC(MLE)",
    "CTPC(Bayesian)",
];
pub fn c21(ctx: &Ctx) {
    ctx.rule("each algorithm on networks with arbitrary previous edges and parameters and on bare ones (simulated data; score tables with many local optima and planned independences over up to 140 variables): same variables, same learned edges, no self loops, no parameters whose shape contradicts the learned parents; datasets of another width must be refused; non-trivial: the starting network has edges");
    ctx.cases("starts", 300, 12, |c| {
        let which = c.rng.below(4);
        let card = if which >= 2 {
            small_cards(&mut c.rng, 2, 4, 3)
        } else {
            small_cards(&mut c.rng, 2, 6, 3)
        };
        let n = card.len();
        let dens = c.rng.f();
        let spec = NetSpec::random(&mut c.rng, card.clone(), dens, 27, Some(Style::Dense), 1.0);
        let mut spec = spec;
        let mut trajs: Vec<Traj> = (0..c.rng.int(1, 5))
            .map(|_| {
                let te = if which >= 2 { c.rng.logu(20.0, 400.0) } else { c.rng.logu(1.0, 60.0) };
                simulate(&spec, &mut c.rng, te, 2000)
            })
            .collect();
        if which == 2 {
            let unit = time_unit(&mut c.rng);
            change_unit(&mut spec, &mut trajs, unit);
        }
        let cap = if c.rng.chance(0.5) { None } else { Some(c.rng.below(4)) };
        c.desc = format!("{} {} maximum={cap:?}", spec.desc(), ALGS[which]);
        let ds = dataset(&trajs);
        let reference = match lib(ALGS[which], || learn(bare(&card), &ds, which, cap)) {
            Err(v) if which >= 2 && f_panic(&v) && starved(&card, &trajs) => {
                c.nontrivial = false;
                c.ev("searches which panicked", 1);
                c.known.push(known(v, F_SIG));
                return Ok(());
            }
            r => r?,
        };
        let want = parents_of(&reference);
        for k in 0..3 {
            let d2 = c.rng.f();
            let mut start = NetSpec::random(&mut c.rng, card.clone(), d2, 27, Some(Style::Dense), 1.0);
            if k == 0 {
                start = spec.clone();
            }
            let mut net = start.skeleton(&mut c.rng);
            let labels: Vec<String> = (0..n).map(|i| net.get_node(i).get_label().clone()).collect();
            for i in 0..n {
                if c.rng.chance(0.8) {
                    inner_mut(net.get_node_mut(i)).set_cim(cim3(&start.cim[i])).unwrap();
                }
            }
            c.nontrivial = !start.edges().is_empty();
            let out = match lib(ALGS[which], || learn(net, &ds, which, cap)) {
                Err(v) if which >= 2 && f_panic(&v) && starved(&card, &trajs) => {
                    c.known.push(known(v, F_SIG));
                    return Ok(());
                }
                r => r?,
            };
            ensure!(
                out.get_number_of_nodes() == n,
                "{} variables instead of {n}",
                out.get_number_of_nodes()
            );
            let got = parents_of(&out);
            ensure!(
                got == want,
                "edges of the starting network ({:?}) change the result: {got:?} instead of {want:?}",
                start.pa
            );
            for i in 0..n {
                ensure!(
                    out.get_node(i).get_label() == &labels[i]
                        && out.get_node(i).get_reserved_space_as_parent() == card[i],
                    "variable {i} changed"
                );
                ensure!(!got[i].contains(&i), "self loop on {i}");
                let nc: usize = got[i].iter().map(|p| card[*p]).product();
                if let Some(x) = inner(out.get_node(i)).get_cim() {
                    ensure!(
                        x.shape()[0] == nc,
                        "node {i} keeps intensities for {} configurations, its learned parents have {nc}",
                        x.shape()[0]
                    );
                    ensure!(
                        got[i].is_empty() && start.pa[i].is_empty(),
                        "node {i} keeps intensities although its parents changed"
                    );
                }
                for p in 0..n {
                    ensure!(
                        out.get_children_set(p).contains(&i) == got[i].contains(&p),
                        "children of {p} and parents of {i} disagree"
                    );
                }
            }
            c.ev("networks compared", 1);
        }
        // an algorithm used before on other data
        let other: Vec<Traj> = if c.rng.chance(0.5) {
            crate::props::learn::variant(&mut c.rng, &card, &trajs)
        } else {
            // the variables in another order: same shape when the domains agree
            trajs
                .iter()
                .map(|t| Traj {
                    t: t.t.clone(),
                    ev: t
                        .ev
                        .iter()
                        .map(|e| (0..n).map(|i| e[(i + 1) % n] % card[i]).collect())
                        .collect(),
                })
                .collect()
        };
        match lib(ALGS[which], || learn_twice(&card, &dataset(&other), &ds, which, cap)) {
            Err(v) if which >= 2 && f_panic(&v) && starved(&card, &other) => {
                c.known.push(known(v, F_SIG));
            }
            r => {
                let got = parents_of(&r?);
                ensure!(
                    got == want,
                    "an algorithm used before on other data learns {got:?} instead of {want:?}"
                );
                c.ev("used algorithms compared", 1);
            }
        }
        Ok(())
    });
    #[cfg(feature = "mon")]
    {
        table::starts(ctx);
        oracle_params::starts(ctx);
    }
    ctx.cases("mismatch", 120, 8, |c| {
        let card = small_cards(&mut c.rng, 2, 5, 3);
        let n = card.len();
        let w = if c.rng.chance(0.5) || n == 2 { n + 1 + c.rng.below(2) } else { n - 1 };
        let wc: Vec<usize> = (0..w).map(|i| if i < n { card[i] } else { 2 }).collect();
        let tr = random_trajs(&mut c.rng, &wc, 3, 30, false);
        let which = c.rng.below(4);
        c.desc = format!("{n} variables, data with {w} columns, {}", ALGS[which]);
        ensure!(
            refuses(|| learn(bare(&card), &dataset(&tr), which, None)),
            "dataset with {w} columns accepted for {n} variables"
        );
        c.ev("refusals observed", 1);
        Ok(())
    });
    ctx.require("networks compared", 500);
}

// ---------------------------------------------------------------- C32
pub fn c32(ctx: &Ctx) {
    ctx.rule("networks with strong dependencies are sampled by the library and learned back by the library: learned counts against the true intensities (martingale bound), learned intensities near the true ones, true parents recovered by both algorithms; non-trivial: at least one edge");
    let spurious = std::sync::Mutex::new((0u64, 0u64, String::new()));
    ctx.cases("round trips", 60, 12, |c| {
        let n = c.rng.int(2, 5);
        let card: Vec<usize> = (0..n).map(|_| c.rng.int(2, 3)).collect();
        let mut pa = vec![vec![]; n];
        for i in 0..n {
            for p in 0..n {
                if p != i && pa[i].len() < 2 && c.rng.chance(0.4) {
                    pa[i].push(p);
                }
            }
        }
        let mut spec = NetSpec {
            card: card.clone(),
            pa,
            cim: vec![],
        };
        // every parent multiplies all the rates of the node by a strong monotone factor
        for i in 0..n {
            let base = gen_matrix(&mut c.rng, card[i], Style::Flat, 0.6);
            let fs: Vec<f64> = spec.pa[i].iter().map(|_| c.rng.range(3.5, 5.0)).collect();
            let mut cim = vec![];
            for u in 0..spec.nconf(i) {
                let mut f = 1.0;
                for (q, (_, d)) in digits(&spec.pa[i], &card, u).iter().enumerate() {
                    f *= fs[q].powf(*d as f64 / (card[spec.pa[i][q]] - 1) as f64);
                }
                cim.push(
                    base.iter()
                        .map(|r| r.iter().map(|x| x * f).collect())
                        .collect(),
                );
            }
            spec.cim.push(cim);
        }
        let edges = spec.edges().len();
        c.nontrivial = edges > 0;
        let net = spec.build(&mut c.rng);
        let (nt, te) = (c.rng.int(30, 60), 60.0);
        c.desc = format!("{} trajectories={nt} end={te}", spec.desc());
        let ds = lib("trajectory_generator", || {
            trajectory_generator(&net, nt as u64, te, Some(c.rng.seed()))
        })?;
        for i in 0..n {
            let ps = lib("MLE", || MLE {}.fit(&net, &ds, i, None))?;
            let pb = lib("BayesianApproach", || {
                BayesianApproach { alpha: 1, tau: 1.0 }.fit(&net, &ds, i, None)
            })?;
            let q = inner(&ps);
            let (m, t) = (q.get_transitions().as_ref().unwrap(), q.get_residence_time().as_ref().unwrap());
            let total: f64 = t.sum();
            ensure!(close(total, nt as f64 * te, 1e-9, 0.0), "observed time {total}");
            for u in 0..spec.nconf(i) {
                for x in 0..card[i] {
                    for y in 0..card[i] {
                        if x != y {
                            let r = spec.cim[i][u][x][y];
                            counts(
                                &format!("node {i}, configuration {u}, learned transition {x}->{y}"),
                                m[[u, x, y]] as f64,
                                r * t[[u, x]],
                            )?;
                            let got = q.get_cim().as_ref().unwrap()[[u, x, y]];
                            let exp = r * t[[u, x]];
                            if exp > 100.0 {
                                let tol = 9.0 / exp.sqrt();
                                ensure!(
                                    (got / r - 1.0).abs() < tol,
                                    "learned intensity {got}, true one {r}, {exp:.0} transitions expected"
                                );
                                let gb = inner(&pb).get_cim().as_ref().unwrap()[[u, x, y]];
                                ensure!(
                                    (gb / r - 1.0).abs() < tol + 2.0 / exp + 2.0 / t[[u, x]],
                                    "Bayesian intensity {gb}, true one {r}, {exp:.0} transitions expected"
                                );
                                c.ev("learned intensities compared with the true ones", 1);
                            }
                        }
                    }
                }
            }
        }
        let mut sp = 0;
        for alg in 0..2 {
            let out = match lib("structure learning", || {
                let b = bare(&card);
                if alg == 0 {
                    HillClimbing::new(BIC::new(1, 1.0), None).fit_transform(b, &ds)
                } else {
                    CTPC::new(MLE {}, F::new(1e-6), ChiSquare::new(1e-6)).fit_transform(b, &ds)
                }
            }) {
                Err(v) if alg == 1 && f_panic(&v) && starved(&card, &from_dataset(&ds)) => {
                    c.ev("searches which panicked (known finding of C17)", 1);
                    continue;
                }
                r => r?,
            };
            let got = parents_of(&out);
            for i in 0..n {
                for p in &spec.pa[i] {
                    ensure!(
                        got[i].contains(p),
                        "{}: the strong parent {p} of node {i} is not recovered: {got:?}, true {:?}",
                        ["HillClimbing", "CTPC"][alg],
                        spec.pa
                    );
                    c.ev("true edges recovered", 1);
                }
                let extra = got[i].iter().filter(|p| !spec.pa[i].contains(p)).count();
                sp += extra;
                c.ev("absent edges left out", n - 1 - spec.pa[i].len() - extra);
            }
        }
        c.ev("spurious edges", sp);
        let mut s = spurious.lock().unwrap();
        s.0 += 1;
        if sp > 0 {
            s.1 += 1;
            s.2 = c.desc.clone();
        }
        Ok(())
    });
    // A few spurious edges are expected from any consistent learner; many are not.
    let s = spurious.into_inner().unwrap();
    if s.0 >= 20 {
        ctx.cases("spurious edges", 1, 1, |c| {
            c.desc = format!("{} of {} networks with spurious edges", s.1, s.0);
            ensure!(
                s.1 * 3 <= s.0 + 3,
                "{} of {} learned networks have edges which are not there (last: {})",
                s.1,
                s.0,
                s.2
            );
            Ok(())
        });
    }
    ctx.require("true edges recovered", 60);
    ctx.require("learned intensities compared with the true ones", 500);
}
