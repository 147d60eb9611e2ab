//! Reference computations, written from the definitions and independent of the crate under test.
use crate::gen::{digits, mixed, NetSpec, Traj};
use crate::stats::{chi2_cdf, f_cdf, ln_gamma};
use std::collections::BTreeMap;

pub type M3 = Vec<Vec<Vec<u64>>>;
pub type T2 = Vec<Vec<f64>>;

/// Transition counts and residence times from the definition: configurations are keyed by the
/// values of the parents and only placed in the table at the end.
pub fn suff(card: &[usize], trajs: &[Traj], node: usize, set: &[usize]) -> (M3, T2) {
    let mut cnt: BTreeMap<(Vec<usize>, usize, usize), u64> = BTreeMap::new();
    let mut tim: BTreeMap<(Vec<usize>, usize), f64> = BTreeMap::new();
    for tr in trajs {
        for r in 1..tr.t.len() {
            let a = &tr.ev[r - 1];
            let b = &tr.ev[r];
            let conf: Vec<usize> = set.iter().map(|p| a[*p]).collect();
            *tim.entry((conf.clone(), a[node])).or_insert(0.0) += tr.t[r] - tr.t[r - 1];
            if a[node] != b[node] {
                *cnt.entry((conf, a[node], b[node])).or_insert(0) += 1;
            }
        }
    }
    let nc: usize = set.iter().map(|p| card[*p]).product();
    let k = card[node];
    let mut m = vec![vec![vec![0u64; k]; k]; nc];
    let mut t = vec![vec![0.0; k]; nc];
    for u in 0..nc {
        let conf: Vec<usize> = digits(set, card, u).iter().map(|x| x.1).collect();
        for x in 0..k {
            if let Some(v) = tim.get(&(conf.clone(), x)) {
                t[u][x] = *v;
            }
            for y in 0..k {
                if let Some(v) = cnt.get(&(conf.clone(), x, y)) {
                    m[u][x][y] = *v;
                }
            }
        }
    }
    (m, t)
}

/// Intensities (M+a)/(T+b) off the diagonal; the diagonal is minus the row sum.
pub fn intensities(m: &M3, t: &T2, a: f64, b: f64) -> Vec<Vec<Vec<f64>>> {
    let mut c = vec![];
    for u in 0..m.len() {
        let k = m[u].len();
        let mut mm = vec![vec![0.0; k]; k];
        for x in 0..k {
            let mut s = 0.0;
            for y in 0..k {
                if x != y {
                    mm[x][y] = (m[u][x][y] as f64 + a) / (t[u][x] + b);
                    s += mm[x][y];
                }
            }
            mm[x][x] = -s;
        }
        c.push(mm);
    }
    c
}

pub struct Score {
    pub v: f64,
    /// Sum of the magnitudes of the terms: the rounding error of any evaluation order is bounded
    /// by a small multiple of it.
    pub mag: f64,
}
/// Log marginal likelihood with the gamma prior (alpha, tau) on the exit rates and the Dirichlet
/// prior on the transition probabilities, both scaled by the number of parent configurations.
pub fn log_lik(m: &M3, t: &T2, alpha: f64, tau: f64) -> Score {
    let nc = m.len() as f64;
    let a = alpha / nc;
    let b = tau / nc;
    let mut v = 0.0;
    let mut mag = 0.0;
    let mut add = |x: f64| {
        v += x;
        mag += x.abs();
    };
    for u in 0..m.len() {
        let k = m[u].len();
        for x in 0..k {
            let mx: u64 = m[u][x].iter().sum();
            let mx = mx as f64;
            add(ln_gamma(a + mx + 1.0));
            add((a + 1.0) * b.ln());
            add(-ln_gamma(a + 1.0));
            add(-(a + mx + 1.0) * (b + t[u][x]).ln());
            add(ln_gamma(a));
            add(-ln_gamma(a + mx));
            for y in 0..k {
                add(ln_gamma(a + m[u][x][y] as f64));
                add(-ln_gamma(a));
            }
        }
    }
    Score { v, mag }
}
pub fn n_params(m: &M3) -> f64 {
    (m.len() * m[0].len() * (m[0].len() - 1)) as f64
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Dec {
    Indep,
    Dep,
    Unsure,
}
/// Decisions closer than this to their threshold (in probability) are left to the code.
fn margin(alpha: f64) -> f64 {
    1e-14 + 1e-4 * alpha
}

/// Is some state never left in one of the samples? (The F test of the library panics there:
/// known finding `f-test-state-never-left`.)
pub fn never_left(m1: &[Vec<u64>], m2: &[Vec<u64>]) -> bool {
    m1.iter().chain(m2).any(|r| r.iter().all(|x| *x == 0))
}
/// Is some transition observed in neither sample, or some state never left in one of them? (The
/// chi-squared test of the library reports a dependence there: known finding
/// `chi-squared-unobserved-transition`.)
pub fn unobserved(m1: &[Vec<u64>], m2: &[Vec<u64>]) -> bool {
    never_left(m1, m2)
        || (0..m1.len()).any(|x| (0..m1.len()).any(|y| x != y && m1[x][y] + m2[x][y] == 0))
}
/// Two sided F test on the exit rates of each state.
pub fn f_rows(m1: &[Vec<u64>], q1: &[Vec<f64>], m2: &[Vec<u64>], q2: &[Vec<f64>], alpha: f64) -> Dec {
    let mut unsure = false;
    for x in 0..m1.len() {
        let r1: u64 = m1[x].iter().sum();
        let r2: u64 = m2[x].iter().sum();
        if r1 == 0 || r2 == 0 {
            continue;
        }
        let s = q2[x][x] / q1[x][x];
        let p = f_cdf(r1 as f64, r2 as f64, s);
        let (lo, hi) = (alpha / 2.0, 1.0 - alpha / 2.0);
        if (p - lo).abs() < margin(alpha) || (p - hi).abs() < margin(alpha) || p.is_nan() {
            unsure = true;
        } else if p < lo || p > hi {
            return Dec::Dep;
        }
    }
    if unsure {
        Dec::Unsure
    } else {
        Dec::Indep
    }
}
/// Two sample chi-squared test on the transitions out of each state.
pub fn chi_rows(m1: &[Vec<u64>], m2: &[Vec<u64>], alpha: f64) -> Dec {
    let k = m1.len();
    let mut unsure = false;
    for x in 0..k {
        let s1: u64 = m1[x].iter().sum();
        let s2: u64 = m2[x].iter().sum();
        let mut stat = 0.0;
        if s1 > 0 && s2 > 0 {
            let kk = (s1 as f64 / s2 as f64).sqrt();
            for y in 0..k {
                let (a, b) = (m1[x][y] as f64, m2[x][y] as f64);
                if y != x && a + b > 0.0 {
                    stat += (kk * b - a / kk).powi(2) / (a + b);
                }
            }
        }
        let p = chi2_cdf((k - 1) as f64, stat);
        if (p - (1.0 - alpha)).abs() < margin(alpha) || p.is_nan() {
            unsure = true;
        } else if p >= 1.0 - alpha {
            return Dec::Dep;
        }
    }
    if unsure {
        Dec::Unsure
    } else {
        Dec::Indep
    }
}

/// Index, in the table of the smaller parent set, of configuration `u` of the bigger one.
pub fn project(big: &[usize], small: &[usize], card: &[usize], u: usize) -> usize {
    let mut s = vec![0; card.len()];
    for (p, d) in digits(big, card, u) {
        s[p] = d;
    }
    mixed(small, card, &s)
}

/// Both tests for `parent` given `sep`, with the statistics and intensities in `fit`.
pub struct Tester<'a> {
    pub card: &'a [usize],
    pub trajs: &'a [Traj],
    pub alpha_f: f64,
    pub alpha_chi: f64,
    /// Prior counts (alpha, tau) of the parameter learning; (0,0) is maximum likelihood.
    pub prior: (f64, f64),
    pub cache: BTreeMap<(usize, Vec<usize>), (M3, Vec<Vec<Vec<f64>>>)>,
}
impl<'a> Tester<'a> {
    fn fit(&mut self, child: usize, set: &[usize]) {
        let key = (child, set.to_vec());
        if !self.cache.contains_key(&key) {
            let (m, t) = suff(self.card, self.trajs, child, set);
            let nc = m.len() as f64;
            let c = intensities(&m, &t, self.prior.0 / nc, self.prior.1 / nc);
            self.cache.insert(key, (m, c));
        }
    }
    /// Decisions of the two tests, and the conditions of the known findings about them.
    pub fn tests(&mut self, child: usize, parent: usize, sep: &[usize]) -> Tests {
        let mut big = sep.to_vec();
        big.push(parent);
        big.sort();
        self.fit(child, sep);
        self.fit(child, &big);
        let (ms, cs) = &self.cache[&(child, sep.to_vec())];
        let (mb, cb) = &self.cache[&(child, big.clone())];
        let mut f = Dec::Indep;
        let mut x = Dec::Indep;
        let (mut never_left_, mut unobserved_) = (false, false);
        for u in 0..mb.len() {
            let p = project(&big, sep, self.card, u);
            let d = f_rows(&ms[p], &cs[p], &mb[u], &cb[u], self.alpha_f);
            f = worst(f, d);
            let d = chi_rows(&ms[p], &mb[u], self.alpha_chi);
            x = worst(x, d);
            never_left_ |= never_left(&ms[p], &mb[u]);
            unobserved_ |= unobserved(&ms[p], &mb[u]);
        }
        Tests {
            f,
            x,
            never_left: never_left_,
            unobserved: unobserved_,
        }
    }
}
pub struct Tests {
    pub f: Dec,
    pub x: Dec,
    pub never_left: bool,
    pub unobserved: bool,
}
pub fn worst(a: Dec, b: Dec) -> Dec {
    if a == Dec::Dep || b == Dec::Dep {
        Dec::Dep
    } else if a == Dec::Unsure || b == Dec::Unsure {
        Dec::Unsure
    } else {
        Dec::Indep
    }
}

pub fn combinations(v: &[usize], k: usize) -> Vec<Vec<usize>> {
    if k == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        for mut c in combinations(&v[i + 1..], k - 1) {
            c.insert(0, v[i]);
            out.push(c);
        }
    }
    out
}

/// Order independent PC search for the parents of `child`.
pub struct Search {
    /// None when a decision is too close to its threshold.
    pub parents: Option<Vec<usize>>,
    /// (parent, separating set) pairs examined.
    pub tests: usize,
    /// One of the tests concerned a state which is never left.
    pub never_left: bool,
}
/// `as_found`: unobserved transitions are evidence of dependence (known finding).
/// `all`: examine every separating set even after one which separates, and keep the undecided
/// parents: together with `as_found`, every test the library may have made.
pub fn ctpc_parents(t: &mut Tester, child: usize, n: usize, as_found: bool, all: bool) -> Search {
    let mut cand: Vec<usize> = (0..n).filter(|x| *x != child).collect();
    let mut size = 0;
    let mut tests = 0;
    let mut never_left = false;
    while size < cand.len() {
        let mut keep = vec![];
        for p in &cand {
            let others: Vec<usize> = cand.iter().cloned().filter(|x| x != p).collect();
            let mut separated = false;
            let mut unsure = false;
            for sep in combinations(&others, size) {
                tests += 1;
                let r = t.tests(child, *p, &sep);
                never_left |= r.never_left;
                let x = if as_found && r.unobserved { Dec::Dep } else { r.x };
                match worst(r.f, x) {
                    Dec::Indep => {
                        separated = true;
                        if !all {
                            break;
                        }
                    }
                    Dec::Unsure => unsure = true,
                    Dec::Dep => {}
                }
            }
            if separated {
                continue;
            }
            if unsure && !all {
                return Search {
                    parents: None,
                    tests,
                    never_left,
                };
            }
            keep.push(*p);
        }
        cand = keep;
        size += 1;
    }
    Search {
        parents: Some(cand),
        tests,
        never_left,
    }
}

/// Joint generator of the network as a list of (from, to, rate), from the definition.
pub struct Joint {
    pub states: Vec<Vec<usize>>,
    pub out: Vec<Vec<(usize, f64)>>,
    pub exit: Vec<f64>,
}
pub fn joint(spec: &NetSpec) -> Joint {
    let all: Vec<usize> = (0..spec.n()).collect();
    let ns: usize = spec.card.iter().product();
    let states: Vec<Vec<usize>> = (0..ns)
        .map(|i| digits(&all, &spec.card, i).iter().map(|x| x.1).collect())
        .collect();
    let mut out = vec![];
    let mut exit = vec![];
    for s in &states {
        let mut row = vec![];
        for i in 0..spec.n() {
            for y in 0..spec.card[i] {
                if y != s[i] {
                    let r = spec.rate(i, s, y);
                    if r > 0.0 {
                        let mut b = s.clone();
                        b[i] = y;
                        row.push((mixed(&all, &spec.card, &b), r));
                    }
                }
            }
        }
        exit.push(row.iter().map(|x| x.1).sum());
        out.push(row);
    }
    Joint { states, out, exit }
}

/// Exact mean and variance of the (discounted) return of a reward process up to `horizon`, for each
/// initial state, by integrating the backward equations (RK4).
/// `inst(s)`: reward rate; `trans(s, s')`: reward of a jump.
pub fn returns(
    j: &Joint,
    inst: &dyn Fn(usize) -> f64,
    trans: &dyn Fn(usize, usize) -> f64,
    horizon: f64,
    beta: f64,
) -> Vec<(f64, f64)> {
    let n = j.states.len();
    let r: Vec<f64> = (0..n).map(inst).collect();
    let z: Vec<Vec<f64>> = (0..n)
        .map(|s| j.out[s].iter().map(|(d, _)| trans(s, *d)).collect())
        .collect();
    let maxrate = j.exit.iter().cloned().fold(0.0, f64::max) + beta;
    let steps = ((horizon * maxrate * 8.0).ceil() as usize).clamp(200, 4_000_000);
    let h = horizon / steps as f64;
    let deriv = |y: &[f64], d: &mut [f64]| {
        for s in 0..n {
            let (mut a, mut b) = (r[s] - beta * y[s], 2.0 * r[s] * y[s] - 2.0 * beta * y[n + s]);
            for (e, (t, q)) in j.out[s].iter().enumerate() {
                let zz = z[s][e];
                a += q * (zz + y[*t] - y[s]);
                b += q * (zz * zz + 2.0 * zz * y[*t] + y[n + *t] - y[n + s]);
            }
            d[s] = a;
            d[n + s] = b;
        }
    };
    let mut y = vec![0.0; 2 * n];
    let (mut k1, mut k2, mut k3, mut k4) = (y.clone(), y.clone(), y.clone(), y.clone());
    let mut w = y.clone();
    for _ in 0..steps {
        deriv(&y, &mut k1);
        for i in 0..2 * n {
            w[i] = y[i] + 0.5 * h * k1[i];
        }
        deriv(&w, &mut k2);
        for i in 0..2 * n {
            w[i] = y[i] + 0.5 * h * k2[i];
        }
        deriv(&w, &mut k3);
        for i in 0..2 * n {
            w[i] = y[i] + h * k3[i];
        }
        deriv(&w, &mut k4);
        for i in 0..2 * n {
            y[i] += h / 6.0 * (k1[i] + 2.0 * k2[i] + 2.0 * k3[i] + k4[i]);
        }
    }
    (0..n)
        .map(|s| (y[s], (y[n + s] - y[s] * y[s]).max(0.0)))
        .collect()
}
