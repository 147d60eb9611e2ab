//! Plain-data reference networks, trajectories and generators; no code of the crate under test is
//! used except in the conversions `build`/`dataset`.
use crate::core::Rng;
use ndarray::{Array1, Array2, Array3};
use reCTBN::params::*;
use reCTBN::process::{ctbn::CtbnNetwork, NetworkProcess, NetworkProcessState};
use reCTBN::tools::{Dataset, Trajectory};
use std::collections::BTreeSet;

pub fn domain(k: usize) -> BTreeSet<String> {
    (0..k).map(|x| format!("s{x:05}")).collect()
}
/// States are known by their index: what they are called does not matter.
pub fn domain_named(k: usize, style: usize) -> BTreeSet<String> {
    (0..k)
        .map(|x| match style {
            0 => format!("s{x:05}"),
            1 => x.to_string(),
            2 => (k - 1 - x).to_string(),
            3 => " ".repeat(x),
            4 => format!("è{}", x as f64 / 4.0),
            _ => format!("{x},{}", x + 1),
        })
        .collect()
}
pub fn raw_param(label: &str, k: usize) -> DiscreteStatesContinousTimeParams {
    DiscreteStatesContinousTimeParams::new(label.to_string(), domain(k))
}
pub fn param(label: &str, k: usize) -> Params {
    Params::DiscreteStatesContinousTime(raw_param(label, k))
}
pub fn inner(p: &Params) -> &DiscreteStatesContinousTimeParams {
    match p {
        Params::DiscreteStatesContinousTime(p) => p,
    }
}
pub fn inner_mut(p: &mut Params) -> &mut DiscreteStatesContinousTimeParams {
    match p {
        Params::DiscreteStatesContinousTime(p) => p,
    }
}
pub fn st(v: &[usize]) -> NetworkProcessState {
    v.iter().map(|x| StateType::Discrete(*x)).collect()
}
pub fn un(v: &NetworkProcessState) -> Vec<usize> {
    v.iter()
        .map(|x| match x {
            StateType::Discrete(x) => *x,
        })
        .collect()
}

/// cim[u][x][y]
pub type Cim = Vec<Vec<Vec<f64>>>;

pub fn cim3(c: &Cim) -> Array3<f64> {
    let u = c.len();
    let k = c[0].len();
    Array3::from_shape_fn((u, k, k), |(a, b, d)| c[a][b][d])
}

#[derive(Clone, Debug)]
pub struct NetSpec {
    pub card: Vec<usize>,
    pub pa: Vec<Vec<usize>>, // sorted
    pub cim: Vec<Cim>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
    Dense,
    Sparse,
    Cyclic,
    Wide,
    Extreme,
    /// Equal rates everywhere (ties).
    Flat,
}
pub const STYLES: [Style; 6] = [
    Style::Dense,
    Style::Sparse,
    Style::Cyclic,
    Style::Wide,
    Style::Extreme,
    Style::Flat,
];

pub fn gen_matrix(rng: &mut Rng, k: usize, style: Style, scale: f64) -> Vec<Vec<f64>> {
    let mut m = vec![vec![0.0; k]; k];
    for x in 0..k {
        let forced = {
            let mut y = rng.below(k - 1);
            if y >= x {
                y += 1;
            }
            y
        };
        for y in 0..k {
            if x == y {
                continue;
            }
            m[x][y] = scale
                * match style {
                    Style::Dense => rng.logu(0.1, 5.0),
                    Style::Sparse => {
                        if y == forced || rng.chance(0.35) {
                            rng.logu(0.2, 5.0)
                        } else {
                            0.0
                        }
                    }
                    Style::Cyclic => {
                        if y == (x + 1) % k {
                            rng.logu(0.2, 5.0)
                        } else {
                            0.0
                        }
                    }
                    Style::Wide => rng.logu(1e-3, 1e3),
                    Style::Extreme => rng.logu(1e-7, 1e7),
                    Style::Flat => 1.0,
                };
        }
        let s: f64 = m[x].iter().sum();
        m[x][x] = -s;
    }
    m
}

impl NetSpec {
    pub fn n(&self) -> usize {
        self.card.len()
    }
    pub fn nconf(&self, i: usize) -> usize {
        self.pa[i].iter().map(|p| self.card[*p]).product()
    }
    pub fn u(&self, i: usize, s: &[usize]) -> usize {
        mixed(&self.pa[i], &self.card, s)
    }
    pub fn rate(&self, i: usize, s: &[usize], y: usize) -> f64 {
        self.cim[i][self.u(i, s)][s[i]][y]
    }
    pub fn exit(&self, i: usize, s: &[usize]) -> f64 {
        -self.cim[i][self.u(i, s)][s[i]][s[i]]
    }
    pub fn total_exit(&self, s: &[usize]) -> f64 {
        (0..self.n()).map(|i| self.exit(i, s)).sum()
    }
    pub fn random_state(&self, rng: &mut Rng) -> Vec<usize> {
        self.card.iter().map(|k| rng.below(*k)).collect()
    }
    pub fn edges(&self) -> Vec<(usize, usize)> {
        let mut e = vec![];
        for (c, p) in self.pa.iter().enumerate() {
            for x in p {
                e.push((*x, c));
            }
        }
        e
    }
    pub fn pset(&self, i: usize) -> BTreeSet<usize> {
        self.pa[i].iter().cloned().collect()
    }
    pub fn desc(&self) -> String {
        if self.n() <= 12 {
            format!("card={:?} parents={:?}", self.card, self.pa)
        } else {
            format!(
                "{} nodes, cards {}..{}, {} edges",
                self.n(),
                self.card.iter().min().unwrap(),
                self.card.iter().max().unwrap(),
                self.edges().len()
            )
        }
    }
    /// Nodes and edges, without parameters; edges added in the order given by `rng`.
    pub fn skeleton(&self, rng: &mut Rng) -> CtbnNetwork {
        let mut net = CtbnNetwork::new();
        // labels need not be distinct: variables are identified by their index
        let m = if rng.chance(0.1) { 1 + rng.below(2) } else { self.n().max(1) };
        let ls = rng.below(12);
        let ds = rng.below(9);
        for (i, k) in self.card.iter().enumerate() {
            let j = i % m;
            let l = match ls {
                0 => String::new(),
                1 => j.to_string(),
                2 => (self.n() - 1 - j).to_string(),
                3 => format!("n{},{}", j, j + 1),
                _ => format!("n{j}"),
            };
            let d = domain_named(*k, if ds == 8 { (i + ls) % 6 } else { ds.saturating_sub(2) });
            let p = DiscreteStatesContinousTimeParams::new(l, d);
            net.add_node(Params::DiscreteStatesContinousTime(p)).unwrap();
        }
        net.initialize_adj_matrix();
        let mut e = self.edges();
        rng.shuffle(&mut e);
        for (p, c) in e {
            net.add_edge(p, c);
        }
        net
    }
    pub fn build(&self, rng: &mut Rng) -> CtbnNetwork {
        let mut net = self.skeleton(rng);
        for i in 0..self.n() {
            inner_mut(net.get_node_mut(i))
                .set_cim(cim3(&self.cim[i]))
                .expect("reference CIM refused");
        }
        net
    }
    pub fn random(
        rng: &mut Rng,
        card: Vec<usize>,
        density: f64,
        max_conf: usize,
        style: Option<Style>,
        scale: f64,
    ) -> NetSpec {
        let n = card.len();
        let mut pa = vec![vec![]; n];
        for c in 0..n {
            let mut cand: Vec<usize> = (0..n).filter(|x| *x != c).collect();
            rng.shuffle(&mut cand);
            let mut conf = 1usize;
            for p in cand {
                if rng.chance(density) && conf * card[p] <= max_conf {
                    conf *= card[p];
                    pa[c].push(p);
                }
            }
            pa[c].sort();
        }
        let mut s = NetSpec {
            card,
            pa,
            cim: vec![],
        };
        s.fill(rng, style, scale);
        s
    }
    /// Multiply every rate by `f`.
    pub fn rescale(&mut self, f: f64) {
        for x in self.cim.iter_mut().flatten().flatten().flatten() {
            *x *= f;
        }
    }
    pub fn fill(&mut self, rng: &mut Rng, style: Option<Style>, scale: f64) {
        self.cim = (0..self.n())
            .map(|i| {
                (0..self.nconf(i))
                    .map(|_| {
                        let st = style.unwrap_or_else(|| STYLES[rng.below(4)]);
                        gen_matrix(rng, self.card[i], st, scale)
                    })
                    .collect()
            })
            .collect();
    }
}

/// A network where a node has hundreds of parent configurations.
pub fn many_confs(rng: &mut Rng, style: Option<Style>, scale: f64) -> NetSpec {
    let np = rng.int(6, 10);
    let mut card: Vec<usize> = (0..=np).map(|_| 2).collect();
    let mut conf = 1usize << np;
    for _ in 0..4 {
        let p = rng.below(np + 1);
        if conf / card[p] * (card[p] + 1) <= 1500 {
            conf = conf / card[p] * (card[p] + 1);
            card[p] += 1;
        }
    }
    let child = rng.below(np + 1);
    let mut s = NetSpec::random(rng, card, 0.1, 8, style, scale);
    s.pa[child] = (0..=np).filter(|x| *x != child).collect();
    s.fill(rng, style, scale);
    s
}

/// 576 joint states, a variable with 288 parent configurations.
pub fn confs288(rng: &mut Rng, style: Option<Style>, scale: f64) -> NetSpec {
    let mut card = vec![2, 2, 2, 2, 2, 2, 3, 3];
    rng.shuffle(&mut card);
    let child = card.iter().position(|k| *k == 2).unwrap();
    let mut s = NetSpec::random(rng, card, 0.15, 16, style, scale);
    s.pa[child] = (0..8).filter(|x| *x != child).collect();
    s.fill(rng, style, scale);
    s
}

/// Mixed radix index: the first element of `set` is the least significant digit.
pub fn mixed(set: &[usize], card: &[usize], s: &[usize]) -> usize {
    let mut r = 0;
    for p in set.iter().rev() {
        r = r * card[*p] + s[*p];
    }
    r
}
/// Inverse of `mixed`: (node, value) pairs.
pub fn digits(set: &[usize], card: &[usize], mut idx: usize) -> Vec<(usize, usize)> {
    set.iter()
        .map(|p| {
            let d = idx % card[*p];
            idx /= card[*p];
            (*p, d)
        })
        .collect()
}

pub fn small_cards(rng: &mut Rng, nmin: usize, nmax: usize, kmax: usize) -> Vec<usize> {
    let n = rng.int(nmin, nmax);
    (0..n).map(|_| rng.int(2, kmax)).collect()
}

#[derive(Clone, Debug)]
pub struct Traj {
    pub t: Vec<f64>,
    pub ev: Vec<Vec<usize>>,
}
impl Traj {
    /// The same content in some memory layout.
    pub fn lib_any(&self) -> Trajectory {
        let rows = self.ev.len();
        let cols = self.ev[0].len();
        match (rows * 31 + cols * 7 + (self.t[rows - 1].to_bits() >> 40) as usize) % 16 {
            0 => {
                // column major
                let a = Array2::from_shape_fn((cols, rows), |(b, a)| self.ev[a][b]);
                return Trajectory::new(Array1::from_vec(self.t.clone()), a.reversed_axes());
            }
            1 => {
                // every second element of larger arrays
                use ndarray::s;
                let a = Array2::from_shape_fn((2 * rows, 2 * cols), |(a, b)| self.ev[a / 2][b / 2]);
                let t = Array1::from_shape_fn(2 * rows, |i| self.t[i / 2]);
                return Trajectory::new(t.slice_move(s![..;2]), a.slice_move(s![..;2, ..;2]));
            }
            _ => {}
        }
        self.lib()
    }
    pub fn lib(&self) -> Trajectory {
        let rows = self.ev.len();
        let cols = self.ev[0].len();
        Trajectory::new(
            Array1::from_vec(self.t.clone()),
            Array2::from_shape_fn((rows, cols), |(a, b)| self.ev[a][b]),
        )
    }
    pub fn from_lib(t: &Trajectory) -> Traj {
        Traj {
            t: t.get_time().to_vec(),
            ev: t.get_events().outer_iter().map(|r| r.to_vec()).collect(),
        }
    }
}
pub fn dataset(v: &[Traj]) -> Dataset {
    Dataset::new(v.iter().map(|x| x.lib()).collect())
}
pub fn from_dataset(d: &Dataset) -> Vec<Traj> {
    d.get_trajectories().iter().map(Traj::from_lib).collect()
}

/// Dyadic durations: sums of them are exact, whatever the order of summation.
fn dyadic(rng: &mut Rng) -> f64 {
    match rng.below(4) {
        0 => rng.int(1, 7) as f64 / 1024.0,
        1 => rng.int(1, 4096) as f64 / 1024.0,
        2 => rng.int(1, 64) as f64,
        _ => rng.int(1, 1 << 18) as f64 / 1024.0,
    }
}

/// Arbitrary (not model generated) trajectories. `multi`: more than a node may change per row.
pub fn random_trajs(
    rng: &mut Rng,
    card: &[usize],
    ntraj: usize,
    rows: usize,
    multi: bool,
) -> Vec<Traj> {
    (0..ntraj)
        .map(|_| {
            let rows = rng.int(2, rows.max(2));
            let mut t = if rng.chance(0.7) { 0.0 } else { dyadic(rng) };
            if rng.chance(0.08) {
                t = -8.0 * t - dyadic(rng); // times relative to some later instant
            }
            let mut s: Vec<usize> = card.iter().map(|k| rng.below(*k)).collect();
            let mut tr = Traj {
                t: vec![],
                ev: vec![],
            };
            for r in 0..rows {
                tr.t.push(t);
                tr.ev.push(s.clone());
                t += dyadic(rng);
                if r + 2 == rows && rng.chance(0.8) {
                    continue; // last row repeats the state, as the trajectory generator does
                }
                if multi && rng.chance(0.3) {
                    for (x, k) in s.iter_mut().zip(card) {
                        if rng.chance(0.4) {
                            *x = rng.below(*k);
                        }
                    }
                } else {
                    let i = rng.below(card.len());
                    s[i] = (s[i] + 1 + rng.below(card[i] - 1)) % card[i];
                }
            }
            tr
        })
        .collect()
}

/// Independent Gillespie simulation of the reference network.
pub fn simulate(spec: &NetSpec, rng: &mut Rng, t_end: f64, max_events: usize) -> Traj {
    let n = spec.n();
    let mut s = spec.random_state(rng);
    let mut t = 0.0;
    let mut tr = Traj {
        t: vec![0.0],
        ev: vec![s.clone()],
    };
    let mut rates = vec![0.0; n];
    loop {
        for i in 0..n {
            rates[i] = spec.exit(i, &s);
        }
        let tot: f64 = rates.iter().sum();
        t += rng.exp() / tot;
        if t >= t_end || tr.t.len() > max_events {
            tr.t.push(t_end);
            tr.ev.push(s.clone());
            return tr;
        }
        let mut v = rng.f() * tot;
        let mut i = 0;
        while i + 1 < n && v >= rates[i] {
            v -= rates[i];
            i += 1;
        }
        let row = &spec.cim[i][spec.u(i, &s)][s[i]];
        let mut v = rng.f() * rates[i];
        let mut y = usize::MAX;
        for (c, q) in row.iter().enumerate() {
            if c != s[i] && *q > 0.0 {
                y = c;
                if v < *q {
                    break;
                }
                v -= q;
            }
        }
        s[i] = y;
        tr.t.push(t);
        tr.ev.push(s.clone());
    }
}

/// Unit of time of a workload: usually 1, otherwise a power of 2 (no rounding) far from it.
pub fn time_unit(rng: &mut Rng) -> f64 {
    if rng.chance(0.65) {
        1.0
    } else {
        2f64.powi(rng.int(0, 80) as i32 - 40)
    }
}
/// Change the unit of time of a workload: rates in `spec`, times in `trajs`.
pub fn change_unit(spec: &mut NetSpec, trajs: &mut [Traj], u: f64) {
    spec.rescale(1.0 / u);
    for tr in trajs {
        tr.t.iter_mut().for_each(|t| *t *= u);
    }
}

pub fn subset(rng: &mut Rng, n: usize, exclude: usize, card: &[usize], max_conf: usize, maxlen: usize) -> Vec<usize> {
    let mut c: Vec<usize> = (0..n).filter(|x| *x != exclude).collect();
    rng.shuffle(&mut c);
    let want = rng.int(0, maxlen.min(c.len()));
    let mut out = vec![];
    let mut conf = 1;
    for p in c {
        if out.len() >= want {
            break;
        }
        if conf * card[p] <= max_conf {
            conf *= card[p];
            out.push(p);
        }
    }
    out.sort();
    out
}
