//! C22-C26: rewards.
use crate::core::*;
use crate::gen::*;
use crate::oracle;
use crate::stats::*;
use reCTBN::process::{ctmp::CtmpProcess, NetworkProcess, NetworkProcessState};
use reCTBN::reward::reward_evaluation::*;
use reCTBN::reward::reward_function::*;
use reCTBN::reward::*;
use std::collections::HashMap;
use std::sync::Mutex;

/// Reference reward tables.
#[derive(Clone)]
pub struct RW {
    pub inst: Vec<Vec<f64>>,
    pub tran: Vec<Vec<Vec<f64>>>,
}
impl RW {
    pub fn random(rng: &mut Rng, card: &[usize], lo: f64, hi: f64) -> RW {
        RW {
            inst: card
                .iter()
                .map(|k| (0..*k).map(|_| rng.range(lo, hi)).collect())
                .collect(),
            tran: card
                .iter()
                .map(|k| {
                    (0..*k)
                        .map(|_| (0..*k).map(|_| rng.range(lo, hi)).collect())
                        .collect()
                })
                .collect(),
        }
    }
    pub fn lib<T: NetworkProcess>(&self, net: &T) -> FactoredRewardFunction {
        let mut f = FactoredRewardFunction::initialize_from_network_process(net);
        for i in 0..self.inst.len() {
            for x in 0..self.inst[i].len() {
                f.get_instantaneous_reward_mut(i)[x] = self.inst[i][x];
                for y in 0..self.inst[i].len() {
                    f.get_transition_reward_mut(i)[[x, y]] = self.tran[i][x][y];
                }
            }
        }
        f
    }
    pub fn rate(&self, s: &[usize]) -> f64 {
        s.iter().enumerate().map(|(i, x)| self.inst[i][*x]).sum()
    }
    pub fn jump(&self, a: &[usize], b: &[usize]) -> f64 {
        let i = (0..a.len()).find(|i| a[*i] != b[*i]).unwrap();
        self.tran[i][a[i]][b[i]]
    }
    pub fn combine(&self, o: &RW, p: f64, q: f64) -> RW {
        let f = |x: &f64, y: &f64| p * x + q * y;
        RW {
            inst: self
                .inst
                .iter()
                .zip(&o.inst)
                .map(|(a, b)| a.iter().zip(b).map(|(x, y)| f(x, y)).collect())
                .collect(),
            tran: self
                .tran
                .iter()
                .zip(&o.tran)
                .map(|(a, b)| {
                    a.iter()
                        .zip(b)
                        .map(|(c, d)| c.iter().zip(d).map(|(x, y)| f(x, y)).collect())
                        .collect()
                })
                .collect(),
        }
    }
    pub fn mag(&self) -> f64 {
        self.inst.iter().flatten().map(|x| x.abs()).sum::<f64>()
            + self.tran.iter().flatten().flatten().map(|x| x.abs()).fold(0.0, f64::max)
    }
}

// ---------------------------------------------------------------- C22
pub fn c22(ctx: &Ctx) {
    ctx.rule("random factored reward functions over 1-400 variables with up to 330 states: fresh function is null, writes read back, and the reward of random states and single transitions is compared with the tables (some single variable ones for a CtmpProcess); non-trivial: all");
    ctx.cases("functions", 1500, 12, |c| {
        let card = match c.rng.below(10) {
            0 => small_cards(&mut c.rng, 20, 80, 4),
            1 => vec![c.rng.int(20, 60), c.rng.int(2, 9)],
            2 if c.rng.chance(0.2) => vec![c.rng.int(2, 4), c.rng.int(250, 330), 2],
            3 if c.rng.chance(0.2) => small_cards(&mut c.rng, 250, 400, 3),
            _ => small_cards(&mut c.rng, 1, 8, 6),
        };
        let n = card.len();
        c.desc = format!("n={n} card={:?}", &card[..n.min(12)]);
        let spec = NetSpec {
            card: card.clone(),
            pa: vec![vec![]; n],
            cim: vec![],
        };
        let net = spec.skeleton(&mut c.rng);
        let single = n == 1 && c.rng.chance(0.5);
        let mut f = lib("initialize", || {
            if single {
                let mut p = CtmpProcess::new();
                p.add_node(net.get_node(0).clone()).unwrap();
                FactoredRewardFunction::initialize_from_network_process(&p)
            } else {
                FactoredRewardFunction::initialize_from_network_process(&net)
            }
        })?;
        for i in 0..n {
            ensure!(
                f.get_instantaneous_reward(i).len() == card[i]
                    && f.get_transition_reward(i).shape() == [card[i], card[i]],
                "reward tables of variable {i} have the wrong size"
            );
            ensure!(
                f.get_instantaneous_reward(i).iter().all(|x| *x == 0.0)
                    && f.get_transition_reward(i).iter().all(|x| *x == 0.0),
                "a new reward function is not null"
            );
        }
        let scale = c.rng.logu(1e-3, 1e6);
        let rw = RW::random(&mut c.rng, &card, -scale, scale);
        let mut order: Vec<usize> = (0..n).collect();
        c.rng.shuffle(&mut order);
        for i in order {
            for x in 0..card[i] {
                f.get_instantaneous_reward_mut(i)[x] = rw.inst[i][x];
                for y in 0..card[i] {
                    f.get_transition_reward_mut(i)[[x, y]] = rw.tran[i][x][y];
                }
            }
        }
        for i in 0..n {
            for x in 0..card[i] {
                ensure!(
                    f.get_instantaneous_reward(i)[x] == rw.inst[i][x],
                    "instantaneous reward of variable {i} does not read back"
                );
                for y in 0..card[i] {
                    ensure!(
                        f.get_transition_reward(i)[[x, y]] == rw.tran[i][x][y],
                        "transition reward of variable {i} does not read back"
                    );
                }
            }
        }
        for _ in 0..40 {
            let s = spec.random_state(&mut c.rng);
            let tol = 1e-12 * rw.mag();
            let want = rw.rate(&s);
            let r = lib("call", || f.call(&st(&s), None))?;
            ensure!(
                (r.instantaneous_reward - want).abs() <= tol && r.transition_reward == 0.0,
                "reward of {s:?}: {r:?}, expected instantaneous {want} and no transition reward"
            );
            let same = lib("call", || f.call(&st(&s), Some(&st(&s))))?;
            ensure!(
                same.transition_reward == 0.0 && (same.instantaneous_reward - want).abs() <= tol,
                "reward without a change: {same:?}"
            );
            let mut p = s.clone();
            let i = c.rng.below(n);
            p[i] = (p[i] + 1 + c.rng.below(card[i] - 1)) % card[i];
            let r = lib("call", || f.call(&st(&s), Some(&st(&p))))?;
            ensure!(
                r.transition_reward == rw.tran[i][p[i]][s[i]],
                "variable {i} moves {}->{}: transition reward {}, expected {}",
                p[i],
                s[i],
                r.transition_reward,
                rw.tran[i][p[i]][s[i]]
            );
            ensure!(
                (r.instantaneous_reward - want).abs() <= tol,
                "instantaneous reward {} of {s:?}, expected {want}",
                r.instantaneous_reward
            );
            c.ev("rewards compared", 3);
        }
        Ok(())
    });
    ctx.require("rewards compared", 50000);
}

// ---------------------------------------------------------------- C23
fn crit(beta: f64) -> RewardCriteria {
    if beta == 0.0 {
        RewardCriteria::FiniteHorizon
    } else {
        RewardCriteria::InfiniteHorizon {
            discount_factor: beta,
        }
    }
}
fn small_net(rng: &mut Rng, max: usize) -> NetSpec {
    let mut card = small_cards(rng, 1, 4, 4);
    while card.iter().product::<usize>() > max {
        card.pop();
    }
    let dens = rng.f();
    let style = match rng.below(3) {
        0 => Style::Sparse,
        1 => Style::Cyclic,
        _ => Style::Dense,
    };
    NetSpec::random(rng, card, dens, 64, Some(style), 1.0)
}
pub fn c23(ctx: &Ctx) {
    ctx.rule("random networks with up to 48 joint states, random instantaneous and transition rewards, finite and discounted horizons: estimate of each chosen state against the exact mean, with the exact variance, from the backward equations (8 standard errors, and 8 for the sum of the standardised errors of all cases); networks with constant exit rates and up to 3e5 transitions per simulation against the compound Poisson law; rewards with a deterministic return, linearity in the reward and null horizon exactly; non-trivial: the exact variance of the return is positive");
    let agg: Mutex<Vec<f64>> = Mutex::new(vec![]);
    ctx.cases("accuracy", 140, 12, |c| {
        let mut spec = if c.rng.chance(0.05) {
            confs288(&mut c.rng, Some(Style::Dense), 1.0)
        } else {
            small_net(&mut c.rng, 48)
        };
        let scale = if c.rng.chance(0.6) { 1.0 } else { c.rng.logu(1e-6, 1e6) };
        let mut rw = RW::random(&mut c.rng, &spec.card, -2.0 * scale, 5.0 * scale);
        match c.rng.below(4) {
            0 => rw = rw.combine(&RW { inst: rw.inst.clone(), tran: rw.tran.iter().map(|t| t.iter().map(|r| vec![0.0; r.len()]).collect()).collect() }, 0.0, 1.0),
            1 => rw = rw.combine(&RW { tran: rw.tran.clone(), inst: rw.inst.iter().map(|r| vec![0.0; r.len()]).collect() }, 0.0, 1.0),
            _ => {}
        }
        let beta = match c.rng.below(3) {
            0 => c.rng.logu(0.01, 3.0),
            1 => 1.0,
            _ => 0.0,
        };
        let te = if beta > 0.0 && c.rng.chance(0.3) {
            12.0 / beta.max(0.5)
        } else {
            c.rng.logu(0.5, 6.0)
        };
        let iters = 2500;
        let (mag, te0) = (rw.mag(), te);
        // another unit of time
        let unit = time_unit(&mut c.rng);
        spec.rescale(1.0 / unit);
        rw.inst.iter_mut().flatten().for_each(|x| *x /= unit);
        let (te, beta) = (te * unit, beta / unit);
        let net = spec.build(&mut c.rng);
        c.desc = format!("{} horizon={te} discount={beta}", spec.desc());
        let j = oracle::joint(&spec);
        let ex = oracle::returns(
            &j,
            &|s| rw.rate(&j.states[s]),
            &|a, b| rw.jump(&j.states[a], &j.states[b]),
            te,
            beta,
        );
        let f = rw.lib(&net);
        let mc = MonteCarloReward::new(iters, 0.0, 0.0, te, crit(beta), Some(c.rng.seed()));
        for k in 0..3 {
            let s = c.rng.below(j.states.len());
            let got = lib("evaluate_state", || {
                mc.evaluate_state(&net, &f, &st(&j.states[s]))
            })?;
            let (m, v) = ex[s];
            let sd = (v / iters as f64).sqrt();
            c.nontrivial = v > 1e-12 * scale * scale;
            ensure!(
                (got - m).abs()
                    <= 8.0 * sd + (1e-6 + 11.0 / iters as f64) * mag * (1.0 + te0),
                "expected reward of {:?}: {got}, exact value {m} ({} standard errors)",
                j.states[s],
                (got - m) / sd
            );
            if k == 0 && sd > 1e-6 * scale {
                agg.lock().unwrap().push((got - m) / sd);
            }
            c.ev("estimates compared with the exact value", 1);
            c.ev("returns simulated", iters);
        }
        Ok(())
    });
    let z = agg.into_inner().unwrap();
    if z.len() > 20 {
        ctx.cases("aggregate", 1, 1, |c| {
            let s: f64 = z.iter().sum::<f64>() / (z.len() as f64).sqrt();
            let q: f64 = z.iter().map(|x| x * x).sum::<f64>();
            c.desc = format!("{} standardised errors, sum {s:.3}, squares {q:.1}", z.len());
            ensure!(s.abs() < 8.0, "the estimates are biased: {}", c.desc);
            // self-normalised: the returns may have heavy tails
            let w: f64 = z.iter().map(|x| (x * x - 1.0).powi(2)).sum::<f64>();
            ensure!(
                q - z.len() as f64 <= 9.0 * w.sqrt(),
                "the estimates scatter more than their exact variance: {}",
                c.desc
            );
            // the squares have expectation 1 and, means of thousands of returns, a variance near 2
            ensure!(
                z.len() < 600 || q >= 0.5 * z.len() as f64,
                "the estimates scatter less than their exact variance: {}",
                c.desc
            );
            Ok(())
        });
    }
    // constant exit rates: the number of transitions of each variable is a Poisson variable
    ctx.cases("many transitions", 12, 8, |c| {
        let card = small_cards(&mut c.rng, 1, 4, 4);
        let n = card.len();
        let mut spec = NetSpec::random(&mut c.rng, card, 0.5, 16, Some(Style::Dense), 1.0);
        let q: Vec<f64> = (0..n).map(|_| c.rng.logu(0.2, 5.0)).collect();
        for i in 0..n {
            for m in spec.cim[i].iter_mut() {
                for (x, row) in m.iter_mut().enumerate() {
                    let d = -row[x];
                    row.iter_mut().for_each(|v| *v *= q[i] / d);
                    row[x] = 0.0;
                    row[x] = -row.iter().sum::<f64>();
                }
            }
        }
        let net = spec.build(&mut c.rng);
        let most = match c.rng.below(8) {
            0 => 300_000.0,
            1 | 2 => 100_000.0,
            _ => 30_000.0,
        };
        let te = c.rng.logu(2000.0, most) / q.iter().sum::<f64>();
        let iters = c.rng.int(2, 6);
        let beta = if c.rng.chance(0.5) { 0.0 } else { c.rng.logu(0.01, 2.0) / te };
        let r: Vec<f64> = (0..n).map(|_| c.rng.range(-1.0, 3.0)).collect();
        let w: Vec<f64> = (0..n).map(|_| c.rng.range(-1.0, 3.0)).collect();
        let rw = RW {
            inst: (0..n).map(|i| vec![w[i]; spec.card[i]]).collect(),
            tran: (0..n).map(|i| vec![vec![r[i]; spec.card[i]]; spec.card[i]]).collect(),
        };
        c.desc = format!("{} horizon={te} discount={beta} iterations={iters}", spec.desc());
        let s = spec.random_state(&mut c.rng);
        let mc = MonteCarloReward::new(iters, 0.0, 0.0, te, crit(beta), Some(c.rng.seed()));
        let got = lib("evaluate_state", || mc.evaluate_state(&net, &rw.lib(&net), &st(&s)))?;
        let len = |b: f64| if b == 0.0 { te } else { -(-b * te).exp_m1() / b };
        let m: f64 = (0..n).map(|i| (r[i] * q[i] + w[i]) * len(beta)).sum();
        let v: f64 = (0..n).map(|i| r[i] * r[i] * q[i] * len(2.0 * beta)).sum();
        let sd = (v / iters as f64).sqrt();
        c.ev("transitions expected in long simulations", (te * q.iter().sum::<f64>()) as usize * iters);
        ensure!(
            (got - m).abs() <= 9.0 * sd + 60.0 / iters as f64 + 1e-7 * m.abs(),
            "expected reward {got}, exact value {m} ({} standard errors)",
            (got - m) / sd
        );
        c.ev("exact values compared", 1);
        Ok(())
    });
    ctx.cases("deterministic", 250, 10, |c| {
        let mut spec = small_net(&mut c.rng, 200);
        let unit = time_unit(&mut c.rng);
        spec.rescale(1.0 / unit);
        let net = spec.build(&mut c.rng);
        let n = spec.n();
        let scale = if c.rng.chance(0.6) { 1.0 } else { c.rng.logu(1e-9, 1e9) };
        let v: Vec<f64> = (0..n).map(|_| scale * c.rng.range(-3.0, 7.0)).collect();
        let rw = RW {
            inst: (0..n).map(|i| vec![v[i]; spec.card[i]]).collect(),
            tran: spec.card.iter().map(|k| vec![vec![0.0; *k]; *k]).collect(),
        };
        let beta = match c.rng.below(10) {
            0..=4 => 0.0,
            // hardly any discount
            5 => c.rng.logu(1e-19, 1e-3),
            _ => c.rng.logu(1e-3, 20.0),
        };
        let te = match c.rng.below(4) {
            0 => 0.0,
            1 => c.rng.logu(1e-6, 0.1),
            _ => c.rng.logu(0.1, 30.0),
        };
        let (te0, beta0) = (te, beta);
        let (te, beta) = (te * unit, beta / unit);
        let iters = c.rng.int(1, 12);
        c.desc = format!("{} horizon={te} discount={beta} iterations={iters}", spec.desc());
        let seed = if c.rng.chance(0.5) { Some(c.rng.seed()) } else { None };
        let mc = MonteCarloReward::new(iters, 0.1, c.rng.f() * 0.3, te, crit(beta), seed);
        let s = spec.random_state(&mut c.rng);
        let got = lib("evaluate_state", || mc.evaluate_state(&net, &rw.lib(&net), &st(&s)))?;
        let r: f64 = v.iter().sum();
        let want = if beta == 0.0 { r * te } else { -r * (-beta * te).exp_m1() / beta };
        ensure!(
            close(got, want, 1e-8, 1e-11 * v.iter().map(|x| x.abs()).sum::<f64>() * unit * (te0 + 1.0) / beta0.min(1.0).max(1e-3)),
            "constant reward rate {r}: {got} instead of {want}"
        );
        c.ev("exact values compared", 1);
        // the same evaluator on another network and another reward of the same shape
        if seed.is_some() {
            let spec2 = NetSpec::random(&mut c.rng, spec.card.clone(), 0.5, 64, Some(Style::Dense), 1.0 / unit);
            for (sp, w) in [
                (&spec, RW::random(&mut c.rng, &spec.card, -scale, scale)),
                (&spec2, rw.combine(&rw, 0.0, 1.0)),
                (&spec2, RW::random(&mut c.rng, &spec.card, -scale, scale)),
            ] {
                let net = sp.build(&mut c.rng);
                let fresh = MonteCarloReward::new(iters, 0.1, 0.0, te, crit(beta), seed);
                let used = MonteCarloReward::new(iters, 0.1, 0.0, te, crit(beta), seed);
                let x = lib("evaluate_state", || fresh.evaluate_state(&net, &w.lib(&net), &st(&s)))?;
                let o = spec.build(&mut c.rng);
                lib("evaluate_state", || used.evaluate_state(&o, &rw.lib(&o), &st(&s)))?;
                let y = lib("evaluate_state", || used.evaluate_state(&net, &w.lib(&net), &st(&s)))?;
                ensure!(
                    x.to_bits() == y.to_bits(),
                    "{y} from an evaluator used before, {x} from a new one (same seed)"
                );
                c.ev("used evaluators compared", 1);
            }
        }
        Ok(())
    });
    ctx.cases("one transition", 90, 10, |c| {
        // One variable leaves its state 0 at an exponential time T and never returns: each return
        // is a known function of T, from which T is recovered.
        let mut card: Vec<usize> = (0..c.rng.below(3)).map(|_| c.rng.int(2, 3)).collect();
        let v = c.rng.below(card.len() + 1);
        card.insert(v, 3);
        let unit = time_unit(&mut c.rng);
        let mut spec = NetSpec::random(&mut c.rng, card, 0.5, 64, Some(Style::Dense), 1.0);
        let q = 1.0;
        let w = c.rng.range(0.1, 2.0);
        spec.pa[v] = vec![];
        spec.cim[v] = vec![vec![vec![-q, q, 0.0], vec![0.0, -w, w], vec![0.0, w, -w]]];
        spec.rescale(1.0 / unit);
        let q = q / unit;
        let net = spec.build(&mut c.rng);
        let te = c.rng.logu(0.3, 30.0) * unit;
        let kind = c.rng.below(3);
        let beta = if kind > 0 && c.rng.chance(0.4) { 0.0 } else { c.rng.logu(1e-3, 1e3) / unit };
        let r = c.rng.logu(1e-3, 1e3) * if c.rng.chance(0.5) { 1.0 } else { -1.0 };
        let mut rw = RW {
            inst: spec.card.iter().map(|k| vec![0.0; *k]).collect(),
            tran: spec.card.iter().map(|k| vec![vec![0.0; *k]; *k]).collect(),
        };
        match kind {
            0 => rw.tran[v][0][1] = r,
            1 => rw.inst[v][0] = r,
            _ => rw.inst[v] = vec![0.0, r, r],
        }
        let f = rw.lib(&net);
        let runs = 400;
        c.desc = format!("{} variable {v} leaves 0 at rate {q}; horizon={te} discount={beta} reward {r} kind={kind}", spec.desc());
        // times up to which T is recovered exactly enough
        let limit = te.min(match (kind, beta) {
            (_, b) if b == 0.0 => te,
            (0, b) => 690.0 / b,
            (_, b) => 17.0 / b,
        });
        let mut us = vec![];
        let mut left = 0u64;
        let seeded = c.rng.chance(0.7);
        for _ in 0..runs {
            let mut s = spec.random_state(&mut c.rng);
            s[v] = 0;
            let seed = if seeded { Some(c.rng.u64()) } else { None };
            let mc = MonteCarloReward::new(1, 0.0, 0.0, te, crit(beta), seed);
            let x = lib("evaluate_state", || mc.evaluate_state(&net, &f, &st(&s)))? / r;
            // total weight of the horizon, and T
            let all = if beta == 0.0 { te } else { -(-beta * te).exp_m1() / beta };
            let t = match kind {
                0 => {
                    if x == 0.0 {
                        f64::INFINITY
                    } else {
                        -x.ln() / beta
                    }
                }
                k => {
                    let before = if k == 1 { x } else { all - x };
                    if beta == 0.0 {
                        before
                    } else if beta * before >= 1.0 {
                        f64::INFINITY
                    } else {
                        -(-beta * before).ln_1p() / beta
                    }
                }
            };
            ensure!(
                t >= -1e-9 * te && (t <= te * (1.0 + 1e-6) || t > limit * (1.0 - 1e-6)),
                "a return of {} corresponds to no time at which the variable moves ({t})",
                x * r
            );
            c.ev("returns of one transition", 1);
            if t < limit * (1.0 - 1e-9) {
                left += 1;
                us.push((-(-q * t).exp_m1() / -(-q * limit).exp_m1()).clamp(0.0, 1.0));
            }
        }
        binom("returns of variables which move", left, runs, -(-q * limit).exp_m1())?;
        dkw("times recovered from the returns", &mut us)
    });
    ctx.cases("linearity", 200, 10, |c| {
        let spec = small_net(&mut c.rng, 200);
        let net = spec.build(&mut c.rng);
        let a = RW::random(&mut c.rng, &spec.card, -3.0, 3.0);
        let b = RW::random(&mut c.rng, &spec.card, -3.0, 3.0);
        let (p, q) = (c.rng.range(-2.0, 2.0), c.rng.range(-2.0, 2.0));
        let beta = if c.rng.chance(0.5) { 0.0 } else { c.rng.logu(0.05, 3.0) };
        let te = c.rng.logu(0.3, 10.0);
        let mc = MonteCarloReward::new(c.rng.int(1, 30), 0.0, 0.0, te, crit(beta), Some(c.rng.seed()));
        let s = spec.random_state(&mut c.rng);
        c.desc = format!("{} horizon={te} discount={beta} state={s:?}", spec.desc());
        let ev = |w: &RW| lib("evaluate_state", || mc.evaluate_state(&net, &w.lib(&net), &st(&s)));
        let (x, y, z) = (ev(&a)?, ev(&b)?, ev(&a.combine(&b, p, q))?);
        let want = p * x + q * y;
        ensure!(
            (z - want).abs() <= 1e-9 * (a.mag() + b.mag()) * 4.0 * (1.0 + te * 100.0),
            "reward {p}*A+{q}*B is worth {z}, {want} by linearity (same seed)"
        );
        c.ev("exact values compared", 1);
        Ok(())
    });
    ctx.cases("distinct returns", 8, 10, |c| {
        // the return of the k-th simulation is k times the mean of k minus k-1 times the mean of k-1
        let card = small_cards(&mut c.rng, 1, 3, 4);
        let spec = NetSpec::random(&mut c.rng, card, 0.5, 64, Some(Style::Dense), 1.0);
        let net = spec.build(&mut c.rng);
        let rw = RW::random(&mut c.rng, &spec.card, 0.0, 3.0);
        let f = rw.lib(&net);
        let s = spec.random_state(&mut c.rng);
        let te = 2.0;
        let seed = c.rng.seed();
        let idle = rw.rate(&s) * te;
        c.desc = spec.desc();
        let mut ks: Vec<usize> = vec![1, 2, 3, 11, 17, 33, 65, 101, 129, 257, 501, 513, 1001, 1025, 2001, 2049, 4097, 5001, 8193, 10001];
        for _ in 0..10 {
            ks.push(c.rng.int(2, 5000));
        }
        ks.sort();
        ks.dedup();
        let mean = |k: usize| {
            lib("evaluate_state", || {
                MonteCarloReward::new(k, 0.0, 0.0, te, RewardCriteria::FiniteHorizon, Some(seed))
                    .evaluate_state(&net, &f, &st(&s))
            })
        };
        let mut rets: Vec<(usize, f64)> = vec![];
        for k in ks {
            let p = if k == 1 { 0.0 } else { (k - 1) as f64 * mean(k - 1)? };
            let r = k as f64 * mean(k)? - p;
            if (r - idle).abs() < 1e-7 * rw.mag() * te {
                continue; // nothing happened before the end
            }
            for (k2, r2) in &rets {
                ensure!(
                    (r - r2).abs() > 1e-9 * rw.mag() * te,
                    "simulations {k2} and {k} have the same return {r}"
                );
            }
            rets.push((k, r));
            c.ev("returns of single simulations compared", 1);
        }
        Ok(())
    });
    ctx.cases("late returns", 4, 8, |c| {
        // no simulation, however late, repeats one of the first
        let card = small_cards(&mut c.rng, 1, 1, 3);
        let spec = NetSpec::random(&mut c.rng, card, 0.5, 64, Some(Style::Dense), 1.0);
        let net = spec.build(&mut c.rng);
        let rw = RW::random(&mut c.rng, &spec.card, 0.0, 3.0);
        let f = rw.lib(&net);
        let s = spec.random_state(&mut c.rng);
        let te = 4.0 / spec.total_exit(&s);
        let seed = c.rng.seed();
        c.desc = format!("{} horizon={te}", spec.desc());
        let mut ks: Vec<usize> = vec![1, 2, 3, 16385, 20001, 32769, 50001, 65537, 100001, 131073, 200001, 262145];
        ks.push(*c.rng.pick(&[300001, 400001, 500001, 524289, 1000001, 1048577]));
        let mean = |k: usize| {
            lib("evaluate_state", || {
                MonteCarloReward::new(k, 0.0, 0.0, te, RewardCriteria::FiniteHorizon, Some(seed))
                    .evaluate_state(&net, &f, &st(&s))
            })
        };
        let ret = |k: usize| -> Res<f64> {
            let p = if k == 1 { 0.0 } else { (k - 1) as f64 * mean(k - 1)? };
            Ok(k as f64 * mean(k)? - p)
        };
        let alike = |a: f64, b: f64| (a - b).abs() < 1e-6 * rw.mag() * te;
        let idle = rw.rate(&s) * te;
        let mut rets: Vec<(usize, f64)> = vec![];
        for k in ks {
            let r = ret(k)?;
            if alike(r, idle) {
                continue; // nothing happened before the end
            }
            for (k2, r2) in &rets {
                if alike(r, *r2) {
                    // a coincidence is not one of the next simulations too
                    let (a, b) = (ret(k + 1)?, ret(k2 + 1)?);
                    let (a2, b2) = (ret(k + 2)?, ret(k2 + 2)?);
                    ensure!(
                        !(alike(a, b) && alike(a2, b2)),
                        "simulations {k2} and {k} and the two after them have the same returns {r}, {a}, {a2}"
                    );
                }
            }
            rets.push((k, r));
            c.ev("returns of late simulations compared", 1);
        }
        Ok(())
    });
    ctx.require("estimates compared with the exact value", 300);
    ctx.require("exact values compared", 300);
}

// ---------------------------------------------------------------- C24
pub fn c24(ctx: &Ctx) {
    ctx.rule("random networks, rewards and stopping parameters: the simulated returns are recovered from runs capped at 1,2,3,... iterations with the stop disabled, the stopping rule is replayed on them, and the estimate with the stop enabled is compared with the mean at the predicted iteration (decisions within 1e-6 of the threshold skipped); the same with a constant of up to 1e9 standard deviations added to all returns; returns of 0 or 1 whose evaluation stops after up to 20000 simulations, found from capped runs alone; non-trivial: the rule stops before the maximum");
    ctx.cases("stopping", 300, 12, |c| {
        let mut spec = small_net(&mut c.rng, 48);
        let unit = time_unit(&mut c.rng);
        spec.rescale(1.0 / unit);
        let net = spec.build(&mut c.rng);
        let scale = if c.rng.chance(0.5) { c.rng.logu(0.1, 100.0) } else { c.rng.logu(1e-9, 1e9) };
        let mut rw = RW::random(&mut c.rng, &spec.card, -0.5 * scale, scale);
        rw.inst.iter_mut().flatten().for_each(|x| *x /= unit);
        let f = rw.lib(&net);
        let beta = if c.rng.chance(0.5) { 0.0 } else { c.rng.logu(0.1, 2.0) };
        let (te, beta) = (c.rng.logu(0.3, 4.0) * unit, beta / unit);
        let seed = c.rng.seed();
        let s = st(&spec.random_state(&mut c.rng));
        let max = match c.rng.below(100) {
            0 if c.rng.chance(0.3) => c.rng.int(600, 1100),
            1..=5 => c.rng.int(130, 300),
            _ => c.rng.int(1, 45),
        };
        let run = |cap: usize, err: f64, alpha: f64| {
            lib("evaluate_state", || {
                MonteCarloReward::new(cap, err, alpha, te, crit(beta), Some(seed))
                    .evaluate_state(&net, &f, &s)
            })
        };
        let mut means = vec![];
        let mut rets: Vec<f64> = vec![];
        for k in 1..=max {
            let m = run(k, 1.0, 0.0)?;
            let prev = if k == 1 { 0.0 } else { means[k - 2] };
            rets.push(k as f64 * m - (k - 1) as f64 * prev);
            means.push(m);
        }
        c.ev("returns recovered", max);
        let sd = {
            let m = rets.iter().sum::<f64>() / rets.len() as f64;
            (rets.iter().map(|x| (x - m).powi(2)).sum::<f64>() / rets.len() as f64).sqrt()
        };
        let mag = rets.iter().map(|x| x.abs()).fold(0.0, f64::max);
        c.nontrivial = false;
        for _ in 0..6 {
            let alpha = match c.rng.below(3) {
                0 => c.rng.logu(1e-3, 0.1),
                1 => c.rng.range(0.1, 0.9),
                _ if c.rng.chance(0.2) => c.rng.range(0.9, 0.9999),
                _ => 0.05,
            };
            let err = sd * c.rng.logu(0.05, 3.0) + 1e-12 * mag;
            let mut stop = max;
            let mut unsure = false;
            let (mut s1, mut s2) = (0.0, 0.0);
            for k in 1..=max {
                s1 += rets[k - 1];
                s2 += rets[k - 1] * rets[k - 1];
                if k < 4 {
                    continue;
                }
                let m = s1 / k as f64;
                let var = (s2 / k as f64 - m * m) * k as f64 / (k - 1) as f64;
                if var <= 1e-8 * mag * mag {
                    unsure = true;
                    break;
                }
                let p = 2.0 * phi(-(k as f64).sqrt() * err / var.sqrt());
                if (p - alpha).abs() < 1e-6 {
                    unsure = true;
                    break;
                }
                if p < alpha {
                    stop = k;
                    break;
                }
            }
            if unsure {
                c.ev("decisions skipped (at the threshold)", 1);
                continue;
            }
            let got = run(max, err, alpha)?;
            c.desc = format!(
                "{} horizon={te} discount={beta} maximum={max} error={err:e} alpha={alpha}",
                spec.desc()
            );
            ensure!(
                (got - means[stop - 1]).abs() <= 1e-9 * (mag + 1e-300),
                "estimate {got}; the rule stops after {stop} of {max} simulations, whose mean is {} (means: {:?})",
                means[stop - 1],
                &means[..max.min(12)]
            );
            if stop < max {
                c.nontrivial = true;
                c.ev("early stops predicted and observed", 1);
            } else {
                c.ev("runs to the maximum predicted and observed", 1);
            }
        }
        Ok(())
    });
    // A constant added to all returns changes neither their variance nor the decisions.
    ctx.cases("large offsets", 120, 12, |c| {
        let spec = small_net(&mut c.rng, 48);
        let net = spec.build(&mut c.rng);
        let rw = RW::random(&mut c.rng, &spec.card, -1.0, 2.0);
        let te = c.rng.logu(0.3, 3.0);
        let seed = c.rng.seed();
        let s = st(&spec.random_state(&mut c.rng));
        let max = c.rng.int(5, 60);
        let run = |w: &RW, cap: usize, err: f64, alpha: f64| {
            let f = w.lib(&net);
            lib("evaluate_state", || {
                MonteCarloReward::new(cap, err, alpha, te, crit(0.0), Some(seed)).evaluate_state(&net, &f, &s)
            })
        };
        let mut means = vec![];
        let mut rets: Vec<f64> = vec![];
        for k in 1..=max {
            let m = run(&rw, k, 1.0, 0.0)?;
            let prev = if k == 1 { 0.0 } else { means[k - 2] };
            rets.push(k as f64 * m - (k - 1) as f64 * prev);
            means.push(m);
        }
        let m = means[max - 1];
        let sd = (rets.iter().map(|x| (x - m).powi(2)).sum::<f64>() / rets.len() as f64).sqrt();
        c.nontrivial = false;
        for _ in 0..4 {
            let offset = sd * c.rng.logu(1e3, 1e9) * if c.rng.chance(0.5) { 1.0 } else { -1.0 };
            let mut w = rw.combine(&rw, 1.0, 0.0);
            w.inst[0].iter_mut().for_each(|x| *x += offset / te);
            let alpha = c.rng.logu(1e-3, 0.5);
            let err = sd * c.rng.logu(0.1, 2.0);
            let mut stop = max;
            let mut unsure = false;
            for k in 4..=max {
                let m = rets[..k].iter().sum::<f64>() / k as f64;
                let var = rets[..k].iter().map(|x| (x - m).powi(2)).sum::<f64>() / (k - 1) as f64;
                if var <= 1e-4 * sd * sd {
                    unsure = true;
                    break;
                }
                let p = 2.0 * phi(-(k as f64).sqrt() * err / var.sqrt());
                if (p - alpha).abs() < 1e-3 * alpha {
                    unsure = true;
                    break;
                }
                if p < alpha {
                    stop = k;
                    break;
                }
            }
            if unsure {
                c.ev("decisions skipped (at the threshold)", 1);
                continue;
            }
            let got = run(&w, max, err, alpha)?;
            c.desc = format!(
                "{} horizon={te} maximum={max} offset={offset:e} standard deviation={sd:e} error={err:e} alpha={alpha}",
                spec.desc()
            );
            let want = means[stop - 1] + offset;
            ensure!(
                (got - want).abs() <= 1e-13 * offset.abs() + 1e-9 * rets.iter().fold(0.0, |a: f64, x| a.max(x.abs())),
                "estimate {got}; the rule stops after {stop} of {max} simulations, whose mean is {want}"
            );
            if stop < max {
                c.nontrivial = true;
            }
            c.ev("decisions with large offsets", 1);
        }
        Ok(())
    });
    // Very long evaluations without a stop: the returns are numbers of transitions, so the total over
    // the first k simulations is an integer which grows at a known rate.
    ctx.cases("long evaluations", 6, 6, |c| {
        let k = c.rng.int(2, 3);
        let spec = NetSpec::random(&mut c.rng, vec![k], 0.0, 1, Some(Style::Dense), 1.0);
        let net = spec.build(&mut c.rng);
        let rate = (0..k).map(|x| -spec.cim[0][0][x][x]).fold(0.0, f64::max);
        let te = c.rng.range(0.2, 1.0) / rate;
        let mut rw = RW::random(&mut c.rng, &spec.card, 0.0, 1.0);
        rw.inst.iter_mut().flatten().for_each(|x| *x = 0.0);
        rw.tran.iter_mut().flatten().flatten().for_each(|x| *x = 1.0);
        let f = rw.lib(&net);
        let seed = c.rng.seed();
        let s = st(&spec.random_state(&mut c.rng));
        let total = |cap: usize| -> Res<f64> {
            let m = lib("evaluate_state", || {
                MonteCarloReward::new(cap, 1.0, 0.0, te, RewardCriteria::FiniteHorizon, Some(seed))
                    .evaluate_state(&net, &f, &s)
            })?;
            let t = m * cap as f64;
            ensure!(
                (t - t.round()).abs() < 1e-3,
                "the total number of transitions in {cap} simulations is {t}"
            );
            Ok(t.round())
        };
        let top = c.rng.int(65_000, 140_000);
        let mut caps: Vec<usize> = (0..4).map(|_| c.rng.int(2000, top)).collect();
        caps.extend([1000, top]);
        caps.sort();
        c.desc = format!("{} horizon={te} seed={seed} maxima={caps:?}", spec.desc());
        let (mut last, mut at) = (0.0, 0);
        for cap in caps {
            let t = total(cap)?;
            ensure!(
                t >= last,
                "{t} transitions in {cap} simulations, {last} in the first {at}"
            );
            // at most rate*te transitions expected in each of the new ones, and at least one expected
            // with probability 1-exp(-exit*te)
            let new = (cap - at) as f64;
            let x = un(&s)[0];
            let p1 = -(spec.cim[0][0][x][x] * te).exp_m1();
            ensure!(
                t - last <= new * rate * te + 8.0 * (new * rate * te).sqrt() + 40.0,
                "{} transitions in {new} simulations, at most {} expected",
                t - last,
                new * rate * te
            );
            ensure!(
                t - last >= new * p1 - 8.0 * (new * p1).sqrt() - 40.0,
                "{} transitions in {new} simulations, at least {} expected",
                t - last,
                new * p1
            );
            // one more simulation adds a whole number of transitions
            let one = total(cap + 1)?;
            ensure!(
                one >= t && one - t < 100.0,
                "simulation {} adds {} transitions",
                cap + 1,
                one - t
            );
            (last, at) = (t, cap);
            c.ev("simulations in long evaluations", cap);
        }
        Ok(())
    });
    // A stop after thousands of simulations: the returns are 0 or 1 (a transition which happens at most
    // once, up to a probability of 1e-9), so that the total over the first k is all the rule depends on.
    ctx.cases("late stops", 7, 8, |c| {
        let q = c.rng.range(0.5, 2.0);
        let spec = NetSpec {
            card: vec![2],
            pa: vec![vec![]],
            cim: vec![vec![vec![vec![-q, q], vec![1e-12 * q, -1e-12 * q]]]],
        };
        let net = spec.build(&mut c.rng);
        let te = c.rng.range(0.5, 1.5) / q;
        let mut rw = RW::random(&mut c.rng, &spec.card, 0.0, 1.0);
        let r = c.rng.logu(1e-3, 1e3);
        rw.inst.iter_mut().flatten().for_each(|x| *x = 0.0);
        rw.tran.iter_mut().flatten().flatten().for_each(|x| *x = r);
        let f = rw.lib(&net);
        let run_with = |seed: u64, cap: usize, err: f64, alpha: f64| {
            lib("evaluate_state", || {
                MonteCarloReward::new(cap, err, alpha, te, RewardCriteria::FiniteHorizon, Some(seed))
                    .evaluate_state(&net, &f, &st(&[0]))
            })
        };
        // a seed whose first four returns are not all the same
        let mut seed = c.rng.seed();
        for _ in 0..40 {
            let m = run_with(seed, 4, 1.0, 0.0)? / r;
            if m > 0.1 && m < 0.9 {
                break;
            }
            seed = c.rng.seed();
        }
        let run = |cap: usize, err: f64, alpha: f64| run_with(seed, cap, err, alpha);
        // number of returns which are 1 among the first k
        let count = |k: usize| -> Res<f64> {
            let t = run(k, 1.0, 0.0)? * k as f64 / r;
            ensure!((t - t.round()).abs() < 1e-6 * k as f64, "{t} transitions in {k} simulations");
            Ok(t.round())
        };
        let k = (c.rng.logu(1500.0, 20000.0)) as usize;
        let p = -(-q * te).exp_m1();
        let alpha = c.rng.logu(1e-3, 0.3);
        let z = {
            let (mut lo, mut hi) = (0.0, 10.0);
            for _ in 0..80 {
                let m = (lo + hi) / 2.0;
                if 2.0 * phi(-m) > alpha {
                    lo = m
                } else {
                    hi = m
                }
            }
            lo
        };
        let err = r * z * (p * (1.0 - p) / k as f64).sqrt();
        c.desc = format!("rate={q} horizon={te} seed={seed} error={err:e} alpha={alpha} about {k} simulations");
        // Some(true): the rule stops; None: too near to say
        let rule = |n: usize, ones: f64| -> Option<bool> {
            let m = ones / n as f64;
            let var = (m - m * m).max(0.0) * n as f64 / (n - 1) as f64 * r * r;
            if var == 0.0 {
                return None;
            }
            let pv = 2.0 * phi(-(n as f64).sqrt() * err / var.sqrt());
            if (pv - alpha).abs() < 1e-9 + 1e-7 * alpha {
                None
            } else {
                Some(pv < alpha)
            }
        };
        let mut stop = None;
        let mut n = 4;
        let mut at = count(n)?;
        while stop.is_none() {
            if n > 2 * k + 100 {
                fail!("monitor: no stop up to {n} simulations");
            }
            match rule(n, at) {
                None => {
                    c.ev("decisions skipped (at the threshold)", 1);
                    return Ok(());
                }
                Some(true) => stop = Some((n, at)),
                Some(false) => {}
            }
            // a step which no outcome of the simulations in between can turn into a stop
            let mut step = (n / 4).max(1);
            let safe = |step: usize| {
                let (lo, hi) = (at / (n + step) as f64, (at + step as f64) / (n + step) as f64);
                let low_var = (lo - lo * lo).min(hi - hi * hi).max(0.0) * r * r;
                low_var > 0.0
                    && 2.0 * phi(-((n + step) as f64).sqrt() * err / low_var.sqrt()) > alpha * 1.001
            };
            while step > 1 && !safe(step) {
                step /= 2;
            }
            if stop.is_none() {
                n += step;
                at = count(n)?;
            }
        }
        let (n, ones) = stop.unwrap();
        let got = run(4 * k + 1000, err, alpha)?;
        let want = r * ones / n as f64;
        ensure!(
            (got - want).abs() <= 1e-10 * r,
            "estimate {got}; the rule stops after {n} simulations, whose mean is {want}"
        );
        // the maximum just before and at the stop
        let before = run(n - 1, err, alpha)?;
        let w = r * count(n - 1)? / (n - 1) as f64;
        ensure!(
            (before - w).abs() <= 1e-10 * r,
            "estimate {before} with a maximum of {}, whose mean is {w}",
            n - 1
        );
        c.nontrivial = n > 1000;
        if n > 1000 {
            c.ev("stops after more than 1000 simulations", 1);
        }
        Ok(())
    });
    ctx.require("stops after more than 1000 simulations", 5);
    ctx.require("simulations in long evaluations", 100000);
    ctx.require("early stops predicted and observed", 200);
    ctx.require("runs to the maximum predicted and observed", 100);
}

// ---------------------------------------------------------------- C25
pub fn c25(ctx: &Ctx) {
    ctx.rule("random networks with up to 1500 joint states (some 13000, one more than 65536), seeded and unseeded, on rayon pools of 1 to 16 threads: the keys are exactly the joint states, each value is the one of the single state evaluation (bit by bit when seeded); non-trivial: at least two variables");
    ctx.cases("spaces", 140, 12, |c| {
        let huge = c.rng.chance(0.01);
        let mut card = match c.rng.below(6) {
            _ if huge => {
                if c.rng.chance(0.5) {
                    vec![2; 13]
                } else {
                    vec![3, c.rng.int(257, 700), 5]
                }
            }
            0 => small_cards(&mut c.rng, 5, 9, 3),
            1 => vec![c.rng.int(20, 60), c.rng.int(2, 8)],
            _ => small_cards(&mut c.rng, 1, 4, 5),
        };
        while !huge && card.iter().product::<usize>() > 1500 {
            card.pop();
        }
        let dens = c.rng.f();
        let spec = NetSpec::random(&mut c.rng, card, dens, 64, Some(Style::Dense), 1.0);
        let net = spec.build(&mut c.rng);
        let rw = RW::random(&mut c.rng, &spec.card, 0.0, 3.0);
        let f = rw.lib(&net);
        let n = spec.n();
        c.nontrivial = n > 1;
        let total: usize = spec.card.iter().product();
        let seed = if c.rng.chance(0.85) { Some(c.rng.seed()) } else { None };
        let beta = if c.rng.chance(0.5) { 0.0 } else { 0.5 };
        let te = c.rng.logu(0.1, 2.0);
        let alpha = if c.rng.chance(0.5) { 0.0 } else { 0.2 };
        let mc = MonteCarloReward::new(if huge { 1 } else { c.rng.int(1, 9) }, 0.5, alpha, te, crit(beta), seed);
        let threads = *c.rng.pick(&[1usize, 2, 3, 5, 8, 16]);
        c.desc = format!("{} seed={seed:?} threads={threads}", spec.desc());
        let pool = rayon::ThreadPoolBuilder::new()
            .num_threads(threads)
            .build()
            .unwrap();
        let map = lib("evaluate_state_space", || {
            pool.install(|| mc.evaluate_state_space(&net, &f))
        })?;
        ensure!(
            map.len() == total,
            "{} states evaluated instead of {total}",
            map.len()
        );
        let all: Vec<usize> = (0..n).collect();
        for idx in 0..total {
            let s: Vec<usize> = digits(&all, &spec.card, idx).iter().map(|x| x.1).collect();
            let v = match map.get(&st(&s)) {
                Some(v) => *v,
                None => fail!("state {s:?} is missing"),
            };
            if seed.is_some() {
                let w = mc.evaluate_state(&net, &f, &st(&s));
                ensure!(
                    v.to_bits() == w.to_bits(),
                    "state {s:?}: {v} in the state space, {w} alone (same seed)"
                );
                c.ev("values compared bit by bit", 1);
            } else {
                ensure!(v.is_finite(), "state {s:?}: {v}");
            }
        }
        c.ev("state spaces evaluated", 1);
        if seed.is_some() && !huge && total <= 200 {
            // the same evaluator, another network and another reward on the same state space
            let spec2 = NetSpec::random(&mut c.rng, spec.card.clone(), 0.5, 64, Some(Style::Dense), 1.0);
            let net2 = spec2.build(&mut c.rng);
            let rw2 = RW::random(&mut c.rng, &spec.card, 0.0, 3.0);
            for (a, r) in [(&net, &rw2), (&net2, &rw)] {
                let f = r.lib(a);
                let map = lib("evaluate_state_space", || mc.evaluate_state_space(a, &f))?;
                ensure!(map.len() == total, "{} states evaluated instead of {total}", map.len());
                for (s, v) in &map {
                    let w = mc.evaluate_state(a, &f, s);
                    ensure!(
                        v.to_bits() == w.to_bits(),
                        "state {s:?}: {v} in the state space, {w} alone (evaluator used before)"
                    );
                    c.ev("values compared bit by bit", 1);
                }
            }
        }
        Ok(())
    });
    // more than 2^16 joint states
    ctx.cases("large spaces", 1, 4, |c| {
        let card = match c.rng.below(3) {
            0 => vec![2; 17],
            1 => vec![c.rng.int(257, 280), c.rng.int(257, 280)],
            _ => vec![3, 4, 5, 6, 7, 8, c.rng.int(4, 6)],
        };
        let spec = NetSpec::random(&mut c.rng, card, 0.05, 8, Some(Style::Dense), 1.0);
        let net = spec.build(&mut c.rng);
        let rw = RW::random(&mut c.rng, &spec.card, 0.0, 3.0);
        let f = rw.lib(&net);
        let n = spec.n();
        let total: usize = spec.card.iter().product();
        let seed = c.rng.seed();
        c.desc = format!("{} seed={seed}, {total} states", spec.desc());
        let te = c.rng.logu(0.01, 0.3);
        let mc = MonteCarloReward::new(1, 0.5, 0.2, te, crit(0.0), Some(seed));
        let map = lib("evaluate_state_space", || mc.evaluate_state_space(&net, &f))?;
        ensure!(
            map.len() == total,
            "{} states evaluated instead of {total}",
            map.len()
        );
        let all: Vec<usize> = (0..n).collect();
        for idx in 0..total {
            let s: Vec<usize> = digits(&all, &spec.card, idx).iter().map(|x| x.1).collect();
            let v = match map.get(&st(&s)) {
                Some(v) => *v,
                None => fail!("state {s:?} is missing"),
            };
            if c.rng.chance(0.05) {
                let w = mc.evaluate_state(&net, &f, &st(&s));
                ensure!(
                    v.to_bits() == w.to_bits(),
                    "state {s:?}: {v} in the state space, {w} alone (same seed)"
                );
                c.ev("values of large spaces compared bit by bit", 1);
            }
        }
        Ok(())
    });
    ctx.require("values of large spaces compared bit by bit", 3000);
    ctx.require("values compared bit by bit", 3000);
}

// ---------------------------------------------------------------- C26
fn relative(map: &HashMap<NetworkProcessState, f64>, out: &HashMap<NetworkProcessState, f64>, c: &mut Case) -> Res {
    ensure!(
        out.len() == map.len(),
        "{} states instead of {}",
        out.len(),
        map.len()
    );
    let first = un(map.keys().next().unwrap());
    let top: Vec<usize> = (0..first.len())
        .map(|i| map.keys().map(|k| un(k)[i]).max().unwrap())
        .collect();
    for (k, v) in map {
        let mut want: f64 = 1.0;
        let a = un(k);
        for i in 0..a.len() {
            let mut b = a.clone();
            for y in 0..=top[i] {
                b[i] = y;
                want = want.max(v / map[&st(&b)]);
            }
        }
        match out.get(k) {
            None => fail!("state {a:?} is missing"),
            Some(g) => ensure!(
                close(*g, want, 1e-12, 0.0),
                "state {a:?} of reward {v}: relative reward {g}, expected {want}"
            ),
        }
        c.ev("relative rewards compared", 1);
    }
    Ok(())
}
#[cfg(feature = "mon")]
mod fixed {
    use super::*;
    use reCTBN::process;
    pub struct Fixed(pub HashMap<NetworkProcessState, f64>);
    impl RewardEvaluation for Fixed {
        fn evaluate_state_space<N: process::NetworkProcess, R: RewardFunction>(
            &self,
            _n: &N,
            _r: &R,
        ) -> HashMap<NetworkProcessState, f64> {
            self.0.clone()
        }
        fn evaluate_state<N: process::NetworkProcess, R: RewardFunction>(
            &self,
            _n: &N,
            _r: &R,
            s: &NetworkProcessState,
        ) -> f64 {
            self.0[s]
        }
    }
    pub fn run(ctx: &Ctx) {
        ctx.cases("tables", 400, 12, |c| {
            let mut card = small_cards(&mut c.rng, 1, 6, 4);
            match c.rng.below(20) {
                0 | 1 => card = vec![c.rng.int(10, 200), 2],
                2 => card = vec![c.rng.int(257, 330), 2],
                3 => card = vec![2; c.rng.int(8, 10)],
                4 => {
                    card = vec![2; 9];
                    card[c.rng.below(9)] = 3;
                }
                _ => {}
            }
            while card.iter().product::<usize>() > if c.rng.chance(0.1) { 1024 } else { 700 } {
                card.pop();
            }
            if card.is_empty() {
                card = vec![3];
            }
            let kind = c.rng.below(10);
            let unit = c.rng.logu(1e-200, 1e200);
            c.desc = format!("card={card:?} values kind={kind}");
            c.mix(c.rng.clone().u64());
            let n = card.len();
            let spec = NetSpec {
                card: card.clone(),
                pa: vec![vec![]; n],
                cim: vec![],
            };
            let net = spec.skeleton(&mut c.rng);
            let all: Vec<usize> = (0..n).collect();
            let total: usize = card.iter().product();
            let map: HashMap<_, _> = (0..total)
                .map(|i| {
                    let s: Vec<usize> = digits(&all, &card, i).iter().map(|x| x.1).collect();
                    let v = match kind {
                        0 => c.rng.range(0.1, 10.0),
                        1 => c.rng.logu(1e-6, 1e6),
                        2 => c.rng.int(1, 4) as f64,
                        3 => 2.5,
                        4 => unit * c.rng.range(0.5, 2.0),
                        5 => c.rng.logu(1e-100, 1e100),
                        6 => 1.0 + 1e-6 * c.rng.f(),
                        7 => -c.rng.logu(1e-3, 1e3),
                        8 => c.rng.range(0.1, 10.0) * if c.rng.chance(0.5) { -1.0 } else { 1.0 },
                        _ => 1.0 + s.iter().sum::<usize>() as f64,
                    };
                    (st(&s), v)
                })
                .collect();
            let f = FactoredRewardFunction::initialize_from_network_process(&net);
            let out = lib("evaluate_state_space", || {
                NeighborhoodRelativeReward::new(Fixed(map.clone())).evaluate_state_space(&net, &f)
            })?;
            relative(&map, &out, c)
        });
    }
}
pub fn c26(ctx: &Ctx) {
    ctx.rule("relative rewards over arbitrary reward tables, positive, negative and mixed, (stand-in evaluation) and over seeded Monte Carlo evaluations: each value against the best ratio with the states at distance at most one, not below 1; non-trivial: all");
    #[cfg(feature = "mon")]
    fixed::run(ctx);
    ctx.cases("monte carlo", 60, 10, |c| {
        let spec = small_net(&mut c.rng, 100);
        let net = spec.build(&mut c.rng);
        let rw = RW::random(&mut c.rng, &spec.card, 0.5, 3.0);
        let f = rw.lib(&net);
        let seed = c.rng.seed();
        c.desc = spec.desc();
        let mk = || MonteCarloReward::new(20, 0.1, 0.0, 1.0, RewardCriteria::FiniteHorizon, Some(seed));
        let map = mk().evaluate_state_space(&net, &f);
        let out = lib("evaluate_state_space", || {
            NeighborhoodRelativeReward::new(mk()).evaluate_state_space(&net, &f)
        })?;
        relative(&map, &out, c)
    });
    ctx.require("relative rewards compared", 1000);
}
