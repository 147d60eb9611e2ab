//! C05-C09, C27, C28, C31: sampling, trajectories, random generators.
use crate::core::*;
use crate::gen::*;
use crate::props::rew::RW;
use crate::stats::*;
use ndarray::{Array1, Array2};
use rand::SeedableRng;
use rand_chacha::ChaCha8Rng;
use reCTBN::params::*;
use reCTBN::process::{ctbn::CtbnNetwork, NetworkProcess};
use reCTBN::reward::reward_evaluation::*;
use reCTBN::reward::reward_function::*;
use reCTBN::reward::*;
use reCTBN::sampling::*;
use reCTBN::tools::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;

// ---------------------------------------------------------------- C05
pub fn c05(ctx: &Ctx) {
    ctx.rule("random nodes (2-300 states, 1-700 configurations, sparse to extreme intensities); for chosen (configuration, state) pairs the next states, residence times and uniform states drawn are compared with their exact laws (Chernoff and DKW bounds, false alarm < 1e-14 per comparison); non-trivial: all");
    let (times, nexts) = (Mutex::new(Pool::default()), Mutex::new(Pool::default()));
    ctx.cases("laws", 300, 15, |c| {
        let (mut ptime, mut pnext) = (Pool::default(), Pool::default());
        let k = match c.rng.below(12) {
            0 => c.rng.int(20, 60),
            1 => c.rng.int(200, 300),
            _ => c.rng.int(2, 7),
        };
        let many = k <= 7 && c.rng.chance(0.12);
        let u = match () {
            _ if k > 100 => 1,
            _ if many => c.rng.int(200, 700),
            _ => c.rng.int(1, 12),
        };
        let style = STYLES[c.rng.below(6)];
        let scale = if c.rng.chance(0.3) {
            c.rng.logu(1e-6, 1e6)
        } else {
            1.0
        };
        let m: Cim = (0..u)
            .map(|_| gen_matrix(&mut c.rng, k, style, scale))
            .collect();
        let mut p = raw_param("v", k);
        ensure!(p.set_cim(cim3(&m)).is_ok(), "valid matrix refused");
        c.desc = format!("k={k} configurations={u} {style:?} scale={scale:e}");
        let draws = if k > 100 { 6000 } else { 3000 };
        for _ in 0..3 {
            let i = if many && c.rng.chance(0.7) {
                c.rng.int(u * 2 / 3, u - 1)
            } else {
                c.rng.below(u)
            };
            let x = c.rng.below(k);
            let exit = -m[i][x][x];
            let fresh = c.rng.chance(0.3); // one generator per draw
            let mut rng = ChaCha8Rng::seed_from_u64(c.rng.u64());
            let mut cnt = vec![0u64; k];
            let mut uni = vec![0u64; k];
            let mut pit = vec![];
            let mut pairs = vec![];
            for _ in 0..draws {
                if fresh {
                    rng = ChaCha8Rng::seed_from_u64(c.rng.u64());
                }
                let t = lib("get_random_residence_time", || {
                    p.get_random_residence_time(x, i, &mut rng)
                })?;
                let t = match t {
                    Ok(t) => t,
                    Err(e) => fail!("residence time refused: {e:?}"),
                };
                ensure!(t >= 0.0, "residence time {t}");
                let v = -(-exit * t).exp_m1();
                pit.push(v);
                ptime.add(v, (-exit * t).exp());
                if fresh {
                    rng = ChaCha8Rng::seed_from_u64(c.rng.u64());
                }
                let s = lib("get_random_state", || p.get_random_state(x, i, &mut rng))?;
                let s = match s {
                    Ok(StateType::Discrete(s)) => s,
                    Err(e) => fail!("next state refused: {e:?}"),
                };
                ensure!(s < k, "next state {s} of {k}");
                ensure!(s != x, "transition from state {x} to itself");
                ensure!(
                    m[i][x][s] > 0.0,
                    "transition {x}->{s} in configuration {i} has null intensity"
                );
                cnt[s] += 1;
                // randomised probability integral transform of the next state
                let mut cum = 0.0;
                for y in 0..s {
                    if y != x {
                        cum += m[i][x][y];
                    }
                }
                let z = (cum + c.rng.f() * m[i][x][s]) / exit;
                pairs.push((v, z));
                pnext.add(z, 1.0 - z);
                let StateType::Discrete(s) = p.get_random_state_uniform(&mut rng);
                ensure!(s < k, "uniform state {s} of {k}");
                uni[s] += 1;
            }
            for y in 0..k {
                let pr = if y == x { 0.0 } else { m[i][x][y] / exit };
                binom(
                    &format!("transition {x}->{y} in configuration {i}"),
                    cnt[y],
                    draws as u64,
                    pr.min(1.0),
                )?;
                binom(
                    &format!("uniform state {y} of {k}"),
                    uni[y],
                    draws as u64,
                    1.0 / k as f64,
                )?;
            }
            grid("residence time and next state", &pairs, 5)?;
            dkw(
                &format!("residence time in state {x}, configuration {i}, rate {exit}"),
                &mut pit,
            )?;
            let mut v: Vec<f64> = pairs.iter().map(|x| x.1).collect();
            dkw("next state", &mut v)?;
            let mut v = vec![];
            for (y, n) in uni.iter().enumerate() {
                for _ in 0..*n {
                    v.push((y as f64 + c.rng.f()) / k as f64);
                }
            }
            dkw("uniform states", &mut v)?;
            c.ev("draws compared with their law", 3 * draws);
        }
        times.lock().unwrap().merge(ptime);
        nexts.lock().unwrap().merge(pnext);
        Ok(())
    });
    ctx.cases("all draws together", 1, 1, |c| {
        let mut p = times.lock().unwrap();
        c.desc = format!("{} residence times in units of their mean", p.len());
        p.check("residence times of all nodes", true)?;
        nexts.lock().unwrap().check("next states of all nodes", false)
    });
    // The initial state of a node, drawn uniformly, for variables of up to 100000 states.
    ctx.cases("uniform states", 24, 4, |c| {
        let k = match c.rng.below(4) {
            0 => c.rng.int(2, 20),
            1 => c.rng.int(20, 255),
            2 => c.rng.int(257, 5000),
            _ => c.rng.int(66000, 100000),
        };
        let p = raw_param("v", k);
        c.desc = format!("uniform over {k} states");
        let fresh = c.rng.chance(0.5);
        let mut rng = ChaCha8Rng::seed_from_u64(c.rng.u64());
        let mut v = vec![];
        let mut pairs = vec![];
        let mut last = c.rng.f();
        for _ in 0..20000 {
            if fresh {
                rng = ChaCha8Rng::seed_from_u64(c.rng.u64());
            }
            let StateType::Discrete(s) = lib("get_random_state_uniform", || {
                p.get_random_state_uniform(&mut rng)
            })?;
            ensure!(s < k, "uniform state {s} of {k}");
            let z = (s as f64 + c.rng.f()) / k as f64;
            v.push(z);
            pairs.push((last, z));
            last = z;
        }
        grid("successive uniform states", &pairs[1..], 5)?;
        // the lowest digit of the state, which the coarse comparisons do not see
        let even = v
            .iter()
            .filter(|z| ((**z * k as f64) as usize).min(k - 1) % 2 == 0)
            .count();
        binom(
            "even uniform states",
            even as u64,
            v.len() as u64,
            k.div_ceil(2) as f64 / k as f64,
        )?;
        dkw(&format!("uniform states of {k}"), &mut v)?;
        c.ev("uniform draws compared with their law", 20000);
        Ok(())
    });
    ctx.cases("uninitialised", 20, 5, |c| {
        let k = c.rng.int(2, 9);
        let p = raw_param("v", k);
        let mut rng = ChaCha8Rng::seed_from_u64(c.rng.u64());
        let z = c.rng.u64();
        c.mix(z);
        ensure!(
            matches!(
                lib("get_random_state", || p.get_random_state(0, 0, &mut rng))?,
                Err(ParamsError::ParametersNotInitialized(_))
            ),
            "next state sampled without intensities"
        );
        ensure!(
            matches!(
                lib("residence", || p.get_random_residence_time(0, 0, &mut rng))?,
                Err(ParamsError::ParametersNotInitialized(_))
            ),
            "residence time sampled without intensities"
        );
        Ok(())
    });
    ctx.require("draws compared with their law", 100000);
    ctx.require("uniform draws compared with their law", 100000);
}

// ---------------------------------------------------------------- C06
/// Online monitor of a simulation: checks each sample against the previous one.
pub struct Walk<'a> {
    spec: &'a NetSpec,
    last: Option<(f64, Vec<usize>)>,
    pub changes: usize,
}
impl<'a> Walk<'a> {
    pub fn new(spec: &'a NetSpec) -> Walk<'a> {
        Walk {
            spec,
            last: None,
            changes: 0,
        }
    }
    /// Returns (time before, state before, changed node) for a transition.
    pub fn step(&mut self, t: f64, s: Vec<usize>) -> Res<Option<(f64, Vec<usize>, usize)>> {
        ensure!(t.is_finite(), "time {t}");
        ensure!(
            s.len() == self.spec.n(),
            "state of {} variables for {} nodes",
            s.len(),
            self.spec.n()
        );
        for (i, x) in s.iter().enumerate() {
            ensure!(
                *x < self.spec.card[i],
                "node {i} in state {x} of {}",
                self.spec.card[i]
            );
        }
        let mut out = None;
        if let Some((lt, ls)) = self.last.take() {
            ensure!(t >= lt, "time goes back from {lt} to {t}");
            let d: Vec<usize> = (0..s.len()).filter(|i| s[*i] != ls[*i]).collect();
            ensure!(
                d.len() == 1,
                "{} variables change between {ls:?} and {s:?} (t={lt}..{t})",
                d.len()
            );
            let r = self.spec.rate(d[0], &ls, s[d[0]]);
            ensure!(
                r > 0.0,
                "node {} moves {}->{} in {ls:?}, where that transition has intensity {r}",
                d[0],
                ls[d[0]],
                s[d[0]]
            );
            self.changes += 1;
            out = Some((lt, ls, d[0]));
        } else {
            ensure!(t == 0.0, "the simulation starts at time {t}");
        }
        self.last = Some((t, s));
        Ok(out)
    }
}

pub fn c06(ctx: &Ctx) {
    ctx.rule("simulations of random networks (1-200 nodes, all intensity styles, fixed or random initial state) with resets at random points; every sample is checked online against the previous one; non-trivial: at least one reset after at least one transition");
    ctx.cases("walks", 400, 15, |c| {
        let big = c.rng.chance(0.08);
        let card = if big {
            small_cards(&mut c.rng, 40, 200, 5)
        } else if c.rng.chance(0.1) {
            vec![c.rng.int(30, 120), 2, 3]
        } else {
            small_cards(&mut c.rng, 1, 8, 5)
        };
        let dens = if big { 0.03 } else { c.rng.f() };
        let style = if c.rng.chance(0.2) {
            None
        } else {
            Some(STYLES[c.rng.below(6)])
        };
        let scale = time_unit(&mut c.rng);
        let spec = if !big && c.rng.chance(0.12) {
            many_confs(&mut c.rng, style, scale)
        } else {
            NetSpec::random(&mut c.rng, card, dens, 243, style, scale)
        };
        let net = spec.build(&mut c.rng);
        let init = if c.rng.chance(0.5) {
            Some(spec.random_state(&mut c.rng))
        } else {
            None
        };
        c.desc = format!("{} {style:?} scale={scale:e} initial={}", spec.desc(), init.is_some());
        let seed = if c.rng.chance(0.8) {
            Some(c.rng.seed())
        } else {
            None
        };
        let mut sampler = lib("ForwardSampler::new", || {
            ForwardSampler::new(&net, seed, init.as_ref().map(|x| st(x)))
        })?;
        for _ in 0..c.rng.int(2, 6) {
            let mut w = Walk::new(&spec);
            let steps = if big {
                c.rng.int(1, 150)
            } else {
                c.rng.int(0, 400)
            };
            for k in 0..steps {
                let x = lib("ForwardSampler::next", || sampler.next())?;
                let x = match x {
                    Some(x) => x,
                    None => fail!("the simulation ended after {k} samples"),
                };
                let s = un(&x.state);
                if k == 0 {
                    if let Some(i) = &init {
                        ensure!(&s == i, "simulation starts in {s:?} instead of {i:?}");
                    }
                }
                w.step(x.t, s)?;
                c.ev("samples checked", 1);
            }
            c.ev("transitions checked", w.changes);
            lib("ForwardSampler::reset", || sampler.reset())?;
            c.ev("resets", 1);
        }
        Ok(())
    });
    ctx.cases("very long walks", 2, 6, |c| {
        let card = small_cards(&mut c.rng, 1, 5, 4);
        let style = Some(STYLES[c.rng.below(6)]);
        let spec = NetSpec::random(&mut c.rng, card, 0.5, 64, style, 1.0);
        let net = spec.build(&mut c.rng);
        c.desc = format!("{} {style:?}", spec.desc());
        let seed = Some(c.rng.seed());
        let mut sampler = ForwardSampler::new(&net, seed, None);
        let mut w = Walk::new(&spec);
        let steps = c.rng.int(150000, 300000);
        for k in 0..steps {
            match lib("ForwardSampler::next", || sampler.next())? {
                Some(x) => w.step(x.t, un(&x.state))?,
                None => fail!("the simulation ended after {k} samples"),
            };
        }
        c.ev("samples checked", steps);
        c.ev("transitions checked", w.changes);
        Ok(())
    });
    ctx.require("transitions checked", 20000);
    ctx.require("resets", 500);
}

// ---------------------------------------------------------------- C07
#[derive(Default)]
pub struct Law {
    expo: HashMap<(usize, usize, usize), f64>,
    cnt: HashMap<(usize, usize, usize, usize), u64>,
}
impl Law {
    pub fn exposure(&mut self, spec: &NetSpec, s: &[usize], dt: f64) {
        for i in 0..spec.n() {
            *self.expo.entry((i, spec.u(i, s), s[i])).or_insert(0.0) += dt;
        }
    }
    pub fn jump(&mut self, spec: &NetSpec, s: &[usize], i: usize, y: usize) {
        *self.cnt.entry((i, spec.u(i, s), s[i], y)).or_insert(0) += 1;
    }
    pub fn check(&self, spec: &NetSpec, c: &mut Case) -> Res {
        let mut tot: HashMap<usize, (f64, f64)> = HashMap::new();
        for ((i, u, x), t) in &self.expo {
            let row = &spec.cim[*i][*u][*x];
            let mut all = 0;
            for (y, q) in row.iter().enumerate() {
                if y == *x {
                    continue;
                }
                let n = *self.cnt.get(&(*i, *u, *x, y)).unwrap_or(&0);
                all += n;
                if *q == 0.0 {
                    ensure!(n == 0, "node {i}: {n} transitions {x}->{y} of null intensity");
                    continue;
                }
                counts(
                    &format!("node {i}, configuration {u}, transition {x}->{y}"),
                    n as f64,
                    q * t,
                )?;
                c.ev("transition counts compared with their compensator", 1);
            }
            counts(
                &format!("node {i}, configuration {u}, exits from {x}"),
                all as f64,
                -row[*x] * t,
            )?;
            let e = tot.entry(*i).or_insert((0.0, 0.0));
            e.0 += all as f64;
            e.1 += -row[*x] * t;
        }
        for (i, (n, a)) in tot {
            counts(&format!("node {i}, all transitions"), n, a)?;
        }
        for (k, _) in &self.cnt {
            ensure!(
                self.expo.contains_key(&(k.0, k.1, k.2)),
                "transition without exposure"
            );
        }
        Ok(())
    }
}

pub fn c07(ctx: &Ctx) {
    ctx.rule("long simulations of random networks: per (node, configuration, transition) counts against their compensators (exponential martingale bound), time-rescaled holding times and randomised event marks against the uniform law (DKW), and their pairs (current/next holding time, holding time/mark, current/next mark) against joint uniformity; non-trivial: at least two nodes");
    let pool = Mutex::new((Pool::default(), Pool::default()));
    let run_burn = |c: &mut Case, spec: NetSpec, events: usize, burn: usize| -> Res {
        let net = spec.build(&mut c.rng);
        c.nontrivial = spec.n() > 1;
        let init = spec.random_state(&mut c.rng);
        let fixed = burn > 0 || c.rng.chance(0.5);
        let seed = c.rng.seed();
        let mut sampler = ForwardSampler::new(
            &net,
            Some(seed),
            if fixed { Some(st(&init)) } else { None },
        );
        let mut law = Law::default();
        let (mut ptime, mut pmark) = (Pool::default(), Pool::default());
        let (mut us, mut vs, mut uu, mut uv, mut vv) = (vec![], vec![], vec![], vec![], vec![]);
        let mut done = 0;
        while done < events {
            // Unrecorded events before the reset, which often comes when the state is the initial one.
            if burn > 0 {
                let home = c.rng.chance(0.7);
                let least = c.rng.below(burn);
                for k in 0..burn + 400 {
                    // the sampler is one transition ahead of the sample it returns
                    let x = lib("ForwardSampler::next", || sampler.next())?;
                    let near = x
                        .map(|x| {
                            let s = un(&x.state);
                            s.iter().zip(&init).filter(|(a, b)| a != b).count() == 1
                        })
                        .unwrap_or(false);
                    if k >= least && (!home || near) {
                        break;
                    }
                }
            }
            let seg = match if burn > 0 { 0 } else { c.rng.below(3) } {
                0 => c.rng.int(2, 10),
                1 => c.rng.int(10, 500),
                _ => events,
            }
            .min(events - done)
            .max(2);
            sampler.reset();
            let mut w = Walk::new(&spec);
            let (mut pu, mut pv): (Option<f64>, Option<f64>) = (None, None);
            for _ in 0..=seg {
                let x = match lib("ForwardSampler::next", || sampler.next())? {
                    Some(x) => x,
                    None => fail!("the simulation ended"),
                };
                let s = un(&x.state);
                if let Some((lt, ls, i)) = w.step(x.t, s.clone())? {
                    done += 1;
                    let dt = x.t - lt;
                    law.exposure(&spec, &ls, dt);
                    law.jump(&spec, &ls, i, s[i]);
                    let tot = spec.total_exit(&ls);
                    let u = -(-tot * dt).exp_m1();
                    // mark: position of (node, next state) in the cumulative distribution
                    let mut cum = 0.0;
                    for j in 0..i {
                        cum += spec.exit(j, &ls);
                    }
                    for y in 0..s[i] {
                        if y != ls[i] {
                            cum += spec.rate(i, &ls, y);
                        }
                    }
                    let v = ((cum + c.rng.f() * spec.rate(i, &ls, s[i])) / tot).min(1.0);
                    if let (Some(a), Some(b)) = (pu, pv) {
                        uu.push((a, u));
                        vv.push((b, v));
                    }
                    uv.push((u, v));
                    ptime.add(u, (-tot * dt).exp());
                    pmark.add(v, 1.0 - v);
                    us.push(u);
                    vs.push(v);
                    pu = Some(u);
                    pv = Some(v);
                }
            }
            c.ev("segments", 1);
        }
        c.ev("events observed", done);
        law.check(&spec, c)?;
        grid("consecutive holding times", &uu, 6)?;
        grid("holding time and event", &uv, 6)?;
        grid("consecutive events", &vv, 6)?;
        dkw("holding times", &mut us)?;
        dkw("events", &mut vs)?;
        // small seeds are used by several cases
        if seed > u32::MAX as u64 && seed.count_ones() > 8 && seed.count_zeros() > 8 {
            let mut p = pool.lock().unwrap();
            p.0.merge(ptime);
            p.1.merge(pmark);
        }
        Ok(())
    };
    let run = |c: &mut Case, spec: NetSpec, events: usize| run_burn(c, spec, events, 0);
    ctx.cases("many resets", 16, 8, |c| {
        let card = small_cards(&mut c.rng, 1, 4, 3);
        let dens = c.rng.f();
        let spec = NetSpec::random(&mut c.rng, card, dens, 64, Some(Style::Dense), 1.0);
        let burn = *c.rng.pick(&[1, 5, 20, 100]);
        c.desc = format!("{} burn={burn}", spec.desc());
        run_burn(c, spec, 12000, burn)
    });
    ctx.cases("small", 48, 12, |c| {
        let card = small_cards(&mut c.rng, 1, 5, 4);
        let dens = c.rng.f();
        let style = match c.rng.below(5) {
            0 => None,
            1 => Some(Style::Sparse),
            2 => Some(Style::Cyclic),
            3 => Some(Style::Wide),
            _ => Some(Style::Dense),
        };
        let scale = if c.rng.chance(0.3) {
            c.rng.logu(1e-4, 1e4)
        } else {
            1.0
        };
        let spec = NetSpec::random(&mut c.rng, card, dens, 64, style, scale);
        c.desc = format!("{} {style:?} scale={scale:e}", spec.desc());
        run(c, spec, 30000)
    });
    ctx.cases("very long", 2, 8, |c| {
        let card = small_cards(&mut c.rng, 2, 4, 3);
        let spec = NetSpec::random(&mut c.rng, card, 0.5, 64, Some(Style::Dense), 1.0);
        c.desc = spec.desc();
        run(c, spec, 250000)
    });
    ctx.cases("many nodes", 8, 8, |c| {
        let card = small_cards(&mut c.rng, 15, 60, 4);
        let spec = NetSpec::random(&mut c.rng, card, 0.08, 64, Some(Style::Dense), 1.0);
        c.desc = spec.desc();
        run(c, spec, 20000)
    });
    ctx.cases("hundreds of nodes", 2, 8, |c| {
        let card = small_cards(&mut c.rng, 66, 300, 3);
        let n = card.len() as f64;
        let mut spec = NetSpec::random(&mut c.rng, card, 3.0 / n, 64, Some(Style::Dense), 1.0);
        // a node which is a parent of many
        let hub = c.rng.below(spec.n());
        for i in 0..spec.n() {
            if i != hub && !spec.pa[i].contains(&hub) && spec.pa[i].len() < 4 && c.rng.chance(0.4) {
                spec.pa[i].push(hub);
                spec.pa[i].sort();
            }
        }
        spec.fill(&mut c.rng, Some(Style::Dense), 1.0);
        c.desc = spec.desc();
        run(c, spec, 20000)
    });
    ctx.cases("many configurations", 6, 8, |c| {
        let spec = many_confs(&mut c.rng, Some(Style::Dense), 1.0);
        c.desc = spec.desc();
        run(c, spec, 40000)
    });
    ctx.cases("many states", 8, 8, |c| {
        let card = match c.rng.below(4) {
            0 => vec![c.rng.int(257, 320), 2],
            1 => vec![2, 2, c.rng.int(257, 280)],
            _ => vec![c.rng.int(10, 40), c.rng.int(2, 6)],
        };
        let spec = NetSpec::random(&mut c.rng, card, 0.9, 64, Some(Style::Dense), 1.0);
        c.desc = spec.desc();
        run(c, spec, 40000)
    });
    ctx.cases("no repetitions", 2, 4, |c| {
        // millions of restarts of one sampler: none may replay an earlier one
        let card = small_cards(&mut c.rng, 1, 2, 3);
        let spec = NetSpec::random(&mut c.rng, card, 0.5, 64, Some(Style::Dense), 1.0);
        let net = spec.build(&mut c.rng);
        let init = if c.rng.chance(0.5) { None } else { Some(st(&spec.random_state(&mut c.rng))) };
        let seed = if c.rng.chance(0.3) { None } else { Some(c.rng.seed()) };
        let restarts = c.rng.int(1_500_000, 2_500_000);
        c.desc = format!("{} restarts={restarts} seed={seed:?}", spec.desc());
        let mut sampler = ForwardSampler::new(&net, seed, init);
        let mut seen: Vec<u64> = Vec::with_capacity(restarts);
        lib("simulations", || -> Res {
            for _ in 0..restarts {
                sampler.next();
                let mut h = 0u64;
                for _ in 0..2 {
                    match sampler.next() {
                        Some(x) => {
                            h = (h ^ x.t.to_bits()).wrapping_mul(0x9E3779B97F4A7C15);
                            h ^= h >> 29;
                        }
                        None => fail!("the simulation ended"),
                    }
                }
                seen.push(h);
                sampler.reset();
            }
            Ok(())
        })??;
        seen.sort_unstable();
        seen.dedup();
        ensure!(
            seen.len() == restarts,
            "{} of {restarts} simulations have the same first two event times as an earlier one",
            restarts - seen.len()
        );
        c.ev("restarts without repetition", restarts);
        Ok(())
    });
    ctx.cases("all events together", 1, 1, |c| {
        let mut p = pool.lock().unwrap();
        c.desc = format!("{} holding times in units of their mean", p.0.len());
        // differences of times: no tails
        p.0.check("holding times of all simulations", false)?;
        p.1.check("events of all simulations", false)
    });
    ctx.require("events observed", 1_000_000);
    ctx.require("transition counts compared with their compensator", 5000);
}

// ---------------------------------------------------------------- C08
pub fn check_dataset(spec: &NetSpec, trajs: &[Traj], t_end: f64, law: &mut Law, c: &mut Case) -> Res {
    for (k, tr) in trajs.iter().enumerate() {
        let n = tr.t.len();
        ensure!(
            n >= 2 && tr.ev.len() == n,
            "trajectory {k} has {n} times and {} states",
            tr.ev.len()
        );
        ensure!(
            tr.t[n - 1] == t_end,
            "trajectory {k} ends at {} instead of {t_end}",
            tr.t[n - 1]
        );
        ensure!(
            tr.ev[n - 1] == tr.ev[n - 2],
            "trajectory {k}: the final row {:?} is not the last state {:?}",
            tr.ev[n - 1],
            tr.ev[n - 2]
        );
        let mut w = Walk::new(spec);
        for r in 0..n - 1 {
            ensure!(
                tr.t[r] < t_end,
                "trajectory {k}: event at {} with end time {t_end}",
                tr.t[r]
            );
            if let Some((lt, ls, i)) = w
                .step(tr.t[r], tr.ev[r].clone())
                .map_err(|e| e.ctx(&format!("trajectory {k} row {r}")))?
            {
                law.exposure(spec, &ls, tr.t[r] - lt);
                law.jump(spec, &ls, i, tr.ev[r][i]);
            }
        }
        law.exposure(spec, &tr.ev[n - 2], t_end - tr.t[n - 2]);
        c.ev("transitions checked", w.changes);
        c.ev("trajectories checked", 1);
    }
    Ok(())
}
pub fn c08(ctx: &Ctx) {
    ctx.rule("datasets generated from random networks (0-3000 trajectories, very short to long horizons): shape of every trajectory, censored compensators of every transition, uniform and mutually independent initial states, independence of trajectories at several distances, no two trajectories alike; the same seed with end times at, just before and just after an event; non-trivial: at least two trajectories");
    ctx.cases("datasets", 160, 12, |c| {
        let big = c.rng.chance(0.1);
        let card = if big {
            small_cards(&mut c.rng, 20, 80, 4)
        } else {
            small_cards(&mut c.rng, 1, 5, 4)
        };
        let dens = if big { 0.05 } else { c.rng.f() };
        let style = match c.rng.below(4) {
            0 => Some(Style::Sparse),
            1 => Some(Style::Cyclic),
            2 => None,
            _ => Some(Style::Dense),
        };
        let unit = time_unit(&mut c.rng);
        let mut spec = if !big && c.rng.chance(0.08) {
            many_confs(&mut c.rng, style, 1.0)
        } else {
            NetSpec::random(&mut c.rng, card, dens, 64, style, 1.0)
        };
        spec.rescale(1.0 / unit);
        let net = spec.build(&mut c.rng);
        let per = (spec.n() as f64 * 4.0).max(1.0);
        let (nt, te) = match c.rng.below(5) {
            0 => (c.rng.int(0, 3), c.rng.logu(1.0, 100.0)),
            1 => (
                c.rng.int(500, 3000) / if big { 5 } else { 1 },
                c.rng.logu(1e-3, 2.0) / per,
            ),
            2 => (
                c.rng.int(300, 1000) / if big { 20 } else { 1 },
                c.rng.int(1, 5) as f64 / 2.0,
            ),
            3 => (c.rng.int(20, 100), c.rng.logu(0.1, 30.0)),
            _ => (1, 8000.0 / per),
        };
        let te = te * unit;
        let seed = if c.rng.chance(0.8) {
            Some(c.rng.seed())
        } else {
            None
        };
        c.desc = format!("{} {style:?} trajectories={nt} end={te}", spec.desc());
        c.nontrivial = nt > 1;
        let d = lib("trajectory_generator", || {
            trajectory_generator(&net, nt as u64, te, seed)
        })?;
        let trajs = from_dataset(&d);
        ensure!(
            trajs.len() == nt,
            "{} trajectories instead of {nt}",
            trajs.len()
        );
        let mut law = Law::default();
        check_dataset(&spec, &trajs, te, &mut law, c)?;
        law.check(&spec, c)?;
        // initial states
        for i in 0..spec.n() {
            let mut cnt = vec![0u64; spec.card[i]];
            for t in &trajs {
                cnt[t.ev[0][i]] += 1;
            }
            for x in 0..spec.card[i] {
                binom(
                    &format!("initial state {x} of node {i}"),
                    cnt[x],
                    nt as u64,
                    1.0 / spec.card[i] as f64,
                )?;
            }
            if i > 0 {
                let mut cnt = HashMap::new();
                for t in &trajs {
                    *cnt.entry((t.ev[0][i - 1], t.ev[0][i])).or_insert(0u64) += 1;
                }
                for ((x, y), n) in cnt {
                    binom(
                        &format!("initial states {x},{y} of nodes {},{i}", i - 1),
                        n,
                        nt as u64,
                        1.0 / (spec.card[i] * spec.card[i - 1]) as f64,
                    )?;
                }
            }
        }
        // trajectories at a distance: first events and initial states
        let first: Vec<Option<f64>> = trajs
            .iter()
            .map(|t| {
                let tot = spec.total_exit(&t.ev[0]);
                (t.t.len() > 2).then(|| (-tot * t.t[1]).exp_m1() / (-tot * te).exp_m1())
            })
            .collect();
        let start: Vec<f64> = trajs
            .iter()
            .map(|t| (t.ev[0][0] as f64 + c.rng.f()) / spec.card[0] as f64)
            .collect();
        let last: Vec<f64> = trajs
            .iter()
            .map(|t| (t.ev[t.ev.len() - 1][0] as f64 + c.rng.f()) / spec.card[0] as f64)
            .collect();
        for lag in [1, 2, 3, 4, 8, c.rng.int(1, 200)] {
            for half in 0..2 {
                let at: Vec<usize> = (0..nt.saturating_sub(lag)).filter(|k| (k / lag) % 2 == half).collect();
                let v: Vec<(f64, f64)> = at
                    .iter()
                    .filter_map(|k| Some((first[*k]?, first[k + lag]?)))
                    .collect();
                grid(&format!("first events of trajectories {lag} apart"), &v, 3)?;
                let v: Vec<(f64, f64)> = at.iter().map(|k| (start[*k], start[k + lag])).collect();
                grid(&format!("initial states of trajectories {lag} apart"), &v, 3)?;
                // the start given the end of an earlier one
                for cell in 0..spec.card[0] {
                    let w: Vec<f64> = at
                        .iter()
                        .filter(|k| (last[**k] * spec.card[0] as f64) as usize == cell)
                        .map(|k| start[k + lag])
                        .collect();
                    for third in 0..3 {
                        binom(
                            &format!("initial states {lag} trajectories after one which ends in {cell}"),
                            w.iter().filter(|z| ((**z * 3.0) as usize).min(2) == third).count() as u64,
                            w.len() as u64,
                            1.0 / 3.0,
                        )?;
                    }
                }
                c.ev("pairs of trajectories compared", at.len());
            }
        }
        // no trajectory is a copy of another one
        let mut firsts: Vec<u64> = trajs
            .iter()
            .filter(|t| t.t.len() > 2)
            .map(|t| t.t[1].to_bits())
            .collect();
        let n = firsts.len();
        firsts.sort();
        firsts.dedup();
        ensure!(
            firsts.len() == n,
            "{} trajectories have the same first event time as another one",
            n - firsts.len()
        );
        c.ev("datasets checked", 1);
        Ok(())
    });
    // The same seed with another end time: when the events are the same, none is missing at the end.
    ctx.cases("end times at events", 60, 10, |c| {
        let card = small_cards(&mut c.rng, 1, 6, 4);
        let mut spec = NetSpec::random(&mut c.rng, card, 0.5, 64, Some(Style::Dense), 1.0);
        let unit = time_unit(&mut c.rng);
        spec.rescale(1.0 / unit);
        let net = spec.build(&mut c.rng);
        let seed = Some(c.rng.seed());
        let nt = c.rng.int(1, 3) as u64;
        let te = unit * c.rng.logu(1.0, 100.0);
        c.desc = format!("{} seed={seed:?} end={te}", spec.desc());
        let a = from_dataset(&lib("trajectory_generator", || trajectory_generator(&net, nt, te, seed))?);
        let a = &a[0];
        c.nontrivial = a.t.len() > 5;
        if a.t.len() < 6 {
            return Ok(());
        }
        for _ in 0..8 {
            let k = c.rng.int(3, a.t.len() - 2);
            // the end time, and the number of rows before it
            let (end, rows) = match c.rng.below(4) {
                0 => (a.t[k], k),
                1 => (f64::from_bits(a.t[k].to_bits() + 1), k + 1),
                2 => (f64::from_bits(a.t[k].to_bits() - 1), k),
                _ => {
                    let e = a.t[k] * (1.0 + c.rng.logu(1e-15, 1e-3));
                    (e, a.t[..a.t.len() - 1].iter().filter(|t| **t < e).count())
                }
            };
            let b = from_dataset(&lib("trajectory_generator", || {
                trajectory_generator(&net, nt, end, seed)
            })?);
            let b = &b[0];
            let m = b.t.len() - 1;
            ensure!(b.t[m] == end, "the trajectory ends at {} instead of {end}", b.t[m]);
            if m < 2 || m > a.t.len() || b.t[..m] != a.t[..m] || b.ev[..m] != a.ev[..m] {
                c.ev("end times whose trajectories are not comparable", 1);
                continue;
            }
            ensure!(
                m == rows,
                "{m} rows before the end time {end:?}, instead of {rows}: the next event is at {:?}, the one before at {:?}",
                a.t[rows],
                a.t[rows - 1]
            );
            c.ev("end times next to an event compared", 1);
        }
        Ok(())
    });
    let huge = |c: &mut Case, nt: usize, te: f64| -> Res {
        let card = small_cards(&mut c.rng, 1, 3, 3);
        let spec = NetSpec::random(&mut c.rng, card, 0.7, 64, Some(Style::Dense), 1.0);
        let net = spec.build(&mut c.rng);
        let te = if te > 0.0 {
            te
        } else {
            // the mean rate is estimated on a short simulation
            let mut s = ForwardSampler::new(&net, Some(1), None);
            let last = lib("ForwardSampler::next", || s.nth(2000))?;
            let rate = 2000.0 / last.map(|x| x.t).unwrap_or(1.0);
            c.rng.range(140000.0, 300000.0) / nt as f64 / rate
        };
        let seed = Some(c.rng.seed());
        c.desc = format!("{} trajectories={nt} end={te}", spec.desc());
        let d = lib("trajectory_generator", || {
            trajectory_generator(&net, nt as u64, te, seed)
        })?;
        let trajs = from_dataset(&d);
        ensure!(trajs.len() == nt, "{} trajectories instead of {nt}", trajs.len());
        let mut law = Law::default();
        check_dataset(&spec, &trajs, te, &mut law, c)?;
        c.ev(
            "trajectories of more than 65536 events",
            trajs.iter().filter(|t| t.t.len() > 65536).count(),
        );
        let mut firsts: Vec<u64> = trajs
            .iter()
            .filter(|t| t.t.len() > 2)
            .map(|t| t.t[1].to_bits())
            .collect();
        let n = firsts.len();
        firsts.sort();
        firsts.dedup();
        ensure!(
            firsts.len() == n,
            "{} trajectories have the same first event time as another one",
            n - firsts.len()
        );
        law.check(&spec, c)
    };
    ctx.cases("very long trajectories", 2, 6, |c| {
        let nt = c.rng.int(1, 2);
        huge(c, nt, 0.0)
    });
    ctx.cases("very many trajectories", 1, 6, |c| {
        let nt = c.rng.int(66000, 135000);
        let te = c.rng.logu(1e-2, 1.0);
        huge(c, nt, te)
    });
    ctx.require("trajectories of more than 65536 events", 1);
    ctx.require("transitions checked", 50000);
    ctx.require("trajectories checked", 10000);
}

// ---------------------------------------------------------------- C09
fn samples(net: &CtbnNetwork, seed: Option<u64>, init: Option<Vec<usize>>, n: usize) -> Vec<(u64, Vec<usize>)> {
    let mut s = ForwardSampler::new(net, seed, init.map(|x| st(&x)));
    let mut v = vec![];
    for k in 0..n {
        let x = s.next().unwrap();
        v.push((x.t.to_bits(), un(&x.state)));
        if k == n / 2 {
            s.reset();
        }
    }
    v
}
fn dbits(d: &Dataset) -> Vec<(Vec<u64>, Vec<Vec<usize>>)> {
    from_dataset(d)
        .into_iter()
        .map(|t| (t.t.iter().map(|x| x.to_bits()).collect(), t.ev))
        .collect()
}
fn graph(card: &[usize], density: f64, seed: Option<u64>) -> Vec<usize> {
    let mut net = CtbnNetwork::new();
    for k in card {
        net.add_node(param("x", *k)).unwrap();
    }
    let mut g: UniformGraphGenerator = RandomGraphGenerator::new(density, seed);
    g.generate_graph(&mut net);
    let mut v: Vec<usize> = net
        .get_adj_matrix()
        .unwrap()
        .iter()
        .map(|x| *x as usize)
        .collect();
    g.generate_graph(&mut net);
    v.extend(net.get_adj_matrix().unwrap().iter().map(|x| *x as usize));
    v
}
fn params_of(spec: &NetSpec, seed: Option<u64>, order: &mut Rng) -> Vec<u64> {
    let mut net = spec.skeleton(order);
    let mut g: UniformParametersGenerator = RandomParametersGenerator::new(0.5..4.0, seed);
    let mut v = vec![];
    for _ in 0..2 {
        g.generate_parameters(&mut net);
        for i in net.get_node_indices() {
            v.extend(
                inner(net.get_node(i))
                    .get_cim()
                    .as_ref()
                    .unwrap()
                    .iter()
                    .map(|x| x.to_bits()),
            );
        }
    }
    v
}
fn mc_value(net: &CtbnNetwork, s: &[usize], seed: Option<u64>, rs: u64) -> u64 {
    let mut rf = FactoredRewardFunction::initialize_from_network_process(net);
    let mut r = Rng::new(rs);
    for i in net.get_node_indices() {
        rf.get_instantaneous_reward_mut(i)
            .mapv_inplace(|_| r.range(-1.0, 3.0));
        rf.get_transition_reward_mut(i)
            .mapv_inplace(|_| r.range(-1.0, 3.0));
    }
    let mc = MonteCarloReward::new(12, 0.1, 0.0, 2.0, RewardCriteria::FiniteHorizon, seed);
    mc.evaluate_state(net, &rf, &st(s)).to_bits()
}
const OPS: [&str; 5] = [
    "sampler",
    "trajectory generator",
    "graph generator",
    "parameters generator",
    "Monte Carlo reward",
];
/// All exit rates between 1 and 3.
fn lively(rng: &mut Rng, spec: &mut NetSpec) {
    for row in spec.cim.iter_mut().flatten().enumerate().flat_map(|(_, m)| m.iter_mut().enumerate()) {
        let f = rng.range(1.0, 3.0) / -row.1[row.0];
        row.1.iter_mut().for_each(|x| *x *= f);
    }
}
fn bare_pair() -> CtbnNetwork {
    let mut n = CtbnNetwork::new();
    n.add_node(param("a", 2)).unwrap();
    n.add_node(param("b", 2)).unwrap();
    n.initialize_adj_matrix();
    n
}
/// Digests of each randomised operation with a seed and without one.
fn fingerprints(cs: u64) -> Res<Vec<(String, String)>> {
    let mut rng = Rng::new(cs);
    let card = small_cards(&mut rng, 3, 5, 3);
    let mut spec = NetSpec::random(&mut rng, card, 0.6, 64, Some(Style::Dense), 1.0);
    lively(&mut rng, &mut spec);
    let net = spec.build(&mut rng);
    let s0 = spec.random_state(&mut rng);
    let (seed, rs) = (rng.seed(), rng.u64());
    let mut one = |w: usize, seed: Option<u64>| -> Res<String> {
        let v: Vec<u64> = lib("randomised operation", || match w {
            0 => samples(&net, seed, None, 60)
                .into_iter()
                .flat_map(|(t, s)| std::iter::once(t).chain(s.into_iter().map(|x| x as u64)).collect::<Vec<_>>())
                .collect(),
            1 => dbits(&trajectory_generator(&net, 3, 4.0, seed))
                .into_iter()
                .flat_map(|(t, e)| t.into_iter().chain(e.into_iter().flatten().map(|x| x as u64)).collect::<Vec<_>>())
                .collect(),
            2 => graph(&vec![2; 24], 0.5, seed).into_iter().map(|x| x as u64).collect(),
            3 => params_of(&spec, seed, &mut rng),
            _ => vec![mc_value(&net, &s0, seed, rs)],
        })?;
        Ok(format!("{:016x}", v.iter().fold(v.len() as u64, |h, x| mix64(h ^ x))))
    };
    (0..5).map(|w| Ok((one(w, Some(seed))?, one(w, None)?))).collect()
}
pub fn c09_child(cs: u64) -> i32 {
    match fingerprints(cs) {
        Ok(v) => {
            for (a, b) in v {
                println!("{a} {b}");
            }
            0
        }
        Err(_) => 1,
    }
}
pub fn c09(ctx: &Ctx) {
    ctx.rule("every randomised operation (sampler with resets, dataset, graph and parameter generators, Monte Carlo reward) is repeated with the same seed, in a different order, after unrelated work, on an equal but separately built network and from other threads, and compared bit by bit; also in other processes; other seeds and no seed (two in a row, many at once from several threads, in several processes) must give other results; non-trivial: all");
    ctx.cases("replays", 250, 12, |c| {
        let card = small_cards(&mut c.rng, 2, 6, 4);
        let dens = c.rng.f();
        let spec = NetSpec::random(&mut c.rng, card, dens, 64, Some(Style::Dense), 1.0);
        let seed = match c.rng.below(6) {
            0 => 0,
            1 => u64::MAX,
            2 => c.rng.below(100) as u64,
            3 => 1u64 << c.rng.below(64),
            _ => c.rng.u64(),
        };
        let init = if c.rng.chance(0.5) {
            Some(spec.random_state(&mut c.rng))
        } else {
            None
        };
        let s0 = spec.random_state(&mut c.rng);
        c.desc = format!("{} seed={seed}", spec.desc());
        let len = c.rng.int(20, 120);
        let mut orders = c.rng.clone();
        let rs = c.rng.u64();
        let all = |which: usize, seed: Option<u64>, order: &mut Rng| -> Res<Vec<u64>> {
            // an equal network, built separately, edges inserted in another order
            let net = spec.build(order);
            let r = lib("seeded operation", || match which {
                0 => samples(&net, seed, init.clone(), len)
                    .into_iter()
                    .flat_map(|(t, s)| {
                        let mut v = vec![t];
                        v.extend(s.iter().map(|x| *x as u64));
                        v
                    })
                    .collect(),
                1 => dbits(&trajectory_generator(&net, 4, 3.0, seed))
                    .into_iter()
                    .flat_map(|(t, e)| {
                        let mut v = t;
                        v.extend(e.iter().flatten().map(|x| *x as u64));
                        v
                    })
                    .collect(),
                2 => graph(&vec![2; 24], 0.5, seed)
                    .into_iter()
                    .map(|x| x as u64)
                    .collect(),
                3 => params_of(&spec, seed, order),
                _ => vec![mc_value(&net, &s0, seed, rs)],
            })?;
            Ok(r)
        };
        const NAMES: [&str; 5] = [
            "sampler",
            "trajectory generator",
            "graph generator",
            "parameters generator",
            "Monte Carlo reward",
        ];
        let first: Vec<Vec<u64>> = (0..5)
            .map(|w| all(w, Some(seed), &mut orders))
            .collect::<Res<_>>()?;
        // again, in another order, interleaved with work which uses other seeds
        let mut idx: Vec<usize> = (0..5).collect();
        orders.shuffle(&mut idx);
        for w in idx {
            let other = orders.u64();
            all(orders.below(5), Some(other), &mut orders)?;
            let again = all(w, Some(seed), &mut orders)?;
            ensure!(
                again == first[w],
                "{}: seed {seed} gives different results in two runs",
                NAMES[w]
            );
            c.ev("replays compared bit by bit", 1);
            let o = all(w, Some(other), &mut orders)?;
            ensure!(
                o != first[w],
                "{}: seeds {seed} and {other} give the same result",
                NAMES[w]
            );
            // seeds which differ in one bit or by one
            let near = if orders.chance(0.5) {
                seed ^ (1u64 << orders.below(64))
            } else {
                seed.wrapping_add(1)
            };
            let o = all(w, Some(near), &mut orders)?;
            ensure!(
                o != first[w],
                "{}: seeds {seed} and {near} give the same result",
                NAMES[w]
            );
            c.ev("different seeds compared", 2);
            if orders.chance(0.3) {
                let (a, b) = (
                    all(w, None, &mut orders)?,
                    all(w, None, &mut orders)?,
                );
                ensure!(
                    a != b && a != first[w],
                    "{}: two unseeded runs give the same result",
                    NAMES[w]
                );
                c.ev("unseeded pairs compared", 1);
            }
        }
        // concurrently
        let bad = Mutex::new(None);
        let ev = std::sync::atomic::AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for k in 0..3u64 {
                let mut o = Rng::new(rs ^ k);
                let (all, first, bad, ev) = (&all, &first, &bad, &ev);
                sc.spawn(move || {
                    for w in 0..5 {
                        match all(w, Some(seed), &mut o) {
                            Ok(v) if v == first[w] => {
                                ev.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                            }
                            Ok(_) => {
                                *bad.lock().unwrap() = Some(Violation::new(format!(
                                    "{}: seed {seed} gives another result in a concurrent thread",
                                    NAMES[w]
                                )))
                            }
                            Err(e) => *bad.lock().unwrap() = Some(e),
                        }
                    }
                });
            }
        });
        if let Some(b) = bad.into_inner().unwrap() {
            return Err(b);
        }
        c.ev("replays compared bit by bit", ev.into_inner());
        Ok(())
    });
    // Another process, in which nothing has been executed before.
    let exe = std::env::current_exe();
    ctx.cases("other processes", 1, 4, |c| {
        let cs = c.rng.u64();
        c.desc = format!("child={cs}");
        let child = || -> Option<Vec<(String, String)>> {
            let o = std::process::Command::new(exe.as_ref().ok()?)
                .args(["C09-child", &cs.to_string()])
                .stdin(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .output()
                .ok()?;
            let t = String::from_utf8(o.stdout).ok()?;
            t.lines()
                .map(|l| {
                    let mut w = l.split(' ');
                    Some((w.next()?.to_string(), w.next()?.to_string()))
                })
                .collect()
        };
        let here: Vec<(String, String)> = fingerprints(cs)?;
        let (a, b) = (child(), child());
        let (Some(a), Some(b)) = (a, b) else {
            c.ev("processes which could not be started", 1);
            return Ok(());
        };
        ensure!(
            a.len() == here.len() && b.len() == here.len(),
            "another process gives {} and {} results instead of {}",
            a.len(),
            b.len(),
            here.len()
        );
        for k in 0..here.len() {
            let (seeded, ra, rb) = (&here[k].0, &a[k], &b[k]);
            ensure!(
                *seeded == ra.0 && *seeded == rb.0,
                "{}: the same seed gives another result in another process",
                OPS[k]
            );
            ensure!(
                ra.1 != rb.1 && ra.1 != here[k].1 && rb.1 != here[k].1,
                "{}: unseeded runs in two processes give the same result",
                OPS[k]
            );
            c.ev("results of other processes compared", 2);
        }
        Ok(())
    });
    // Many unseeded objects created at the same moment by several threads.
    ctx.cases("simultaneous unseeded", 1, 4, |c| {
        let mut spec = NetSpec::random(&mut c.rng, vec![2, 3], 1.0, 64, Some(Style::Dense), 1.0);
        lively(&mut c.rng, &mut spec);
        let net = spec.build(&mut c.rng);
        let f = RW::random(&mut c.rng, &spec.card, 1.0, 3.0).lib(&net);
        let what = c.rng.below(5);
        let per = 400;
        c.desc = format!("{} from 8 threads", OPS[what]);
        let bar = std::sync::Barrier::new(8);
        let all = Mutex::new(vec![]);
        let one = || -> u64 {
            match what {
                0 => samples(&net, None, Some(vec![0, 0]), 2)[1].0,
                1 => trajectory_generator(&net, 1, 50.0, None).get_trajectories()[0].get_time()[1].to_bits(),
                2 => graph(&[2; 12], 0.5, None)
                    .into_iter()
                    .fold(0, |h, b| mix64(h ^ b as u64 ^ 77)),
                3 => {
                    let mut n = bare_pair();
                    let mut g: UniformParametersGenerator =
                        RandomParametersGenerator::new(1.0..3.0, None);
                    g.generate_parameters(&mut n);
                    inner(n.get_node(0)).get_cim().as_ref().unwrap()[[0, 0, 0]].to_bits()
                }
                _ => MonteCarloReward::new(8, 1.0, 0.0, 6.0, RewardCriteria::FiniteHorizon, None)
                    .evaluate_state(&net, &f, &st(&[0, 0]))
                    .to_bits(),
            }
        };
        let failed = Mutex::new(None);
        std::thread::scope(|sc| {
            for _ in 0..8 {
                sc.spawn(|| {
                    bar.wait();
                    match lib("unseeded operation", || (0..per).map(|_| one()).collect::<Vec<u64>>()) {
                        Ok(v) => all.lock().unwrap().extend(v),
                        Err(e) => *failed.lock().unwrap() = Some(e),
                    }
                });
            }
        });
        if let Some(e) = failed.into_inner().unwrap() {
            return Err(e);
        }
        let mut v = all.into_inner().unwrap();
        let n = v.len();
        v.sort();
        v.dedup();
        // graphs over 12 nodes: 2^132, the others about 2^50
        ensure!(
            v.len() == n,
            "{}: {} of {n} unseeded runs give the result of another one",
            OPS[what],
            n - v.len()
        );
        c.ev("simultaneous unseeded runs", n);
        Ok(())
    });
    ctx.cases("long replays", 2, 6, |c| {
        let card = small_cards(&mut c.rng, 2, 4, 3);
        let spec = NetSpec::random(&mut c.rng, card, 0.5, 64, Some(Style::Dense), 1.0);
        let net = spec.build(&mut c.rng);
        let big = NetSpec::random(&mut c.rng, vec![2; 12], 0.6, 1 << 11, Some(Style::Dense), 1.0);
        let s0 = spec.random_state(&mut c.rng);
        let seed = c.rng.seed();
        let (n, nt, ng, it) = (
            c.rng.int(70_000, 140_000),
            c.rng.int(300, 1000),
            c.rng.int(100, 280),
            c.rng.int(1100, 5000),
        );
        let f = RW::random(&mut c.rng, &spec.card, 0.0, 3.0).lib(&net);
        c.desc = format!("{} seed={seed} samples={n} trajectories={nt} graph={ng} iterations={it}", spec.desc());
        let mut order = c.rng.clone();
        let mut run = |which: usize, seed: Option<u64>| -> Res<Vec<u64>> {
            lib("seeded operation", || match which {
                0 => samples(&net, seed, None, n)
                    .into_iter()
                    .flat_map(|(t, s)| {
                        let mut v = vec![t];
                        v.extend(s.iter().map(|x| *x as u64));
                        v
                    })
                    .collect(),
                1 => dbits(&trajectory_generator(&net, nt as u64, 3.0, seed))
                    .into_iter()
                    .flat_map(|(t, e)| {
                        let mut v = t;
                        v.extend(e.iter().flatten().map(|x| *x as u64));
                        v
                    })
                    .collect(),
                2 => graph(&vec![2; ng], 0.3, seed)
                    .into_iter()
                    .map(|x| x as u64)
                    .collect(),
                3 => params_of(&big, seed, &mut order),
                _ => vec![MonteCarloReward::new(it, 1.0, 0.0, 1.5, RewardCriteria::FiniteHorizon, seed)
                    .evaluate_state(&net, &f, &st(&s0))
                    .to_bits()],
            })
        };
        for w in 0..5 {
            let a = run(w, Some(seed))?;
            let o = run(w, Some(seed ^ (1 << (seed % 64))))?;
            let b = run(w, Some(seed))?;
            ensure!(a == b, "long replay {w}: two runs with seed {seed} differ");
            ensure!(a != o, "long replay {w}: another seed gives the same result");
            c.ev("long replays compared bit by bit", 1);
            c.ev("values in long replays", a.len());
        }
        Ok(())
    });
    ctx.require("long replays compared bit by bit", 10);
    ctx.require("replays compared bit by bit", 4000);
}

// ---------------------------------------------------------------- C27
pub fn c27(ctx: &Ctx) {
    ctx.rule("random densities (0 and 1 included) (from 1e-5 to 1-1e-5) and sizes (1-260 nodes), several graphs per generator on networks which already have edges and parameters: no self loops, no leftovers, and edge frequencies (overall, per ordered pair, jointly with the reverse edge and with edges drawn before at many distances, in the same graph or an earlier one) against Bernoulli(density) (Chernoff bound); non-trivial: at least two nodes");
    ctx.cases("large graphs", 1, 3, |c| {
        let n = c.rng.int(600, 1500);
        let density = c.rng.logu(1e-3, 3e-2);
        c.desc = format!("n={n} density={density}");
        let mut net = CtbnNetwork::new();
        for i in 0..n {
            net.add_node(param(&format!("v{i}"), 2)).unwrap();
        }
        let mut g: UniformGraphGenerator = RandomGraphGenerator::new(density, Some(c.rng.u64()));
        lib("generate_graph", || g.generate_graph(&mut net))?;
        let block = 4.min(n);
        let mut cnt = vec![0u64; block * block];
        let mut size = vec![0u64; block * block];
        for i in 0..n {
            let pa = net.get_parent_set(i);
            ensure!(!pa.contains(&i), "node {i} is its own parent");
            binom(&format!("parents of node {i}"), pa.len() as u64, n as u64 - 1, density)?;
            let ch = net.get_children_set(i).len() as u64;
            binom(&format!("children of node {i}"), ch, n as u64 - 1, density)?;
            for p in 0..n {
                if p != i {
                    let b = p * block / n * block + i * block / n;
                    size[b] += 1;
                    cnt[b] += pa.contains(&p) as u64;
                }
            }
        }
        for b in 0..block * block {
            let what = format!("edges from quarter {} to quarter {}", b / block, b % block);
            binom(&what, cnt[b], size[b], density)?;
        }
        c.ev("pairs of nodes in large graphs", n * (n - 1));
        Ok(())
    });
    ctx.cases("no repetitions", 2, 3, |c| {
        // tens of thousands of graphs of one generator: none repeats an earlier one
        let n = c.rng.int(12, 14);
        let density = c.rng.range(0.4, 0.6);
        let graphs = c.rng.int(40000, 60000);
        c.desc = format!("n={n} density={density} graphs={graphs}");
        let mut net = CtbnNetwork::new();
        for i in 0..n {
            net.add_node(param(&format!("v{i}"), 2)).unwrap();
        }
        let seed = if c.rng.chance(0.3) { None } else { Some(c.rng.seed()) };
        let mut g: UniformGraphGenerator = RandomGraphGenerator::new(density, seed);
        let mut seen: Vec<u64> = Vec::with_capacity(graphs);
        for _ in 0..graphs {
            lib("generate_graph", || g.generate_graph(&mut net))?;
            let a = match net.get_adj_matrix() {
                Some(a) => a,
                None => fail!("no adjacency matrix after the generation"),
            };
            // more than 130 edges drawn: two graphs are equal by chance with probability 2^-130
            let mut h = 0xcbf29ce484222325u64;
            for x in a.iter() {
                h = (h ^ (*x != 0) as u64).wrapping_mul(0x100000001b3);
                h ^= h >> 31;
            }
            seen.push(h);
        }
        seen.sort_unstable();
        seen.dedup();
        ensure!(
            seen.len() == graphs,
            "{} of {graphs} graphs are equal to an earlier one",
            graphs - seen.len()
        );
        c.ev("graphs without repetition", graphs);
        Ok(())
    });
    ctx.cases("graphs", 260, 12, |c| {
        let n = match c.rng.below(10) {
            0 => 1,
            1 => c.rng.int(60, 120),
            2 => c.rng.int(120, 260),
            _ => c.rng.int(2, 12),
        };
        let density = match c.rng.below(8) {
            _ if n >= 120 && c.rng.chance(0.8) => {
                let d = c.rng.logu(1e-5, 0.1);
                if c.rng.chance(0.7) {
                    d
                } else {
                    1.0 - d
                }
            }
            0 => 0.0,
            1 => 1.0,
            2 => c.rng.logu(1e-3, 0.1),
            _ => c.rng.f(),
        };
        let reps = if n >= 120 { 8 } else if n > 20 { 4 } else { 600 };
        c.nontrivial = n > 1;
        let seed = if c.rng.chance(0.8) {
            Some(c.rng.seed())
        } else {
            None
        };
        c.desc = format!("n={n} density={density} graphs={reps}");
        let mut net = CtbnNetwork::new();
        for i in 0..n {
            let k = c.rng.int(2, 4);
            net.add_node(param(&format!("v{i}"), k)).unwrap();
        }
        let labels: Vec<String> = (0..n).map(|i| net.get_node(i).get_label().clone()).collect();
        if n > 1 && c.rng.chance(0.7) {
            for _ in 0..c.rng.int(1, 3 * n) {
                let a = c.rng.below(n);
                net.add_edge(a, (a + 1 + c.rng.below(n - 1)) % n);
            }
        }
        let mut g: UniformGraphGenerator =
            lib("UniformGraphGenerator::new", || RandomGraphGenerator::new(density, seed))?;
        let mut freq = vec![0u64; n * n];
        let mut draws: Vec<bool> = vec![];
        let (mut tot, mut both, mut seq, mut seqn) = (0u64, 0u64, 0u64, 0u64);
        for _ in 0..reps {
            lib("generate_graph", || g.generate_graph(&mut net))?;
            ensure!(
                net.get_number_of_nodes() == n
                    && (0..n).all(|i| net.get_node(i).get_label() == &labels[i]),
                "the nodes changed"
            );
            let sets: Vec<_> = (0..n).map(|i| net.get_parent_set(i)).collect();
            let mut prev = None;
            for p in 0..n {
                for q in 0..n {
                    let e = sets[q].contains(&p);
                    if p == q {
                        ensure!(!e, "self loop on node {p}");
                        continue;
                    }
                    draws.push(e);
                    if e {
                        freq[p * n + q] += 1;
                        tot += 1;
                        if p < q && sets[p].contains(&q) {
                            both += 1;
                        }
                    }
                    if let Some(pe) = prev {
                        seqn += 1;
                        if pe && e {
                            seq += 1;
                        }
                    }
                    prev = Some(e);
                }
            }
        }
        let pairs = (n * (n - 1)) as u64;
        c.ev("edge draws observed", (pairs * reps) as usize);
        binom("edges", tot, pairs * reps, density)?;
        // draws at a distance, in the same graph or in later ones: pairs (t, t+lag) with t in every
        // other block of length lag are disjoint
        if n > 1 {
            let np = pairs as usize;
            let mut lags: Vec<usize> = (1..22).map(|k| 1usize << k).collect();
            lags.extend([n - 1, n, np, 2 * np, np / 2, np - 1, np + 1]);
            for _ in 0..6 {
                lags.push(c.rng.int(1, draws.len() - 1));
            }
            for lag in lags {
                if lag == 0 || lag >= draws.len() {
                    continue;
                }
                for half in 0..2 {
                    let (mut k, mut m) = (0u64, 0u64);
                    for t in 0..draws.len() - lag {
                        if (t / lag) % 2 == half {
                            m += 1;
                            k += (draws[t] && draws[t + lag]) as u64;
                        }
                    }
                    if m > 0 {
                        binom(
                            &format!("pairs of edges drawn {lag} apart"),
                            k,
                            m,
                            density * density,
                        )?;
                        c.ev("pairs of edge draws observed", m as usize);
                    }
                }
            }
            // no graph twice when that is practically impossible
            let same = density * density + (1.0 - density) * (1.0 - density);
            if same.ln() * np as f64 + 2.0 * (reps as f64).ln() < -45.0 {
                let mut all: Vec<&[bool]> = draws.chunks(np).collect();
                all.sort();
                ensure!(
                    all.windows(2).all(|w| w[0] != w[1]),
                    "the same graph of {n} nodes was generated twice"
                );
                c.ev("generations compared", reps as usize);
            }
        }
        binom(
            "edges in both directions",
            both,
            pairs / 2 * reps,
            density * density,
        )?;
        // consecutive pairs overlap: test one half of them at a time (crude bound: twice the exponent)
        if seqn > 200 && density > 0.0 && density < 1.0 {
            let gk = seqn as f64 / 2.0 * kl(seq as f64 / seqn as f64, density * density);
            ensure!(
                gk < 2.0 * G,
                "consecutive edges are not independent: {seq} of {seqn} joint occurrences"
            );
        }
        for p in 0..n {
            for q in 0..n {
                if p != q {
                    binom(&format!("edge {p}->{q}"), freq[p * n + q], reps, density)?;
                }
            }
        }
        Ok(())
    });
    ctx.cases("refusals", 60, 4, |c| {
        let d = match c.rng.below(4) {
            0 => -c.rng.logu(1e-6, 1e3),
            1 => 1.0 + c.rng.logu(1e-6, 1e3),
            2 => f64::INFINITY,
            _ => f64::NEG_INFINITY,
        };
        c.desc = format!("density={d}");
        ensure!(
            refuses(|| {
                let _g: UniformGraphGenerator = RandomGraphGenerator::new(d, Some(1));
            }),
            "density {d} accepted"
        );
        c.ev("refusals observed", 1);
        Ok(())
    });
    ctx.require("edge draws observed", 100000);
    ctx.require("generations compared", 1000);
}

// ---------------------------------------------------------------- C28
pub fn c28(ctx: &Ctx) {
    ctx.rule("random networks (up to 19 nodes, up to 4096 configurations, some 2^17, up to 320 states), random intervals from 1e-6 to 1e6, several generations per generator: shape, validity and interval of every row, law of exit rates (DKW), law of the ratio of consecutive transition weights (DKW), no repeated rows; non-trivial: some node has parents");
    let pool = Mutex::new((Pool::default(), Pool::default()));
    ctx.cases("parameters", 300, 12, |c| {
        let kind = c.rng.below(10);
        let wide = c.rng.chance(0.003);
        let card = match kind {
            _ if wide => vec![2; 19],
            0 => vec![c.rng.int(50, 320), 2],
            1 => vec![2; 13],
            2 => vec![c.rng.int(2, 5)],
            _ => small_cards(&mut c.rng, 2, 8, 5),
        };
        let dens = c.rng.f();
        let mut spec = NetSpec::random(&mut c.rng, card, dens, 1024, Some(Style::Flat), 1.0);
        if kind == 1 && !wide {
            spec.pa[5] = (0..13).filter(|x| *x != 5).collect();
        }
        if wide {
            spec.pa[5] = (0..18).filter(|x| *x != 5).collect();
            c.ev("generations of 2^17 configurations", 3);
        }
        let lo = if c.rng.chance(0.15) {
            0.0
        } else {
            c.rng.logu(1e-6, 1e6)
        };
        let hi = if lo == 0.0 {
            c.rng.logu(1e-3, 1e3)
        } else {
            lo * (1.0 + c.rng.logu(1e-3, 100.0))
        };
        c.desc = format!("{} interval={lo}..{hi}", spec.desc());
        c.nontrivial = spec.pa.iter().any(|p| !p.is_empty());
        let seed = if c.rng.chance(0.8) {
            Some(c.rng.seed())
        } else {
            None
        };
        let mut net = spec.skeleton(&mut c.rng);
        let mut g: UniformParametersGenerator = lib("UniformParametersGenerator::new", || {
            RandomParametersGenerator::new(lo..hi, seed)
        })?;
        let mut rates = vec![];
        let (mut prate, mut pratio) = (Pool::default(), Pool::default());
        let mut ratios = vec![];
        let mut pairs = vec![];
        let mut seen: BTreeMap<u64, usize> = BTreeMap::new();
        let mut rows = 0;
        for round in 0..3 {
            lib("generate_parameters", || g.generate_parameters(&mut net))?;
            for i in 0..spec.n() {
                ensure!(
                    net.get_parent_set(i) == spec.pset(i),
                    "the structure changed at node {i}"
                );
                let p = inner(net.get_node(i));
                ensure!(
                    lib("validate_params", || p.validate_params())?.is_ok(),
                    "generated parameters of node {i} do not validate (round {round})"
                );
                let cim = p.get_cim().as_ref().unwrap();
                let k = spec.card[i];
                ensure!(
                    cim.shape() == [spec.nconf(i), k, k],
                    "matrix of shape {:?} for node {i}: {} configurations, {k} states",
                    cim.shape(),
                    spec.nconf(i)
                );
                for u in 0..spec.nconf(i) {
                    let mut prev: Option<f64> = None;
                    for x in 0..k {
                        let d = -cim[[u, x, x]];
                        ensure!(
                            d >= lo * (1.0 - 1e-9) && d <= hi * (1.0 + 1e-9),
                            "exit rate {d} outside {lo}..{hi}"
                        );
                        let s: f64 = (0..k).filter(|y| *y != x).map(|y| cim[[u, x, y]]).sum();
                        ensure!(close(s, d, 1e-9, 0.0), "row sums to {}", s - d);
                        for y in 0..k {
                            ensure!(
                                y == x || cim[[u, x, y]] >= 0.0,
                                "negative intensity {}",
                                cim[[u, x, y]]
                            );
                        }
                        let v = (d - lo) / (hi - lo);
                        prate.add(v, 1.0 - v);
                        rates.push(v.clamp(0.0, 1.0));
                        if let Some(p) = prev {
                            pairs.push((p, v.clamp(0.0, 0.999999)));
                        }
                        prev = Some(v.clamp(0.0, 0.999999));
                        *seen.entry(d.to_bits()).or_insert(0) += 1;
                        rows += 1;
                        // weights are independent uniforms: disjoint pairs of them
                        let offs: Vec<f64> = (0..k)
                            .filter(|y| *y != x)
                            .map(|y| cim[[u, x, y]])
                            .collect();
                        for w in offs.chunks(2) {
                            if w.len() == 2 {
                                let r = w[0] / w[1];
                                let z = if r < 1.0 { r / 2.0 } else { 1.0 - 0.5 / r };
                                pratio.add(z, if r < 1.0 { 1.0 - r / 2.0 } else { 0.5 / r });
                                ratios.push(z);
                            }
                        }
                    }
                }
            }
        }
        c.ev("rows observed", rows);
        // rows of different configurations, states or generations share no weights
        let mut rr: Vec<f64> = ratios.clone();
        rr.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let same = rr.windows(2).filter(|w| w[1] - w[0] < 1e-12).count();
        ensure!(
            same as f64 <= 5.0 + rr.len() as f64 / 50.0,
            "{same} of {} ratios of transition weights are repetitions",
            rr.len()
        );
        let dup: usize = seen.values().filter(|n| **n > 1).map(|n| n - 1).sum();
        if lo == 0.0 || hi / lo > 1.0005 {
            // about rows^2/2 pairs among ~1e12 distinguishable values
            ensure!(
                dup as f64 <= 5.0 + rows as f64 / 50.0,
                "{dup} of {rows} exit rates are repetitions"
            );
        }
        grid("exit rates of consecutive states", &pairs, 4)?;
        // rates drawn at a distance: pairs (t, t+lag) with t in every other block are disjoint
        let per = rates.len() / 3;
        let mut lags: Vec<usize> = (0..16).map(|k| 1usize << k).collect();
        lags.extend([per, 2 * per, per / 2, spec.card[0], spec.card[0] * spec.nconf(0)]);
        for _ in 0..4 {
            lags.push(c.rng.int(1, rates.len() - 1));
        }
        for k in 0..6 {
            lags.push(spec.card[5 % spec.n()] << (2 * k));
        }
        for lag in lags {
            if lag == 0 || lag >= rates.len() {
                continue;
            }
            for half in 0..2 {
                let v: Vec<(f64, f64)> = (0..rates.len() - lag)
                    .filter(|t| (t / lag) % 2 == half)
                    .map(|t| (rates[t].min(0.999999), rates[t + lag].min(0.999999)))
                    .collect();
                grid(&format!("exit rates drawn {lag} apart"), &v, 3)?;
                c.ev("pairs of rates observed", v.len());
            }
        }
        dkw("exit rates", &mut rates)?;
        dkw("transition weights", &mut ratios)?;
        // small seeds are used by several cases
        if seed.map_or(true, |s| s > u32::MAX as u64 && s.count_ones() > 8 && s.count_zeros() > 8) {
            let mut p = pool.lock().unwrap();
            p.0.merge(prate);
            p.1.merge(pratio);
        }
        Ok(())
    });
    ctx.cases("all parameters together", 1, 1, |c| {
        let mut p = pool.lock().unwrap();
        c.desc = format!("{} exit rates, {} ratios of weights", p.0.len(), p.1.len());
        p.0.check("exit rates of all generations", false)?;
        p.1.check("transition weights of all generations", false)
    });
    ctx.cases("refusals", 40, 4, |c| {
        let (a, b) = match c.rng.below(2) {
            0 => (-c.rng.logu(1e-6, 1e3), c.rng.f()),
            _ => (-5.0, -c.rng.logu(1e-3, 1.0)),
        };
        c.desc = format!("interval={a}..{b}");
        ensure!(
            refuses(|| {
                let _g: UniformParametersGenerator = RandomParametersGenerator::new(a..b, Some(1));
            }),
            "interval {a}..{b} accepted"
        );
        c.ev("refusals observed", 1);
        Ok(())
    });
    ctx.require("rows observed", 50000);
}

// ---------------------------------------------------------------- C31
pub fn c31(ctx: &Ctx) {
    ctx.rule("random shapes: trajectories with equal and different numbers of times and rows, arbitrary times (negative, tied, unsorted), none at all, datasets of equal and different widths (the odd one at a random position); accepted ones must read back unchanged; non-trivial: all");
    ctx.cases("constructors", 3000, 8, |c| {
        let shape = c.rng.below(100);
        let rows = match shape {
            0 => c.rng.int(65000, 140000),
            1 | 2 => c.rng.int(250, 5000),
            5 | 6 | 7 => 0,
            _ => c.rng.int(1, 60),
        };
        let cols = match shape {
            3 => c.rng.int(250, 600),
            _ => c.rng.int(1, 9),
        };
        let card = vec![c.rng.int(2, 300); cols];
        let nt = match shape {
            4 => c.rng.int(250, 700),
            _ => c.rng.int(1, 12),
        };
        c.desc = format!("rows={rows} columns={cols} trajectories={nt}");
        c.mix(c.rng.clone().u64());
        // trajectory
        let times = if c.rng.chance(0.5) {
            rows
        } else {
            match c.rng.below(4) {
                0 => rows + 1,
                1 => rows.saturating_sub(1),
                2 => rows * cols,
                _ if rows > 256 => rows % 256 + 256 * c.rng.below(2),
                _ => c.rng.int(0, 80),
            }
        };
        let (t0, step) = (c.rng.range(-20.0, 20.0), c.rng.logu(1e-9, 1e9));
        let t = match c.rng.below(6) {
            0 => Array1::from_shape_fn(times, |i| i as f64),
            1 => Array1::from_shape_fn(times, |i| t0 + step * i as f64),
            2 => Array1::from_shape_fn(times, |i| (i / 3) as f64),
            3 => Array1::from_shape_fn(times, |_| c.rng.range(-5.0, 5.0)),
            _ => {
                let mut x = if c.rng.chance(0.5) { 0.0 } else { t0 };
                Array1::from_shape_fn(times, |_| {
                    x += step * c.rng.exp();
                    x
                })
            }
        };
        let e = Array2::from_shape_fn((rows, if shape == 8 { 0 } else { cols }), |_| c.rng.below(300));
        let (t2, e2) = (t.clone(), e.clone());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Trajectory::new(t2, e2)));
        match r {
            Ok(tr) => {
                ensure!(
                    times == rows,
                    "trajectory with {times} times and {rows} rows accepted"
                );
                ensure!(
                    tr.get_time() == &t && tr.get_events() == &e,
                    "trajectory content changed"
                );
                c.ev("accepted", 1);
            }
            Err(_) => {
                ensure!(times != rows, "well formed trajectory refused");
                c.ev("refused", 1);
            }
        }
        // dataset
        let odd = if nt > 1 && c.rng.chance(0.5) {
            Some((c.rng.below(nt), if c.rng.chance(0.5) { cols + 1 } else { cols + 3 }))
        } else {
            None
        };
        let with_empty = c.rng.chance(0.15);
        let mut trajs: Vec<Traj> = vec![];
        let mut libt: Vec<Trajectory> = vec![];
        for k in 0..nt {
            let mut cd = card.clone();
            if let Some((o, w)) = odd {
                if o == k {
                    cd = vec![3; w];
                }
            }
            if with_empty && c.rng.chance(0.3) {
                // no rows, but a width
                trajs.push(Traj { t: vec![], ev: vec![] });
                libt.push(Trajectory::new(Array1::zeros(0), Array2::zeros((0, cd.len()))));
                c.ev("trajectories without rows", 1);
            } else {
                let x = random_trajs(&mut c.rng, &cd, 1, 8, true).remove(0);
                libt.push(x.lib_any());
                trajs.push(x);
            }
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Dataset::new(libt)));
        match r {
            Ok(d) => {
                ensure!(odd.is_none(), "dataset with widths {cols} and {odd:?} accepted");
                let back = from_dataset(&d);
                ensure!(
                    back.len() == nt
                        && back
                            .iter()
                            .zip(&trajs)
                            .all(|(a, b)| a.t == b.t && a.ev == b.ev),
                    "dataset content or order changed"
                );
                c.ev("accepted", 1);
            }
            Err(_) => {
                ensure!(odd.is_some(), "well formed dataset refused");
                c.ev("refused", 1);
            }
        }
        Ok(())
    });
    ctx.require("accepted", 1000);
    ctx.require("refused", 1000);
}
