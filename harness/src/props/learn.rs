//! C11-C15, C20: sufficient statistics, parameter learning, scores, cache.
use crate::core::*;
use crate::gen::*;
use crate::oracle;
use crate::stats::close;
use reCTBN::parameter_learning::*;
use reCTBN::params::*;
use reCTBN::process::{ctbn::CtbnNetwork, NetworkProcess};
use reCTBN::structure_learning::constraint_based_algorithm::Cache;
use reCTBN::structure_learning::score_function::*;
use reCTBN::tools::Dataset;
use std::collections::BTreeSet;

pub struct Data {
    pub spec: NetSpec,
    pub net: CtbnNetwork,
    pub trajs: Vec<Traj>,
    pub ds: Dataset,
    pub desc: String,
    /// No rounding in sums of durations.
    pub exact: bool,
}
/// Mixed workload: arbitrary tables, simulated trajectories, many nodes, many parents, many states.
pub fn data(rng: &mut Rng, multi_ok: bool) -> Data {
    let kind = rng.below(if multi_ok { 200 } else { 20 });
    let card = match kind % 20 {
        _ if kind == 119 => vec![rng.int(257, 300), 2],
        _ if kind == 139 => small_cards(rng, 65, 140, 3),
        0 => small_cards(rng, 12, 16, 2),
        1 => vec![rng.int(30, 80), 2, 3],
        2 if rng.chance(0.1) => small_cards(rng, 140, 300, 3),
        2 if rng.chance(0.25) => small_cards(rng, 66, 140, 3),
        2 => small_cards(rng, 20, 60, 3),
        3 => vec![rng.int(2, 4)],
        _ => small_cards(rng, 2, 7, 4),
    };
    let dens = if card.len() > 15 { 0.1 } else { rng.f() };
    let mut spec = NetSpec::random(rng, card, dens, 4096, Some(Style::Dense), 1.0);
    let nt = match rng.below(4) {
        0 => 1,
        1 if multi_ok && rng.chance(0.05) => rng.int(257, 700),
        1 => rng.int(20, 60),
        _ => rng.int(2, 8),
    };
    let exact = rng.chance(0.6);
    let multi = multi_ok && rng.chance(0.4);
    let rows = match rng.below(5) {
        0 => 3,
        1 if kind == 179 && nt < 9 && spec.n() < 5 => 140_000 / nt,
        1 => (3000 / nt).max(3),
        _ => 100,
    };
    let mut trajs: Vec<Traj> = if exact {
        let mut v = random_trajs(rng, &spec.card, nt, rows, multi);
        if multi_ok && rng.chance(0.15) {
            // states left immediately
            for tr in &mut v {
                for r in 1..tr.t.len() - 1 {
                    if rng.chance(0.1) {
                        tr.t[r] = tr.t[r - 1];
                    }
                }
            }
        }
        v
    } else {
        (0..nt)
            .map(|_| {
                let te = rng.logu(0.05, rows as f64 / spec.n() as f64 + 0.1);
                simulate(&spec, rng, te, rows.max(4000))
            })
            .collect()
    };
    let unit = time_unit(rng);
    change_unit(&mut spec, &mut trajs, unit);
    let net = if rng.chance(0.5) {
        spec.build(rng)
    } else {
        spec.skeleton(rng)
    };
    let ds = dataset(&trajs);
    let desc = format!(
        "{} trajectories={nt} rows={} time unit={unit:e} {}",
        spec.desc(),
        trajs.iter().map(|t| t.t.len()).sum::<usize>(),
        if exact {
            if multi {
                "arbitrary, simultaneous changes"
            } else {
                "arbitrary"
            }
        } else {
            "simulated"
        }
    );
    Data {
        spec,
        net,
        trajs,
        ds,
        desc,
        exact,
    }
}
pub const EXTREMES: [&str; 3] = ["very long trajectories", "very large parent sets", "very many trajectories"];
/// Datasets beyond the sizes of `data`, with the node and the parent set to look at.
pub fn extreme(rng: &mut Rng, kind: usize) -> (Data, usize, Vec<usize>) {
    let (card, node, nt, rows) = match kind {
        0 => (small_cards(rng, 2, 3, 3), 0, 1, rng.int(180_000, 300_000)),
        1 => (vec![2; rng.int(17, 18)], usize::MAX, rng.int(1, 20), 400),
        _ => (small_cards(rng, 2, 4, 3), 0, rng.int(66_000, 90_000), 4),
    };
    let n = card.len();
    let node = if node < n { node } else { rng.below(n) };
    let trajs: Vec<Traj> = if kind == 0 {
        // the node changes almost always, so each of its counts is large too
        let mut t = 0.0;
        let mut s: Vec<usize> = card.iter().map(|_| 0).collect();
        let mut tr = Traj { t: vec![], ev: vec![] };
        for _ in 0..rows {
            tr.t.push(t);
            tr.ev.push(s.clone());
            t += (1 + rng.below(64)) as f64 / 64.0;
            let i = if rng.chance(0.97) { node } else { rng.below(n) };
            s[i] = if rng.chance(0.9) { (s[i] + 1) % 2 } else { (s[i] + 1) % card[i] };
        }
        vec![tr]
    } else {
        random_trajs(rng, &card, nt, rows, false)
    };
    let spec = NetSpec {
        pa: vec![vec![]; n],
        cim: vec![],
        card,
    };
    let set: Vec<usize> = match kind {
        1 => (0..n).filter(|x| *x != node).collect(),
        _ if rng.chance(0.5) => vec![],
        _ => (0..n).filter(|x| *x != node).take(1).collect(),
    };
    let net = spec.skeleton(rng);
    let ds = dataset(&trajs);
    let desc = format!(
        "{} states {:?} trajectories={} rows={}",
        EXTREMES[kind],
        spec.card,
        trajs.len(),
        trajs.iter().map(|t| t.t.len()).sum::<usize>()
    );
    (
        Data {
            spec,
            net,
            trajs,
            ds,
            desc,
            exact: true,
        },
        node,
        set,
    )
}
/// Another dataset of exactly the same shape.
pub fn variant(rng: &mut Rng, card: &[usize], trajs: &[Traj]) -> Vec<Traj> {
    let mut out = trajs.to_vec();
    match rng.below(4) {
        // another time scale (no rounding)
        0 => out.iter_mut().for_each(|tr| tr.t.iter_mut().for_each(|t| *t *= 2.0)),
        // one interval twice as long
        1 => {
            let i = rng.below(out.len());
            let tr = &mut out[i];
            let r = 1 + rng.below(tr.t.len() - 1);
            let d = tr.t[r] - tr.t[r - 1];
            tr.t[r..].iter_mut().for_each(|t| *t += d);
        }
        // states renamed
        2 => {
            let v = rng.below(card.len());
            let s = 1 + rng.below(card[v] - 1);
            for tr in &mut out {
                for e in &mut tr.ev {
                    e[v] = (e[v] + s) % card[v];
                }
            }
        }
        // one row of the events changed
        _ => {
            let i = rng.below(out.len());
            let tr = &mut out[i];
            let r = rng.below(tr.ev.len() - 1);
            let v = rng.below(card.len());
            tr.ev[r][v] = (tr.ev[r][v] + 1) % card[v];
            let l = tr.ev.len();
            tr.ev[l - 1] = tr.ev[l - 2].clone();
        }
    }
    out
}
fn set_of(v: &[usize]) -> BTreeSet<usize> {
    v.iter().cloned().collect()
}

fn cmp_stats(
    m: &ndarray::Array3<usize>,
    t: &ndarray::Array2<f64>,
    wm: &oracle::M3,
    wt: &oracle::T2,
    exact: bool,
    what: &str,
    c: &mut Case,
) -> Res {
    let (nc, k) = (wm.len(), wm[0].len());
    ensure!(
        m.shape() == [nc, k, k] && t.shape() == [nc, k],
        "{what}: shapes {:?} and {:?}, expected {nc} configurations and {k} states",
        m.shape(),
        t.shape()
    );
    let tol = if exact { 1e-13 } else { 1e-9 };
    for u in 0..nc {
        for x in 0..k {
            ensure!(
                close(t[[u, x]], wt[u][x], tol, 0.0),
                "{what}: residence time in state {x}, configuration {u}: {} instead of {}",
                t[[u, x]],
                wt[u][x]
            );
            for y in 0..k {
                ensure!(
                    m[[u, x, y]] as u64 == wm[u][x][y],
                    "{what}: {} transitions {x}->{y} in configuration {u} instead of {}",
                    m[[u, x, y]],
                    wm[u][x][y]
                );
            }
        }
    }
    c.ev("table entries compared", nc * k * k);
    Ok(())
}

// ---------------------------------------------------------------- C11
fn tables_case(c: &mut Case, d: Data, node: usize, set: Vec<usize>) -> Res {
    c.desc = format!("{} node={node} set={set:?}", d.desc);
    let (m, t) = lib("sufficient_statistics", || {
        sufficient_statistics(&d.net, &d.ds, node, &set_of(&set))
    })?;
    if c.rng.chance(0.3) {
        let any = Dataset::new(d.trajs.iter().map(|x| x.lib_any()).collect());
        let (m2, t2) = lib("sufficient_statistics", || {
            sufficient_statistics(&d.net, &any, node, &set_of(&set))
        })?;
        ensure!(
            m == m2 && t.iter().zip(t2.iter()).all(|(a, b)| close(*a, *b, 1e-9, 1e-12)),
            "the statistics depend on the memory layout of the trajectories"
        );
    }
    let (wm, wt) = oracle::suff(&d.spec.card, &d.trajs, node, &set);
    cmp_stats(&m, &t, &wm, &wt, d.exact, "statistics", c)?;
    // conservation
    let time: f64 = d.trajs.iter().map(|x| x.t[x.t.len() - 1] - x.t[0]).sum();
    ensure!(
        close(t.sum(), time, 1e-9, 0.0),
        "total residence time {} in {time} of observation",
        t.sum()
    );
    let changes: usize = d
        .trajs
        .iter()
        .map(|x| x.ev.windows(2).filter(|w| w[0][node] != w[1][node]).count())
        .sum();
    ensure!(
        m.sum() == changes,
        "{} transitions counted, {changes} changes observed",
        m.sum()
    );
    c.ev("transitions observed", changes);
    c.nontrivial = changes > 0;
    // marginalisation over one parent
    if !set.is_empty() {
        let drop = c.rng.below(set.len());
        let mut small = set.clone();
        small.remove(drop);
        let (ms, ts) = lib("sufficient_statistics", || {
            sufficient_statistics(&d.net, &d.ds, node, &set_of(&small))
        })?;
        let k = d.spec.card[node];
        let mut am = vec![vec![vec![0u64; k]; k]; ms.shape()[0]];
        let mut at = vec![vec![0.0; k]; ms.shape()[0]];
        for u in 0..m.shape()[0] {
            let v = oracle::project(&set, &small, &d.spec.card, u);
            for x in 0..k {
                at[v][x] += t[[u, x]];
                for y in 0..k {
                    am[v][x][y] += m[[u, x, y]] as u64;
                }
            }
        }
        cmp_stats(&ms, &ts, &am, &at, d.exact, "marginal statistics", c)?;
    }
    // additivity
    if d.trajs.len() > 1 && m.len() < 20000 {
        let cut = c.rng.int(1, d.trajs.len() - 1);
        let (a, b) = (dataset(&d.trajs[..cut]), dataset(&d.trajs[cut..]));
        let (m1, t1) = sufficient_statistics(&d.net, &a, node, &set_of(&set));
        let (m2, t2) = sufficient_statistics(&d.net, &b, node, &set_of(&set));
        ensure!(&m1 + &m2 == m, "transitions are not additive over trajectories");
        let s = &t1 + &t2;
        ensure!(
            s.iter().zip(t.iter()).all(|(a, b)| close(*a, *b, 1e-9, 1e-12)),
            "residence times are not additive over trajectories"
        );
    }
    Ok(())
}
pub fn c11(ctx: &Ctx) {
    ctx.rule("random datasets (arbitrary rows with exact dyadic durations, simulated ones, up to 60 nodes, 80 states, 12 parents, thousands of rows), random node and parent set (also not the parents in the network): tables against a from-the-definition count, conservation of time and changes, marginalisation over a parent, additivity over the trajectories; non-trivial: at least one transition of the node");
    ctx.cases("tables", 1200, 12, |c| {
        let d = data(&mut c.rng, true);
        let n = d.spec.n();
        let node = c.rng.below(n);
        let set = if c.rng.chance(0.3) {
            d.spec.pa[node].clone()
        } else if c.rng.chance(0.01) {
            subset(&mut c.rng, n, node, &d.spec.card, 1 << 17, 17)
        } else {
            subset(&mut c.rng, n, node, &d.spec.card, 4096, 12)
        };
        tables_case(c, d, node, set)
    });
    for kind in 0..3 {
        ctx.cases(EXTREMES[kind], 2, 4, |c| {
            let (d, node, set) = extreme(&mut c.rng, kind);
            tables_case(c, d, node, set)
        });
    }
    ctx.require("table entries compared", 100000);
    ctx.require("transitions observed", 10000);
}

fn check_fit(
    p: &Params,
    orig: &Params,
    wm: &oracle::M3,
    wt: &oracle::T2,
    a: f64,
    b: f64,
    exact: bool,
    c: &mut Case,
) -> Res {
    let q = inner(p);
    ensure!(
        p.get_label() == orig.get_label()
            && p.get_reserved_space_as_parent() == orig.get_reserved_space_as_parent(),
        "label or domain of the learned node changed"
    );
    let (m, t, cim) = match (q.get_transitions(), q.get_residence_time(), q.get_cim()) {
        (Some(m), Some(t), Some(x)) => (m, t, x),
        _ => fail!("the learned parameters are incomplete"),
    };
    cmp_stats(m, t, wm, wt, exact, "stored statistics", c)?;
    let w = oracle::intensities(wm, wt, a, b);
    let k = wm[0].len();
    ensure!(
        cim.shape() == [wm.len(), k, k],
        "intensities of shape {:?}",
        cim.shape()
    );
    let mut valid = true;
    for u in 0..wm.len() {
        for x in 0..k {
            if wt[u][x] + b <= 0.0 {
                valid = false;
                c.ev("rows never visited (skipped)", 1);
                continue;
            }
            if w[u][x][x] >= 0.0 {
                valid = false;
            }
            for y in 0..k {
                ensure!(
                    close(cim[[u, x, y]], w[u][x][y], 1e-9, 1e-13 * w[u][x][x].abs()),
                    "intensity {x}->{y} in configuration {u}: {} instead of {} (M={}, T={})",
                    cim[[u, x, y]],
                    w[u][x][y],
                    wm[u][x][y],
                    wt[u][x]
                );
            }
            c.ev("rows compared", 1);
        }
    }
    if valid {
        ensure!(
            p.validate_params().is_ok(),
            "the learned parameters do not validate"
        );
        c.ev("learned parameters which validate", 1);
    }
    Ok(())
}
fn fit_case<P: ParameterLearning>(c: &mut Case, pl: &P, a: f64, b: f64) -> Res {
    let d = data(&mut c.rng, true);
    let n = d.spec.n();
    let node = c.rng.below(n);
    let given = c.rng.chance(0.6);
    let set = if given {
        subset(&mut c.rng, n, node, &d.spec.card, 2048, 11)
    } else {
        d.spec.pa[node].clone()
    };
    fit_on(c, pl, a, b, d, node, set, given)
}
fn fit_on<P: ParameterLearning>(
    c: &mut Case,
    pl: &P,
    a: f64,
    b: f64,
    d: Data,
    node: usize,
    set: Vec<usize>,
    given: bool,
) -> Res {
    let n = d.spec.n();
    c.desc = format!(
        "{} node={node} set={set:?} {} alpha={a} tau={b}",
        d.desc,
        if given { "given" } else { "from the network" }
    );
    let before: Vec<_> = (0..n)
        .map(|i| inner(d.net.get_node(i)).get_cim().clone())
        .collect();
    let p = lib("fit", || {
        pl.fit(
            &d.net,
            &d.ds,
            node,
            if given { Some(set_of(&set)) } else { None },
        )
    })?;
    let (wm, wt) = oracle::suff(&d.spec.card, &d.trajs, node, &set);
    let nc = wm.len() as f64;
    check_fit(&p, d.net.get_node(node), &wm, &wt, a / nc, b / nc, d.exact, c)?;
    if wm.len() < 200 {
        // the same object on other data of the same shape, created and dropped in turn
        for _ in 0..2 {
            let tr = variant(&mut c.rng, &d.spec.card, &d.trajs);
            let p = {
                let ds = dataset(&tr);
                let ps = set_of(&set);
                lib("fit", || pl.fit(&d.net, &ds, node, Some(ps)))?
            };
            let (wm, wt) = oracle::suff(&d.spec.card, &tr, node, &set);
            check_fit(&p, d.net.get_node(node), &wm, &wt, a / nc, b / nc, false, c)?;
            c.ev("fits with a used object", 1);
        }
    }
    for i in 0..n {
        ensure!(
            &before[i] == inner(d.net.get_node(i)).get_cim(),
            "learning changed the network"
        );
    }
    Ok(())
}
// ---------------------------------------------------------------- C12
pub fn c12(ctx: &Ctx) {
    ctx.rule("random datasets as in C11, parent set given or taken from the network; each learned intensity of a visited state against transitions over residence time; non-trivial: all");
    ctx.cases("fits", 1000, 12, |c| fit_case(c, &MLE {}, 0.0, 0.0));
    for kind in 0..3 {
        ctx.cases(EXTREMES[kind], 2, 4, |c| {
            let (d, node, set) = extreme(&mut c.rng, kind);
            fit_on(c, &MLE {}, 0.0, 0.0, d, node, set, true)
        });
    }
    ctx.require("rows compared", 20000);
    ctx.require("learned parameters which validate", 20);
}
// ---------------------------------------------------------------- C13
pub fn c13(ctx: &Ctx) {
    ctx.rule("random datasets as in C11, imaginary counts 0-10^6 and times 1e-9-1e6, parent set given or taken from the network; each learned intensity against the posterior mean; non-trivial: all");
    ctx.cases("fits", 1000, 12, |c| {
        let alpha = match c.rng.below(6) {
            0 => 0,
            1 => c.rng.int(100, 1_000_000),
            _ => c.rng.int(1, 20),
        };
        let tau = match c.rng.below(3) {
            0 => c.rng.logu(1e-9, 1e6),
            1 => 1.0,
            _ => c.rng.range(0.1, 10.0),
        };
        fit_case(c, &BayesianApproach { alpha, tau }, alpha as f64, tau)
    });
    for kind in 0..3 {
        ctx.cases(EXTREMES[kind], 2, 4, |c| {
            let (d, node, set) = extreme(&mut c.rng, kind);
            let (alpha, tau) = (c.rng.int(0, 100_000), c.rng.logu(1e-3, 1e6));
            fit_on(c, &BayesianApproach { alpha, tau }, alpha as f64, tau, d, node, set, true)
        });
    }
    ctx.require("rows compared", 20000);
    ctx.require("learned parameters which validate", 200);
}

// ---------------------------------------------------------------- C14, C15
fn score_case(c: &mut Case, bic: bool) -> Res {
    let d = data(&mut c.rng, true);
    let n = d.spec.n();
    let node = c.rng.below(n);
    let set = if c.rng.chance(0.3) {
        d.spec.pa[node].clone()
    } else {
        subset(&mut c.rng, n, node, &d.spec.card, 4096, 12)
    };
    score_on(c, bic, d, node, set)
}
fn score_on(c: &mut Case, bic: bool, d: Data, node: usize, set: Vec<usize>) -> Res {
    let n = d.spec.n();
    let alpha = match c.rng.below(5) {
        0 => c.rng.int(50, 100_000),
        _ => c.rng.int(1, 10),
    };
    let tau = match c.rng.below(3) {
        0 => c.rng.logu(1e-6, 1e4),
        1 => 1.0,
        _ => c.rng.range(0.1, 10.0),
    };
    c.desc = format!("{} node={node} set={set:?} alpha={alpha} tau={tau}", d.desc);
    let ps = set_of(&set);
    let (f_bic, f_ll) = (BIC::new(alpha, tau), LogLikelihood::new(alpha, tau));
    let call = |ds: &Dataset, net: &CtbnNetwork, node: usize, ps: &BTreeSet<usize>| {
        lib("score", || {
            if bic {
                f_bic.call(net, node, ps, ds)
            } else {
                f_ll.call(net, node, ps, ds)
            }
        })
    };
    let exact = |trajs: &[Traj], node: usize, set: &[usize]| {
        let (m, t) = oracle::suff(&d.spec.card, trajs, node, set);
        let w = oracle::log_lik(&m, &t, alpha as f64, tau);
        let size: usize = trajs.iter().map(|x| x.t.len() - 1).sum();
        let pen = if bic {
            (size as f64).ln() / 2.0 * oracle::n_params(&m)
        } else {
            0.0
        };
        (w.v - pen, 3e-12 * (w.mag + pen) + 1e-9, m, pen, size)
    };
    let got = call(&d.ds, &d.net, node, &ps)?;
    let (want, tol, m, pen, size) = exact(&d.trajs, node, &set);
    ensure!(
        (got - want).abs() <= tol,
        "score {got} instead of {want} (tolerance {tol:e}, penalty {pen}, {} configurations, {size} rows)",
        m.len()
    );
    c.ev("scores compared", 1);
    c.mixf(got);
    if m.len() < 500 {
        // the same object on other data of the same shape, created and dropped in turn, and on
        // other nodes and parents
        for k in 0..3 {
            let tr = if k < 2 { variant(&mut c.rng, &d.spec.card, &d.trajs) } else { d.trajs.clone() };
            let (node2, set2) = if k < 2 {
                (node, set.clone())
            } else {
                let v = c.rng.below(n);
                (v, subset(&mut c.rng, n, v, &d.spec.card, 500, 6))
            };
            let g = {
                let ds = dataset(&tr);
                let ps = set_of(&set2);
                call(&ds, &d.net, node2, &ps)?
            };
            let (w, tol, ..) = exact(&tr, node2, &set2);
            ensure!(
                (g - w).abs() <= tol,
                "score {g} instead of {w} for node {node2} with parents {set2:?} after the same object scored other data of the same shape"
            );
            c.ev("scores with a used object", 1);
        }
        let g = call(&d.ds, &d.net, node, &ps)?;
        ensure!((g - got).abs() <= tol, "score {g}, {got} when asked first");
    }
    // invariance: order of the trajectories, names and order of the variables
    let mut tr = d.trajs.clone();
    c.rng.shuffle(&mut tr);
    let got2 = call(&dataset(&tr), &d.net, node, &ps)?;
    ensure!(
        (got2 - got).abs() <= tol,
        "score {got2} after reordering the trajectories, {got} before"
    );
    if m.len() * m[0].len() < 5000 {
        let mut perm: Vec<usize> = (0..n).collect();
        c.rng.shuffle(&mut perm);
        // new position perm[i] for variable i
        let mut card = vec![0; n];
        for i in 0..n {
            card[perm[i]] = d.spec.card[i];
        }
        let spec2 = NetSpec {
            card,
            pa: vec![vec![]; n],
            cim: vec![],
        };
        let net2 = spec2.skeleton(&mut c.rng);
        let tr2: Vec<Traj> = d
            .trajs
            .iter()
            .map(|x| Traj {
                t: x.t.clone(),
                ev: x
                    .ev
                    .iter()
                    .map(|r| {
                        let mut v = vec![0; n];
                        for i in 0..n {
                            v[perm[i]] = r[i];
                        }
                        v
                    })
                    .collect(),
            })
            .collect();
        let ps2: BTreeSet<usize> = set.iter().map(|x| perm[*x]).collect();
        let got3 = call(&dataset(&tr2), &net2, perm[node], &ps2)?;
        ensure!(
            (got3 - got).abs() <= tol,
            "score {got3} after renumbering the variables, {got} before"
        );
        c.ev("invariance comparisons", 2);
    }
    Ok(())
}
pub fn c14(ctx: &Ctx) {
    ctx.rule("random datasets as in C11, random node, parent set, imaginary counts and times; score against the closed form evaluated with an independent log-gamma, and invariance under reordering of trajectories and renumbering of variables; non-trivial: all");
    ctx.cases("scores", 1200, 12, |c| score_case(c, false));
    for kind in 0..3 {
        ctx.cases(EXTREMES[kind], 2, 4, |c| {
            let (d, node, set) = extreme(&mut c.rng, kind);
            score_on(c, false, d, node, set)
        });
    }
    ctx.cases("refusals", 60, 3, |c| {
        let tau = match c.rng.below(3) {
            0 => -c.rng.logu(f64::MIN_POSITIVE, 1e-6),
            _ => -c.rng.logu(1e-6, 1e3),
        };
        c.desc = format!("tau={tau}");
        ensure!(
            refuses(|| LogLikelihood::new(1, tau)),
            "negative imaginary time {tau} accepted"
        );
        Ok(())
    });
    ctx.require("scores compared", 1000);
}
pub fn c15(ctx: &Ctx) {
    ctx.rule("as C14 for the penalised score; penalty from the number of free parameters and of observed intervals; non-trivial: all");
    ctx.cases("scores", 1200, 12, |c| score_case(c, true));
    for kind in 0..3 {
        ctx.cases(EXTREMES[kind], 2, 4, |c| {
            let (d, node, set) = extreme(&mut c.rng, kind);
            score_on(c, true, d, node, set)
        });
    }
    ctx.require("scores compared", 1000);
}

// ---------------------------------------------------------------- C20
fn bits(p: &Params) -> (String, usize, Option<Vec<u64>>, Option<Vec<usize>>, Option<Vec<u64>>, Option<Vec<usize>>) {
    let q = inner(p);
    (
        p.get_label().clone(),
        p.get_reserved_space_as_parent(),
        q.get_cim()
            .as_ref()
            .map(|x| x.iter().map(|v| v.to_bits()).collect()),
        q.get_transitions()
            .as_ref()
            .map(|x| x.iter().cloned().collect()),
        q.get_residence_time()
            .as_ref()
            .map(|x| x.iter().map(|v| v.to_bits()).collect()),
        q.get_cim().as_ref().map(|x| x.shape().to_vec()),
    )
}
fn cache_case<P: ParameterLearning>(c: &mut Case, pl: &P) -> Res {
    let d = data(&mut c.rng, false);
    let n = d.spec.n();
    let mut cache = Cache::new(pl);
    let mut hist: Vec<(usize, Vec<usize>)> = vec![];
    let mode = c.rng.below(4);
    let steps = match c.rng.below(50) {
        0 => c.rng.int(800, 2500),
        _ => c.rng.int(10, 80),
    };
    let mut h = String::new();
    let mut maxp = (n - 1).min(8);
    if n > 9 && d.spec.card.iter().all(|k| *k == 2) && c.rng.chance(0.3) {
        maxp = (n - 1).min(11);
    }
    // sets which read alike when their elements are run together ({1,12} and {11,2}, {1} and {11})
    let alike = n > 12 && c.rng.chance(0.5);
    let mut pool = vec![1, 2, 10, 11, 12, 21, 22];
    if n > 66 && c.rng.chance(0.7) {
        // equal modulo a power of two
        let m = *c.rng.pick(&[16usize, 32, 64, if n > 130 { 128 } else { 64 }]);
        let x = c.rng.below(m - 1);
        pool = (0..n).filter(|i| i % m == x || i % m == x + 1).collect();
        c.rng.shuffle(&mut pool);
        pool.truncate(8);
    }
    let few = alike && c.rng.chance(0.5);
    let mut distinct = BTreeSet::new();
    let mut repeats = 0;
    for s in 0..steps {
        let (node, set) = if !hist.is_empty() && c.rng.chance(0.35) {
            c.rng.pick(&hist).clone()
        } else {
            let node = if mode == 3 || few { 0 } else { c.rng.below(n) };
            let mut v: Vec<usize> = (0..n).filter(|x| *x != node).collect();
            c.rng.shuffle(&mut v);
            let size = match mode {
                0 => c.rng.int(0, maxp),                      // any order
                1 => (s * (maxp + 1) / steps).min(maxp),      // growing, as in the PC search
                2 => maxp - (s * (maxp + 1) / steps).min(maxp), // shrinking
                _ => ((s * (maxp + 1) / steps) + c.rng.below(2)).min(maxp),
            };
            if alike {
                v.sort_by_key(|x| !pool.contains(x));
                let m = v.iter().filter(|x| pool.contains(x)).count();
                c.rng.shuffle(&mut v[..m]);
            }
            v.truncate(if alike { size.min(4) } else { size });
            v.sort();
            (node, v)
        };
        if !distinct.insert((node, set.clone())) {
            repeats += 1;
        }
        hist.push((node, set.clone()));
        if h.len() < 300 {
            h.push_str(&format!("{node}|{set:?} "));
        }
        let got = lib("Cache::fit", || {
            cache.fit(&d.net, &d.ds, node, Some(set_of(&set)))
        })?;
        let want = pl.fit(&d.net, &d.ds, node, Some(set_of(&set)));
        c.desc = format!("{} requests: {h}", d.desc);
        ensure!(
            bits(&got) == bits(&want),
            "request {s} (node {node}, parents {set:?}): the cached parameters are not those of a direct fit"
        );
        c.ev("requests compared", 1);
    }
    c.ev("repeated requests", repeats);
    c.nontrivial = repeats > 0;
    Ok(())
}
/// Requests for nodes and parents which are equal modulo a power of two, in a large network.
fn cache_many<P: ParameterLearning>(c: &mut Case, pl: &P) -> Res {
    let n = c.rng.int(300, 1300);
    let card: Vec<usize> = (0..n).map(|_| c.rng.int(2, 3)).collect();
    let trajs = random_trajs(&mut c.rng, &card, 2, 40, true);
    let ds = dataset(&trajs);
    let mut net = CtbnNetwork::new();
    for (i, k) in card.iter().enumerate() {
        net.add_node(param(&format!("n{i}"), *k)).unwrap();
    }
    net.initialize_adj_matrix();
    let mut cache = Cache::new(pl);
    let m = *c.rng.pick(&[16usize, 64, 128, 256, 256, 512]);
    let m = if m >= n { 256 } else { m };
    let mut h = String::new();
    for s in 0..60 {
        let x = c.rng.below((n - m).min(m));
        let pool: Vec<usize> = (0..n).filter(|i| i % m == x).collect();
        let a = *c.rng.pick(&pool);
        let b = *c.rng.pick(&pool);
        let y = c.rng.below(m);
        let others: Vec<usize> = (0..n).filter(|i| i % m == y && y != x).collect();
        let mut set: BTreeSet<usize> = BTreeSet::new();
        for _ in 0..c.rng.below(3) {
            if !others.is_empty() {
                set.insert(*c.rng.pick(&others));
            }
        }
        // the same set with one element exchanged for one which is equal modulo m
        let mut set2 = set.clone();
        if let Some(e) = set.iter().next() {
            set2.remove(e);
            set2.insert(*c.rng.pick(&others));
        }
        if h.len() < 200 {
            h.push_str(&format!("{a},{b}|{set:?},{set2:?} "));
        }
        c.desc = format!("n={n} modulo {m}: {h}");
        for (node, set) in [(a, &set), (b, &set), (a, &set2), (a, &set)] {
            let got = lib("Cache::fit", || cache.fit(&net, &ds, node, Some(set.clone())))?;
            let want = pl.fit(&net, &ds, node, Some(set.clone()));
            ensure!(
                bits(&got) == bits(&want),
                "request {s} (node {node}, parents {set:?}): the cached parameters are not those of a direct fit"
            );
            c.ev("requests compared", 1);
        }
    }
    Ok(())
}
pub fn c20(ctx: &Ctx) {
    ctx.rule("random request histories (any, growing and shrinking parent set sizes, several nodes, repeats; in networks of up to 1300 nodes those which are equal modulo a power of two) on one network and dataset: each answer is compared bit by bit with a direct fit; non-trivial: some request is repeated");
    ctx.cases("mle", 200, 12, |c| cache_case(c, &MLE {}));
    ctx.cases("bayes", 200, 12, |c| {
        let alpha = c.rng.int(1, 9);
        let tau = c.rng.range(0.1, 5.0);
        cache_case(c, &BayesianApproach { alpha, tau })
    });
    ctx.cases("many variables", 6, 8, |c| match c.rng.below(2) {
        0 => cache_many(c, &MLE {}),
        _ => cache_many(c, &BayesianApproach { alpha: 1, tau: 1.0 }),
    });
    ctx.require("requests compared", 5000);
    ctx.require("repeated requests", 1000);
}
