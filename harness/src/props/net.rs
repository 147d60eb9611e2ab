//! C01-C04, C10, C30: network structure, parameters container, amalgamation, CTMP container.
use crate::core::*;
use crate::gen::*;
use crate::oracle;
use crate::stats::close;
use ndarray::{Array1, Array2, Array3};
use rand::SeedableRng;
use rand_chacha::ChaCha8Rng;
use reCTBN::params::*;
use reCTBN::process::{ctbn::CtbnNetwork, ctmp::CtmpProcess, NetworkProcess};
use reCTBN::parameter_learning::{BayesianApproach, ParameterLearning, MLE};
use reCTBN::reward::{reward_function::FactoredRewardFunction, RewardFunction};
use reCTBN::sampling::ForwardSampler;
use reCTBN::structure_learning::constraint_based_algorithm::Cache;
use reCTBN::structure_learning::score_function::{LogLikelihood, ScoreFunction, BIC};
use reCTBN::tools::{RandomParametersGenerator, UniformParametersGenerator};
use std::collections::BTreeSet;

// ---------------------------------------------------------------- C01
struct Model {
    cards: Vec<usize>,
    labels: Vec<String>,
    edges: Option<BTreeSet<(usize, usize)>>,
}

fn check_structure(net: &CtbnNetwork, m: &Model, only: Option<&[usize]>, c: &mut Case) -> Res {
    let n = m.cards.len();
    ensure!(
        net.get_number_of_nodes() == n,
        "number of nodes {} instead of {n}",
        net.get_number_of_nodes()
    );
    ensure!(
        net.get_node_indices() == (0..n),
        "node indices {:?} instead of 0..{n}",
        net.get_node_indices()
    );
    let nodes: Vec<usize> = match only {
        Some(v) => v.to_vec(),
        None => (0..n).collect(),
    };
    for i in &nodes {
        let p = net.get_node(*i);
        ensure!(
            p.get_label() == &m.labels[*i] && p.get_reserved_space_as_parent() == m.cards[*i],
            "node {i} is {:?} with {} states instead of {:?} with {}",
            p.get_label(),
            p.get_reserved_space_as_parent(),
            m.labels[*i],
            m.cards[*i]
        );
    }
    match &m.edges {
        None => {
            if let Some(a) = net.get_adj_matrix() {
                ensure!(
                    a.iter().all(|x| *x == 0),
                    "edges survive the insertion of a node"
                );
            }
        }
        Some(e) => {
            let a = net.get_adj_matrix();
            ensure!(a.is_some(), "adjacency matrix lost");
            let a = a.unwrap();
            ensure!(
                a.shape() == [n, n],
                "adjacency matrix of shape {:?} for {n} nodes",
                a.shape()
            );
            for i in &nodes {
                let ps = lib("get_parent_set", || net.get_parent_set(*i))?;
                let want: BTreeSet<usize> =
                    e.iter().filter(|x| x.1 == *i).map(|x| x.0).collect();
                ensure!(
                    ps == want,
                    "parents of node {i}: {ps:?}, edges added: {want:?}"
                );
                let cs = lib("get_children_set", || net.get_children_set(*i))?;
                let want: BTreeSet<usize> =
                    e.iter().filter(|x| x.0 == *i).map(|x| x.1).collect();
                ensure!(
                    cs == want,
                    "children of node {i}: {cs:?}, edges added: {want:?}"
                );
                c.ev("parent/children sets compared", 2);
            }
            let cnt = a.iter().filter(|x| **x != 0).count();
            ensure!(
                cnt == e.len() && e.iter().all(|(p, q)| a[[*p, *q]] != 0),
                "adjacency matrix has {cnt} edges, {} were added",
                e.len()
            );
            if only.is_none() && n < 50 {
                // the order and the repetition of the insertions leave no trace
                let mut fresh = CtbnNetwork::new();
                for (l, k) in m.labels.iter().zip(&m.cards) {
                    let _ = fresh.add_node(param(l, *k));
                }
                lib("initialize_adj_matrix", || fresh.initialize_adj_matrix())?;
                for (p, q) in e {
                    lib("add_edge", || fresh.add_edge(*p, *q))?;
                }
                ensure!(
                    fresh.get_adj_matrix() == Some(a),
                    "the adjacency matrix differs from the one of a network with the same edges added once"
                );
                c.ev("adjacency matrices compared", 1);
            }
        }
    }
    Ok(())
}

pub fn c01(ctx: &Ctx) {
    ctx.rule("random histories of node insertions, adjacency resets and edge insertions (repeated edges and loops included) on networks of 1-12 nodes checked after every operation, and on networks up to 400 nodes checked at the end; non-trivial: at least one edge was added");
    ctx.cases("histories", 1500, 12, |c| {
        let mut net = CtbnNetwork::new();
        let mut m = Model {
            cards: vec![],
            labels: vec![],
            edges: None,
        };
        let steps = c.rng.int(5, 60);
        let mut hist = String::new();
        let mut added = 0;
        for _ in 0..steps {
            let n = m.cards.len();
            let op = c.rng.below(100);
            if n == 0 || (op < 15 && n < 12) {
                let k = c.rng.int(2, 6);
                let l = format!("v{}", c.rng.below(1000));
                let r = lib("add_node", || net.add_node(param(&l, k)))?;
                ensure!(r.is_ok(), "add_node refused a node");
                let r = r.unwrap();
                ensure!(r == n, "add_node returned index {r} instead of {n}");
                m.cards.push(k);
                m.labels.push(l);
                m.edges = None;
                hist.push_str("N ");
            } else if op < 20 {
                lib("initialize_adj_matrix", || net.initialize_adj_matrix())?;
                m.edges = Some(BTreeSet::new());
                hist.push_str("I ");
            } else if n > 1 {
                let repeat = c.rng.chance(0.1);
                let (p, q) = match &m.edges {
                    Some(e) if repeat && !e.is_empty() => {
                        let v: Vec<_> = e.iter().cloned().collect();
                        *c.rng.pick(&v)
                    }
                    _ => {
                        let p = c.rng.below(n);
                        if c.rng.chance(0.06) {
                            // a node among its own parents
                            c.ev("loops added", 1);
                            (p, p)
                        } else {
                            (p, (p + 1 + c.rng.below(n - 1)) % n)
                        }
                    }
                };
                lib("add_edge", || net.add_edge(p, q))?;
                m.edges.get_or_insert_with(BTreeSet::new).insert((p, q));
                hist.push_str(&format!("{p}>{q} "));
                added += 1;
                c.ev("edges added", 1);
            } else {
                continue;
            }
            c.ev("operations", 1);
            c.desc = hist.clone();
            check_structure(&net, &m, None, c)?;
        }
        c.nontrivial = added > 0;
        Ok(())
    });
    ctx.cases("large", 24, 10, |c| {
        let n = c.rng.int(100, 400);
        let mut net = CtbnNetwork::new();
        let mut m = Model {
            cards: vec![],
            labels: vec![],
            edges: None,
        };
        for i in 0..n {
            let k = c.rng.int(2, 9);
            let r = net.add_node(param(&format!("x{i}"), k)).unwrap();
            ensure!(r == i, "add_node returned index {r} instead of {i}");
            m.cards.push(k);
            m.labels.push(format!("x{i}"));
        }
        let mut e = BTreeSet::new();
        let hub = c.rng.below(n);
        for j in 0..c.rng.int(50, 2000) {
            let (mut p, mut q) = (c.rng.below(n), c.rng.below(n));
            if j % 5 == 0 {
                p = hub;
            }
            if j % 7 == 0 {
                q = hub;
            }
            if p != q || c.rng.chance(0.3) {
                net.add_edge(p, q);
                e.insert((p, q));
            }
        }
        c.ev("edges added", e.len());
        m.edges = Some(e);
        c.desc = format!("{n} nodes, hub {hub}");
        check_structure(&net, &m, None, c)?;
        // one more node clears everything
        net.add_node(param("last", 2)).unwrap();
        m.cards.push(2);
        m.labels.push("last".into());
        m.edges = None;
        check_structure(&net, &m, None, c)?;
        net.add_edge(n, 0);
        m.edges = Some([(n, 0)].into_iter().collect());
        check_structure(&net, &m, None, c)
    });
    ctx.require("parent/children sets compared", 10000);
}

// ---------------------------------------------------------------- C02
#[derive(Clone, PartialEq, Debug, Default)]
struct PModel {
    cim: Option<Vec<u64>>,
    tr: Option<Vec<usize>>,
    rt: Option<Vec<u64>>,
}
fn pm(p: &DiscreteStatesContinousTimeParams) -> PModel {
    PModel {
        cim: p
            .get_cim()
            .as_ref()
            .map(|c| c.iter().map(|x| x.to_bits()).collect()),
        tr: p
            .get_transitions()
            .as_ref()
            .map(|c| c.iter().cloned().collect()),
        rt: p
            .get_residence_time()
            .as_ref()
            .map(|c| c.iter().map(|x| x.to_bits()).collect()),
    }
}
fn randomize(p: &mut DiscreteStatesContinousTimeParams, k: usize, rng: &mut Rng) {
    let u = rng.int(1, 4);
    if rng.chance(0.7) {
        let c: Cim = (0..u)
            .map(|_| gen_matrix(rng, k, Style::Dense, 1.0))
            .collect();
        if rng.chance(0.5) {
            p.set_cim(cim3(&c)).unwrap();
        } else {
            p.set_cim_unchecked(cim3(&c));
        }
    }
    if rng.chance(0.7) {
        p.set_transitions(Array3::from_shape_fn((u, k, k), |_| rng.below(50)));
    }
    if rng.chance(0.7) {
        p.set_residence_time(Array2::from_shape_fn((u, k), |_| rng.f()));
    }
}
pub fn c02(ctx: &Ctx) {
    ctx.rule("random histories mixing structural operations with writes of intensities, counts and residence times; after every operation the parameters of every node are compared bit by bit with a model (None or the last value written); non-trivial: at least one structural operation hit a node which had parameters");
    ctx.cases("histories", 2500, 12, |c| {
        let mut net = CtbnNetwork::new();
        let mut cards: Vec<usize> = vec![];
        let mut model: Vec<PModel> = vec![];
        let mut edges: BTreeSet<(usize, usize)> = BTreeSet::new();
        let mut hist = String::new();
        let mut hits = 0;
        for _ in 0..c.rng.int(6, 50) {
            let n = cards.len();
            let op = c.rng.below(100);
            let clear = |model: &mut Vec<PModel>, edges: &mut BTreeSet<(usize, usize)>| {
                let mut h = 0;
                for (_, q) in edges.iter() {
                    if model[*q] != PModel::default() {
                        h += 1;
                    }
                    model[*q] = PModel::default();
                }
                edges.clear();
                h
            };
            if n < 2 || (op < 8 && n < 9) {
                let k = c.rng.int(2, 4);
                let mut p = raw_param(&format!("n{n}"), k);
                randomize(&mut p, k, &mut c.rng);
                lib("add_node", || {
                    net.add_node(Params::DiscreteStatesContinousTime(p)).unwrap()
                })?;
                hits += clear(&mut model, &mut edges);
                cards.push(k);
                model.push(PModel::default());
                hist.push_str("N ");
            } else if op < 16 {
                lib("initialize_adj_matrix", || net.initialize_adj_matrix())?;
                hits += clear(&mut model, &mut edges);
                hist.push_str("I ");
            } else if op < 45 {
                let p = c.rng.below(n);
                let q = if c.rng.chance(0.06) { p } else { (p + 1 + c.rng.below(n - 1)) % n };
                lib("add_edge", || net.add_edge(p, q))?;
                if model[q] != PModel::default() {
                    hits += 1;
                }
                model[q] = PModel::default();
                edges.insert((p, q));
                hist.push_str(&format!("{p}>{q} "));
            } else {
                let i = c.rng.below(n);
                let p = inner_mut(net.get_node_mut(i));
                if c.rng.chance(0.08) {
                    p.reset_params();
                    ensure!(
                        pm(p) == PModel::default(),
                        "reset_params left some parameters in place"
                    );
                } else {
                    let before = pm(p);
                    let mut q = raw_param("tmp", cards[i]);
                    randomize(&mut q, cards[i], &mut c.rng);
                    let mut refused = false;
                    if let Some(x) = q.get_cim() {
                        if c.rng.chance(0.5) {
                            p.set_cim_unchecked(x.clone());
                        } else if c.rng.chance(0.15) {
                            let mut y = x.clone();
                            y[[0, 0, 0]] += 1.0;
                            let r = lib("set_cim", || p.set_cim(y))?;
                            ensure!(r.is_err(), "an invalid matrix was accepted");
                            refused = true;
                        } else {
                            let r = lib("set_cim", || p.set_cim(x.clone()))?;
                            ensure!(r.is_ok(), "a valid matrix was refused");
                        }
                    }
                    if let Some(x) = q.get_transitions() {
                        p.set_transitions(x.clone());
                    }
                    if let Some(x) = q.get_residence_time() {
                        p.set_residence_time(x.clone());
                    }
                    let (mut a, mut w) = (pm(p), pm(&q));
                    if refused {
                        // what a refused matrix leaves is not specified here (C04)
                        a.cim = None;
                        w.cim = None;
                    }
                    let want = PModel {
                        cim: if refused { None } else { w.cim.or(before.cim) },
                        tr: w.tr.or(before.tr),
                        rt: w.rt.or(before.rt),
                    };
                    ensure!(a == want, "written parameters are not those read back");
                }
                model[i] = pm(inner(net.get_node(i)));
                hist.push_str(&format!("P{i} "));
                c.ev("parameter writes", 1);
            }
            c.desc = hist.clone();
            c.ev("operations", 1);
            for i in 0..cards.len() {
                let got = pm(inner(net.get_node(i)));
                c.ev("node parameters compared", 1);
                if got != model[i] {
                    let f = |p: &PModel| {
                        format!(
                            "cim:{} transitions:{} residence:{}",
                            p.cim.is_some(),
                            p.tr.is_some(),
                            p.rt.is_some()
                        )
                    };
                    fail!(
                        "after the last operation node {i} holds {{{}}}, expected {{{}}} (contents compared bit by bit)",
                        f(&got),
                        f(&model[i])
                    );
                }
                if !edges.is_empty() {
                    ensure!(
                        net.get_parent_set(i)
                            == edges.iter().filter(|e| e.1 == i).map(|e| e.0).collect(),
                        "parents of node {i} changed"
                    );
                }
            }
        }
        c.ev("parameterised nodes hit by a structural change", hits);
        c.nontrivial = hits > 0;
        Ok(())
    });
    ctx.cases("large", 30, 8, |c| {
        let n = c.rng.int(60, 300);
        let mut net = CtbnNetwork::new();
        let mut edges: BTreeSet<(usize, usize)> = BTreeSet::new();
        let mut model: Vec<PModel> = vec![];
        let mut hits = 0;
        for i in 0..n {
            net.add_node(param(&format!("n{i}"), 2)).unwrap();
            model.push(PModel::default());
        }
        let fill = |net: &mut CtbnNetwork, model: &mut Vec<PModel>, rng: &mut Rng| {
            for i in 0..model.len() {
                if rng.chance(0.8) {
                    let p = inner_mut(net.get_node_mut(i));
                    randomize(p, 2, rng);
                    model[i] = pm(p);
                }
            }
        };
        let compare = |net: &CtbnNetwork, model: &[PModel], what: &str| -> Res {
            for i in 0..model.len() {
                ensure!(
                    pm(inner(net.get_node(i))) == model[i],
                    "{what}: parameters of node {i} of {} are not those expected",
                    model.len()
                );
            }
            Ok(())
        };
        for round in 0..3 {
            fill(&mut net, &mut model, &mut c.rng);
            let m = model.len();
            for _ in 0..c.rng.int(1, 40) {
                let p = c.rng.below(m);
                let q = (p + 1 + c.rng.below(m - 1)) % m;
                lib("add_edge", || net.add_edge(p, q))?;
                hits += (model[q] != PModel::default()) as usize;
                model[q] = PModel::default();
                edges.insert((p, q));
                c.desc = format!("{m} nodes, round {round}, edge {p}>{q}");
                compare(&net, &model, "edge added")?;
            }
            fill(&mut net, &mut model, &mut c.rng);
            let add = c.rng.chance(0.5);
            if add {
                lib("add_node", || net.add_node(param("new", 2)).unwrap())?;
            } else {
                lib("initialize_adj_matrix", || net.initialize_adj_matrix())?;
            }
            for (_, q) in &edges {
                hits += (model[*q] != PModel::default()) as usize;
                model[*q] = PModel::default();
            }
            edges.clear();
            if add {
                model.push(PModel::default());
            }
            c.desc = format!("{m} nodes, round {round}, {}", if add { "node added" } else { "edges cleared" });
            compare(&net, &model, "edges cleared")?;
            c.ev("node parameters compared", 40 * m);
        }
        c.ev("parameters discarded in large networks", hits);
        c.nontrivial = hits > 0;
        Ok(())
    });
    ctx.require("parameterised nodes hit by a structural change", 1000);
}

// ---------------------------------------------------------------- C03
pub fn c03(ctx: &Ctx) {
    ctx.rule("random networks (2-8 nodes enumerated over all joint states; wide ones with up to 45 parents, 400 nodes or cardinalities up to 500 on random states); index compared with the mixed radix value of the parents and with its inverse; non-trivial: a node with at least two parents");
    ctx.cases("enumerated", 700, 10, |c| {
        let mut card = small_cards(&mut c.rng, 2, 6, 5);
        while card.iter().product::<usize>() > 3000 {
            card.pop();
        }
        let d = c.rng.f();
        let spec = NetSpec::random(&mut c.rng, card, d, 100000, Some(Style::Flat), 1.0);
        let net = spec.skeleton(&mut c.rng);
        c.desc = spec.desc();
        c.nontrivial = spec.pa.iter().any(|p| p.len() > 1);
        let n = spec.n();
        let all: Vec<usize> = (0..n).collect();
        let total: usize = spec.card.iter().product();
        let dom = Array1::from_vec(spec.card.clone());
        let mut seen: Vec<Vec<Option<Vec<usize>>>> =
            (0..n).map(|i| vec![None; spec.nconf(i)]).collect();
        let extra = subset(&mut c.rng, n, n, &spec.card, 1 << 40, n);
        for idx in 0..total {
            let s: Vec<usize> = digits(&all, &spec.card, idx).iter().map(|x| x.1).collect();
            let got = lib("idx_to_state", || CtbnNetwork::idx_to_state(&dom, idx))?.to_vec();
            ensure!(got == s, "idx_to_state({idx}) = {got:?} instead of {s:?}");
            let state = st(&s);
            let full = lib("index of the joint state", || {
                net.get_param_index_from_custom_parent_set(&state, &all.iter().cloned().collect())
            })?;
            ensure!(full == idx, "joint state {s:?} has index {full}, not {idx}");
            let e = net.get_param_index_from_custom_parent_set(
                &state,
                &extra.iter().cloned().collect(),
            );
            ensure!(
                e == mixed(&extra, &spec.card, &s),
                "index {e} of {s:?} for the set {extra:?}"
            );
            for i in 0..n {
                let u = lib("get_param_index_network", || {
                    net.get_param_index_network(i, &state)
                })?;
                let v = lib("get_param_index_from_custom_parent_set", || {
                    net.get_param_index_from_custom_parent_set(&state, &spec.pset(i))
                })?;
                ensure!(
                    u == v,
                    "node {i} state {s:?}: index {u} by the network, {v} by its parent set"
                );
                ensure!(
                    u == spec.u(i, &s),
                    "node {i} state {s:?}: index {u} instead of {}",
                    spec.u(i, &s)
                );
                ensure!(u < seen[i].len(), "index {u} out of range for node {i}");
                let conf: Vec<usize> = spec.pa[i].iter().map(|p| s[*p]).collect();
                match &seen[i][u] {
                    None => seen[i][u] = Some(conf),
                    Some(x) => ensure!(
                        *x == conf,
                        "node {i}: configurations {x:?} and {conf:?} share index {u}"
                    ),
                }
                c.ev("indices compared", 1);
            }
        }
        for i in 0..n {
            ensure!(
                seen[i].iter().all(|x| x.is_some()),
                "node {i}: some index is never used"
            );
        }
        Ok(())
    });
    ctx.cases("wide", 300, 10, |c| {
        let kind = c.rng.below(4);
        let card: Vec<usize> = match kind {
            3 => (0..c.rng.int(66, 400)).map(|_| c.rng.int(2, 3)).collect(),
            0 => (0..c.rng.int(20, 46)).map(|_| 2).collect(),
            1 => (0..c.rng.int(3, 6)).map(|_| c.rng.int(2, 500)).collect(),
            _ => (0..c.rng.int(8, 20)).map(|_| c.rng.int(2, 7)).collect(),
        };
        let n = card.len();
        let mut pa = vec![vec![]; n];
        let target = c.rng.below(n);
        for p in 0..n {
            if p != target && c.rng.chance(if kind == 3 { 20.0 / n as f64 } else { 0.9 }) && (kind != 3 || pa[target].len() < 36) {
                pa[target].push(p);
            }
        }
        let spec = NetSpec {
            card,
            pa,
            cim: vec![],
        };
        let net = spec.skeleton(&mut c.rng);
        c.desc = format!("{} target={target}", spec.desc());
        for _ in 0..60 {
            let mut s = spec.random_state(&mut c.rng);
            if c.rng.chance(0.2) {
                s = spec.card.iter().map(|k| k - 1).collect();
            }
            let u = lib("get_param_index_network", || {
                net.get_param_index_network(target, &st(&s))
            })?;
            ensure!(
                u == spec.u(target, &s),
                "index {u} instead of {} for parents {:?} in {s:?}",
                spec.u(target, &s),
                spec.pa[target]
            );
            let v = net.get_param_index_from_custom_parent_set(&st(&s), &spec.pset(target));
            ensure!(u == v, "network index {u}, custom set index {v}");
            let mut s2 = s.clone();
            for i in 0..n {
                if !spec.pa[target].contains(&i) {
                    s2[i] = c.rng.below(spec.card[i]);
                }
            }
            let w = net.get_param_index_network(target, &st(&s2));
            ensure!(w == u, "the index depends on nodes which are not parents");
            if kind != 3 {
                let all: Vec<usize> = (0..n).collect();
                let j = mixed(&all, &spec.card, &s);
                let back = CtbnNetwork::idx_to_state(&Array1::from_vec(spec.card.clone()), j).to_vec();
                ensure!(back == s, "idx_to_state({j}) = {back:?} instead of {s:?}");
            }
            c.ev("indices compared", 3);
        }
        Ok(())
    });
    ctx.require("indices compared", 50000);
}

// ---------------------------------------------------------------- C04
fn verdict(c: &mut Case, k: usize, arr: Array3<f64>, valid: bool, what: &str) -> Res {
    let mut p = raw_param("v", k);
    if c.rng.chance(0.5) {
        // a previous, valid, matrix
        let m: Cim = vec![gen_matrix(&mut c.rng, k, Style::Dense, 1.0)];
        p.set_cim(cim3(&m)).unwrap();
    }
    let r = lib("set_cim", || p.set_cim(arr.clone()))?;
    if valid {
        ensure!(r.is_ok(), "valid matrix refused ({what}): {r:?}");
        ensure!(
            p.get_cim().as_ref() == Some(&arr),
            "accepted matrix is not the one stored"
        );
        ensure!(
            lib("validate_params", || p.validate_params())?.is_ok(),
            "validate_params refuses the matrix set_cim accepted"
        );
    } else {
        ensure!(
            matches!(r, Err(ParamsError::InvalidCIM(_))),
            "invalid matrix accepted ({what}): {r:?}"
        );
        ensure!(
            p.get_cim().is_none(),
            "a matrix is left in place after a refusal ({what})"
        );
        let mut q = raw_param("v", k);
        q.set_cim_unchecked(arr.clone());
        let r = lib("validate_params", || q.validate_params())?;
        ensure!(
            matches!(r, Err(ParamsError::InvalidCIM(_))),
            "validate_params accepts an invalid matrix ({what})"
        );
    }
    c.ev(
        if valid {
            "valid matrices accepted"
        } else {
            "invalid matrices refused"
        },
        1,
    );
    Ok(())
}
pub fn c04(ctx: &Ctx) {
    ctx.rule("random valid intensity matrices (1-64 configurations, 2-40 states, rates from 5e-324 to 1e12, signed zeros) and the same with one defect planted at a random position (shape, sign, zero or positive diagonal, NaN, infinity, row sum, compensated errors); non-trivial: all");
    ctx.cases("verdicts", 12000, 12, |c| {
        let k = if c.rng.chance(0.004) {
            c.rng.int(100, 300)
        } else if c.rng.chance(0.05) {
            c.rng.int(10, 40)
        } else {
            c.rng.int(2, 7)
        };
        let u = if k > 50 {
            c.rng.int(1, 3)
        } else if k < 5 && c.rng.chance(0.004) {
            c.rng.int(1000, 5000)
        } else if k < 10 && c.rng.chance(0.01) {
            c.rng.int(200, 600)
        } else if c.rng.chance(0.1) {
            c.rng.int(10, 64)
        } else {
            c.rng.int(1, 8)
        };
        let style = STYLES[c.rng.below(6)];
        let scale = if c.rng.chance(0.3) {
            c.rng.logu(1e-8, 1e10)
        } else {
            1.0
        };
        let m: Cim = (0..u)
            .map(|_| gen_matrix(&mut c.rng, k, style, scale))
            .collect();
        let mut a = cim3(&m);
        let (i, x) = (c.rng.below(u), c.rng.below(k));
        let y = (x + 1 + c.rng.below(k - 1)) % k;
        let d = a[[i, x, x]].abs();
        let kind = c.rng.below(17);
        c.desc = format!("kind={kind} k={k} configurations={u} {style:?} scale={scale:e} at ({i},{x},{y})");
        c.mix(c.rng.clone().u64());
        match kind {
            0 | 1 => verdict(c, k, a, true, "rows sum to zero"),
            2 => {
                // rounding noise
                for row in 0..k {
                    let dd = a[[i, row, row]];
                    a[[i, row, row]] = dd * (1.0 + 2.0 * f64::EPSILON);
                }
                verdict(c, k, a, true, "rounding noise")
            }
            3 => {
                let dk = if c.rng.chance(0.5) { k + 1 } else { k - 1 };
                let shape = match c.rng.below(3) {
                    0 => (u, dk, k),
                    1 => (u, k, dk),
                    _ => (u, dk, dk),
                };
                let b = Array3::from_shape_fn(shape, |(q, r, s)| {
                    if r < k && s < k {
                        a[[q, r, s]]
                    } else if r == s {
                        -1.0
                    } else {
                        0.0
                    }
                });
                verdict(c, k, b, false, "wrong shape")
            }
            4 => {
                // absorbing row
                for z in 0..k {
                    a[[i, x, z]] = 0.0;
                }
                verdict(c, k, a, false, "null diagonal")
            }
            5 => {
                for z in 0..k {
                    a[[i, x, z]] = -a[[i, x, z]];
                }
                verdict(c, k, a, false, "positive diagonal, row sums to zero")
            }
            6 | 7 => {
                if k < 3 {
                    return verdict(c, k, a, true, "rows sum to zero");
                }
                let z = (0..k).find(|z| *z != x && *z != y).unwrap();
                let e = d.max(1e-3) * c.rng.logu(1e-3, 10.0);
                let v = a[[i, x, y]];
                a[[i, x, y]] = -e;
                a[[i, x, z]] += e + v;
                verdict(c, k, a, false, "negative intensity, compensated")
            }
            8 => {
                a[[i, x, y]] = f64::NAN;
                verdict(c, k, a, false, "NaN intensity")
            }
            9 => {
                a[[i, x, x]] = f64::NAN;
                verdict(c, k, a, false, "NaN diagonal")
            }
            10 => {
                a[[i, x, y]] = f64::INFINITY;
                if c.rng.chance(0.5) {
                    a[[i, x, x]] = f64::NEG_INFINITY;
                }
                verdict(c, k, a, false, "infinite intensity")
            }
            11 => {
                a[[i, x, x]] = f64::NEG_INFINITY;
                verdict(c, k, a, false, "infinite diagonal")
            }
            12 | 13 => {
                let e = d.max(1.0) * c.rng.logu(1e-6, 1.0);
                a[[i, x, y]] += e;
                verdict(c, k, a, false, "row sum above zero")
            }
            14 => {
                let e = d.max(1.0) * c.rng.logu(1e-6, 1.0);
                a[[i, x, x]] -= e;
                verdict(c, k, a, false, "row sum below zero")
            }
            15 => {
                // rates next to zero, and zeros with a sign
                for row in 0..k {
                    if row == x || c.rng.chance(0.5) {
                        let rate = match c.rng.below(4) {
                            0 => f64::from_bits(1 + c.rng.below(9) as u64),
                            1 => c.rng.logu(1e-307, 1e-200),
                            2 => c.rng.logu(1e-200, 1e-30),
                            _ => c.rng.logu(1e-30, 1e-9),
                        };
                        for z in 0..k {
                            a[[i, row, z]] = if z == row {
                                -rate
                            } else if z == (row + 1) % k {
                                rate
                            } else if c.rng.chance(0.5) {
                                -0.0
                            } else {
                                0.0
                            };
                        }
                    }
                }
                verdict(c, k, a, true, "rates next to zero, signed zeros")
            }
            _ => {
                // errors which cancel in the sum over the rows or over the configurations
                let e = d.max(1.0) * c.rng.logu(1e-5, 1.0);
                let (i2, x2) = if u > 1 && c.rng.chance(0.5) {
                    ((i + 1) % u, x)
                } else {
                    (i, (x + 1) % k)
                };
                let y2 = (x2 + 1) % k;
                a[[i, x, x]] -= e;
                a[[i2, x2, y2]] += e;
                if e < 1e-6 * a[[i2, x2, x2]].abs() && e < 1e-6 * d {
                    return Ok(());
                }
                verdict(c, k, a, false, "row sums with opposite errors")
            }
        }
    });
    ctx.cases("uninitialised", 20, 5, |c| {
        let k = c.rng.int(2, 9);
        let p = raw_param("v", k);
        ensure!(
            matches!(
                p.validate_params(),
                Err(ParamsError::ParametersNotInitialized(_))
            ),
            "missing matrix not reported"
        );
        let mut rng = ChaCha8Rng::seed_from_u64(c.rng.u64());
        ensure!(
            matches!(
                p.get_random_state(0, 0, &mut rng),
                Err(ParamsError::ParametersNotInitialized(_))
            ),
            "sampling without a matrix not refused"
        );
        Ok(())
    });
    ctx.require("valid matrices accepted", 1000);
    ctx.require("invalid matrices refused", 5000);
}

// ---------------------------------------------------------------- C10
pub fn c10(ctx: &Ctx) {
    ctx.rule("random networks with up to 600 joint states, all intensity styles; every entry of the amalgamated matrix is compared with the joint generator built from the definition; non-trivial: at least two nodes");
    let run = |c: &mut Case, card: Vec<usize>, max: usize| -> Res {
        let mut card = card;
        while card.iter().product::<usize>() > max {
            card.pop();
        }
        let dens = c.rng.f();
        let style = STYLES[c.rng.below(5)];
        let scale = if c.rng.chance(0.25) {
            c.rng.logu(1e-6, 1e6)
        } else {
            1.0
        };
        let mixed_style = c.rng.chance(0.3);
        let st = if mixed_style { None } else { Some(style) };
        let mut spec = NetSpec::random(&mut c.rng, card, dens, 256, st, scale);
        if max >= 576 && c.rng.chance(0.15) {
            spec = confs288(&mut c.rng, st, scale);
        }
        c.desc = format!("{} {style:?} scale={scale:e}", spec.desc());
        c.nontrivial = spec.n() > 1;
        let net = spec.build(&mut c.rng);
        let ctmp = lib("amalgamation", || net.amalgamation())?;
        let j = oracle::joint(&spec);
        let s = j.states.len();
        ensure!(
            ctmp.get_number_of_nodes() == 1,
            "amalgamation has {} nodes",
            ctmp.get_number_of_nodes()
        );
        let p = inner(ctmp.get_node(0));
        ensure!(
            p.get_reserved_space_as_parent() == s,
            "amalgamated variable has {} states instead of {s}",
            p.get_reserved_space_as_parent()
        );
        let cim = match p.get_cim() {
            Some(x) => x,
            None => fail!("amalgamation has no intensity matrix"),
        };
        ensure!(cim.shape() == [1, s, s], "shape {:?}", cim.shape());
        ensure!(
            p.validate_params().is_ok(),
            "the amalgamated matrix does not validate"
        );
        for a in 0..s {
            let mut row = vec![0.0; s];
            for (b, r) in &j.out[a] {
                row[*b] = *r;
            }
            for b in 0..s {
                let got = cim[[0, a, b]];
                if a == b {
                    ensure!(
                        close(got, -j.exit[a], 1e-9, 0.0),
                        "exit rate of {:?} is {got}, expected {}",
                        j.states[a],
                        -j.exit[a]
                    );
                } else {
                    ensure!(
                        close(got, row[b], 1e-11, 0.0),
                        "rate from {:?} to {:?} is {got}, expected {}",
                        j.states[a],
                        j.states[b],
                        row[b]
                    );
                }
            }
            c.ev("rows compared", 1);
            c.ev("positive joint rates", j.out[a].len());
        }
        Ok(())
    };
    ctx.cases("small", 500, 10, |c| {
        let card = small_cards(&mut c.rng, 1, 5, 4);
        run(c, card, 120)
    });
    ctx.cases("larger", 16, 10, |c| {
        let card = match c.rng.below(3) {
            0 => vec![2; c.rng.int(6, 9)],
            1 => vec![c.rng.int(10, 30), c.rng.int(2, 16)],
            _ => small_cards(&mut c.rng, 4, 6, 5),
        };
        run(c, card, 600)
    });
    ctx.require("rows compared", 2000);
}

// ---------------------------------------------------------------- C30
pub fn c30(ctx: &Ctx) {
    ctx.rule("random single variable processes: container histories (second insertion, edges, foreign indices), learned parameters, scores, generated parameters and rewards against those of a network of one node, and simulations from every initial state; non-trivial: all");
    ctx.cases("container", 400, 10, |c| {
        let k = c.rng.int(2, 12);
        let m: Cim = vec![gen_matrix(&mut c.rng, k, Style::Dense, 1.0)];
        c.desc = format!("k={k}");
        c.mixf(m[0][0][0]);
        let mut net = CtmpProcess::new();
        ensure!(
            net.get_number_of_nodes() == 0 && net.get_node_indices() == (0..0),
            "empty process has nodes"
        );
        let mut p = raw_param("X", k);
        p.set_cim(cim3(&m)).unwrap();
        p.set_transitions(Array3::from_shape_fn((1, k, k), |_| c.rng.below(50)));
        p.set_residence_time(Array2::from_shape_fn((1, k), |_| c.rng.f()));
        let r = lib("add_node", || {
            net.add_node(Params::DiscreteStatesContinousTime(p))
        })?;
        ensure!(matches!(r, Ok(0)), "first node not inserted at index 0");
        // inserted parameters may be discarded (as in a network) or kept, but refusals change nothing
        let kept = pm(inner(net.get_node(0)));
        for round in 0..3 {
            ensure!(
                net.get_number_of_nodes() == 1 && net.get_node_indices() == (0..1),
                "process does not have exactly one node"
            );
            ensure!(
                net.get_parent_set(0).is_empty() && net.get_children_set(0).is_empty(),
                "the only node has relatives"
            );
            let q = inner(net.get_node(0));
            ensure!(
                pm(q) == kept,
                "the parameters of the node changed (round {round})"
            );
            ensure!(
                q.get_label() == "X"
                    && net.get_node(0).get_reserved_space_as_parent() == k
                    && q.get_cim().as_ref() == Some(&cim3(&m)),
                "the node or its parameters changed (round {round})"
            );
            let kk = c.rng.int(2, 5);
            let r = lib("add_node", || net.add_node(param("Y", kk)))?;
            ensure!(r.is_err(), "a second node was accepted");
            if c.rng.chance(0.5) {
                ensure!(
                    refuses(|| net.add_edge(0, 0)),
                    "an edge was accepted in a single variable process"
                );
            }
            ensure!(refuses(|| { net.get_node(1); }), "node 1 exists");
            if c.rng.chance(0.4) {
                let far = if c.rng.chance(0.5) { 1 } else { c.rng.int(2, 1 << 20) };
                ensure!(
                    refuses(|| { net.get_node_mut(far); })
                        && refuses(|| { net.get_parent_set(far); })
                        && refuses(|| { net.get_children_set(far); })
                        && refuses(|| { net.get_param_index_network(far, &st(&[0])); }),
                    "node {far} exists"
                );
                ensure!(
                    refuses(|| net.add_edge(0, far)) && refuses(|| net.add_edge(far, 0)),
                    "an edge was accepted in a single variable process"
                );
            }
            c.ev("refusals observed", 2);
        }
        let m2: Cim = vec![gen_matrix(&mut c.rng, k, Style::Sparse, 1.0)];
        inner_mut(net.get_node_mut(0)).set_cim(cim3(&m2)).unwrap();
        ensure!(
            inner(net.get_node(0)).get_cim().as_ref() == Some(&cim3(&m2)),
            "new parameters are not retained"
        );
        Ok(())
    });
    ctx.cases("simulation", 300, 10, |c| {
        let k = c.rng.int(2, 6);
        let m: Cim = vec![gen_matrix(&mut c.rng, k, Style::Dense, 1.0)];
        let init = c.rng.below(k);
        c.desc = format!("k={k} initial={init} exit rate={}", -m[0][init][init]);
        let mut net = CtmpProcess::new();
        let mut p = raw_param("X", k);
        p.set_cim(cim3(&m)).unwrap();
        net.add_node(Params::DiscreteStatesContinousTime(p)).unwrap();
        let mut s = lib("ForwardSampler::new", || {
            ForwardSampler::new(&net, Some(c.rng.seed()), Some(st(&[init])))
        })?;
        // state known to the monitor: the one in which the next call will be computed
        let mut cur = Some(init);
        let mut last: Option<(f64, usize)> = None;
        for step in 0..20 {
            match lib("ForwardSampler::next", || s.next()) {
                Err(mut v) => {
                    // After the first event the process is in a state other than 0 at the latest
                    // when the initial one was 0.
                    let nonzero = match cur {
                        Some(x) => x != 0,
                        None => step >= 1,
                    };
                    if nonzero && v.msg.contains("index out of bounds") {
                        v.sig = Some("ctmp-forward-sampler-state-used-as-configuration".into());
                        c.ev("simulations stopped by the known finding", 1);
                    }
                    v.msg = format!("step {step}: {}", v.msg);
                    return Err(v);
                }
                Ok(None) => fail!("the simulation ended"),
                Ok(Some(x)) => {
                    let y = un(&x.state)[0];
                    ensure!(y < k, "state {y} of {k}");
                    match last {
                        None => ensure!(
                            x.t == 0.0 && y == init,
                            "first sample ({}, {y}) instead of (0, {init})",
                            x.t
                        ),
                        Some((t, z)) => ensure!(
                            x.t >= t && y != z,
                            "sample ({}, {y}) after ({t}, {z})",
                            x.t
                        ),
                    }
                    last = Some((x.t, y));
                    cur = None;
                    c.ev("samples observed", 1);
                }
            }
        }
        Ok(())
    });
    ctx.cases("like a network of one node", 200, 10, |c| {
        let k = c.rng.int(2, 7);
        let mut trajs = random_trajs(&mut c.rng, &[k], 3, 30, false);
        // some of the events repeat the state
        for t in trajs.iter_mut() {
            let at = c.rng.below(t.ev.len());
            if at > 0 && c.rng.chance(0.3) {
                t.ev[at] = t.ev[at - 1].clone();
            }
        }
        let ds = dataset(&trajs);
        let (alpha, tau) = (c.rng.int(1, 4), c.rng.range(0.1, 3.0));
        c.desc = format!("k={k} alpha={alpha} tau={tau}");
        c.mixf(tau);
        let mut one = CtmpProcess::new();
        let mut net = CtbnNetwork::new();
        one.add_node(param("X", k)).unwrap();
        net.add_node(param("X", k)).unwrap();
        net.initialize_adj_matrix();
        let fits: [(&str, &dyn Fn(bool, Option<BTreeSet<usize>>) -> Params); 4] = [
            ("MLE", &|b, s| if b { MLE {}.fit(&one, &ds, 0, s) } else { MLE {}.fit(&net, &ds, 0, s) }),
            ("Bayesian", &|b, s| {
                let l = BayesianApproach { alpha, tau };
                if b { l.fit(&one, &ds, 0, s) } else { l.fit(&net, &ds, 0, s) }
            }),
            ("Cache of MLE", &|b, s| {
                let l = MLE {};
                let mut l = Cache::new(&l);
                if b { l.fit(&one, &ds, 0, s) } else { l.fit(&net, &ds, 0, s) }
            }),
            ("Cache of Bayesian", &|b, s| {
                let l = BayesianApproach { alpha, tau };
                let mut l = Cache::new(&l);
                if b { l.fit(&one, &ds, 0, s) } else { l.fit(&net, &ds, 0, s) }
            }),
        ];
        let bits = |p: &Params| {
            let p = inner(p);
            let v = |x: &f64| if x.is_nan() { u64::MAX } else { x.to_bits() };
            (
                p.get_label().clone(),
                p.get_cim().as_ref().map(|x| (x.dim(), x.iter().map(v).collect::<Vec<_>>())),
                p.get_transitions().clone(),
                p.get_residence_time().as_ref().map(|x| (x.dim(), x.iter().map(v).collect::<Vec<_>>())),
            )
        };
        for (name, f) in fits {
            for set in [Some(BTreeSet::new()), None] {
                let which = if set.is_some() { "an empty parent set" } else { "its own parent set" };
                if set.is_none() && name.starts_with("Cache") {
                    continue; // the cache wants the set
                }
                let a = lib(name, || f(true, set.clone()))?;
                let b = lib(name, || f(false, set.clone()))?;
                ensure!(
                    bits(&a) == bits(&b),
                    "{name} with {which} learns {:?} instead of {:?}",
                    inner(&a).get_cim(),
                    inner(&b).get_cim()
                );
                c.ev("fits compared with those of a network", 1);
            }
        }
        let e = BTreeSet::new();
        let (a, b) = lib("LogLikelihood", || {
            let l = LogLikelihood::new(alpha, tau);
            (l.call(&one, 0, &e, &ds), l.call(&net, 0, &e, &ds))
        })?;
        ensure!(close(a, b, 1e-12, 1e-12), "log-likelihood {a} instead of {b}");
        let (a, b) = lib("BIC", || {
            let l = BIC::new(alpha, tau);
            (l.call(&one, 0, &e, &ds), l.call(&net, 0, &e, &ds))
        })?;
        ensure!(close(a, b, 1e-12, 1e-12), "BIC {a} instead of {b}");
        // rewards of a single variable
        let r: Vec<f64> = (0..k * k).map(|_| c.rng.range(-5.0, 5.0)).collect();
        let q: Vec<f64> = (0..k).map(|_| c.rng.range(-5.0, 5.0)).collect();
        let mut f = lib("initialize_from_network_process", || {
            FactoredRewardFunction::initialize_from_network_process(&one)
        })?;
        ensure!(
            f.get_transition_reward(0).dim() == (k, k) && f.get_instantaneous_reward(0).len() == k,
            "rewards of {:?} and {} entries for {k} values",
            f.get_transition_reward(0).dim(),
            f.get_instantaneous_reward(0).len()
        );
        f.get_transition_reward_mut(0).iter_mut().zip(&r).for_each(|(a, b)| *a = *b);
        f.get_instantaneous_reward_mut(0).iter_mut().zip(&q).for_each(|(a, b)| *a = *b);
        for x in 0..k {
            for y in 0..k {
                let v = lib("reward", || f.call(&st(&[y]), Some(&st(&[x]))))?;
                let v0 = lib("reward", || f.call(&st(&[y]), None))?;
                let want = r[x * k + y];
                ensure!(
                    v.instantaneous_reward == q[y] && v0.instantaneous_reward == q[y],
                    "rate {} or {} instead of {} in state {y}",
                    v.instantaneous_reward,
                    v0.instantaneous_reward,
                    q[y]
                );
                if x != y {
                    ensure!(
                        v.transition_reward == want && v0.transition_reward == 0.0,
                        "reward {} and {} for the transition {x} -> {y}",
                        v.transition_reward,
                        v0.transition_reward
                    );
                }
                c.ev("rewards of single variable processes", 1);
            }
        }
        Ok(())
    });
    ctx.cases("generated parameters", 60, 10, |c| {
        let k = c.rng.int(2, 8);
        let (lo, d) = (c.rng.range(0.01, 10.0), c.rng.range(0.5, 20.0));
        c.desc = format!("k={k} interval {lo}..{}", lo + d);
        c.mixf(lo);
        let seed = c.rng.seed();
        let mut one = CtmpProcess::new();
        one.add_node(param("X", k)).unwrap();
        let mut net = CtbnNetwork::new();
        net.add_node(param("X", k)).unwrap();
        net.initialize_adj_matrix();
        lib("generate_parameters", || {
            UniformParametersGenerator::new(lo..lo + d, Some(seed)).generate_parameters(&mut one);
            UniformParametersGenerator::new(lo..lo + d, Some(seed)).generate_parameters(&mut net);
        })?;
        let a = inner(one.get_node(0)).get_cim().clone();
        let b = inner(net.get_node(0)).get_cim().clone();
        ensure!(
            a.is_some() && a == b,
            "{a:?} instead of {b:?} with the same generator"
        );
        ensure!(
            inner(one.get_node(0)).validate_params().is_ok(),
            "generated parameters do not validate"
        );
        c.ev("generated parameters of single variable processes", 1);
        Ok(())
    });
    ctx.require("refusals observed", 500);
}
