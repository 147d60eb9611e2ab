//! Statistical decision rules with explicit, negligible false alarm bounds, and special functions
//! (independent from statrs).
use crate::core::Res;

/// Threshold on -ln(P): 34 is a probability of 1.7e-15 per test.
pub const G: f64 = 34.0;

pub fn kl(a: f64, p: f64) -> f64 {
    let t = |x: f64, y: f64| if x <= 0.0 { 0.0 } else { x * (x / y).ln() };
    t(a, p) + t(1.0 - a, 1.0 - p)
}
/// Chernoff bound test: `k` successes in `n` Bernoulli(p) trials.
pub fn binom(what: &str, k: u64, n: u64, p: f64) -> Res {
    if n == 0 {
        return Ok(());
    }
    if p <= 0.0 {
        ensure!(k == 0, "{what}: {k} occurrences of an event of probability 0");
        return Ok(());
    }
    if p >= 1.0 {
        ensure!(k == n, "{what}: {} misses of an event of probability 1", n - k);
        return Ok(());
    }
    let g = n as f64 * kl(k as f64 / n as f64, p);
    ensure!(
        g < G,
        "{what}: {k} of {n} ({}), expected probability {p} (Chernoff exponent {g:.1})",
        k as f64 / n as f64
    );
    Ok(())
}
/// Dvoretzky-Kiefer-Wolfowitz test of values which must be uniform in [0,1].
pub fn dkw(what: &str, v: &mut Vec<f64>) -> Res {
    let n = v.len();
    if n < 20 {
        return Ok(());
    }
    if v.iter().any(|x| !(*x >= -1e-9 && *x <= 1.0 + 1e-9)) {
        fail!("{what}: probability integral transform outside [0,1]");
    }
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut d: f64 = 0.0;
    for (i, x) in v.iter().enumerate() {
        d = d
            .max((x - i as f64 / n as f64).abs())
            .max((x - (i + 1) as f64 / n as f64).abs());
    }
    let lim = ((2f64.ln() + G) / (2.0 * n as f64)).sqrt();
    ensure!(
        d <= lim,
        "{what}: empirical law of {n} observations is {d:.5} away from the exact one (bound {lim:.5})"
    );
    Ok(())
}
/// Joint uniformity of pairs on a b x b grid.
pub fn grid(what: &str, v: &[(f64, f64)], b: usize) -> Res {
    let n = v.len() as u64;
    if n < 100 {
        return Ok(());
    }
    let mut c = vec![0u64; b * b];
    for (x, y) in v {
        let i = ((x * b as f64) as usize).min(b - 1);
        let j = ((y * b as f64) as usize).min(b - 1);
        c[i * b + j] += 1;
    }
    for i in 0..b * b {
        binom(
            &format!("{what}: cell ({},{})", i / b, i % b),
            c[i],
            n,
            1.0 / (b * b) as f64,
        )?;
    }
    Ok(())
}
/// Values which must be independent and uniform in [0,1], of all cases together: fine cells, both
/// tails, and repetitions in the tails (a law with an atom: clipped or quantised draws).
pub struct Pool {
    n: u64,
    cells: Vec<u64>,
    low: [u64; 12],
    high: [u64; 12],
    tails: [Vec<f64>; 2],
}
impl Default for Pool {
    fn default() -> Pool {
        Pool { n: 0, cells: vec![0; 1000], low: [0; 12], high: [0; 12], tails: [vec![], vec![]] }
    }
}
const TAIL: f64 = 1e-4;
impl Pool {
    /// `v` and its complement `w` = 1-v (each precise near 0).
    pub fn add(&mut self, v: f64, w: f64) {
        self.n += 1;
        self.cells[((v * 1000.0).max(0.0) as usize).min(999)] += 1;
        for (x, cnt, k) in [(v, &mut self.low, 0), (w, &mut self.high, 1)] {
            let mut lim = 0.1;
            for c in cnt.iter_mut() {
                if x >= lim {
                    break;
                }
                *c += 1;
                lim *= 0.1;
            }
            if x < TAIL {
                self.tails[k].push(x);
            }
        }
    }
    pub fn merge(&mut self, o: Pool) {
        self.n += o.n;
        for (a, b) in self.cells.iter_mut().zip(&o.cells) {
            *a += b;
        }
        for k in 0..12 {
            self.low[k] += o.low[k];
            self.high[k] += o.high[k];
        }
        let [a, b] = o.tails;
        self.tails[0].extend(a);
        self.tails[1].extend(b);
    }
    pub fn len(&self) -> u64 {
        self.n
    }
    pub fn check(&mut self, what: &str, tails: bool) -> Res {
        for (i, k) in self.cells.iter().enumerate() {
            binom(&format!("{what}: cell {i} of 1000"), *k, self.n, 1e-3)?;
        }
        if !tails {
            return Ok(());
        }
        let mut p = 0.1;
        for k in 0..12 {
            binom(&format!("{what}: below {p:e}"), self.low[k], self.n, p)?;
            binom(&format!("{what}: above 1-{p:e}"), self.high[k], self.n, p)?;
            p *= 0.1;
        }
        for t in self.tails.iter_mut() {
            t.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let same = t.windows(2).filter(|w| w[1] - w[0] <= 1e-11 * w[1]).count();
            // fewer than 1e-3 pairs of independent draws are expected to be this near
            let pairs = (t.len() as f64).powi(2) * 1e-11;
            ensure!(
                (same as f64) < 5.0 + 10.0 * pairs,
                "{what}: {same} of the {} most extreme values are repetitions",
                t.len()
            );
        }
        Ok(())
    }
}
const THETA: [f64; 14] = [
    -3.0, -1.0, -0.5, -0.2, -0.08, -0.03, -0.01, 0.01, 0.03, 0.08, 0.2, 0.5, 1.0, 2.5,
];
/// Counting process with intensity `q`: n events seen in exposure `t` (compensator a = q*t).
/// exp(theta*n - (e^theta-1)*a) has expectation <= 1 even when stopped adaptively.
pub fn counts(what: &str, n: f64, a: f64) -> Res {
    let a = a.max(0.0);
    for th in THETA {
        let g = th * n - th.exp_m1() * a;
        ensure!(
            g < 40.0,
            "{what}: {n} transitions observed, {a:.3} expected (martingale exponent {g:.1})"
        );
    }
    Ok(())
}

pub fn ln_gamma(x: f64) -> f64 {
    // Stirling series with upward recurrence.
    let mut x = x;
    let mut s = 0.0;
    let mut prod = 1.0f64;
    while x < 15.0 {
        prod *= x;
        if prod > 1e250 {
            s += prod.ln();
            prod = 1.0;
        }
        x += 1.0;
    }
    s += prod.ln();
    let i = 1.0 / x;
    let i2 = i * i;
    let ser = i * (1.0 / 12.0
        - i2 * (1.0 / 360.0
            - i2 * (1.0 / 1260.0
                - i2 * (1.0 / 1680.0 - i2 * (1.0 / 1188.0 - i2 * 691.0 / 360360.0)))));
    (x - 0.5) * x.ln() - x + 0.5 * (2.0 * std::f64::consts::PI).ln() + ser - s
}
/// Regularised lower incomplete gamma P(a,x).
pub fn gamma_p(a: f64, x: f64) -> f64 {
    if x <= 0.0 {
        return 0.0;
    }
    if x.is_infinite() {
        return 1.0;
    }
    let pre = (a * x.ln() - x - ln_gamma(a)).exp();
    if x < a + 1.0 {
        let mut sum = 1.0 / a;
        let mut t = sum;
        let mut n = a;
        for _ in 0..100000 {
            n += 1.0;
            t *= x / n;
            sum += t;
            if t < sum * 1e-17 {
                break;
            }
        }
        (pre * sum).min(1.0)
    } else {
        let tiny = 1e-300;
        let mut b = x + 1.0 - a;
        let mut c = 1.0 / tiny;
        let mut d = 1.0 / b;
        let mut h = d;
        for i in 1..100000 {
            let an = -(i as f64) * (i as f64 - a);
            b += 2.0;
            d = an * d + b;
            if d.abs() < tiny {
                d = tiny;
            }
            c = b + an / c;
            if c.abs() < tiny {
                c = tiny;
            }
            d = 1.0 / d;
            let del = d * c;
            h *= del;
            if (del - 1.0).abs() < 1e-16 {
                break;
            }
        }
        (1.0 - pre * h).max(0.0)
    }
}
/// Regularised incomplete beta I_x(a,b).
pub fn beta_i(a: f64, b: f64, x: f64) -> f64 {
    if x <= 0.0 {
        return 0.0;
    }
    if x >= 1.0 {
        return 1.0;
    }
    let bt = (ln_gamma(a + b) - ln_gamma(a) - ln_gamma(b) + a * x.ln() + b * (-x).ln_1p()).exp();
    if x < (a + 1.0) / (a + b + 2.0) {
        bt * betacf(a, b, x) / a
    } else {
        1.0 - bt * betacf(b, a, 1.0 - x) / b
    }
}
fn betacf(a: f64, b: f64, x: f64) -> f64 {
    let tiny = 1e-300;
    let qab = a + b;
    let qap = a + 1.0;
    let qam = a - 1.0;
    let mut c = 1.0;
    let mut d = 1.0 - qab * x / qap;
    if d.abs() < tiny {
        d = tiny;
    }
    d = 1.0 / d;
    let mut h = d;
    for m in 1..200000 {
        let m = m as f64;
        let m2 = 2.0 * m;
        let aa = m * (b - m) * x / ((qam + m2) * (a + m2));
        d = 1.0 + aa * d;
        if d.abs() < tiny {
            d = tiny;
        }
        c = 1.0 + aa / c;
        if c.abs() < tiny {
            c = tiny;
        }
        d = 1.0 / d;
        h *= d * c;
        let aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2));
        d = 1.0 + aa * d;
        if d.abs() < tiny {
            d = tiny;
        }
        c = 1.0 + aa / c;
        if c.abs() < tiny {
            c = tiny;
        }
        d = 1.0 / d;
        let del = d * c;
        h *= del;
        if (del - 1.0).abs() < 1e-16 {
            break;
        }
    }
    h
}
/// Normal CDF.
pub fn phi(x: f64) -> f64 {
    let p = 0.5 * gamma_p(0.5, x * x / 2.0);
    if x >= 0.0 {
        0.5 + p
    } else {
        // upper tail by continued fraction for accuracy
        if x < -2.0 {
            let z = -x;
            let mut f = 0.0;
            for k in (1..400).rev() {
                f = k as f64 / (z + f);
            }
            (-(z * z) / 2.0).exp() / (2.0 * std::f64::consts::PI).sqrt() / (z + f)
        } else {
            0.5 - p
        }
    }
}
pub fn f_cdf(d1: f64, d2: f64, x: f64) -> f64 {
    if x <= 0.0 {
        return 0.0;
    }
    if x.is_infinite() {
        return 1.0;
    }
    beta_i(d1 / 2.0, d2 / 2.0, d1 * x / (d1 * x + d2))
}
pub fn chi2_cdf(k: f64, x: f64) -> f64 {
    gamma_p(k / 2.0, x / 2.0)
}
pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a == b {
        return true;
    }
    (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}
