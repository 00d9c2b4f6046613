//! The outer loop as a transition system: approach temperatures are driven by
//! tables, so that every behaviour of the loop is enumerated.
use super::*;
use sett_rs::types::ConvergenceTolerance;
use std::sync::Arc;

// ---------------------------------------------------------------- C04
pub const C04: Meta = Meta {
    level: "model_checking",
    rule: "states are approach temperature triples, transitions are outer iterations; heat exchangers are tables from their state to the next approach, and all tables, initial approaches, iteration limits and several tolerances are enumerated; each run must end where and how the transition system ends; is_converged itself is enumerated over a value lattice",
    assumptions: &["decisions closer to a tolerance than 1e-9 are not judged"],
};

const AC: [f64; 3] = [30.0, 30.5, 33.0];
const AH: [f64; 2] = [60.0, 60.7];
const AR: [f64; 2] = [12.0, 12.4];

fn nearest(x: f64, set: &[f64]) -> usize {
    (0..set.len()).min_by(|a, b| (set[*a] - x).abs().total_cmp(&(set[*b] - x).abs())).unwrap()
}

#[derive(Clone)]
struct Env {
    c: [usize; 3],
    /// by (chx index > 0, hhx index)
    r: [usize; 4],
    h: [usize; 2],
    init: (usize, usize, usize),
    tol: (f64, f64),
}

impl Env {
    fn label(&self) -> String {
        format!("c={:?} r={:?} h={:?} init={:?} tol=({},{:e})", self.c, self.r, self.h, self.init, self.tol.0, self.tol.1)
    }
}

fn digits(mut n: usize, base: usize, len: usize) -> Vec<usize> {
    (0..len)
        .map(|_| {
            let d = n % base;
            n /= base;
            d
        })
        .collect()
}

pub fn c04(rep: &Report) {
    let tols: &[(f64, f64)] = if rep.thorough() {
        &[(0.45, 1.0), (1.0, 1.0), (10.0, 1.0), (10.0, 1e-3), (10.0, 2e-3), (10.0, 7e-3), (0.2, 1e-3), (1e-9, 1e-9)]
    } else {
        &[(0.45, 1.0), (1.0, 1.0), (10.0, 2e-3), (0.2, 1e-3)]
    };
    let mut items = Vec::new();
    for &tol in tols {
        for c in 0..27 {
            for h in 0..4 {
                // all four-entry tables in the thorough tier, those that depend
                // on one neighbour in the quick tier
                let rs: Vec<[usize; 4]> = (0..16)
                    .map(|r| digits(r, 2, 4).try_into().unwrap())
                    .filter(|r: &[usize; 4]| rep.thorough() || (r[0] == r[1] && r[2] == r[3]) || (r[0] == r[2] && r[1] == r[3]))
                    .collect();
                for r in rs {
                    for init in 0..12 {
                        let e = Env {
                            c: digits(c, 3, 3).try_into().unwrap(),
                            h: digits(h, 2, 2).try_into().unwrap(),
                            r,
                            init: (init % 3, (init / 3) % 2, init / 6),
                            tol,
                        };
                        items.push(e);
                    }
                }
            }
        }
    }
    let top = if rep.thorough() { 9 } else { 5 };
    run_cases(rep, &C04, &items, |e| e.label(), |e| {
        let l = e.label();
        let mut s = Spec::base_fixed();
        s.gas = Gas::HeC;
        s.inner = (1e9, 1e9);
        s.ode = (1e-3, 1e-3);
        s.res = 2;
        s.outer = e.tol;
        // the transition system
        let step = |x: (usize, usize, usize)| (e.c[x.0], e.r[usize::from(x.0 > 0) * 2 + x.2], e.h[x.2]);
        let tm = |x: (usize, usize, usize)| temps(s.t_sink, s.t_source, [AC[x.0], AR[x.1], AH[x.2]]);
        let mut x = e.init;
        let mut path = vec![x];
        let mut conv = None;
        while path.len() <= top {
            let y = step(x);
            let (a, b) = (tm(x), tm(y));
            let pairs = [(a.chx, b.chx), (a.cold, b.cold), (a.avg, b.avg), (a.hot, b.hot), (a.hhx, b.hhx)];
            let ok = |f: f64| pairs.iter().all(|p| within_tol(p.0, p.1, (e.tol.0 * f, e.tol.1 * f)));
            if ok(1.0 + 1e-9) != ok(1.0 - 1e-9) {
                rep.count("undecidable_at_tolerance", 1);
                return;
            }
            if ok(1.0) {
                conv = Some(path.len());
                break;
            }
            x = y;
            path.push(x);
        }
        for x in &path {
            rep.set_insert("approach triples", format!("{x:?}"));
        }
        let last = conv.map_or(top, |k| k + 1);
        for limit in 0..=last {
            let mut s = s.clone();
            s.iters = (1, limit);
            rep.count("evaluations", 1);
            rep.count("traces", 1);
            rep.count("states", 1);
            rep.count("transitions", limit.min(path.len()) as u64);
            let got = s.run_with(components(&s, e), LibFluid::new(s.gas));
            match (conv, &got) {
                (Some(k), Ok(o)) if limit >= k => {
                    rep.set_insert("outer iterations to convergence", k.to_string());
                    let w = tm(path[k - 1]);
                    let d = [(o.temp.chx, w.chx), (o.temp.cold, w.cold), (o.temp.avg, w.avg), (o.temp.hot, w.hot), (o.temp.hhx, w.hhx)];
                    if d.iter().any(|(a, b)| rel(*a, *b, 0.0) > 1e-9) {
                        rep.violation(&l, &l, format!("limit {limit}: temperatures {:?} instead of {w:?}", o.temp));
                        return;
                    }
                    // the reported cycle was calculated at these temperatures
                    if rel(o.v.tc[0], w.chx, 0.0) > 1e-9 || rel(o.v.te[0], w.hhx, 0.0) > 1e-9 {
                        rep.violation(&l, &l, format!("limit {limit}: the cycle starts at {} and {}, temperatures are {w:?}", o.v.tc[0], o.v.te[0]));
                        return;
                    }
                    rep.observe(hash_f64(&[o.temp.chx, o.temp.cold, o.temp.hhx, k as f64]));
                }
                (Some(k), Err(Fail::Outer)) if limit < k => {}
                (None, Err(Fail::Outer)) => {
                    rep.count("runs_without_convergence", 1);
                }
                _ => {
                    rep.violation(&l, &l, format!("limit {limit}: {:?}, but the transition system converges at {conv:?}", got.map(|o| o.temp)));
                    return;
                }
            }
        }
        rep.sample(serde_json::json!({"environment": l, "path": path.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>(), "converges_at": conv}));
    });
    steps(rep);
    contractions(rep);
    pressure_drives(rep);
    tolerance(rep);
}

/// One step of the loop, from any first approaches to any second ones that
/// then stay: for every step, the tolerances are chosen between any two of the
/// changes, so that each temperature decides alone wherever it can
fn steps(rep: &Report) {
    let ends: &[(f64, f64)] = if rep.thorough() { &[(300.0, 600.0), (60.0, 900.0), (900.0, 60.0), (600.0, 300.0), (300.0, 301.0)] } else { &[(300.0, 600.0), (60.0, 900.0), (600.0, 300.0)] };
    let from: &[[f64; 3]] = if rep.thorough() { &[[30.0, 12.0, 60.0], [-7.0, -3.0, -20.0], [0.0, 0.0, 0.0], [5.0, 140.0, 5.0]] } else { &[[30.0, 12.0, 60.0], [-7.0, -3.0, -20.0]] };
    let by: &[f64] = if rep.thorough() { &[0.0, 0.5, -0.5, 4.0, -4.0, 0.01] } else { &[0.0, 0.5, -0.5, 4.0] };
    let mut items = Vec::new();
    for &(sink, source) in ends {
        for &a in from {
            for &c in by {
                for &r in by {
                    for &h in by {
                        items.push((sink, source, a, [a[0] + c, a[1] + r, a[2] + h]));
                    }
                }
            }
        }
    }
    run_cases(rep, &C04, &items, |e| format!("step {e:?}"), |&(sink, source, a, b)| {
        let l = format!("step {:?}", (sink, source, a, b));
        let (x, y) = (temps(sink, source, a), temps(sink, source, b));
        let pairs = [(x.chx, y.chx), (x.cold, y.cold), (x.avg, y.avg), (x.hot, y.hot), (x.hhx, y.hhx)];
        let between = |v: [f64; 5]| {
            let mut v = v.to_vec();
            v.extend([1e-6, 1e3]);
            v.sort_by(f64::total_cmp);
            v.windows(2).filter(|w| w[0] > 0.0 && w[1] > w[0] * 1.0001).map(|w| (w[0] * w[1]).sqrt()).collect::<Vec<_>>()
        };
        let mut tols: Vec<(f64, f64)> = between(pairs.map(|p| (p.1 - p.0).abs())).into_iter().map(|t| (t, 1e9)).collect();
        tols.extend(between(pairs.map(|p| ((p.1 - p.0) / p.0).abs())).into_iter().map(|t| (1e9, t)));
        for tol in tols {
            let first = pairs.iter().all(|p| within_tol(p.0, p.1, tol));
            for limit in [1, 2] {
                let mut s = Spec::base_fixed();
                s.gas = Gas::HeC;
                s.inner = (1e9, 1e9);
                s.ode = (1e-3, 1e-3);
                s.res = 2;
                s.outer = tol;
                s.t_sink = sink;
                s.t_source = source;
                s.iters = (1, limit);
                rep.count("evaluations", 1);
                rep.count("traces", 1);
                rep.count("transitions", limit as u64);
                let mut c = s.components();
                let hx = |h: &Hx, i: usize| MockHx {
                    vol: h.vol,
                    init: a[i],
                    r_hyd: Arc::new(|_| 0.0),
                    law: Arc::new(move |_| b[i]),
                    par: Arc::new(|_| pp(0.0, 0.0, 0.0)),
                };
                c.chx = Box::new(hx(&s.chx, 0));
                c.regen = Box::new(hx(&s.regen, 1));
                c.hhx = Box::new(hx(&s.hhx, 2));
                let got = s.run_with(c, LibFluid::new(s.gas));
                let want = match (first, limit) {
                    (true, _) => Some(&x),
                    (false, 1) => None,
                    (false, _) => Some(&y),
                };
                let good = match (&got, want) {
                    (Ok(o), Some(w)) => {
                        let d = [(o.temp.chx, w.chx), (o.temp.cold, w.cold), (o.temp.avg, w.avg), (o.temp.hot, w.hot), (o.temp.hhx, w.hhx)];
                        d.iter().all(|(a, b)| (a - b).abs() <= 1e-11 * b.abs())
                    }
                    (Err(Fail::Outer), None) => true,
                    // there may be no solution for this gas
                    (Err(Fail::Inner), _) => {
                        rep.count("steps_without_cycle", 1);
                        return;
                    }
                    _ => false,
                };
                if !good {
                    rep.violation(&l, &format!("{l} tol={tol:?}"), format!("limit {limit}: {:?} instead of {want:?}", got.map(|o| o.temp)));
                    return;
                }
            }
        }
        rep.count("steps", 1);
    });
}

/// Heat exchangers that approach their final temperature geometrically, so
/// that the loop takes up to a few hundred iterations
#[derive(Clone, Debug)]
struct Slow {
    /// ratios of cold and hot heat exchanger
    q: (f64, f64),
    /// initial distances from the limits
    d: (f64, f64),
    /// dependence of the regenerator on its neighbours
    g: f64,
    tol: (f64, f64),
}

impl Slow {
    fn next(&self, a: [f64; 3], sink: f64, source: f64) -> [f64; 3] {
        // as the components are told: through temperatures
        let t = temps(sink, source, a);
        [
            30.0 + self.q.0 * ((t.chx - sink) - 30.0),
            12.0 + self.g * ((t.chx - sink) - 30.0) + self.g * ((source - t.hhx) - 60.0),
            60.0 + self.q.1 * ((source - t.hhx) - 60.0),
        ]
    }
    fn start(&self) -> [f64; 3] {
        [30.0 + self.d.0, 12.0, 60.0 + self.d.1]
    }
}

fn contractions(rep: &Report) {
    let q1: &[f64] = if rep.thorough() { &[-0.97, -0.9, -0.5, 0.0, 0.3, 0.6, 0.8, 0.9, 0.95, 0.98] } else { &[-0.9, -0.5, 0.3, 0.8, 0.95] };
    let q2: &[f64] = if rep.thorough() { &[-0.9, 0.0, 0.5, 0.9, 0.97] } else { &[0.0, 0.9] };
    let ds: &[(f64, f64)] = if rep.thorough() { &[(20.0, 0.0), (0.0, 15.0), (-7.0, 4.0), (0.02, 0.01), (5.0, -5.0)] } else { &[(20.0, 0.0), (-7.0, 4.0), (0.02, 0.01)] };
    let tols: &[(f64, f64)] = if rep.thorough() { &[(1e-3, 1.0), (1.0, 1e-6), (0.1, 1e-3), (1e-6, 1e-6), (2.0, 1e-2)] } else { &[(1e-3, 1.0), (1.0, 1e-6), (0.1, 1e-3)] };
    let mut items = Vec::new();
    for &a in q1 {
        for &b in q2 {
            for &d in ds {
                for g in [0.0, 0.4] {
                    for &tol in tols {
                        items.push(Slow { q: (a, b), d, g, tol });
                    }
                }
            }
        }
    }
    let deepest = std::sync::atomic::AtomicU64::new(0);
    run_cases(rep, &C04, &items, |e| format!("contraction {e:?}"), |e| {
        let l = format!("contraction {e:?}");
        let mut s = Spec::base_fixed();
        s.gas = Gas::HeC;
        s.inner = (1e9, 1e9);
        s.ode = (1e-3, 1e-3);
        s.res = 2;
        s.outer = e.tol;
        let mut a = e.start();
        let mut path = vec![a];
        let k = loop {
            let b = e.next(a, s.t_sink, s.t_source);
            let (x, y) = (temps(s.t_sink, s.t_source, a), temps(s.t_sink, s.t_source, b));
            let pairs = [(x.chx, y.chx), (x.cold, y.cold), (x.avg, y.avg), (x.hot, y.hot), (x.hhx, y.hhx)];
            let ok = |f: f64| pairs.iter().all(|p| within_tol(p.0, p.1, (e.tol.0 * f, e.tol.1 * f)));
            if ok(1.0 + 1e-6) != ok(1.0 - 1e-6) {
                rep.count("undecidable_at_tolerance", 1);
                return;
            }
            if ok(1.0) {
                break path.len();
            }
            a = b;
            path.push(a);
            if path.len() > 2000 {
                rep.count("undecidable_at_tolerance", 1);
                return;
            }
        };
        deepest.fetch_max(k as u64, std::sync::atomic::Ordering::Relaxed);
        let mut limits = vec![0, 1, k - 1, k, k + 1, 10 * k];
        if rep.thorough() {
            limits.extend([k / 4, k / 2, 3 * k / 4, k.saturating_sub(2), k + 100]);
        }
        limits.sort_unstable();
        limits.dedup();
        for limit in limits {
            let mut s = s.clone();
            s.iters = (1, limit);
            rep.count("evaluations", 1);
            rep.count("traces", 1);
            rep.count("transitions", limit.min(k) as u64);
            let got = s.run_with(slow_components(&s, e), LibFluid::new(s.gas));
            match &got {
                Ok(o) if limit >= k => {
                    let w = temps(s.t_sink, s.t_source, path[k - 1]);
                    let d = [(o.temp.chx, w.chx), (o.temp.cold, w.cold), (o.temp.avg, w.avg), (o.temp.hot, w.hot), (o.temp.hhx, w.hhx)];
                    if d.iter().any(|(a, b)| rel(*a, *b, 0.0) > 1e-11) {
                        rep.violation(&l, &l, format!("limit {limit}: temperatures {:?} instead of {w:?} of iteration {k}", o.temp));
                        return;
                    }
                    rep.observe(hash_f64(&[o.temp.chx, o.temp.hhx, k as f64]));
                }
                Err(Fail::Outer) if limit < k => {}
                _ => {
                    rep.violation(&l, &l, format!("limit {limit}: {:?}, but the transition system converges at {k}", got.map(|o| o.temp)));
                    return;
                }
            }
        }
    });
    rep.count("longest_convergence", deepest.into_inner());
}

fn slow_components(s: &Spec, e: &Slow) -> sett_rs::Components {
    let mut c = s.components();
    let hx = |h: &Hx, init: f64, law: Arc<dyn Fn(&HxView) -> f64 + Send + Sync>| MockHx {
        vol: h.vol,
        init,
        r_hyd: Arc::new(|_| 0.0),
        law,
        par: Arc::new(|_| pp(0.0, 0.0, 0.0)),
    };
    let (sink, source, a, e) = (s.t_sink, s.t_source, e.start(), e.clone());
    c.chx = Box::new(hx(&s.chx, a[0], Arc::new(move |v| 30.0 + e.q.0 * ((v.temp - sink) - 30.0))));
    let t = e.clone();
    c.regen = Box::new(hx(
        &s.regen,
        a[1],
        Arc::new(move |v| 12.0 + t.g * ((v.t1 - sink) - 30.0) + t.g * ((source - v.t2) - 60.0)),
    ));
    let t = e.clone();
    c.hhx = Box::new(hx(&s.hhx, a[2], Arc::new(move |v| 60.0 + t.q.1 * ((source - v.temp) - 60.0))));
    c
}

/// Drives whose frequency follows the average pressure: the temperatures of a
/// run with fixed approaches never change, its frequency does
fn pressure_drives(rep: &Report) {
    let mut items = Vec::new();
    for f_pres in [-0.5, 0.5, 1.0, 2.0] {
        for p_ref in [2.5e6, 8e6] {
            for tol in [1e-2, 1e-4, 1e-6] {
                items.push((f_pres, p_ref, tol));
            }
        }
    }
    run_cases(rep, &C04, &items, |e| format!("pressure drive {e:?}"), |&(f_pres, p_ref, tol)| {
        let l = format!("pressure drive {:?}", (f_pres, p_ref, tol));
        let mut s = Spec::base_fixed();
        s.gas = Gas::HeC;
        s.res = 41;
        s.outer = (1.0, tol);
        s.drive = Drive::Harm { f: 40.0, comp: [6e-5, 4e-5, 0.0, 0.0], exp: [7e-5, 5e-5, 5e-6, 1.5], f_pres, p_ref };
        let mut first = None;
        for limit in 1..=30 {
            let mut s = s.clone();
            s.iters = (s.iters.0, limit);
            rep.count("evaluations", 1);
            rep.count("traces", 1);
            rep.count("transitions", limit as u64);
            match s.run() {
                Ok(o) => {
                    // it runs at the frequency that belongs to its pressure
                    let f = s.freq(o.pres[0]) * o.v.t[o.n() - 1];
                    if (f - 1.0).abs() > tol * 1.01 {
                        rep.violation(&l, &l, format!("limit {limit}: the cycle takes {f} times the period at the reported pressure"));
                        return;
                    }
                    if first.is_none() {
                        first = Some(o.flat());
                    } else if first.as_ref() != Some(&o.flat()) {
                        rep.violation(&l, &l, format!("limit {limit}: another result than with a lower limit"));
                        return;
                    }
                }
                Err(Fail::Outer) if first.is_none() => {}
                Err(e) => {
                    rep.violation(&l, &l, format!("limit {limit}: {e}"));
                    return;
                }
            }
        }
        rep.count("pressure_drives", 1);
        if first.is_none() {
            rep.count("pressure_drives_without_convergence", 1);
        }
    });
}

fn components(s: &Spec, e: &Env) -> sett_rs::Components {
    let mut c = s.components();
    let hx = |h: &Hx, init: f64, law: Arc<dyn Fn(&HxView) -> f64 + Send + Sync>| MockHx {
        vol: h.vol,
        init,
        r_hyd: Arc::new(|_| 0.0),
        law,
        par: Arc::new(|_| pp(0.0, 0.0, 0.0)),
    };
    let (sink, source) = (s.t_sink, s.t_source);
    let t = e.clone();
    c.chx = Box::new(hx(&s.chx, AC[e.init.0], Arc::new(move |v| AC[t.c[nearest(v.temp - sink, &AC)]])));
    let t = e.clone();
    c.regen = Box::new(hx(
        &s.regen,
        AR[e.init.1],
        Arc::new(move |v| {
            let (i, k) = (nearest(v.t1 - sink, &AC), nearest(source - v.t2, &AH));
            AR[t.r[usize::from(i > 0) * 2 + k]]
        }),
    ));
    let t = e.clone();
    c.hhx = Box::new(hx(&s.hhx, AH[e.init.2], Arc::new(move |v| AH[t.h[nearest(source - v.temp, &AH)]])));
    c
}

/// The convergence criterion over a lattice of values
fn tolerance(rep: &Report) {
    let mut vals = vec![0.0, -0.0, 1.0, -1.0, 300.0, 300.000_1, 300.1, 303.0, 600.0, 1e-300, 1e300, -300.0];
    vals.extend([f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    let tols = [0.0, 1e-6, 1e-3, 0.5, 1e9, f64::INFINITY, f64::NAN, -1.0];
    for &old in &vals {
        for &new in &vals {
            for &abs in &tols {
                for &rl in &tols {
                    rep.count("evaluations", 1);
                    let l = format!("is_converged({old},{new}) abs={abs} rel={rl}");
                    let got = ConvergenceTolerance::new(abs, rl).is_converged(old, new);
                    if got {
                        // never converged beyond either tolerance, nor for
                        // anything that is not a number
                        let d = (new - old).abs();
                        if !(d <= abs && d <= rl * old.abs()) && !(rl.is_infinite() && d <= abs) {
                            rep.violation("is_converged", &l, format!("{l} is true"));
                        }
                    } else if old.is_finite() && new.is_finite() && old != 0.0 {
                        let d = (new - old).abs();
                        if d < abs && d < rl * old.abs() * (1.0 - 1e-12) && d < 1e250 {
                            rep.violation("is_converged", &l, format!("{l} is false"));
                        }
                    }
                }
            }
        }
    }
}
