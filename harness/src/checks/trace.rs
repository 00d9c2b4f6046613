//! Checks that monitor every instant of every explored run.
use super::*;
use std::f64::consts::PI;

// ---------------------------------------------------------------- C01
pub const C01: Meta = Meta {
    level: "model_checking",
    rule: "states are the reported instants of every engine configuration within k field deviations of three base engines (thorough: k=2 for all bases and k=3 for the first); every state is compared with the closed-form solution of the mass and energy balances, enumerated over the flow directions",
    assumptions: &["regular (non-singular) balances", "reported derivatives are covered by C02"],
};

pub fn c01(rep: &Report) {
    let cases = deep_space(rep, exact_fields());
    explore(rep, &C01, &cases, |c, o| {
        let s = &c.spec;
        let ctx = Ctx::new(s, o.temp, s.freq(o.pres[0]));
        let mscale = o.v.m.iter().map(|x| max_abs(x)).fold(0.0, f64::max);
        // heat flows are differences of enthalpy flows
        let h = [o.temp.chx, o.temp.hhx, o.temp.cold, o.temp.hot, o.v.tc[0], o.v.te[0]]
            .iter()
            .map(|t| s.gas.enth(*t, o.pres[0]).abs())
            .fold(0.0, f64::max);
        let qscale = o.v.q.iter().map(|x| max_abs(x)).fold(mscale * h, f64::max);
        for i in 0..o.n() {
            let sols = ctx.solve(o.v.t[i], o.v.p[i], o.v.tc[i], o.v.te[i]);
            let m = [o.v.m[0][i], o.v.m[1][i], o.v.m[2][i], o.v.m[3][i]];
            let q = [o.v.q[0][i], o.v.q[1][i], o.v.q[2][i]];
            rep.set_insert("flow direction patterns", sign_pattern(m));
            rep.count(&format!("instants_with_{}_solutions", sols.len()), 1);
            if sols.is_empty() {
                rep.violation(
                    &c.label,
                    &c.label,
                    format!("instant {i}: no consistent flow directions exist, but {m:?} was reported"),
                );
                return;
            }
            let mut best = (f64::INFINITY, String::new());
            for x in &sols {
                let mut d = (0.0f64, String::new());
                let mut add = |r: f64, w: String| {
                    if !(r <= d.0) {
                        d = (r, w);
                    }
                };
                for k in 0..4 {
                    add(rel(m[k], x.m[k], mscale), format!("mass flow {k}: {:e} instead of {:e}", m[k], x.m[k]));
                }
                for k in 0..3 {
                    add(rel(q[k], x.q[k], qscale), format!("heat flow {k}: {:e} instead of {:e}", q[k], x.q[k]));
                }
                if !(d.0 >= best.0) {
                    best = d;
                }
            }
            let kind = match s.solver {
                Solver::Svd => "balance residual (SVD)",
                _ => "balance residual",
            };
            rep.maximum(kind, best.0, &c.label);
            let tol = if s.solver == Solver::Svd { 1e-6 } else { 1e-8 };
            if !(best.0 <= tol) {
                rep.violation(&c.label, &c.label, format!("instant {i}: mass and energy balances violated ({})", best.1));
                return;
            }
        }
    });
}

// ---------------------------------------------------------------- C02
pub const C02: Meta = Meta {
    level: "model_checking",
    rule: "transitions are the steps between consecutive reported instants of every explored engine; each is replayed with an independent integration of the reference equations, and the gas mass is compared across all instants; a second space enumerates ODE tolerances",
    assumptions: &["differences are judged relative to the requested ODE tolerance"],
};

pub fn c02(rep: &Report) {
    let cases = deep_space(rep, numeric_fields());
    explore(rep, &C02, &cases, |c, o| {
        let s = &c.spec;
        let ctx = Ctx::new(s, o.temp, s.freq(o.pres[0]));
        let mass: Vec<f64> = (0..o.n()).map(|i| ctx.gas_mass(o.v.t[i], o.v.p[i], o.v.tc[i], o.v.te[i])).collect();
        for i in 1..o.n() {
            if !expect(rep, &c.label, "gas mass", mass[i], mass[0], 0.0, 1e-6) {
                return;
            }
            let y0 = [o.v.p[i - 1], o.v.tc[i - 1], o.v.te[i - 1]];
            let Some(y) = ctx.integrate(o.v.t[i - 1], o.v.t[i], y0, 1e-9) else {
                rep.count("reference_gave_up", 1);
                continue;
            };
            // The equations have kinks where flows reverse.  A step across one
            // is accepted by its error estimate now and then, which shows in
            // the temperatures (up to 1e-5), so the budget is larger for them.
            if !(expect(rep, &c.label, "P", o.v.p[i], y[0], 0.0, 2e-5)
                && expect(rep, &c.label, "T_c", o.v.tc[i], y[1], 0.0, 2e-4)
                && expect(rep, &c.label, "T_e", o.v.te[i], y[2], 0.0, 2e-4))
            {
                return;
            }
        }
    });
    // Requested accuracy is delivered accuracy
    let mut cases = Vec::new();
    for (n, b) in bases() {
        for abs in [1e-10, 1e-7, 1e-4, 1e-1] {
            for rel in [1e-10, 1e-7, 1e-4] {
                for res in [2u32, 9, 40] {
                    let mut s = b.clone();
                    s.ode = (abs, rel);
                    s.inner = (1e6, 1e6);
                    s.outer = (1e6, 1e6);
                    s.res = res;
                    cases.push(Case {
                        label: format!("{n}+ode=({abs:e},{rel:e})+res={res}"),
                        spec: s,
                        deviations: 2,
                    });
                }
            }
        }
    }
    explore(rep, &C02, &cases, |c, o| {
        let s = &c.spec;
        let ctx = Ctx::new(s, o.temp, s.freq(o.pres[0]));
        let (abs, rl) = s.ode;
        let mut y = [o.v.p[0], o.v.tc[0], o.v.te[0]];
        for i in 1..o.n() {
            let Some(yn) = ctx.integrate(o.v.t[i - 1], o.v.t[i], y, 1e-11) else { return };
            y = yn;
            for (k, (g, w)) in [(o.v.p[i], y[0]), (o.v.tc[i], y[1]), (o.v.te[i], y[2])].into_iter().enumerate() {
                // absolute tolerances apply to all variables alike, so an error
                // of the temperatures (relative) carries over to the pressure
                let budget = (rl * 300.0 + abs) / 300.0;
                let e = (g - w).abs() / w.abs() / (budget + 1e-10);
                rep.maximum("error / requested tolerance", e, &c.label);
                if !(e <= 3000.0) {
                    rep.violation(
                        &c.label,
                        &c.label,
                        format!("variable {k} at instant {i}: {g:e} instead of {w:e} with ODE tolerance {:?}", s.ode),
                    );
                    return;
                }
            }
        }
    });
    limited(rep);
}

/// A gas that has no properties outside an interval of pressure or temperature
struct Limited {
    g: LibFluid,
    t: (f64, f64),
    p: (f64, f64),
}

impl Limited {
    fn at(&self, t: f64, p: f64, x: f64) -> f64 {
        if t < self.t.0 || t > self.t.1 || p < self.p.0 || p > self.p.1 {
            f64::NAN
        } else {
            x
        }
    }
}

#[allow(non_snake_case)]
impl sett_rs::fluid::Fluid for Limited {
    fn dens(&self, t: f64, p: f64) -> f64 {
        self.at(t, p, self.g.dens(t, p))
    }
    fn inte(&self, t: f64, p: f64) -> f64 {
        self.at(t, p, self.g.inte(t, p))
    }
    fn enth(&self, t: f64, p: f64) -> f64 {
        self.at(t, p, self.g.enth(t, p))
    }
    fn cp(&self, t: f64, p: f64) -> f64 {
        self.at(t, p, self.g.cp(t, p))
    }
    fn dd_dP_T(&self, t: f64, p: f64) -> f64 {
        self.at(t, p, self.g.dd_dP_T(t, p))
    }
    fn dd_dT_P(&self, t: f64, p: f64) -> f64 {
        self.at(t, p, self.g.dd_dT_P(t, p))
    }
    fn du_dP_T(&self, t: f64, p: f64) -> f64 {
        self.at(t, p, self.g.du_dP_T(t, p))
    }
    fn du_dT_P(&self, t: f64, p: f64) -> f64 {
        self.at(t, p, self.g.du_dT_P(t, p))
    }
}

/// A trajectory must not be continued through states in which the gas has no
/// properties: the run fails, or its trajectory is that of the unlimited gas
/// (an integration step may have skipped a short excursion)
fn limited(rep: &Report) {
    let fractions: &[f64] = if rep.thorough() { &[0.02, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 0.95, 0.99, 0.999] } else { &[0.1, 0.4, 0.7, 0.9, 0.99] };
    let loose: &[bool] = &[false, true];
    let mut items = Vec::new();
    for (n, b) in bases() {
        for law in ["own", "steady"] {
            for side in ["P above", "P below", "T above", "T below"] {
                for &fraction in fractions {
                    for &loose in loose {
                        items.push((n, b.clone(), law, side, fraction, loose));
                    }
                }
            }
        }
    }
    let label = |x: &(&str, Spec, &str, &str, f64, bool)| format!("{}+{}+limit {} {}{}", x.0, x.2, x.3, x.4, if x.5 { " one cycle" } else { "" });
    run_cases(rep, &C02, &items, label, |x| {
        let l = label(x);
        let (_, b, law, side, fraction, loose) = x;
        let mut s = b.clone();
        if *law == "steady" {
            s.chx.law = Law::Approach(20.0);
            s.regen.law = Law::Approach(10.0);
            s.hhx.law = Law::Approach(30.0);
        }
        if *loose {
            // the first cycle is accepted
            s.inner = (1e6, 1e6);
            s.outer = (1e6, 1e6);
        }
        s.res = 41;
        rep.count("evaluations", 1);
        rep.count("traces", 1);
        let Ok(o) = s.run() else { return };
        let top = |v: &[f64]| v.iter().copied().fold(f64::NEG_INFINITY, f64::max);
        let low = |v: &[f64]| v.iter().copied().fold(f64::INFINITY, f64::min);
        let walls = [o.temp.chx, o.temp.cold, o.temp.avg, o.temp.hot, o.temp.hhx, s.t_sink, s.t_source];
        let gas = [top(&o.v.tc).max(top(&o.v.te)), low(&o.v.tc).min(low(&o.v.te))];
        let mut g = Limited { g: LibFluid::new(s.gas), t: (0.0, f64::INFINITY), p: (0.0, f64::INFINITY) };
        let between = |a: f64, b: f64| a + fraction * (b - a);
        match *side {
            "P above" => g.p.1 = between(s.p0, top(&o.v.p)),
            "P below" => g.p.0 = between(s.p0, low(&o.v.p)),
            "T above" => g.t.1 = between(top(&walls), gas[0]),
            _ => g.t.0 = between(low(&walls), gas[1]),
        }
        if g.p.0 >= s.p0 || g.p.1 <= s.p0 || g.t.0 >= low(&walls) || g.t.1 <= top(&walls) {
            rep.count("limits_outside_the_cycle", 1);
            return;
        }
        rep.count("limits", 1);
        match s.run_with(s.components(), g) {
            Err(Fail::Panic(m)) => rep.violation(&l, &l, format!("panic: {m}")),
            Err(_) => rep.count("limits_that_end_the_run", 1),
            Ok(q) => {
                rep.count("limits_skipped_by_the_run", 1);
                for i in 0..o.n().min(q.n()) {
                    for (g, w) in [(q.v.p[i], o.v.p[i]), (q.v.tc[i], o.v.tc[i]), (q.v.te[i], o.v.te[i])] {
                        if !(rel(g, w, 0.0) <= 1e-3) {
                            rep.violation(&l, &l, format!("instant {i}: {g:e} although the gas has no such cycle (without limits {w:e})"));
                            return;
                        }
                    }
                }
            }
        }
    });
}

// ---------------------------------------------------------------- C03
pub const C03: Meta = Meta {
    level: "model_checking",
    rule: "states are working space temperatures at the start of a cycle, transitions are cycles; (a) every explored engine must return to its initial state within both tolerances, judged on the reported cycle and on an independent integration, and start at the given pressure; (b) the transition system of the inner loop is enumerated for every iteration limit up to beyond convergence and compared with the reference",
    assumptions: &["decisions closer to a tolerance than the integration error are not judged"],
};

pub fn c03(rep: &Report) {
    let cases = deep_space(rep, numeric_fields());
    explore(rep, &C03, &cases, |c, o| closure(rep, c, o));
    // Tolerances
    let mut cases = Vec::new();
    for (n, b) in bases() {
        for abs in [1e-3, 1e-2, 0.3, 10.0, 1e6] {
            for rel in [3e-6, 1e-4, 1e-2, 1e6] {
                let mut s = b.clone();
                s.inner = (abs, rel);
                s.res = 5;
                cases.push(Case {
                    label: format!("{n}+inner=({abs:e},{rel:e})"),
                    spec: s,
                    deviations: 1,
                });
            }
        }
    }
    explore(rep, &C03, &cases, |c, o| closure(rep, c, o));
    inner_protocol(rep);
}

fn closure(rep: &Report, c: &Case, o: &Out) {
    let s = &c.spec;
    let n = o.n();
    expect(rep, &c.label, "P at time zero", o.v.p[0], s.p0, 0.0, 1e-12);
    let ctx = Ctx::new(s, o.temp, s.freq(o.pres[0]));
    let y0 = [o.v.p[0], o.v.tc[0], o.v.te[0]];
    let end = ctx.integrate(0.0, 1.0 / ctx.freq, y0, 1e-10);
    let mut ends = vec![("reported", [o.v.p[n - 1], o.v.tc[n - 1], o.v.te[n - 1]])];
    if let Some(e) = end {
        ends.push(("integrated", e));
    }
    for (what, e) in ends {
        for (k, name) in [(1, "T_c"), (2, "T_e")] {
            let d = (e[k] - y0[k]).abs();
            // integration error of the two integrations being compared
            // (near flow reversals steps are less accurate than they claim);
            // the reported end needs no allowance but for rounding
            let slack = if what == "reported" { 1e-9 } else { 3e-6 } * y0[k].abs() + 300.0 * (s.ode.0 + s.ode.1 * y0[k].abs()) * f64::from(u8::from(what != "reported"));
            if !(d < s.inner.0 + slack && d < s.inner.1 * y0[k].abs() + slack) {
                rep.violation(
                    &c.label,
                    &c.label,
                    format!(
                        "{what} {name} is {} at the start and {} at the end of the cycle; tolerance {:?}",
                        y0[k], e[k], s.inner
                    ),
                );
                return;
            }
        }
        let tol_t = (s.inner.1).min(s.inner.0 / y0[1].min(y0[2]).abs());
        if tol_t < 1e-2 {
            // mass conservation: pressure closes as well as the temperatures do
            expect(
                rep,
                &c.label,
                "P closure / T tolerance",
                (e[0] - y0[0]).abs() / y0[0] / (tol_t + 1e-8),
                0.0,
                1.0,
                10.0 * 1.0,
            );
        }
    }
}

fn inner_protocol(rep: &Report) {
    let mut items: Vec<(String, Spec)> = Vec::new();
    let mut specs: Vec<(String, Spec)> = Vec::new();
    for (n, b) in bases() {
        specs.push((n.to_string(), b.clone()));
        for (l, f) in [("p0=1e7", 0), ("source=400", 1), ("rc=0.3", 2), ("gas=Poly", 3), ("p0=1e5", 4), ("re=5", 5)] {
            let mut s = b.clone();
            match f {
                0 => s.p0 = 1e7,
                1 => s.t_source = 400.0,
                2 => s.rc = 0.3,
                3 => s.gas = Gas::Poly,
                4 => s.p0 = 1e5,
                _ => s.re = 5.0,
            }
            specs.push((format!("{n}+{l}"), s));
        }
    }
    let tols = [(1e6, 1e6), (5.0, 1e6), (1e6, 1e-3), (0.5, 1e-3), (1e-2, 1e6), (1e6, 1e-5), (1e-2, 1e-5)];
    for (n, s) in &specs {
        for t in tols {
            let mut s = s.clone();
            s.inner = t;
            s.outer = (1e9, 1e9);
            s.iters = (0, 1);
            s.res = 3;
            items.push((format!("inner:{n}:({:e},{:e})", t.0, t.1), s));
        }
    }
    run_cases(
        rep,
        &C03,
        &items,
        |x| x.0.clone(),
        |(label, s)| {
            let t = temps(s.t_sink, s.t_source, initial_approaches(s));
            let ctx = Ctx::new(s, t, s.freq(s.p0));
            // the reference transition system
            let cap = if rep.thorough() { 60 } else { 25 };
            let mut path = vec![[s.p0, t.chx, t.hhx]];
            let mut conv = None; // first converged state
            let mut unsure = false;
            while path.len() <= cap {
                let y = *path.last().unwrap();
                let Some(e) = ctx.integrate(0.0, 1.0 / ctx.freq, y, 1e-11) else { return };
                let noise = 1e-6;
                let ok = |f: f64| {
                    let tol = (s.inner.0 * f, s.inner.1 * f);
                    within_tol(y[1], e[1], tol) && within_tol(y[2], e[2], tol)
                };
                let d = (e[1] - y[1]).abs().max((e[2] - y[2]).abs());
                let margin = (noise / d.max(1e-12)).max(1e-3);
                if ok(1.0 + margin) != ok(1.0 / (1.0 + margin)) {
                    unsure = true;
                }
                if conv.is_none() && ok(1.0) {
                    conv = Some(path.len());
                    break;
                }
                path.push([s.p0, e[1], e[2]]);
            }
            rep.count("states", path.len() as u64);
            if unsure {
                rep.count("undecidable_at_tolerance", 1);
                return;
            }
            let last = conv.map_or(cap, |k| k + 2);
            for n in 0..=last {
                let mut x = s.clone();
                x.iters.0 = n;
                rep.count("transitions", 1);
                rep.count("traces", 1);
                rep.count("evaluations", 1);
                let got = x.run();
                let case = format!("{label} max_iters.inner={n}");
                match (conv, got) {
                    (Some(k), Ok(o)) if n >= k => {
                        rep.set_insert("iterations to convergence", k.to_string());
                        let y = path[k - 1];
                        let tol = 1e-6;
                        let ok = close(o.v.tc[0], y[1], 0.0, tol) && close(o.v.te[0], y[2], 0.0, tol) && close(o.v.p[0], s.p0, 0.0, 1e-12);
                        if !ok {
                            rep.violation(
                                &case,
                                label,
                                format!(
                                    "limit {n}: starts at {:?}, the first converged state is {y:?}",
                                    (o.v.p[0], o.v.tc[0], o.v.te[0])
                                ),
                            );
                            return;
                        }
                    }
                    (Some(k), Err(Fail::Inner)) if n < k => {}
                    (None, Err(Fail::Inner)) => {}
                    (k, r) => {
                        rep.violation(
                            &case,
                            label,
                            format!("limit {n}: {:?}, but the reference converges at {k:?}", r.map(|o| o.temp)),
                        );
                        return;
                    }
                }
            }
        },
    );
}

// ---------------------------------------------------------------- C05
pub const C05: Meta = Meta {
    level: "model_checking",
    rule: "every explored engine: the reported temperatures are compared with the temperatures that the heat exchanger laws give for the reported cycle (pressure, flow and heat averages recomputed here)",
    assumptions: &["agreement is demanded within the outer loop tolerances"],
};

pub fn law_fields() -> Vec<Field> {
    let fields: [(&str, f64, f64); 8] = [
        ("temp", 5.0, 0.03),
        ("pres", 5.0, 5e-6),
        ("dens", 5.0, 2.0),
        ("cp", 5.0, 2e-3),
        ("m_dot", 5.0, 250.0),
        ("q_dot", 5.0, 8e-3),
        ("t1", 5.0, 0.03),
        ("t2", 5.0, 0.02),
    ];
    let mk = |hx: &'static str, pick: fn(&mut Spec) -> &mut Hx, n: usize| Field {
        name: hx,
        alts: (0..n)
            .map(|i| -> Alt {
                let (f, a, k) = fields[i];
                (
                    format!("{hx}.law~{f}"),
                    Box::new(move |s: &mut Spec| {
                        pick(s).law = Law::Linear {
                            a,
                            field: i,
                            k: if hx == "regen" && f == "q_dot" { k * 0.1 } else { k },
                        }
                    }),
                )
            })
            .chain([60.0, 200.0, 1000.0].into_iter().map(|u| -> Alt {
                let u = if hx == "regen" { u * 30.0 } else { u };
                (format!("{hx}.ua={u}"), Box::new(move |s: &mut Spec| pick(s).law = Law::Ua(u)))
            }))
            .collect(),
    };
    vec![mk("chx", |s| &mut s.chx, 7), mk("regen", |s| &mut s.regen, 8), mk("hhx", |s| &mut s.hhx, 7)]
}

pub fn c05(rep: &Report) {
    let mut cases = standard_space(rep, vec![]);
    for (n, b) in bases() {
        let mut b = b.clone();
        b.chx.law = Law::Approach(30.0);
        b.regen.law = Law::Approach(12.0);
        b.hhx.law = Law::Approach(60.0);
        b.res = 11;
        let k = if rep.thorough() {
            3
        } else if n == "fixed" {
            2
        } else {
            1
        };
        cases.extend(within(&format!("{n}/laws"), &b, &law_fields(), k));
    }
    // tolerances of the outer loop
    for (n, b) in bases() {
        for abs in [2e-2, 0.5, 5.0] {
            for rel in [1e-4, 3e-3, 1e-1] {
                let mut s = b.clone();
                s.outer = (abs, rel);
                s.chx.law = Law::Ua(200.0);
                s.regen.law = Law::Ua(3000.0);
                s.res = 9;
                cases.push(Case {
                    label: format!("{n}+outer=({abs:e},{rel:e})"),
                    spec: s,
                    deviations: 3,
                });
            }
        }
    }
    explore(rep, &C05, &cases, |c, o| {
        let s = &c.spec;
        expect(rep, &c.label, "sink", o.sink, s.t_sink, 0.0, 1e-12);
        expect(rep, &c.label, "source", o.source, s.t_source, 0.0, 1e-12);
        let v = hx_views(s, o);
        let a = [law(&s.chx.law, false, &v[0]), law(&s.regen.law, true, &v[1]), law(&s.hhx.law, false, &v[2])];
        let t = temps(s.t_sink, s.t_source, a);
        for (name, got, want) in [
            ("chx", o.temp.chx, t.chx),
            ("regen cold", o.temp.cold, t.cold),
            ("regen avg", o.temp.avg, t.avg),
            ("regen hot", o.temp.hot, t.hot),
            ("hhx", o.temp.hhx, t.hhx),
        ] {
            let d = (got - want).abs();
            rep.maximum("temperature change / tolerance", d / s.outer.0.min(s.outer.1 * got.abs()), &c.label);
            if !(d <= s.outer.0 * 1.001 + 1e-9 && d <= s.outer.1 * got.abs() * 1.001 + 1e-9) {
                rep.violation(
                    &c.label,
                    &c.label,
                    format!("{name} temperature is {got}, the components demand {want}; tolerance {:?}", s.outer),
                );
                return;
            }
        }
        // what does not depend on the solution is met exactly
        if let Law::Approach(x) = s.chx.law {
            expect(rep, &c.label, "fixed chx approach", o.temp.chx - s.t_sink, x, s.t_sink, 1e-12);
        }
        if let Law::Approach(x) = s.hhx.law {
            expect(rep, &c.label, "fixed hhx approach", s.t_source - o.temp.hhx, x, s.t_source, 1e-12);
        }
        if let Law::Approach(x) = s.regen.law {
            expect(rep, &c.label, "fixed regen approach (cold)", o.temp.cold - o.temp.chx, x, s.t_sink, 1e-12);
            expect(rep, &c.label, "fixed regen approach (hot)", o.temp.hhx - o.temp.hot, x, s.t_source, 1e-12);
        }
    });
}

// ---------------------------------------------------------------- C06
pub const C06: Meta = Meta {
    level: "model_checking",
    rule: "every explored engine: every reported average, extreme, temperature and time series is recomputed from the reported instants and compared; both the engine and the summarized results are covered",
    assumptions: &["averages are trapezoidal over the reported instants"],
};

pub fn c06(rep: &Report) {
    let mut cases = deep_space(rep, exact_fields());
    // extremes at time zero, at many resolutions
    for name in ["drive=top", "drive=alpha"] {
        let mut s = Spec::base_fixed();
        if let Some((_, set)) = physics_fields().iter().flat_map(|f| &f.alts).find(|a| a.0 == name) {
            set(&mut s);
        }
        cases.extend(within(&format!("fixed/{name}"), &s, &exact_fields(), 3));
    }
    // nearly there, in small steps of the crank
    for deg in -24..=24 {
        for lead in [-0.0f64, 180.0] {
            let mut s = Spec::base_fixed();
            let a = (f64::from(deg) * 0.5 + lead).to_radians();
            s.drive = Drive::Harm { f: 40.0, comp: [1.1e-4, -5e-5, 0.0, a], exp: [1e-4, -5.5e-5, 0.0, a], f_pres: 0.0, p_ref: 2e6 };
            s.res = 60;
            cases.extend(within(&format!("fixed/top {deg}+{lead}"), &s, &rough_fields(), 1));
        }
    }
    explore(rep, &C06, &cases, |c, o| summary(rep, &c.label, &c.spec, o, 1e-11));
    dependent(rep, &C06, |l, s, o, tol| summary(rep, l, s, o, tol));
}

fn summary(rep: &Report, l: &str, s: &Spec, o: &Out, tol: f64) {
    let v = hx_views(s, o);
    let max = o.v.p.iter().copied().fold(f64::NEG_INFINITY, f64::max);
    let min = o.v.p.iter().copied().fold(f64::INFINITY, f64::min);
    let p = [v[0].pres, max, min, o.v.p[0]];
    let rest = &o.v.p[1..];
    if rest.iter().all(|p| *p < o.v.p[0] * (1.0 - 1e-9)) {
        rep.count("cycles_with_the_maximum_at_time_zero_only", 1);
    }
    if rest.iter().all(|p| *p > o.v.p[0] * (1.0 + 1e-9)) {
        rep.count("cycles_with_the_minimum_at_time_zero_only", 1);
    }
    let r = &o.r;
    for (k, (n, res)) in [
        ("avg", r.pressure.avg),
        ("max", r.pressure.max),
        ("min", r.pressure.min),
        ("t_zero", r.pressure.t_zero),
    ]
    .iter()
    .enumerate()
    {
        expect(rep, l, &format!("engine pressure {n}"), o.pres[k], p[k], 0.0, tol);
        expect(rep, l, &format!("result pressure {n}"), *res, p[k], 0.0, tol);
    }
    let qs = [max_abs(&o.v.q[0]), max_abs(&o.v.q[1]), max_abs(&o.v.q[2])];
    let ms = [max_abs(&o.v.m[0]), max_abs(&o.v.m[1]), max_abs(&o.v.m[2])];
    for (k, n) in ["chx", "regen", "hhx"].iter().enumerate() {
        let rm = [r.mass_flow.chx, r.mass_flow.regen, r.mass_flow.hhx][k];
        let rq = [r.heat_flow.chx, r.heat_flow.regen, r.heat_flow.hhx][k];
        expect(rep, l, &format!("engine mass flow {n}"), o.m[k], v[k].m_dot, ms[k], tol);
        expect(rep, l, &format!("result mass flow {n}"), rm, v[k].m_dot, ms[k], tol);
        expect(rep, l, &format!("engine heat flow {n}"), o.q[k], v[k].q_dot, qs[k], tol);
        expect(rep, l, &format!("result heat flow {n}"), rq, v[k].q_dot, qs[k], tol);
    }
    for (n, a, b) in [
        ("sink", r.temperature.sink, s.t_sink),
        ("source", r.temperature.source, s.t_source),
        ("chx", r.temperature.chx, o.temp.chx),
        ("regen_cold", r.temperature.regen_cold, o.temp.cold),
        ("regen_avg", r.temperature.regen_avg, o.temp.avg),
        ("regen_hot", r.temperature.regen_hot, o.temp.hot),
        ("hhx", r.temperature.hhx, o.temp.hhx),
        ("imbalance", r.regen_imbalance, o.imb),
    ] {
        expect(rep, l, &format!("result temperature {n}"), a, b, 0.0, 1e-12);
    }
    let w = &r.values;
    for (n, a, b) in [
        ("time", &w.time, &o.v.t),
        ("P", &w.P, &o.v.p),
        ("T_c", &w.T_c, &o.v.tc),
        ("T_e", &w.T_e, &o.v.te),
        ("m_dot_ck", &w.m_dot_ck, &o.v.m[0]),
        ("m_dot_kr", &w.m_dot_kr, &o.v.m[1]),
        ("m_dot_rl", &w.m_dot_rl, &o.v.m[2]),
        ("m_dot_le", &w.m_dot_le, &o.v.m[3]),
        ("Q_dot_k", &w.Q_dot_k, &o.v.q[0]),
        ("Q_dot_r", &w.Q_dot_r, &o.v.q[1]),
        ("Q_dot_l", &w.Q_dot_l, &o.v.q[2]),
    ] {
        if a != b {
            rep.violation(l, l, format!("results series {n} differs from the engine's"));
        }
    }
}

// ---------------------------------------------------------------- C07
pub const C07: Meta = Meta {
    level: "model_checking",
    rule: "every explored engine, with all hydraulic resistances and parasitic losses as further deviation fields: pressures in both working spaces at every instant, and all powers and the torque, are recomputed from the reported cycle and independent kinematics",
    assumptions: &["cycle integrals are trapezoidal over the reported instants"],
};

fn performance_space(rep: &Report) -> Vec<Case> {
    let mut cases = standard_space(rep, exact_fields());
    for (n, b) in bases() {
        let mut b = b.clone();
        // one outer iteration: performance only depends on the reported cycle
        b.outer = (1e9, 1e9);
        b.inner = (1e9, 1e9);
        b.ode = (1e-6, 1e-6);
        let mut f = performance_fields();
        f.extend(exact_fields());
        f.extend(physics_fields().into_iter().filter(|f| ["drive", "f", "rc", "re", "gas"].contains(&f.name)));
        let k = if rep.thorough() { 4 } else { 2 };
        cases.extend(within(&format!("{n}/perf"), &b, &f, k));
    }
    cases
}

struct Perf {
    pc: Vec<f64>,
    pe: Vec<f64>,
    ind0: f64,
    ind: f64,
    shaft: f64,
    net: f64,
    scale: f64,
}

fn perf(s: &Spec, o: &Out) -> Perf {
    let f = s.freq(o.pres[0]);
    let g = s.gas;
    let v = &o.v;
    let n = o.n();
    let mut pc = Vec::new();
    let mut pe = Vec::new();
    for i in 0..n {
        let hx = s.hxs();
        let t = [o.temp.chx, o.temp.avg, o.temp.hhx];
        let drop: f64 = (0..3).map(|k| hx[k].r_hyd * (v.m[k][i] + v.m[k + 1][i]) / 2.0 / g.dens(t[k], v.p[i])).sum();
        pc.push(v.p[i] + drop / 2.0);
        pe.push(v.p[i] - drop / 2.0);
    }
    let vols: Vec<Vols> = v.t.iter().map(|t| s.drive.vols(*t, f)).collect();
    let ind0 = f * trapz(&v.t, |i| v.p[i] * (vols[i].dc + vols[i].de));
    let ind = f * trapz(&v.t, |i| pc[i] * vols[i].dc + pe[i] * vols[i].de);
    let scale = f * trapz(&v.t, |i| v.p[i].max(pc[i].abs()).max(pe[i].abs()) * (vols[i].dc.abs() + vols[i].de.abs()));
    let shaft = ind - s.par_c.mechanical - s.par_e.mechanical;
    let net = shaft - s.chx.par.mechanical - s.hhx.par.mechanical;
    Perf {
        pc,
        pe,
        ind0,
        ind,
        shaft,
        net,
        scale,
    }
}

pub fn c07(rep: &Report) {
    let cases = performance_space(rep);
    explore(rep, &C07, &cases, |c, o| powers(rep, &c.label, &c.spec, o, 1.0));
    dependent(rep, &C07, |l, s, o, tol| powers(rep, l, s, o, tol / 1e-10));
}

/// `f` multiplies the tolerances
fn powers(rep: &Report, l: &str, s: &Spec, o: &Out, loose: f64) {
    let p = perf(s, o);
    let r = &o.r;
    for i in 0..o.n() {
        if r.values.P_c.len() != o.n() || r.values.P_e.len() != o.n() {
            rep.violation(l, l, "pressure series have the wrong length");
            return;
        }
        if !(expect(rep, l, "P_c", r.values.P_c[i], p.pc[i], o.v.p[i], 1e-9 * loose) && expect(rep, l, "P_e", r.values.P_e[i], p.pe[i], o.v.p[i], 1e-9 * loose))
        {
            return;
        }
    }
    let f = s.freq(o.pres[0]);
    // sums of parasitic losses are exact, cycle integrals are relative to
    // the gross work of the pistons
    expect(rep, l, "ideal indicated power", r.power.ideal_indicated, p.ind0, p.scale, 1e-10 * loose);
    expect(rep, l, "indicated power", r.power.indicated, p.ind, p.scale, 1e-10 * loose);
    expect(rep, l, "shaft power", r.power.shaft, p.shaft, p.scale, 1e-10 * loose);
    expect(rep, l, "net power", r.power.net, p.net, p.scale, 1e-10 * loose);
    expect(
        rep,
        l,
        "indicated - shaft",
        r.power.indicated - r.power.shaft,
        s.par_c.mechanical + s.par_e.mechanical,
        r.power.indicated.abs() * 1e-3,
        (1e-9 * loose).min(1e-3),
    );
    expect(
        rep,
        l,
        "shaft - net",
        r.power.shaft - r.power.net,
        s.chx.par.mechanical + s.hhx.par.mechanical,
        r.power.shaft.abs() * 1e-3,
        (1e-9 * loose).min(1e-3),
    );
    expect(rep, l, "shaft torque", r.shaft_torque * 2.0 * PI * f, r.power.shaft, 0.0, 1e-12 * loose);
}

// ---------------------------------------------------------------- C08
pub const C08: Meta = Meta {
    level: "model_checking",
    rule: "every explored engine: heat input, rejection and efficiency are recomputed from the reported cycle; on fine time grids the first law over the cycle is checked between reported heat, power and regenerator heat",
    assumptions: &["cycle integrals are trapezoidal over the reported instants; first-law closure is judged at 1e-3 of the gross heat flow"],
};

pub fn c08(rep: &Report) {
    let cases = performance_space(rep);
    explore(rep, &C08, &cases, |c, o| heats(rep, &c.label, &c.spec, o, 1e-10));
    dependent(rep, &C08, |l, s, o, tol| heats(rep, l, s, o, tol));
    first_law(rep);
}

fn heats(rep: &Report, l: &str, s: &Spec, o: &Out, tol: f64) {
    let f = s.freq(o.pres[0]);
    let p = perf(s, o);
    let v = &o.v;
    let r = &o.r;
    let ql = f * trapz(&v.t, |i| v.q[2][i]);
    let qk = f * trapz(&v.t, |i| v.q[0][i]);
    let qe = f * trapz(&v.t, |i| (v.te[i] - o.temp.hhx) / s.re);
    let qc = f * trapz(&v.t, |i| (v.tc[i] - o.temp.chx) / s.rc);
    let ext = s.hhx.par.thermal + s.regen.par.thermal + s.par_e.thermal;
    let scale = f * trapz(&v.t, |i| v.q[2][i].abs().max(v.q[0][i].abs())) + ext.abs() + p.scale;
    let input = ql - qe + ext;
    let rejected = qc + qk + (p.ind0 - p.ind) + s.par_c.mechanical + s.par_e.mechanical + ext;
    expect(rep, l, "heat input", r.heat_flow.input, input, scale, tol);
    expect(rep, l, "heat rejection", r.heat_flow.rejection, rejected, scale, tol);
    expect(
        rep,
        l,
        "efficiency",
        r.efficiency.mechanical * r.heat_flow.input,
        r.power.net,
        0.0,
        tol.max(1e-10),
    );
}

/// First law over the cycle
fn first_law(rep: &Report) {
    let mut cases = Vec::new();
    for (n, b) in bases() {
        let mut b = b.clone();
        b.res = if rep.thorough() { 2001 } else { 801 };
        let f: Vec<Field> = physics_fields();
        cases.extend(within(&format!("{n}/first-law"), &b, &f, if rep.thorough() { 2 } else { 1 }));
    }
    explore(rep, &C08, &cases, |c, o| {
        let s = &c.spec;
        let l = &c.label;
        let f = s.freq(o.pres[0]);
        let v = &o.v;
        let r = &o.r;
        let scale = f * trapz(&v.t, |i| v.q[2][i].abs().max(v.q[0][i].abs()).max(v.q[1][i].abs()))
            + f * trapz(&v.t, |i| {
                let w = s.drive.vols(v.t[i], f);
                v.p[i] * (w.dc.abs() + w.de.abs())
            });
        let residual = r.heat_flow.input - r.heat_flow.rejection - r.power.shaft - r.heat_flow.regen;
        if s.gas == Gas::H2 {
            // recorded finding: the enthalpy of hydrogen is not the integral
            // of its specific heat, which leaves exactly this residual
            let g = s.gas;
            let mut pred = 0.0;
            for i in 1..o.n() {
                let (a, b) = (i - 1, i);
                let vm = s.drive.vols(0.5 * (v.t[a] + v.t[b]), f);
                let pm = 0.5 * (v.p[a] + v.p[b]);
                for (t0, t1, vol) in [(v.tc[a], v.tc[b], vm.c), (v.te[a], v.te[b], vm.e)] {
                    let tm = 0.5 * (t0 + t1);
                    pred += g.dens(tm, pm) * vol * (g.du_dt_actual(tm, pm) - g.du_dT_P(tm, pm)) * (t1 - t0);
                }
            }
            let pred = f * pred;
            let d = (residual - pred).abs().min((residual + pred).abs()) / scale;
            rep.maximum("first law residual, unexplained (hydrogen)", d, l);
            if d > 1e-3 {
                rep.violation(
                    l,
                    l,
                    format!("first law: residual {residual:e} W is not explained by the hydrogen finding ({pred:e} W) of {scale:e} W"),
                );
            } else if residual.abs() / scale > 1e-3 {
                rep.violation("ideal-gas-hydrogen-enthalpy", l, "first law not closed for hydrogen");
            }
            return;
        }
        rep.maximum("first law residual", residual.abs() / scale, l);
        if !(residual.abs() / scale <= 1e-3) {
            rep.violation(
                l,
                l,
                format!(
                    "first law: input {:e} - rejection {:e} - shaft {:e} - regen {:e} leaves {residual:e} W",
                    r.heat_flow.input, r.heat_flow.rejection, r.power.shaft, r.heat_flow.regen
                ),
            );
        }
    });
}

// ---------------------------------------------------------------- C20
pub const C20: Meta = Meta {
    level: "model_checking",
    rule: "every explored engine, plus every resolution from 2 upwards and a lattice of frequencies: the reported instants are exactly the requested number of equally spaced points from zero to one period, every series has that length, and the values at instants shared by two resolutions agree",
    assumptions: &["values at shared instants are compared at 1e-6"],
};

fn grid(rep: &Report, l: &str, s: &Spec, o: &Out, tol: f64) {
    let n = s.res as usize;
    let period = 1.0 / s.freq(o.pres[0]);
    for (name, x) in series_of(&o.r) {
        if x.len() != n {
            rep.violation(l, l, format!("{n} points requested, {name} has {}", x.len()));
            return;
        }
    }
    for i in 0..n {
        let want = period * i as f64 / (n - 1) as f64;
        if !expect(rep, l, "instant", o.v.t[i], want, period, tol) {
            return;
        }
    }
}

pub fn c20(rep: &Report) {
    let cases = standard_space(rep, numeric_fields());
    explore(rep, &C20, &cases, |c, o| grid(rep, &c.label, &c.spec, o, 1e-9));
    dependent(rep, &C20, |l, s, o, tol| grid(rep, l, s, o, tol));
    // all resolutions and many periods
    let mut b = Spec::base_fixed();
    b.outer = (1e9, 1e9);
    b.inner = (1e9, 1e9);
    b.ode = (1e-5, 1e-5);
    let mut cases = Vec::new();
    let top = if rep.thorough() { 1500 } else { 400 };
    for res in (2..=top).chain([1000, 1999, 5000, 10_001]) {
        for f in [50.0, 3.3, 66.6667] {
            let mut s = b.clone();
            s.res = res;
            s.drive = Drive::Sin {
                f,
                phase: 90.0,
                comp: (1.128e-4, 4.68e-5),
                exp: (1.0e-4, 1.68e-5),
            };
            cases.push(Case {
                label: format!("grid+res={res}+f={f}"),
                spec: s,
                deviations: 2,
            });
        }
    }
    for k in -40..=48 {
        for res in [2u32, 3, 30, 101, 2001] {
            let f = 50.0 * 10f64.powf(k as f64 / 8.0);
            if res > 101 && k % 8 != 0 {
                continue;
            }
            let mut s = b.clone();
            s.res = res;
            s.drive = Drive::Sin {
                f,
                phase: 90.0,
                comp: (1.128e-4, 4.68e-5),
                exp: (1.0e-4, 1.68e-5),
            };
            cases.push(Case {
                label: format!("grid+res={res}+f={f:e}"),
                spec: s,
                deviations: 2,
            });
        }
    }
    explore(rep, &C20, &cases, |c, o| grid(rep, &c.label, &c.spec, o, 1e-9));
    // shared instants
    let mut items = Vec::new();
    for (n, b) in bases() {
        for (a, d) in [(2u32, 3u32), (3, 5), (2, 11), (11, 101), (6, 31), (31, 301), (25, 49), (24, 24 * 3 - 2)] {
            items.push((format!("shared:{n}:{a}:{d}"), b.clone(), a, d));
        }
    }
    run_cases(
        rep,
        &C20,
        &items,
        |x| x.0.clone(),
        |(l, b, a, d)| {
            let mut s = b.clone();
            // a single outer iteration, because averages depend on the grid
            s.outer = (1e9, 1e9);
            let mut run = |r: u32| {
                s.res = r;
                run_case(rep, l, &s)
            };
            let (Some(x), Some(y)) = (run(*a), run(*d)) else { return };
            rep.count("traces", 2);
            let step = ((d - 1) / (a - 1)) as usize;
            for i in 0..*a as usize {
                let j = i * step;
                rep.count("states", 1);
                let ms = max_abs(&y.v.m[1]);
                let qs = max_abs(&y.v.q[1]);
                expect(rep, l, "shared P", x.v.p[i], y.v.p[j], 0.0, 1e-6);
                expect(rep, l, "shared T_c", x.v.tc[i], y.v.tc[j], 0.0, 1e-6);
                expect(rep, l, "shared T_e", x.v.te[i], y.v.te[j], 0.0, 1e-6);
                for k in 0..4 {
                    expect(rep, l, "shared mass flow", x.v.m[k][i], y.v.m[k][j], ms, 1e-4);
                }
                for k in 0..3 {
                    expect(rep, l, "shared heat flow", x.v.q[k][i], y.v.q[k][j], qs, 1e-4);
                }
            }
        },
    );
}

// ---------------------------------------------------------------- components that depend on their state

/// A drive whose frequency, thermal resistances and parasitics follow one of
/// the pressures that it is shown
pub struct PressureDrive {
    s: Spec,
    dep: Dep,
}

impl PressureDrive {
    pub fn new(s: &Spec, dep: &Dep) -> Self {
        Self { s: s.clone(), dep: *dep }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Dep {
    /// exponents of frequency, thermal resistances, parasitics
    pub exp: [f64; 3],
    /// pressure: average, maximum, minimum, at time zero
    pub pres: usize,
    /// field of a heat exchanger's state that its hydraulic resistance and
    /// parasitics depend on
    pub field: usize,
}

impl Dep {
    fn factors(&self, s: &Spec, p: [f64; 4]) -> [f64; 3] {
        self.exp.map(|e| (p[self.pres] / (1.3 * s.p0)).powf(e))
    }
    /// The specification with constant components that equals this one at the
    /// given pressures
    pub fn at(&self, s: &Spec, p: [f64; 4]) -> Spec {
        let f = self.factors(s, p);
        let mut x = s.clone();
        match &mut x.drive {
            Drive::Sin { f: g, .. } | Drive::Rhombic { f: g, .. } | Drive::Harm { f: g, .. } => *g *= f[0],
        }
        x.rc *= f[1];
        x.re *= f[1];
        x.par_c = scaled(x.par_c, f[2]);
        x.par_e = scaled(x.par_e, f[2]);
        x
    }
    fn hx(&self, v: &HxView) -> f64 {
        let typical = [500.0, 3e6, 3.0, 5e3, 0.01, 5e3, 500.0, 500.0];
        1.0 + v.field(self.field) / typical[self.field]
    }
}

fn scaled(p: sett_rs::types::ParasiticPower, f: f64) -> sett_rs::types::ParasiticPower {
    pp(p.thermal * f, p.mechanical * f, p.electrical * f)
}

pub fn pressures(s: &sett_rs::ws::State) -> [f64; 4] {
    [s.pres.avg, s.pres.max, s.pres.min, s.pres.t_zero]
}

impl sett_rs::ws::WorkingSpaces for PressureDrive {
    fn frequency(&self, s: &sett_rs::ws::State) -> f64 {
        self.dep.at(&self.s, pressures(s)).freq(s.pres.avg)
    }
    fn volumes(&self, s: &sett_rs::ws::State) -> Box<dyn Fn(f64) -> (sett_rs::ws::CompVolume, sett_rs::ws::ExpVolume)> {
        let x = self.dep.at(&self.s, pressures(s));
        let f = x.freq(s.pres.avg);
        Box::new(move |t| {
            let v = x.drive.vols(t, f);
            (
                sett_rs::ws::CompVolume { value: v.c, deriv: v.dc },
                sett_rs::ws::ExpVolume { value: v.e, deriv: v.de },
            )
        })
    }
    fn thermal_resistance(&self, s: &sett_rs::ws::State) -> sett_rs::ws::ThermalResistance {
        let x = self.dep.at(&self.s, pressures(s));
        sett_rs::ws::ThermalResistance { comp: x.rc, exp: x.re }
    }
    fn parasitics(&self, s: &sett_rs::ws::State) -> sett_rs::ws::Parasitics {
        let x = self.dep.at(&self.s, pressures(s));
        sett_rs::ws::Parasitics { comp: x.par_c, exp: x.par_e }
    }
}

/// Explore engines whose components depend on their state.  The oracle gets
/// the equivalent specification with constant components, which must agree
/// within the tolerance of the outer loop.
fn dependent(rep: &Report, meta: &Meta, oracle: impl Fn(&str, &Spec, &Out, f64) + Sync) {
    let mut items = Vec::new();
    for (n, b) in bases() {
        for pres in 0..4 {
            for exp in [[0.4, 0.0, 0.0], [-0.3, 0.0, 0.0], [0.0, 0.5, 0.0], [0.0, 0.0, 2.0], [0.2, -0.6, 1.0]] {
                for field in if rep.thorough() { 0..8 } else { 0..if pres == 0 { 8 } else { 1 } } {
                    let mut s = b.clone();
                    s.outer = (1e-3, 1e-6);
                    s.inner = (1e-3, 1e-6);
                    if s.rc.is_infinite() && exp[1] != 0.0 {
                        s.rc = 3.0;
                        s.re = 4.0;
                    }
                    items.push((format!("dependent:{n}:{exp:?} pressure {pres} field {field}"), s, Dep { exp, pres, field }));
                }
            }
        }
    }
    run_cases(
        rep,
        meta,
        &items,
        |x| x.0.clone(),
        |(l, s, dep)| {
            rep.count("evaluations", 1);
            let mut c = s.components();
            c.ws = Box::new(PressureDrive { s: s.clone(), dep: *dep });
            let hx = |h: &Hx, regen: bool| {
                let (d, r, p, w) = (*dep, h.r_hyd, h.par, h.law.clone());
                MockHx {
                    vol: h.vol,
                    init: if matches!(h.law, Law::Ua(_)) {
                        10.0
                    } else if let Law::Approach(a) = h.law {
                        a
                    } else {
                        5.0
                    },
                    r_hyd: std::sync::Arc::new(move |v| r * d.hx(v)),
                    law: std::sync::Arc::new(move |v| law(&w, regen, v)),
                    par: std::sync::Arc::new(move |v| scaled(p, d.hx(v))),
                }
            };
            c.chx = Box::new(hx(&s.chx, false));
            c.regen = Box::new(hx(&s.regen, true));
            c.hhx = Box::new(hx(&s.hhx, false));
            match s.run_with(c, LibFluid::new(s.gas)) {
                Ok(o) => {
                    let mut x = dep.at(s, [o.r.pressure.avg, o.r.pressure.max, o.r.pressure.min, o.r.pressure.t_zero]);
                    let v = hx_views(&x, &o);
                    for (h, v) in [&mut x.chx, &mut x.regen, &mut x.hhx].into_iter().zip(v) {
                        h.r_hyd *= dep.hx(&v);
                        h.par = scaled(h.par, dep.hx(&v));
                    }
                    rep.count("traces", 1);
                    rep.count("states", o.n() as u64);
                    rep.count("transitions", o.n() as u64 - 1);
                    rep.observe(hash_f64(&[o.v.p[o.n() / 2], o.temp.chx, o.temp.hhx, o.r.power.net]));
                    oracle(l, &x, &o, 1e-5);
                }
                Err(e) => rep.violation(l, l, format!("no result: {e}")),
            }
        },
    );
}
