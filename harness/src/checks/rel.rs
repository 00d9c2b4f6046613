//! Relations between runs: decompositions (C13), similarity and symmetry laws
//! (C16), initial guesses and an independent engine (C19).
use super::*;
use crate::par::run_cases;
use sett_rs::{ws, Components};
use std::collections::BTreeMap;

/// Everything that a run reports, by name
type Named = BTreeMap<&'static str, Vec<f64>>;

fn named(o: &Out) -> Named {
    let mut m = Named::new();
    for (n, x) in scalars_of(&o.r) {
        m.insert(n, vec![x]);
    }
    for (n, x) in series_of(&o.r) {
        m.insert(n, x.clone());
    }
    m
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    One,
    Time,
    Pres,
    Temp,
    Mdot,
    Power,
    Torque,
}

fn kind(n: &str) -> Kind {
    match n {
        "efficiency.mechanical" | "regen_imbalance" => Kind::One,
        "time" => Kind::Time,
        "shaft_torque" => Kind::Torque,
        n if n.starts_with("heat_flow") || n.starts_with("power") || n.starts_with("Q_dot") => Kind::Power,
        n if n.starts_with("mass_flow") || n.starts_with("m_dot") => Kind::Mdot,
        n if n.starts_with("pressure") || n.starts_with('P') => Kind::Pres,
        _ => Kind::Temp,
    }
}

/// Swept volume of both spaces together
fn swept(s: &Spec) -> f64 {
    let f = s.freq(s.p0);
    let mut lo = [f64::INFINITY; 2];
    let mut hi = [f64::NEG_INFINITY; 2];
    for i in 0..48 {
        let v = s.drive.vols(i as f64 / 48.0 / f, f);
        for (k, x) in [v.c, v.e].into_iter().enumerate() {
            lo[k] = lo[k].min(x);
            hi[k] = hi[k].max(x);
        }
    }
    hi[0] - lo[0] + hi[1] - lo[1]
}

/// Compare what a run reports with what it should; `tol` for pressures and
/// temperatures, `tol_f` for flows and powers
fn compare(rep: &Report, tag: &str, case: &str, s: &Spec, got: &Named, want: &Named, tol: f64, tol_f: f64) -> bool {
    let p = want["pressure.avg"][0];
    let period = *want["time"].last().unwrap();
    let power = p * swept(s) / period;
    let mdot = ["m_dot_ck", "m_dot_kr", "m_dot_rl", "m_dot_le"].iter().map(|n| max_abs(&want[n])).fold(0.0, f64::max);
    let pmax = max_abs(&want["P_c"]).max(max_abs(&want["P_e"])).max(max_abs(&want["P"]));
    let heat = ["Q_dot_k", "Q_dot_r", "Q_dot_l"].iter().map(|n| max_abs(&want[n])).fold(0.0, f64::max);
    for (n, w) in want {
        let g = &got[n];
        if g.len() != w.len() {
            rep.violation(case, case, format!("{n} has {} entries, expected {}", g.len(), w.len()));
            return false;
        }
        let (scale, tol) = match kind(n) {
            Kind::Power if n.starts_with('Q') => (heat, tol_f),
            Kind::Power => (power, tol_f),
            Kind::Torque => (power * period / 6.3, tol_f),
            Kind::Mdot => (mdot, tol_f),
            Kind::Time => (period, 1e-8),
            Kind::One => {
                // efficiency: relative to a heat input that may be tiny
                let q = want["heat_flow.input"][0].abs();
                if !(q > 1e-3 * power) {
                    continue;
                }
                (1.0, tol_f * power / q)
            }
            Kind::Pres if n.starts_with("P_") => (pmax, tol),
            _ => (0.0, tol),
        };
        for i in 0..w.len() {
            if !w[i].is_finite() && g[i].to_bits() == w[i].to_bits() {
                continue;
            }
            let r = rel(g[i], w[i], scale);
            rep.maximum(&format!("{tag} {n}"), r, case);
            if !(r <= tol) {
                rep.violation(case, case, format!("{n}[{i}]: {:e}, expected {:e} (relative to {scale:e}: {r:.2e} > {tol:.0e})", g[i], w[i]));
                return false;
            }
        }
    }
    true
}

/// Bookkeeping of a pair of runs
fn counted(rep: &Report, o: &Out) {
    rep.count("traces", 1);
    rep.count("states", o.n() as u64);
    rep.observe(hash_f64(&[o.v.p[o.n() / 2], o.temp.chx, o.temp.hhx, o.r.power.net]));
}

// ---------------------------------------------------------------- C13
pub const C13: Meta = Meta {
    level: "model_checking",
    rule: "states are reported instants, transitions are pairs of runs of the same engine with two decompositions; every explored engine is run with all three and all pairs of results are compared",
    assumptions: &[
        "results are compared at the accuracy of the integration",
    ],
};

pub fn c13(rep: &Report) {
    let cases = deep_space(rep, vec![]);
    run_cases(rep, &C13, &cases, |c| c.label.clone(), |c| {
        rep.count("evaluations", 1);
        for (tag, x) in [("QR", Solver::Qr), ("SVD", Solver::Svd)] {
            if x == Solver::Svd && c.deviations > usize::from(rep.thorough()) + 1 {
                continue; // ten times slower
            }
            let mut y = c.spec.clone();
            y.solver = x;
            pair(rep, tag, &c.label, &c.spec, &y, 2e-5, 1e-4);
        }
    });
    // Loose tolerances, and engines of every size
    let mut loose = Vec::new();
    let mut fields = physics_fields();
    fields.extend(numeric_fields().into_iter().filter(|f| f.name == "res"));
    for (n, b) in bases() {
        let b = loosened(&b);
        let k = if rep.thorough() { 2 } else { 1 };
        loose.extend(within(&format!("loose:{n}"), &b, &fields, k));
        for e in if rep.thorough() { -15..=12 } else { -8..=6 } {
            let v = 10f64.powf(f64::from(e) / 2.0);
            let s = Units { v, m: v, ..SI }.spec(&b);
            loose.push(Case { label: format!("size:{n} x 1e{}", f64::from(e) / 2.0), spec: s, deviations: 1 });
        }
    }
    run_cases(rep, &C13, &loose, |c| c.label.clone(), |c| {
        rep.count("evaluations", 1);
        for (tag, x) in [("QR", Solver::Qr), ("SVD", Solver::Svd)] {
            let mut y = c.spec.clone();
            y.solver = x;
            pair(rep, &format!("loose {tag}"), &c.label, &c.spec, &y, 2e-2, 1e-1);
        }
    });
}

fn loosened(s: &Spec) -> Spec {
    let mut s = s.clone();
    s.ode = (1e-5, 1e-5);
    s.inner = (1.0, 5e-3);
    s.outer = (1.0, 5e-3);
    s
}

/// Run two variants of an engine and compare them
fn pair(rep: &Report, tag: &str, l: &str, a: &Spec, b: &Spec, tol: f64, tol_f: f64) {
    rep.count("transitions", 1);
    // a loop that ends right at its tolerance may do so for one of them only
    let clear = |s: &Spec| {
        let mut s = s.clone();
        s.inner = (s.inner.0 / 5.0, s.inner.1 / 5.0);
        s.outer = (s.outer.0 / 5.0, s.outer.1 / 5.0);
        s.run().is_ok()
    };
    match (a.run(), b.run()) {
        (Ok(x), Ok(y)) => {
            counted(rep, &x);
            counted(rep, &y);
            compare(rep, tag, l, a, &named(&y), &named(&x), tol, tol_f);
        }
        (Err(x), Err(y)) if x == y => rep.count("same_error", 1),
        (x, y) => {
            if too_stiff(a) {
                rep.count("no_result_stiff", 1);
            } else if matches!(x, Err(Fail::Panic(_))) || matches!(y, Err(Fail::Panic(_))) || clear(if x.is_ok() { a } else { b }) {
                rep.violation(l, l, format!("LU: {:?}, {tag}: {:?}", x.map(|o| o.temp), y.map(|o| o.temp)));
            } else {
                rep.count("loop_at_tolerance", 1);
            }
        }
    }
}

// ---------------------------------------------------------------- C16
pub const C16: Meta = Meta {
    level: "model_checking",
    rule: "states are reported instants, transitions are pairs of an explored engine and its image under one transformation (units of time, volume, pressure, mass and temperature; speed, size and charge pressure with the library's own gas; energy reference; sink and source; mirror image; crank origin), each run on the implementation",
    assumptions: &["differences are judged at the accuracy of the integration and of the loops"],
};

/// Units of time, volume, pressure, mass and temperature
#[derive(Clone, Copy)]
struct Units {
    t: f64,
    v: f64,
    p: f64,
    m: f64,
    k: f64,
}

const SI: Units = Units { t: 1.0, v: 1.0, p: 1.0, m: 1.0, k: 1.0 };

impl Units {
    fn power(&self) -> f64 {
        self.p * self.v / self.t
    }
    fn dens(&self) -> f64 {
        self.m / self.v
    }
    fn enth(&self) -> f64 {
        self.p * self.v / self.m
    }
    fn cp(&self) -> f64 {
        self.enth() / self.k
    }
    fn of(&self, k: Kind) -> f64 {
        match k {
            Kind::One => 1.0,
            Kind::Time => self.t,
            Kind::Pres => self.p,
            Kind::Temp => self.k,
            Kind::Mdot => self.m / self.t,
            Kind::Power => self.power(),
            Kind::Torque => self.p * self.v,
        }
    }

    /// The same engine in other units
    fn spec(&self, s: &Spec) -> Spec {
        let mut x = s.clone();
        let (pw, len) = (self.power(), self.v.cbrt());
        match &mut x.drive {
            Drive::Sin { f, comp, exp, .. } => {
                *f /= self.t;
                for g in [comp, exp] {
                    g.0 *= self.v;
                    g.1 *= self.v;
                }
            }
            Drive::Rhombic { f, vcc, vce, r, l, e, dp, dd } => {
                *f /= self.t;
                *vcc *= self.v;
                *vce *= self.v;
                for y in [r, l, e, dp, dd] {
                    *y *= len;
                }
            }
            Drive::Harm { f, comp, exp, p_ref, .. } => {
                *f /= self.t;
                *p_ref *= self.p;
                for g in [comp, exp] {
                    for y in &mut g[..3] {
                        *y *= self.v;
                    }
                }
            }
        }
        let par = |q: &mut sett_rs::types::ParasiticPower| {
            q.thermal *= pw;
            q.mechanical *= pw;
            q.electrical *= pw;
        };
        x.rc *= self.k / pw;
        x.re *= self.k / pw;
        par(&mut x.par_c);
        par(&mut x.par_e);
        let fields = [self.k, self.p, self.dens(), self.cp(), self.m / self.t, pw, self.k, self.k];
        for h in [&mut x.chx, &mut x.regen, &mut x.hhx] {
            h.vol *= self.v;
            h.r_hyd *= self.p * self.t / self.v;
            par(&mut h.par);
            h.init = h.init.map(|a| a * self.k);
            match &mut h.law {
                Law::Approach(a) => *a *= self.k,
                Law::Ua(u) => *u *= pw / self.k,
                Law::Linear { a, field, k } => {
                    *a *= self.k;
                    *k *= self.k / fields[*field];
                }
            }
        }
        x.p0 *= self.p;
        x.t_sink *= self.k;
        x.t_source *= self.k;
        x.inner.0 *= self.k;
        x.outer.0 *= self.k;
        x
    }

    fn results(&self, n: &Named) -> Named {
        n.iter().map(|(k, v)| (*k, v.iter().map(|x| x * self.of(kind(k))).collect())).collect()
    }
}

/// A gas in other units and with another energy reference
struct Converted {
    g: LibFluid,
    u: Units,
    shift: f64,
}

#[allow(non_snake_case)]
impl Fluid for Converted {
    fn dens(&self, t: f64, p: f64) -> f64 {
        self.g.dens(t / self.u.k, p / self.u.p) * self.u.dens()
    }
    fn inte(&self, t: f64, p: f64) -> f64 {
        self.g.inte(t / self.u.k, p / self.u.p) * self.u.enth() + self.shift
    }
    fn enth(&self, t: f64, p: f64) -> f64 {
        self.g.enth(t / self.u.k, p / self.u.p) * self.u.enth() + self.shift
    }
    fn cp(&self, t: f64, p: f64) -> f64 {
        self.g.cp(t / self.u.k, p / self.u.p) * self.u.cp()
    }
    fn dd_dP_T(&self, t: f64, p: f64) -> f64 {
        self.g.dd_dP_T(t / self.u.k, p / self.u.p) * self.u.dens() / self.u.p
    }
    fn dd_dT_P(&self, t: f64, p: f64) -> f64 {
        self.g.dd_dT_P(t / self.u.k, p / self.u.p) * self.u.dens() / self.u.k
    }
    fn du_dP_T(&self, t: f64, p: f64) -> f64 {
        self.g.du_dP_T(t / self.u.k, p / self.u.p) * self.u.enth() / self.u.p
    }
    fn du_dT_P(&self, t: f64, p: f64) -> f64 {
        self.g.du_dT_P(t / self.u.k, p / self.u.p) * self.u.cp()
    }
}

/// A drive with its spaces exchanged, or started at another crank position
struct Turned {
    inner: Box<dyn ws::WorkingSpaces>,
    swap: bool,
    /// fraction of a period
    turn: f64,
}

impl ws::WorkingSpaces for Turned {
    fn frequency(&self, s: &ws::State) -> f64 {
        self.inner.frequency(s)
    }
    fn volumes(&self, s: &ws::State) -> Box<dyn Fn(f64) -> (ws::CompVolume, ws::ExpVolume)> {
        let f = self.inner.volumes(s);
        let (swap, dt) = (self.swap, self.turn / self.frequency(s));
        Box::new(move |t| {
            let (c, e) = f(t + dt);
            if swap {
                (ws::CompVolume { value: e.value, deriv: e.deriv }, ws::ExpVolume { value: c.value, deriv: c.deriv })
            } else {
                (c, e)
            }
        })
    }
    fn thermal_resistance(&self, s: &ws::State) -> ws::ThermalResistance {
        let r = self.inner.thermal_resistance(s);
        if self.swap {
            ws::ThermalResistance { comp: r.exp, exp: r.comp }
        } else {
            r
        }
    }
    fn parasitics(&self, s: &ws::State) -> ws::Parasitics {
        let p = self.inner.parasitics(s);
        if self.swap {
            ws::Parasitics { comp: p.exp, exp: p.comp }
        } else {
            p
        }
    }
}

fn turned(s: &Spec, of: Components, swap: bool, turn: f64) -> Components {
    let _ = s;
    Components { ws: Box::new(Turned { inner: of.ws, swap, turn }), ..of }
}

/// The engine seen in a mirror that exchanges its cold and its hot side
fn mirrored(s: &Spec) -> Spec {
    let mut x = s.clone();
    x.t_sink = s.t_source;
    x.t_source = s.t_sink;
    let flip = |h: &Hx, regen: bool| {
        let mut h = h.clone();
        h.init = h.init.map(|a| -a);
        match &mut h.law {
            Law::Approach(a) => *a = -*a,
            Law::Ua(_) => {}
            Law::Linear { a, field, k } => {
                *a = -*a;
                match (*field, regen) {
                    (5, false) => {}
                    (6, true) => {
                        *field = 7;
                        *k = -*k;
                    }
                    (7, true) => {
                        *field = 6;
                        *k = -*k;
                    }
                    _ => *k = -*k,
                }
            }
        }
        h
    };
    x.chx = flip(&s.hhx, false);
    x.hhx = flip(&s.chx, false);
    x.regen = flip(&s.regen, true);
    x
}

fn mirrored_results(n: &Named) -> Named {
    let pairs: &[(&str, &str, f64)] = &[
        ("T_c", "T_e", 1.0),
        ("P_c", "P_e", 1.0),
        ("m_dot_ck", "m_dot_le", -1.0),
        ("m_dot_kr", "m_dot_rl", -1.0),
        ("Q_dot_k", "Q_dot_l", -1.0),
        ("mass_flow.chx", "mass_flow.hhx", 1.0),
        ("heat_flow.chx", "heat_flow.hhx", -1.0),
        ("temperature.sink", "temperature.source", 1.0),
        ("temperature.chx", "temperature.hhx", 1.0),
        ("temperature.regen_cold", "temperature.regen_hot", 1.0),
    ];
    let mut m = n.clone();
    for (a, b, f) in pairs {
        let (x, y) = (n[a].clone(), n[b].clone());
        *m.get_mut(a).unwrap() = y.iter().map(|v| v * f).collect();
        *m.get_mut(b).unwrap() = x.iter().map(|v| v * f).collect();
    }
    // thermal losses have no mirror image
    m.insert("heat_flow.input", vec![f64::NAN]);
    m.insert("heat_flow.rejection", vec![f64::NAN]);
    m.insert("efficiency.mechanical", vec![f64::NAN]);
    m
}

enum Image {
    /// other units for the gas as well
    Units(Units),
    /// scaled engine with the very same gas
    Scaled(Units),
    Energy(f64),
    Sink(f64),
    Source(f64),
    Mirror,
    Crank(usize),
}

fn images(thorough: bool) -> Vec<(String, Image)> {
    let mut v = Vec::new();
    let unit = |n: &str, s: f64| {
        let mut u = SI;
        match n {
            "time" => u.t = s,
            "volume" => u.v = s,
            "pressure" => u.p = s,
            "mass" => u.m = s,
            _ => u.k = s,
        }
        u
    };
    let factors: &[f64] = if thorough { &[1e-3, 0.3, 2.0, 7.7, 1e3] } else { &[0.3, 1e3] };
    for n in ["pressure", "mass", "temperature"] {
        for s in factors {
            v.push((format!("unit of {n} x {s}"), Image::Units(unit(n, *s))));
        }
    }
    v.push(("all units".into(), Image::Units(Units { t: 2.3, v: 0.07, p: 11.0, m: 0.3, k: 1.7 })));
    for s in factors {
        v.push((format!("slower x {s}"), Image::Scaled(unit("time", *s))));
        v.push((format!("larger x {s}"), Image::Scaled(Units { v: *s, m: *s, ..SI })));
    }
    for s in if thorough { &[0.1, 0.3, 2.0, 5.0, 20.0][..] } else { &[0.3, 5.0][..] } {
        v.push((format!("charge x {s}"), Image::Scaled(Units { p: *s, m: *s, ..SI })));
    }
    for d in [1e6, -3e6] {
        v.push((format!("energy reference + {d:e}"), Image::Energy(d)));
    }
    for d in [-25.0, 100.0] {
        v.push((format!("sink + {d}"), Image::Sink(d)));
        v.push((format!("source + {d}"), Image::Source(d)));
    }
    v.push(("mirror".into(), Image::Mirror));
    for j in if thorough { &[1, 5, 8, 11, 17, 22][..] } else { &[7, 18][..] } {
        v.push((format!("crank origin + {j}"), Image::Crank(*j)));
    }
    v
}

fn image(s: &Spec, o: &Out, n: &Named, i: &Image) -> Option<(Spec, Result<Out, Fail>, Named)> {
    match *i {
        Image::Units(u) => {
            let x = u.spec(s);
            let g = Converted { g: LibFluid::new(s.gas), u, shift: 0.0 };
            let r = x.run_with(x.components(), g);
            Some((x, r, u.results(n)))
        }
        Image::Scaled(u) => {
            if u.p != 1.0 && s.gas == Gas::Virial {
                return None;
            }
            let x = u.spec(s);
            let r = x.run();
            Some((x, r, u.results(n)))
        }
        Image::Energy(shift) => {
            let g = Converted { g: LibFluid::new(s.gas), u: SI, shift };
            let r = s.run_with(s.components(), g);
            Some((s.clone(), r, n.clone()))
        }
        Image::Sink(d) => {
            let Law::Approach(a) = s.chx.law else { return None };
            let mut x = s.clone();
            x.t_sink += d;
            x.chx.law = Law::Approach(a - d);
            let mut w = n.clone();
            w.insert("temperature.sink", vec![x.t_sink]);
            let r = x.run();
            Some((x, r, w))
        }
        Image::Source(d) => {
            let Law::Approach(a) = s.hhx.law else { return None };
            let mut x = s.clone();
            x.t_source += d;
            x.hhx.law = Law::Approach(a + d);
            let mut w = n.clone();
            w.insert("temperature.source", vec![x.t_source]);
            let r = x.run();
            Some((x, r, w))
        }
        Image::Mirror => {
            let x = mirrored(s);
            let c = turned(s, x.components(), true, 0.0);
            let r = x.run_with(c, LibFluid::new(s.gas)).map(|mut o| {
                o.r.heat_flow.input = f64::NAN;
                o.r.heat_flow.rejection = f64::NAN;
                o.r.efficiency.mechanical = f64::NAN;
                o
            });
            Some((x, r, mirrored_results(n)))
        }
        Image::Crank(j) => {
            let k = o.n() - 1;
            let mut x = s.clone();
            x.p0 = o.v.p[j];
            let c = turned(s, x.components(), false, j as f64 / k as f64);
            let r = x.run_with(c, LibFluid::new(s.gas));
            let mut w = n.clone();
            for (name, series) in w.iter_mut() {
                if series.len() == o.n() && *name != "time" {
                    let old = series.clone();
                    for i in 0..=k {
                        series[i] = if i + j <= k { old[i + j] } else { old[i + j - k] };
                    }
                }
            }
            w.insert("pressure.t_zero", vec![x.p0]);
            Some((x, r, w))
        }
    }
}

pub fn c16(rep: &Report) {
    let mut cases = Vec::new();
    let mut fields = physics_fields();
    fields.extend(performance_fields());
    for (n, b) in bases() {
        let mut b = b.clone();
        b.outer = (1e-3, 3e-6);
        let k = if rep.thorough() && n == "fixed" { 2 } else { 1 };
        cases.extend(within(n, &b, &fields, k));
    }
    let images = images(rep.thorough());
    run_cases(rep, &C16, &cases, |c| c.label.clone(), |c| {
        rep.count("evaluations", 1);
        let Some(o) = run_case(rep, &c.label, &c.spec) else { return };
        counted(rep, &o);
        let n = named(&o);
        for (name, i) in &images {
            let Some((x, r, want)) = image(&c.spec, &o, &n, i) else { continue };
            rep.count("transitions", 1);
            rep.count(&format!("image: {}", name.split([' ', '+']).next().unwrap()), 1);
            match r {
                Ok(y) => {
                    counted(rep, &y);
                    let before = rep.violated();
                    if !compare(rep, name.split(" x").next().unwrap(), &c.label, &x, &named(&y), &want, 1e-4, 1e-4) && !before {
                        rep.extra("first violating image", serde_json::json!(name));
                    }
                }
                Err(e) if too_stiff(&c.spec) => rep.count(&format!("stiff {e}"), 1),
                Err(e) => rep.violation(&c.label, &c.label, format!("{name}: no result ({e}), although the original has one")),
            }
        }
    });
}

// ---------------------------------------------------------------- C19
pub const C19: Meta = Meta {
    level: "model_checking",
    rule: "states are operating points, transitions are runs from every initial guess of a lattice; every explored engine is run from every guess and compared with the run from the default guess and with an independently written engine",
    assumptions: &["operating points are compared at the size of the loop tolerances times their amplification"],
};

pub fn c19(rep: &Report) {
    let mut cases = Vec::new();
    let fields = physics_fields();
    for (n, b) in bases() {
        let mut b = b.clone();
        b.outer = (1e-3, 3e-6);
        let k = if rep.thorough() { 2 } else { 1 };
        cases.extend(within(n, &b, &fields, k));
    }
    let grid: &[f64] = if rep.thorough() { &[-20.0, 0.0, 30.0, 80.0] } else { &[0.0, 40.0] };
    run_cases(rep, &C19, &cases, |c| c.label.clone(), |c| {
        rep.count("evaluations", 1);
        let Some(o) = run_case(rep, &c.label, &c.spec) else { return };
        counted(rep, &o);
        let n = named(&o);
        match ref_engine(&c.spec, 0.3, 1e-10) {
            Ok(r) => {
                rep.count("reference_engines", 1);
                let l = &c.label;
                let t = [(o.temp.chx, r.temps.chx), (o.temp.cold, r.temps.cold), (o.temp.avg, r.temps.avg), (o.temp.hot, r.temps.hot), (o.temp.hhx, r.temps.hhx)];
                for (g, w) in t {
                    expect(rep, l, "temperature (reference)", g, w, 0.0, 1e-4);
                }
                let ms = r.vals.m.iter().map(|x| max_abs(x)).fold(0.0, f64::max);
                let qs = r.vals.q.iter().map(|x| max_abs(x)).fold(0.0, f64::max);
                for i in 0..o.n() {
                    expect(rep, l, "P (reference)", o.v.p[i], r.vals.p[i], 0.0, 1e-4);
                    expect(rep, l, "T_c (reference)", o.v.tc[i], r.vals.tc[i], 0.0, 3e-4);
                    expect(rep, l, "T_e (reference)", o.v.te[i], r.vals.te[i], 0.0, 3e-4);
                    for k in 0..4 {
                        expect(rep, l, "mass flow (reference)", o.v.m[k][i], r.vals.m[k][i], ms, 1e-3);
                    }
                    for k in 0..3 {
                        expect(rep, l, "heat flow (reference)", o.v.q[k][i], r.vals.q[k][i], qs, 1e-3);
                    }
                }
            }
            Err(_) => rep.count("reference_gave_up", 1),
        }
        for a in grid {
            for b in grid {
                for d in grid {
                    let mut s = c.spec.clone();
                    s.chx.init = Some(*a);
                    s.regen.init = Some(*b);
                    s.hhx.init = Some(*d);
                    rep.count("transitions", 1);
                    match s.run() {
                        Ok(y) => {
                            counted(rep, &y);
                            if !compare(rep, "guess", &c.label, &s, &named(&y), &n, 1e-4, 1e-4) {
                                rep.extra("first violating guess", serde_json::json!([a, b, d]));
                                return;
                            }
                        }
                        Err(e) if too_stiff(&s) => rep.count(&format!("stiff {e}"), 1),
                        Err(e) => {
                            rep.violation(&c.label, &c.label, format!("no result ({e}) from the guess ({a}, {b}, {d})"));
                            return;
                        }
                    }
                }
            }
        }
    });
}

