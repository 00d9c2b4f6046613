//! Checks of single components over lattices of their inputs: drives, gases,
//! heat exchanger laws and the regenerator's temperature profile.
use super::*;
use sett_rs::fluid::IdealGas;
use sett_rs::types::{HeatExchanger, ParasiticPower};
use sett_rs::ws::WorkingSpaces;
use sett_rs::{chx, hhx, regen, ws, Engine, LuSolver};
use std::f64::consts::PI;

/// States that working spaces are asked about, at several pressures
pub fn ws_states() -> Vec<ws::State> {
    [1e5, 2e6, 3e7]
        .iter()
        .map(|p| {
            let mut s = Spec::base_fixed();
            s.p0 = *p;
            s.inner = (1e9, 1e9);
            s.outer = (1e9, 1e9);
            s.ode = (1e-5, 1e-5);
            s.res = 3;
            Engine::run::<LuSolver>(s.components(), LibFluid::new(s.gas), s.inputs(), s.settings())
                .map(|e| e.state.ws())
                .map_err(|_| ())
                .expect("a simple engine should run")
        })
        .collect()
}

/// Maximum of a periodic function of one variable, to rounding
fn minimum(f: impl Fn(f64) -> f64, period: f64) -> f64 {
    let n = 240;
    let k = (0..n).min_by(|a, b| f(period * *a as f64 / n as f64).total_cmp(&f(period * *b as f64 / n as f64))).unwrap();
    let (mut a, mut b) = (period * (k as f64 - 1.0) / n as f64, period * (k as f64 + 1.0) / n as f64);
    for _ in 0..80 {
        let (x, y) = (a + (b - a) * 0.382, a + (b - a) * 0.618);
        if f(x) < f(y) {
            b = y;
        } else {
            a = x;
        }
    }
    f(0.5 * (a + b))
}

// ---------------------------------------------------------------- C09
pub const C09: Meta = Meta {
    level: "model_checking",
    rule: "states are crank positions of every drive on a lattice of geometries, frequencies and phase angles (built through the API and from configurations); volumes and their rates are compared with an independent crank model, and extremes and periodicity are checked",
    assumptions: &["geometries for which the linkage can turn"],
};

pub fn c09(rep: &Report) {
    let mut items: Vec<(String, Drive)> = Vec::new();
    let mut phases: Vec<f64> = if rep.thorough() { (-24..=30).map(|k| 15.0 * k as f64).collect() } else { (-4..=6).map(|k| 75.0 * k as f64).collect() };
    phases.extend([-90.0, 90.0, 180.0, 270.0, 1000.0]);
    let freqs: &[f64] = if rep.thorough() { &[0.01, 0.1, 1.0, 33.3, 50.0, 66.6667, 200.0, 1000.0, 5000.0] } else { &[0.05, 1.0, 66.6667, 3000.0] };
    let sw = [0.0, 1e-5, 1.128e-4, 5e-3];
    let cl = [0.0, 1e-6, 4.68e-5];
    for &f in freqs {
        for &phase in &phases {
            for a in sw {
                for b in cl {
                    for c in sw {
                        for d in cl {
                            items.push((format!("sin f={f} phase={phase} c=({a:e},{b:e}) e=({c:e},{d:e})"), Drive::Sin { f, phase, comp: (a, b), exp: (c, d) }));
                        }
                    }
                }
            }
        }
        for r in [0.002, 0.005, 0.01397, 0.02] {
            for l in [0.04602, 0.05, 0.06, 0.1] {
                for e in [0.0, 0.01, 0.02065, 0.03] {
                    if l - r <= e * 1.02 || l <= (e + r) * 1.02 {
                        continue;
                    }
                    for dp in [0.03, 0.0698, 0.1] {
                        for dd in [0.03, 0.0696, 0.09] {
                            for (vcc, vce) in [(5.785e-6, 4.13e-6), (1e-4, 0.0), (0.0, 9e-5)] {
                                items.push((format!("rhombic f={f} r={r} l={l} e={e} dp={dp} dd={dd} v=({vcc:e},{vce:e})"), Drive::Rhombic { f, vcc, vce, r, l, e, dp, dd }));
                            }
                        }
                    }
                }
            }
        }
    }
    let most = if rep.thorough() { 97 } else { 37 };
    // every eighth of a degree for some of the drives
    let dense: std::collections::HashSet<String> = items.iter().map(|x| x.0.clone()).step_by(211).collect();
    run_cases(rep, &C09, &items, |x| x.0.clone(), |(l, d)| {
        let n = if dense.contains(l) { 2881 } else { most };
        rep.count("traces", 1);
        let states = STATES.with(|s| {
            if s.borrow().is_empty() {
                *s.borrow_mut() = ws_states();
            }
            s.clone()
        });
        let states = states.borrow();
        let mut s = Spec::base_fixed();
        s.drive = d.clone();
        s.rc = 0.37;
        s.re = 1.7;
        s.par_c = pp(0.0, 3.0, 0.0);
        s.par_e = pp(5.0, 7.0, 0.0);
        let f = s.freq(0.0);
        let period = 1.0 / f;
        for (variant, drive) in drives(&s) {
            for st in states.iter() {
                expect(rep, l, "frequency", drive.frequency(st), f, 0.0, 1e-15);
                let r = drive.thermal_resistance(st);
                expect(rep, l, "resistance c", r.comp, s.rc, 0.0, 1e-15);
                expect(rep, l, "resistance e", r.exp, s.re, 0.0, 1e-15);
                let p = drive.parasitics(st);
                if p.comp != s.par_c || p.exp != s.par_e {
                    rep.violation(l, l, format!("{variant}: parasitics {p:?}"));
                }
                let vols = drive.volumes(st);
                let at = |t: f64| {
                    let (c, e) = vols(t);
                    [c.value, c.deriv, e.value, e.deriv]
                };
                // scale of the volume changes
                let big = (0..n).map(|i| { let v = s.drive.vols(period * i as f64 / (n - 1) as f64, f); [v.c, v.dc.abs(), v.e, v.de.abs()] })
                    .fold([0.0f64; 4], |a, b| [a[0].max(b[0]), a[1].max(b[1]), a[2].max(b[2]), a[3].max(b[3])]);
                for i in 0..n {
                    let t = period * i as f64 / (n - 1) as f64;
                    rep.count("states", 1);
                    rep.count("transitions", u64::from(i > 0));
                    let g = at(t);
                    let w = s.drive.vols(t, f);
                    let w = [w.c, w.dc, w.e, w.de];
                    for k in 0..4 {
                        let name = ["V_c", "dV_c/dt", "V_e", "dV_e/dt"][k];
                        if !expect(rep, l, name, g[k], w[k], big[k], 1e-9) {
                            return;
                        }
                    }
                    let g2 = at(t + period);
                    for k in 0..4 {
                        expect(rep, l, "periodicity", g2[k], g[k], big[k], 1e-9);
                    }
                    // the rate is the derivative of the reported volume
                    let h = period * 1e-4;
                    let (a, b) = (at(t - h), at(t + h));
                    for (v, dv) in [(0, 1), (2, 3)] {
                        let num = (b[v] - a[v]) / (2.0 * h);
                        expect(rep, l, "numerical rate", num, g[dv], big[dv].max(big[v] * f), 1e-5);
                    }
                }
                rep.observe(hash_f64(&at(period / 3.0)));
                // extremes
                let want = match *d {
                    Drive::Sin { comp, exp, .. } => [comp.1, comp.0 + comp.1, exp.1, exp.0 + exp.1],
                    Drive::Rhombic { vcc, vce, r, l, e, dp, dd, .. } => {
                        let b = |x: f64| (l * l - x * x).sqrt();
                        [
                            vcc,
                            vcc + PI * dp * dp / 2.0 * (b((e - r).max(0.0)) - b(e + r)),
                            vce,
                            vce + PI * dd * dd / 4.0 * (b2(l + r, e) - b2(l - r, e)),
                        ]
                    }
                    Drive::Harm { .. } => unreachable!(),
                };
                let got = [
                    minimum(|t| at(t)[0], period),
                    -minimum(|t| -at(t)[0], period),
                    minimum(|t| at(t)[2], period),
                    -minimum(|t| -at(t)[2], period),
                ];
                for k in 0..4 {
                    let name = ["clearance c", "largest c", "clearance e", "largest e"][k];
                    expect(rep, l, name, got[k], want[k], 1e-4 * want[k | 1], 1e-8);
                }
            }
        }
        if rep.thorough() || l.ends_with("v=(5.785e-6,4.13e-6)") {
            rep.sample(serde_json::json!({"drive": l}));
        }
    });
}

fn b2(a: f64, e: f64) -> f64 {
    (a * a - e * e).sqrt()
}

thread_local! {
    static STATES: std::rc::Rc<std::cell::RefCell<Vec<ws::State>>> = std::rc::Rc::default();
}

/// Every way of building the drive of a specification
fn drives(s: &Spec) -> Vec<(&'static str, Box<dyn WorkingSpaces>)> {
    let mut out: Vec<(&'static str, Box<dyn WorkingSpaces>)> = Vec::new();
    match s.drive {
        Drive::Sin { f, phase, comp, exp } => {
            out.push(("api", s.components().ws));
            let t = format!(
                "[sinusoidal]\nfrequency={}\nphase_angle={}\nV_swept_c={}\nV_clearance_c={}\nR_c={}\nW_parasitic_c={}\nV_swept_e={}\nV_clearance_e={}\nR_e={}\nW_parasitic_e={}\nQ_parasitic_e={}\n",
                tf(f), tf(phase), tf(comp.0), tf(comp.1), tf(s.rc), tf(s.par_c.mechanical), tf(exp.0), tf(exp.1), tf(s.re), tf(s.par_e.mechanical), tf(s.par_e.thermal)
            );
            if let Ok(ws::Config::Sinusoidal(c)) = parse_toml::<ws::Config>(&t) {
                out.push(("config", Box::<ws::SinusoidalDrive>::new(c.into())));
            } else {
                panic!("sinusoidal drive configuration was rejected");
            }
        }
        Drive::Rhombic { f, vcc, vce, r, l, e, dp, dd } => {
            let t = format!(
                "[rhombic]\nfrequency={}\nV_clearance_c={}\nR_c={}\nW_parasitic_c={}\nV_clearance_e={}\nR_e={}\nW_parasitic_e={}\nQ_parasitic_e={}\nr_crank={}\nL_conn={}\neccentricity={}\nD_p={}\nD_d={}\n",
                tf(f), tf(vcc), tf(s.rc), tf(s.par_c.mechanical), tf(vce), tf(s.re), tf(s.par_e.mechanical), tf(s.par_e.thermal), tf(r), tf(l), tf(e), tf(dp), tf(dd)
            );
            if let Ok(ws::Config::Rhombic(c)) = parse_toml::<ws::Config>(&t) {
                out.push(("config", Box::<ws::RhombicDrive>::new(c.into())));
            } else {
                panic!("rhombic drive configuration was rejected");
            }
        }
        Drive::Harm { .. } => {}
    }
    out
}

// ---------------------------------------------------------------- C10, C11
pub const C10: Meta = Meta {
    level: "model_checking",
    rule: "states are points of a temperature and pressure lattice for every built-in gas, transitions connect neighbouring points; densities are compared with the ideal gas law, heat capacities with published values, and each derivative with the difference quotient of the function it belongs to",
    assumptions: &["gas data: CODATA/NIST values"],
};

pub const C11: Meta = Meta {
    level: "model_checking",
    rule: "every built-in gas at every point of a temperature and pressure lattice: enthalpy minus internal energy is compared with pressure over density",
    assumptions: &[],
};

fn lattice(rep: &Report) -> Vec<(Gas, f64, f64)> {
    let mut v = Vec::new();
    let (nt, np) = if rep.thorough() { (400, 60) } else { (120, 16) };
    for g in [Gas::He, Gas::H2] {
        for i in 0..nt {
            let t = 2.0 * (4000.0f64 / 2.0).powf(i as f64 / (nt - 1) as f64);
            for j in 0..np {
                v.push((g, t, 1e10f64.powf(j as f64 / (np - 1) as f64)));
            }
        }
        // every kelvin, and around temperatures that a formula could treat
        // on their own (references, ends of ranges)
        let mut ts: Vec<f64> = (2..=if rep.thorough() { 16_000 } else { 4000 }).map(|k| k as f64 * if rep.thorough() { 0.25 } else { 1.0 }).collect();
        for t in [0.0, 20.28, 100.0, 200.0, 250.0, 273.15, 293.15, 298.15, 300.0, 500.0, 700.0, 900.0, 1000.0, 1500.0, 2000.0, 2500.0, 3000.0] {
            for d in [0.0, 1e-9, 1e-6, 1e-4, 1e-3, 0.01, 0.05, 0.1, 0.25, 0.5, 0.75] {
                ts.extend([t - d, t + d]);
            }
        }
        for t in ts.into_iter().filter(|t| *t >= 1.0) {
            for p in [1e3, 101_325.0, 1e6, 2e7] {
                v.push((g, t, p));
            }
        }
        // and around such pressures
        for p in [1e5, 101_325.0, 1e6, 1e7, 2e7, 1e8] {
            for d in [0.0, 1e-9, 1e-6, 1e-4, 1e-3, 1e-2, 0.05] {
                for t in [77.0, 250.0, 300.0, 640.0, 1100.0] {
                    v.extend([(g, t, p * (1.0 - d)), (g, t, p * (1.0 + d))]);
                }
            }
        }
    }
    v
}

fn deriv(f: impl Fn(f64) -> f64, x: f64) -> f64 {
    let h = x * 2e-3;
    // fourth order central difference
    (8.0 * (f(x + h) - f(x - h)) - (f(x + 2.0 * h) - f(x - 2.0 * h))) / (12.0 * h)
}

pub fn c10(rep: &Report) {
    let pts = lattice(rep);
    run_cases(rep, &C10, &pts, |x| format!("{:?} T={} P={:e}", x.0, x.1, x.2), |(g, t, p)| {
        let (t, p) = (*t, *p);
        let l = format!("{g:?} T={t} P={p:e}");
        let f = LibFluid::new(*g);
        rep.count("states", 1);
        rep.count("transitions", 4);
        rep.count("traces", 1);
        // gas law with the gas constant R/M
        let m = if *g == Gas::He { 4.002602e-3 } else { 2.01588e-3 };
        let r = 8.314_462_618 / m;
        expect(rep, &l, "density", f.dens(t, p), p / (r * t), 0.0, 2e-4);
        expect(rep, &l, "d(density)/dP", f.dd_dP_T(t, p), deriv(|x| f.dens(t, x), p), 0.0, 1e-7);
        expect(rep, &l, "d(density)/dT", f.dd_dT_P(t, p), deriv(|x| f.dens(x, p), t), 0.0, 1e-7);
        let cp = f.cp(t, p);
        expect(rep, &l, "du/dP", f.du_dP_T(t, p), deriv(|x| f.inte(t, x), p), cp * t / p, 1e-7);
        // du/dT = cp - R for an ideal gas (Mayer)
        expect(rep, &l, "Mayer's relation", cp - f.du_dT_P(t, p), r, 0.0, 2e-4);
        let dh = deriv(|x| f.enth(x, p), t);
        let du = deriv(|x| f.inte(x, p), t);
        if *g == Gas::H2 {
            if rel(dh, cp, 0.0) > 1e-5 || rel(du, f.du_dT_P(t, p), 0.0) > 1e-5 {
                // Recorded finding: the enthalpy is (T - Tref) times the averaged
                // polynomial.  Anything else is a different violation.
                let averaged = deriv(|x| x * f.enth(x, p) / (x - 250.0), t);
                expect(rep, &l, "cp (of the recorded enthalpy)", averaged, cp, 0.0, 1e-5);
                let want = Gas::H2.du_dt_actual(t, p) + Gas::H2.gas_constant();
                expect(rep, &l, "dh/dT (as recorded)", dh, want, cp, 1e-6);
                expect(rep, &l, "du/dT (as recorded)", du, want - Gas::H2.gas_constant(), cp, 1e-6);
                rep.violation("ideal-gas-hydrogen-enthalpy", &l, "dh/dT is not cp");
            }
            // Shomate equations, J/mol-K (NIST WebBook); the library's
            // polynomial ends at 1500 K
            if (298.0..=1500.0).contains(&t) {
                let c = if t < 1000.0 { [33.066178, -11.363417, 11.432816, -2.772874, -0.158558] } else { [18.563083, 12.257357, -2.859786, 0.268238, 1.977990] };
                let x = t / 1000.0;
                let nist = (c[0] + c[1] * x + c[2] * x * x + c[3] * x * x * x + c[4] / (x * x)) / m;
                expect(rep, &l, "cp of hydrogen (Shomate)", cp, nist, 0.0, 1e-2);
            }
        } else {
            expect(rep, &l, "dh/dT", dh, cp, 0.0, 1e-6);
            expect(rep, &l, "du/dT", du, f.du_dT_P(t, p), 0.0, 1e-6);
        }
        // published heat capacities
        if *g == Gas::He {
            expect(rep, &l, "cp of helium", cp, 2.5 * r, 0.0, 1e-3);
        }
        rep.observe(hash_f64(&[f.dens(t, p), f.enth(t, p)]));
        rep.sample(serde_json::json!({"gas": format!("{g:?}"), "T": t, "P": p, "dens": f.dens(t, p), "cp": cp, "dh/dT": dh}));
    });
    // hydrogen, J/kg-K (NIST WebBook, ideal gas)
    for (t, cp) in [(300.0, 14307.0), (400.0, 14476.0), (500.0, 14513.0), (700.0, 14604.0), (900.0, 14882.0), (1000.0, 15000.0)] {
        let l = format!("cp of hydrogen at {t} K");
        let f = IdealGas::hydrogen();
        rep.count("states", 1);
        expect(rep, &l, "cp of hydrogen", sett_rs::fluid::Fluid::cp(&f, t, 1e5), cp, 0.0, 1e-2);
    }
    // every property of every gas, straight after every other one
    let mut calls: Vec<(Gas, usize, f64, f64)> = Vec::new();
    for g in [Gas::He, Gas::H2] {
        for k in 0..8 {
            for t in [300.0, 301.0, 900.0] {
                for p in [1e5, 4e6] {
                    calls.push((g, k, t, p));
                }
            }
        }
    }
    let call = |(g, k, t, p): &(Gas, usize, f64, f64)| {
        let f = LibFluid::new(*g);
        let all: [&dyn Fn(f64, f64) -> f64; 8] = [
            &|t, p| f.dens(t, p),
            &|t, p| f.enth(t, p),
            &|t, p| f.inte(t, p),
            &|t, p| f.cp(t, p),
            &|t, p| f.dd_dP_T(t, p),
            &|t, p| f.dd_dT_P(t, p),
            &|t, p| f.du_dP_T(t, p),
            &|t, p| f.du_dT_P(t, p),
        ];
        all[*k](*t, *p)
    };
    let fresh: Vec<f64> = calls.iter().map(|c| std::thread::scope(|s| s.spawn(|| call(c)).join().unwrap_or(f64::NAN))).collect();
    let firsts: Vec<usize> = (0..calls.len()).collect();
    run_cases(rep, &C10, &firsts, |i| format!("after {:?}", calls[*i]), |&i| {
        for (c, want) in calls.iter().zip(&fresh) {
            let a = call(&calls[i]);
            let b = call(c);
            rep.count("pairs_of_evaluations", 1);
            if a.to_bits() != fresh[i].to_bits() || b.to_bits() != want.to_bits() {
                let l = format!("after {:?}", calls[i]);
                return rep.violation(&l, &l, format!("{c:?} gives {b}, alone {want}"));
            }
        }
    });
    if format!("{:?} {:?}", IdealGas::helium().name(), IdealGas::hydrogen().name()) != "Helium Hydrogen" {
        rep.violation("name", "name", "gases are named wrongly");
    }
}

pub fn c11(rep: &Report) {
    let pts = lattice(rep);
    run_cases(rep, &C11, &pts, |x| format!("{:?} T={} P={:e}", x.0, x.1, x.2), |(g, t, p)| {
        let (t, p) = (*t, *p);
        let l = format!("{g:?} T={t} P={p:e}");
        let f = LibFluid::new(*g);
        rep.count("states", 1);
        rep.count("transitions", 1);
        rep.count("traces", 1);
        let pv = p / f.dens(t, p);
        let d = f.enth(t, p) - f.inte(t, p);
        rep.observe(hash_f64(&[d]));
        rep.sample(serde_json::json!({"gas": format!("{g:?}"), "T": t, "P": p, "h-u": d, "P/rho": pv}));
        // Recorded finding: a constant offset of R Tref
        let offset = -g.gas_constant() * 250.0;
        let scale = f.enth(t, p).abs() + pv;
        let recorded = rel(d, pv + offset, scale);
        let holds = rel(d, pv, scale);
        rep.maximum("deviation from P/rho beyond the recorded offset", recorded.min(holds), &l);
        if holds > 1e-9 {
            if recorded > 1e-9 {
                rep.violation(&l, &l, format!("h - u = {d:e}, P/rho = {pv:e}"));
            } else {
                rep.violation("ideal-gas-flow-work", &l, "h - u = P/rho - R Tref");
            }
        }
    });
}

// ---------------------------------------------------------------- C17
pub const C17: Meta = Meta {
    level: "model_checking",
    rule: "states are heat exchanger states on a lattice (capacity rates, heat flows, temperatures of both signs of driving force), for every heat exchanger component built through the API and from configurations; the approach is judged by the heat balance it must satisfy",
    assumptions: &["flows and heat flows are not zero"],
};

struct Parts {
    vol: f64,
    r: f64,
    init: f64,
    par: ParasiticPower,
    approach: Box<dyn Fn(&HeatExchanger, f64, f64) -> f64>,
    pars: Box<dyn Fn(&HeatExchanger, f64, f64) -> (ParasiticPower, f64)>,
}

fn parts(kind: usize, ua: Option<f64>, dt: f64, vol: f64, r: f64, par: ParasiticPower, config: bool) -> Parts {
    macro_rules! mk {
        ($c:expr, $st:expr) => {{
            let c = std::rc::Rc::new($c);
            let c2 = c.clone();
            Parts {
                vol: c.volume(),
                r,
                init: c.initial_approach(),
                par,
                approach: Box::new(move |h, a, b| c.approach(&$st(h, a, b))),
                pars: Box::new(move |h, a, b| (c2.parasitics(&$st(h, a, b)), c2.hydraulic_resistance(&$st(h, a, b)))),
            }
        }};
    }
    let cs = |h: &HeatExchanger, a: f64, _b: f64| chx::State { hxr: *h, sink_temp: a };
    let hs = |h: &HeatExchanger, a: f64, _b: f64| hhx::State { hxr: *h, source_temp: a };
    let rs = |h: &HeatExchanger, a: f64, b: f64| regen::State { hxr: *h, temp_chx: a, temp_hhx: b };
    let val = match ua {
        Some(u) => format!("[fixed_conductance]\nUA={}\n", tf(u)),
        None => format!("[fixed_approach]\nDT={}\n", tf(dt)),
    };
    let common = format!("{val}vol={}\nR_hyd={}\n", tf(vol), tf(r));
    use chx::ColdHeatExchanger;
    use hhx::HotHeatExchanger;
    use regen::Regenerator;
    match (kind, ua, config) {
        (0, None, false) => mk!(chx::FixedApproach::new(vol, r, dt, par), cs),
        (0, Some(u), false) => mk!(chx::FixedConductance::new(vol, r, u, par), cs),
        (1, None, false) => mk!(regen::FixedApproach::new(vol, r, dt, par), rs),
        (1, Some(u), false) => mk!(regen::FixedConductance::new(vol, r, u, par), rs),
        (2, None, false) => mk!(hhx::FixedApproach::new(vol, r, dt, par), hs),
        (2, Some(u), false) => mk!(hhx::FixedConductance::new(vol, r, u, par), hs),
        (0, ..) => match parse_toml::<chx::Config>(&format!("{common}W_parasitic={}\n", tf(par.mechanical))).expect("chx config") {
            chx::Config::FixedApproach(c) => mk!(chx::FixedApproach::from(c), cs),
            chx::Config::FixedConductance(c) => mk!(chx::FixedConductance::from(c), cs),
            _ => unreachable!(),
        },
        (1, ..) => match parse_toml::<regen::Config>(&format!("{common}Q_parasitic={}\n", tf(par.thermal))).expect("regen config") {
            regen::Config::FixedApproach(c) => mk!(regen::FixedApproach::from(c), rs),
            regen::Config::FixedConductance(c) => mk!(regen::FixedConductance::from(c), rs),
            _ => unreachable!(),
        },
        _ => match parse_toml::<hhx::Config>(&format!("{common}W_parasitic={}\nQ_parasitic={}\n", tf(par.mechanical), tf(par.thermal))).expect("hhx config") {
            hhx::Config::FixedApproach(c) => mk!(hhx::FixedApproach::from(c), hs),
            hhx::Config::FixedConductance(c) => mk!(hhx::FixedConductance::from(c), hs),
            _ => unreachable!(),
        },
    }
}

pub fn c17(rep: &Report) {
    let mut items = Vec::new();
    let uas: Vec<Option<f64>> = std::iter::once(None).chain([1.0, 20.0, 150.0, 3000.0, 7e4].into_iter().map(Some)).collect();
    for kind in 0..3usize {
        for &ua in &uas {
            for dt in [-20.0, 0.0, 40.0] {
                for vol in [0.0, 4e-5, 2e-3] {
                    for r in [0.0, 1e4, 5e7] {
                        for config in [false, true] {
                            items.push((kind, ua, dt, vol, r, config));
                        }
                    }
                }
            }
        }
    }
    let name = |x: &(usize, Option<f64>, f64, f64, f64, bool)| {
        format!("{} ua={:?} dt={} vol={:e} r={:e} config={}", ["chx", "regen", "hhx"][x.0], x.1, x.2, x.3, x.4, x.5)
    };
    run_cases(rep, &C17, &items, name, |x| {
        let l = name(x);
        let (kind, ua, dt, vol, r, config) = *x;
        let par = match (config, kind) {
            (false, _) => pp(3.0, 5.0, 7.0),
            (true, 0) => pp(0.0, 5.0, 0.0),
            (true, 1) => pp(3.0, 0.0, 0.0),
            _ => pp(3.0, 5.0, 0.0),
        };
        let c = parts(kind, ua, dt, vol, r, par, config);
        expect(rep, &l, "volume", c.vol, vol, 0.0, 1e-15);
        match ua {
            // a fixed approach is known beforehand
            None => {
                expect(rep, &l, "initial approach", c.init, dt, 0.0, 1e-15);
            }
            Some(_) => {
                if !c.init.is_finite() {
                    rep.violation(&l, &l, format!("initial approach {}", c.init));
                }
            }
        }
        rep.count("traces", 1);
        let sub: &[f64] = if rep.thorough() { &[0.0, 0.25, 0.5, 0.75] } else { &[0.0] };
        for m0 in [1e-14, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.1, 1.0, 30.0, 1e3] {
            for q0 in [-2000.0, -10.0, 1.0, 50.0, 1500.0, 4e4] {
                for cp in [1500.0, 5193.17, 15000.0] {
                    for (t1, t2) in [(20.0, 40.0), (300.0, 301.0), (300.0, 900.0), (900.0, 300.0), (1200.0, 3000.0)] {
                        for sm in sub {
                            let m = m0 * 10f64.powf(*sm);
                            let q = q0 * 2.7f64.powf(*sm);
                            rep.count("states", 1);
                            let h = HeatExchanger { temp: 0.5 * (t1 + t2), pres: 2e6, dens: 3.0, cp, m_dot: m, Q_dot: q };
                            let a = (c.approach)(&h, t1, t2);
                            let (p, rh) = (c.pars)(&h, t1, t2);
                            rep.observe(hash_f64(&[a]));
                            if p != c.par {
                                rep.violation(&l, &l, format!("parasitics {p:?} instead of {:?}", c.par));
                                return;
                            }
                            expect(rep, &l, "hydraulic resistance", rh, c.r, 0.0, 1e-15);
                            // neither pressure, density nor absolute temperature matter
                            rep.count("transitions", 1);
                            let h2 = HeatExchanger { temp: 77.0, pres: 9e6, dens: 40.0, ..h };
                            let shift = if kind == 1 { (t1 + 11.0, t2 + 11.0) } else { (t1 + 500.0, t2) };
                            let b = (c.approach)(&h2, shift.0, shift.1);
                            expect(rep, &l, "approach depends on unrelated state", b, a, 0.0, 1e-9);
                            let Some(ua) = ua else {
                                expect(rep, &l, "fixed approach", a, dt, 0.0, 1e-15);
                                continue;
                            };
                            let cap = cp * m;
                            if kind == 1 {
                                // heat taken up by the gas = heat passed by the matrix
                                let (x, y) = (cap * ((t2 - t1) - a), 0.5 * ua * a);
                                expect(rep, &l, "regenerator balance", x, y, cap * (t2 - t1).abs(), 1e-9 + 1e-14 * ua / cap);
                            } else {
                                if ua / cap < 8.0 {
                                    // Q = UA * LMTD, between the differences A + Q/C and A
                                    let ntu = (q / cap / a).ln_1p();
                                    expect(rep, &l, "log mean balance", ntu, ua / cap, 0.0, 1e-9 + 1e-14 / (ua / cap));
                                }
                                let want = q / cap / (ua / cap).exp_m1();
                                // exp(x) - 1 has few digits for small x
                                    expect(rep, &l, "approach", a, want, q / cap, 1e-10 + 1e-14 / (ua / cap));
                            }
                        }
                    }
                }
            }
        }
        rep.sample(serde_json::json!({"component": l}));
    });
}

// ---------------------------------------------------------------- C18
pub const C18: Meta = Meta {
    level: "model_checking",
    rule: "states are reported heat exchanger temperatures for every combination on a lattice of sink and source temperatures and the three approaches, including equal and almost equal ends; transitions are the steps between neighbouring approaches (continuity)",
    assumptions: &["positive temperatures"],
};

pub fn c18(rep: &Report) {
    let mut items = Vec::new();
    let mut sinks = vec![(300.0, 900.0), (300.0, 300.0), (250.0, 2500.0), (900.0, 300.0), (400.0, 480.0)];
    sinks.extend([(150.0, 160.0), (700.0, 701.0), (350.0, 350.0000001), (1000.0, 500.0), (300.0, 3000.0)]);
    if rep.thorough() {
        sinks.extend([(200.0, 210.0), (300.0, 301.0), (300.0, 305.0), (300.0, 320.0), (300.0, 350.0), (300.0, 400.0), (300.0, 450.0), (290.0, 1200.0), (450.0, 300.0), (320.0, 300.0)]);
    }
    let ac: &[f64] = &[-40.0, -1.0, 0.0, 1e-6, 10.0, 40.0];
    let ah: &[f64] = ac;
    let ar: Vec<f64> = (-60..=120).map(|k| k as f64).chain([1e-12, 1e-9, 1e-6, 1e-3, -1e-9, 0.5, 599.9999, 200.0, 300.0, 400.0, 500.0]).collect();
    for &(a, b) in &sinks {
        for &c in ac {
            for &h in ah {
                for &r in &ar {
                    if a + c + r < 50.0 || b - h - r < 50.0 {
                        continue;
                    }
                    items.push((a, b, c, r, h));
                }
            }
        }
    }
    // ends that (almost) coincide
    for eps in [0.0, 1e-13, -1e-13, 1e-11, 1e-9, -1e-9, 1e-7, 1e-5, -1e-5, 1e-3, 0.1, -0.1] {
        for base in [200.0, 300.0, 333.3, 1000.0] {
            items.push((base, base + eps, 0.0, 0.0, 0.0));
            items.push((base, base + 100.0 + eps, 40.0, 0.0, 60.0));
            items.push((base, base + 110.0 + eps, 40.0, 10.0, 60.0));
        }
    }
    let name = |x: &(f64, f64, f64, f64, f64)| format!("sink={} source={} approaches=({:e},{:e},{:e})", x.0, x.1, x.2, x.3, x.4);
    run_cases(rep, &C18, &items, name, |x| {
        let l = name(x);
        let (sink, source, c, r, h) = *x;
        let run = |r: f64| {
            let mut s = Spec::base_fixed();
            s.gas = Gas::HeC;
            s.t_sink = sink;
            s.t_source = source;
            s.chx.law = Law::Approach(c);
            s.regen.law = Law::Approach(r);
            s.hhx.law = Law::Approach(h);
            s.inner = (1e9, 1e9);
            s.outer = (1e9, 1e9);
            s.ode = (1e-4, 1e-4);
            s.res = 2;
            s.run()
        };
        let o = match run(r) {
            Ok(o) => o,
            Err(e) => {
                rep.violation(&l, &l, format!("no result: {e}"));
                return;
            }
        };
        rep.count("states", 1);
        rep.count("traces", 1);
        let w = temps(sink, source, [c, r, h]);
        for (n, got, want) in [
            ("chx", o.temp.chx, w.chx),
            ("regen cold", o.temp.cold, w.cold),
            ("regen hot", o.temp.hot, w.hot),
            ("hhx", o.temp.hhx, w.hhx),
        ] {
            expect(rep, &l, n, got, want, 0.0, 1e-14);
        }
        expect(rep, &l, "regen avg", o.temp.avg, w.avg, 0.0, 1e-9);
        rep.observe(hash_f64(&[o.temp.avg]));
        rep.sample(serde_json::json!({"case": l, "avg": o.temp.avg, "cold": o.temp.cold, "hot": o.temp.hot}));
        let (a, b) = (o.temp.chx + 0.5 * r, o.temp.hhx - 0.5 * r);
        let (lo, hi) = (a.min(b), a.max(b));
        if !(o.temp.avg >= lo * (1.0 - 1e-12) && o.temp.avg <= hi * (1.0 + 1e-12)) {
            rep.violation(&l, &l, format!("average {} is not between {lo} and {hi}", o.temp.avg));
        }
        // continuity
        if let Ok(o2) = run(r + 1e-7) {
            rep.count("transitions", 1);
            expect(rep, &l, "continuity", o2.temp.avg, o.temp.avg, 0.0, 1e-8);
        }
    });
}
