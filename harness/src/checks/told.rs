//! What components are shown of the running engine
use super::trace::{pressures, Dep, PressureDrive};
use super::*;
use sett_rs::types::ParasiticPower;
use sett_rs::{chx, hhx, regen, ws};
use std::sync::{Arc, Mutex};

pub const C23: Meta = Meta {
    level: "model_checking",
    rule: "states are outer iterations of explored engines, transitions are the answers of the components in between; every component is wrapped in a recorder, and the states that it is shown must be those of the cycle at the temperatures and drive of that iteration: its cycle is obtained from an engine with these constant temperatures and this constant drive, and all averages are recomputed from its instants",
    assumptions: &["how often and in which order components are asked is not judged, only what they are shown"],
};

#[derive(Default)]
struct Log {
    /// by heat exchanger: what it was shown when asked for its approach, and its answer
    approach: [Vec<(HxView, f64)>; 3],
    resistance: [Vec<HxView>; 3],
    parasitics: [Vec<HxView>; 3],
    /// what the drive was shown
    freq: Vec<[f64; 4]>,
    vols: Vec<[f64; 4]>,
    wall: Vec<[f64; 4]>,
    losses: Vec<[f64; 4]>,
    times: (f64, f64),
}

type Shared = Arc<Mutex<Log>>;

struct RecHx<T: ?Sized> {
    k: usize,
    inner: Box<T>,
    log: Shared,
}

fn view_of(h: &sett_rs::types::HeatExchanger, t1: f64, t2: f64) -> HxView {
    HxView { temp: h.temp, pres: h.pres, dens: h.dens, cp: h.cp, m_dot: h.m_dot, q_dot: h.Q_dot, t1, t2 }
}

macro_rules! rec_impl {
    ($tr:path, $st:path, $v:expr) => {
        impl $tr for RecHx<dyn $tr> {
            fn volume(&self) -> f64 {
                self.inner.volume()
            }
            fn approach(&self, s: &$st) -> f64 {
                let a = self.inner.approach(s);
                self.log.lock().unwrap().approach[self.k].push(($v(s), a));
                a
            }
            fn hydraulic_resistance(&self, s: &$st) -> f64 {
                self.log.lock().unwrap().resistance[self.k].push($v(s));
                self.inner.hydraulic_resistance(s)
            }
            fn parasitics(&self, s: &$st) -> ParasiticPower {
                self.log.lock().unwrap().parasitics[self.k].push($v(s));
                self.inner.parasitics(s)
            }
            fn initial_approach(&self) -> f64 {
                self.inner.initial_approach()
            }
        }
    };
}
rec_impl!(chx::ColdHeatExchanger, chx::State, |s: &chx::State| view_of(&s.hxr, s.sink_temp, 0.0));
rec_impl!(hhx::HotHeatExchanger, hhx::State, |s: &hhx::State| view_of(&s.hxr, s.source_temp, 0.0));
rec_impl!(regen::Regenerator, regen::State, |s: &regen::State| view_of(&s.hxr, s.temp_chx, s.temp_hhx));

struct RecWs {
    inner: Box<dyn ws::WorkingSpaces>,
    log: Shared,
}

impl ws::WorkingSpaces for RecWs {
    fn frequency(&self, s: &ws::State) -> f64 {
        self.log.lock().unwrap().freq.push(pressures(s));
        self.inner.frequency(s)
    }
    fn volumes(&self, s: &ws::State) -> Box<dyn Fn(f64) -> (ws::CompVolume, ws::ExpVolume)> {
        self.log.lock().unwrap().vols.push(pressures(s));
        let f = self.inner.volumes(s);
        let period = 1.0 / self.inner.frequency(s);
        let log = self.log.clone();
        Box::new(move |t| {
            let mut g = log.lock().unwrap();
            let x = t / period;
            g.times = (g.times.0.min(x), g.times.1.max(x));
            drop(g);
            f(t)
        })
    }
    fn thermal_resistance(&self, s: &ws::State) -> ws::ThermalResistance {
        self.log.lock().unwrap().wall.push(pressures(s));
        self.inner.thermal_resistance(s)
    }
    fn parasitics(&self, s: &ws::State) -> ws::Parasitics {
        self.log.lock().unwrap().losses.push(pressures(s));
        self.inner.parasitics(s)
    }
}

const TOL: f64 = 1e-5;

fn view_error(a: &HxView, b: &HxView) -> f64 {
    (0..8).map(|i| rel(a.field(i), b.field(i), if i == 5 { b.q_dot.abs() + 1e-2 * b.m_dot * b.cp * b.temp } else { 0.0 })).fold(0.0, f64::max)
}

fn pres_error(a: &[f64; 4], b: &[f64; 4]) -> f64 {
    (0..4).map(|i| rel(a[i], b[i], 0.0)).fold(0.0, f64::max)
}

fn nearest_view<'a>(v: &'a [(HxView, f64)], w: &HxView) -> Option<(&'a (HxView, f64), f64)> {
    v.iter().map(|x| (x, view_error(&x.0, w))).min_by(|a, b| a.1.total_cmp(&b.1))
}

fn check(rep: &Report, l: &str, s: &Spec, dep: Option<&Dep>) {
    rep.count("evaluations", 1);
    let log: Shared = Shared::default();
    let mut c = s.components();
    if let Some(d) = dep {
        c.ws = Box::new(PressureDrive::new(s, d));
    }
    let init = [c.chx.initial_approach(), c.regen.initial_approach(), c.hhx.initial_approach()];
    c.ws = Box::new(RecWs { inner: c.ws, log: log.clone() });
    c.chx = Box::new(RecHx { k: 0, inner: c.chx, log: log.clone() });
    c.regen = Box::new(RecHx { k: 1, inner: c.regen, log: log.clone() });
    c.hhx = Box::new(RecHx { k: 2, inner: c.hhx, log: log.clone() });
    let out = s.run_with(c, LibFluid::new(s.gas));
    let out = match out {
        Ok(o) => o,
        Err(Fail::Panic(m)) => return rep.violation(l, l, format!("panic: {m}")),
        Err(_) => return rep.count("no_result", 1),
    };
    let log = log.lock().unwrap();
    // Replay: one engine with constant components per outer iteration
    let mut a = init;
    let mut told = [s.p0; 4];
    let mut views: Vec<[HxView; 3]> = Vec::new();
    let mut states = vec![told];
    let n = (0..3).map(|k| log.approach[k].len()).max().unwrap_or(0);
    loop {
        let mut x = match dep {
            Some(d) => d.at(s, told),
            None => {
                let mut x = s.clone();
                if let Drive::Harm { f, f_pres, .. } = &mut x.drive {
                    *f = s.freq(told[0]);
                    *f_pres = 0.0;
                }
                x
            }
        };
        for (h, a) in [&mut x.chx, &mut x.regen, &mut x.hhx].into_iter().zip(a) {
            h.law = Law::Approach(a);
            h.init = None;
        }
        x.p0 = told[3];
        x.iters = (s.iters.0, 1);
        x.outer = (1e9, 1e9);
        let o = match x.run() {
            Ok(o) => o,
            Err(e) => return rep.violation(l, l, format!("iteration {}: an engine with its constant temperatures gives no result: {e}", views.len() + 1)),
        };
        let t = temps(s.t_sink, s.t_source, a);
        let w = cycle_views(&x, &o.v, &t);
        told = [w[0].pres, o.v.p.iter().fold(f64::MIN, |a, b| a.max(*b)), o.v.p.iter().fold(f64::MAX, |a, b| a.min(*b)), o.v.p[0]];
        for k in 0..3 {
            let name = ["chx", "regen", "hhx"][k];
            match nearest_view(&log.approach[k], &w[k]) {
                Some((x, e)) if e <= TOL => {
                    rep.maximum(&format!("{name} state"), e, l);
                    a[k] = x.1;
                }
                x => return rep.violation(l, l, format!("iteration {}: the {name} is never shown {:?}; nearest: {x:?}", views.len() + 1, w[k])),
            }
        }
        views.push(w);
        states.push(told);
        rep.count("states", 1);
        rep.count("transitions", 3);
        rep.observe(hash_f64(&[told[0], w[0].temp, w[1].m_dot, w[2].q_dot]));
        // Does this iteration change anything?
        let y = temps(s.t_sink, s.t_source, a);
        let same_temps = [(t.chx, y.chx), (t.cold, y.cold), (t.avg, y.avg), (t.hot, y.hot), (t.hhx, y.hhx)].iter().all(|p| within_tol(p.0, p.1, s.outer));
        if (same_temps && dep.is_none()) || views.len() >= n {
            break;
        }
    }
    rep.count("traces", 1);
    rep.set_insert("outer iterations", views.len().to_string());
    // Nothing else was shown to anyone
    for k in 0..3 {
        let name = ["chx", "regen", "hhx"][k];
        for (v, _) in &log.approach[k] {
            if !views.iter().any(|w| view_error(v, &w[k]) <= TOL) {
                return rep.violation(l, l, format!("the {name} is asked for its approach in a state that the engine never has: {v:?}"));
            }
        }
        let last = views.last().unwrap()[k];
        for (what, seen) in [("hydraulic resistance", &log.resistance[k]), ("parasitics", &log.parasitics[k])] {
            for v in seen {
                if view_error(v, &last) > TOL {
                    return rep.violation(l, l, format!("the {name} is asked for its {what} in state {v:?}, the final state is {last:?}"));
                }
            }
        }
    }
    for (what, seen) in [("frequency", &log.freq), ("volumes", &log.vols), ("thermal resistance", &log.wall), ("parasitics", &log.losses)] {
        for p in seen {
            let ok = if what == "parasitics" { pres_error(p, states.last().unwrap()) <= TOL } else { states.iter().any(|q| pres_error(p, q) <= TOL) };
            if !ok {
                return rep.violation(l, l, format!("the drive is asked for its {what} at pressures {p:?}, the engine has {states:?}"));
            }
        }
    }
    if !(log.times.0 >= 0.0 && log.times.1 <= 1.0 + 1e-6) {
        return rep.violation(l, l, format!("the drive is asked for volumes at {:?} of the cycle", log.times));
    }
    // The results are those of the last iteration
    let w = views.last().unwrap();
    for (k, name) in ["chx", "regen", "hhx"].into_iter().enumerate() {
        expect(rep, l, &format!("{name} mass flow"), out.m[k], w[k].m_dot, 0.0, TOL);
        expect(rep, l, &format!("{name} heat flow"), out.q[k], w[k].q_dot, 1e-2 * w[k].m_dot * w[k].cp * w[k].temp, TOL);
    }
    rep.sample(serde_json::json!({
        "case": l, "outer_iterations": views.len(),
        "calls": [log.approach[0].len(), log.approach[1].len(), log.approach[2].len(), log.freq.len(), log.vols.len(), log.wall.len()],
        "last_chx": format!("{:?}", w[0]),
    }));
}

pub fn c23(rep: &Report) {
    let mut items: Vec<(String, Spec, Option<Dep>)> = Vec::new();
    let mut cases = Vec::new();
    for (n, b) in bases() {
        cases.extend(within(n, &b, &physics_fields(), if rep.thorough() { 2 } else { 1 }));
    }
    for (n, b) in bases() {
        let mut b = b.clone();
        b.chx.law = Law::Approach(30.0);
        b.regen.law = Law::Approach(12.0);
        b.hhx.law = Law::Approach(60.0);
        b.res = 11;
        let k = if rep.thorough() { 3 } else if n == "fixed" { 2 } else { 1 };
        cases.extend(within(&format!("{n}/laws"), &b, &super::trace::law_fields(), k));
    }
    for c in cases {
        let mut s = c.spec;
        s.inner = (1e-6, 1e-9);
        items.push((c.label, s, None));
    }
    let all: Vec<[f64; 3]> = [0.0, 0.4, -0.3].iter().flat_map(|&a| [0.0, 0.5, -0.6].map(|b| [a, b, 0.0])).flat_map(|x| [x, [x[0], x[1], 1.0]]).collect();
    let some = [[0.4, 0.0, 0.0], [-0.3, 0.5, 0.0], [0.0, -0.6, 1.0]];
    let exps: &[[f64; 3]] = if rep.thorough() { &all } else { &some };
    for (n, b) in bases() {
        for pres in 0..4 {
            for &exp in exps {
                for laws in 0..3 {
                    let mut s = b.clone();
                    s.outer = (1e-3, 1e-6);
                    s.inner = (1e-6, 1e-9);
                    if s.rc.is_infinite() && exp[1] != 0.0 {
                        s.rc = 3.0;
                        s.re = 4.0;
                    }
                    match laws {
                        0 => {}
                        1 => s.chx.law = Law::Linear { a: 5.0, field: 5, k: 0.01 },
                        _ => {
                            s.hhx.law = Law::Ua(250.0);
                            s.regen.law = Law::Ua(4000.0);
                        }
                    }
                    let dep = Dep { exp, pres, field: 0 };
                    items.push((format!("drive:{n}:{exp:?} pressure {pres} laws {laws}"), s, Some(dep)));
                }
            }
        }
    }
    run_cases(rep, &C23, &items, |x| x.0.clone(), |(l, s, d)| check(rep, l, s, d.as_ref()));
}
