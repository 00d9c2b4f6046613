//! Fault enumeration: every call to the environment during bounded runs, and
//! every extreme value of every setting.  The runs take place in worker
//! processes with limited memory, so that hangs, aborts and unbounded
//! allocations end in a verdict.
use super::*;
use sett_rs::types::{HeatExchanger, ParasiticPower};
use sett_rs::{chx, hhx, regen, ws, Engine, LuSolver, QrSolver, SvdDefaultSolver};
use std::cell::{Cell, RefCell};
use std::io::{BufRead, Write};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc;
use std::time::Duration;

pub const C15: Meta = Meta {
    level: "fault_enumeration",
    rule: "an evaluation is a run with one fault (kind of wrong value, at one call to one function of gas, drive or heat exchanger, once or from then on) or with one or two extreme settings; distinct and non-trivial are evaluations by their outcome: site, kind, error or the results' bits",
    assumptions: &[
        "hydraulic resistances and parasitics enter only the final arithmetic and are not faulted",
        "efficiency is exempt where no heat is put in",
        "a run that takes longer than the hang limit, or more than 3 GB, is taken to go on forever",
    ],
};

pub const KINDS: [&str; 8] = ["NaN", "inf", "-inf", "zero", "negative", "huge", "tiny", "doubled"];

/// Not a wrong value, but one that never settles (for approach temperatures)
const ALTERNATING: usize = 8;

fn wrong(kind: usize, x: f64, n: u64) -> f64 {
    match kind {
        ALTERNATING => x + if n % 2 == 0 { 40.0 } else { -10.0 },
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => 0.0,
        4 => -x,
        5 => x * 1e200,
        6 => x * 1e-200,
        _ => x * 2.0,
    }
}

pub const SITES: [&str; 21] = [
    "dens", "inte", "enth", "cp", "dd_dP_T", "dd_dT_P", "du_dP_T", "du_dT_P", "V_c", "dV_c", "V_e", "dV_e", "chx.approach", "regen.approach",
    "hhx.approach", "chx.initial", "regen.initial", "hhx.initial", "chx.volume", "regen.volume", "hhx.volume",
];

/// Called with the site at every call to the environment
pub type Tap = Box<dyn Fn(usize)>;

#[derive(Default)]
pub struct Ctl {
    pub counts: [Cell<u64>; 21],
    /// site, call, kind, number of calls
    pub fault: Cell<Option<(usize, u64, usize, u64)>>,
    /// site, argument (time for drives; temperature, pressure for gases),
    /// bounds of the interval without valid values, kind
    pub hole: Cell<Option<(usize, usize, f64, f64, usize)>>,
    pub tap: Option<Tap>,
    /// states for which approaches that never settle were asked
    pub seen: RefCell<Vec<[u64; 4]>>,
}

impl Ctl {
    fn hit(&self, site: usize, x: f64) -> f64 {
        self.hit_at(site, [0.0; 2], x)
    }
    /// Approaches that never settle are functions of the state, so that they
    /// do not depend on how often they are asked for
    fn hit_state(&self, site: usize, h: &HeatExchanger, x: f64) -> f64 {
        match self.fault.get() {
            Some((s, _, ALTERNATING, _)) if s == site => {
                let key = [h.temp, h.pres, h.m_dot, h.Q_dot].map(f64::to_bits);
                let mut seen = self.seen.borrow_mut();
                let n = seen.iter().position(|k| *k == key).unwrap_or_else(|| {
                    seen.push(key);
                    seen.len() - 1
                });
                wrong(ALTERNATING, x, n as u64)
            }
            _ => self.hit(site, x),
        }
    }
    fn hit_at(&self, site: usize, args: [f64; 2], x: f64) -> f64 {
        if let Some(tap) = &self.tap {
            tap(site);
        }
        let c = self.counts[site].get();
        self.counts[site].set(c + 1);
        match self.fault.get() {
            Some((s, at, kind, len)) if s == site && c >= at && c - at < len => return wrong(kind, x, c),
            _ => {}
        }
        match self.hole.get() {
            Some((s, arg, lo, hi, kind)) if s == site && args[arg] > lo && args[arg] < hi => wrong(kind, x, c),
            _ => x,
        }
    }
}

struct FFluid(LibFluid, Rc<Ctl>);

#[allow(non_snake_case)]
impl Fluid for FFluid {
    fn dens(&self, t: f64, p: f64) -> f64 {
        self.1.hit_at(0, [t, p], self.0.dens(t, p))
    }
    fn inte(&self, t: f64, p: f64) -> f64 {
        self.1.hit_at(1, [t, p], self.0.inte(t, p))
    }
    fn enth(&self, t: f64, p: f64) -> f64 {
        self.1.hit_at(2, [t, p], self.0.enth(t, p))
    }
    fn cp(&self, t: f64, p: f64) -> f64 {
        self.1.hit_at(3, [t, p], self.0.cp(t, p))
    }
    fn dd_dP_T(&self, t: f64, p: f64) -> f64 {
        self.1.hit_at(4, [t, p], self.0.dd_dP_T(t, p))
    }
    fn dd_dT_P(&self, t: f64, p: f64) -> f64 {
        self.1.hit_at(5, [t, p], self.0.dd_dT_P(t, p))
    }
    fn du_dP_T(&self, t: f64, p: f64) -> f64 {
        self.1.hit_at(6, [t, p], self.0.du_dP_T(t, p))
    }
    fn du_dT_P(&self, t: f64, p: f64) -> f64 {
        self.1.hit_at(7, [t, p], self.0.du_dT_P(t, p))
    }
}

struct FDrive(Box<dyn ws::WorkingSpaces>, Rc<Ctl>);

impl ws::WorkingSpaces for FDrive {
    fn frequency(&self, s: &ws::State) -> f64 {
        self.0.frequency(s)
    }
    fn volumes(&self, s: &ws::State) -> Box<dyn Fn(f64) -> (ws::CompVolume, ws::ExpVolume)> {
        let f = self.0.volumes(s);
        let c = self.1.clone();
        Box::new(move |t| {
            let (a, b) = f(t);
            (
                ws::CompVolume { value: c.hit_at(8, [t, 0.0], a.value), deriv: c.hit_at(9, [t, 0.0], a.deriv) },
                ws::ExpVolume { value: c.hit_at(10, [t, 0.0], b.value), deriv: c.hit_at(11, [t, 0.0], b.deriv) },
            )
        })
    }
    fn thermal_resistance(&self, s: &ws::State) -> ws::ThermalResistance {
        self.0.thermal_resistance(s)
    }
    fn parasitics(&self, s: &ws::State) -> ws::Parasitics {
        self.0.parasitics(s)
    }
}

macro_rules! fhx {
    ($name:ident, $tr:path, $st:path, $k:expr) => {
        struct $name(Box<dyn $tr>, Rc<Ctl>);
        impl $tr for $name {
            fn volume(&self) -> f64 {
                self.1.hit(18 + $k, self.0.volume())
            }
            fn approach(&self, s: &$st) -> f64 {
                self.1.hit_state(12 + $k, &s.hxr, self.0.approach(s))
            }
            fn hydraulic_resistance(&self, s: &$st) -> f64 {
                self.0.hydraulic_resistance(s)
            }
            fn parasitics(&self, s: &$st) -> ParasiticPower {
                self.0.parasitics(s)
            }
            fn initial_approach(&self) -> f64 {
                self.1.hit(15 + $k, self.0.initial_approach())
            }
        }
    };
}
fhx!(FChx, chx::ColdHeatExchanger, chx::State, 0);
fhx!(FRegen, regen::Regenerator, regen::State, 1);
fhx!(FHhx, hhx::HotHeatExchanger, hhx::State, 2);

/// Run with the environment under control; faults end with the run
pub fn controlled(s: &Spec, ctl: &Rc<Ctl>) -> Result<Out, Fail> {
    let c = s.components();
    let c = sett_rs::Components {
        ws: Box::new(FDrive(c.ws, ctl.clone())),
        chx: Box::new(FChx(c.chx, ctl.clone())),
        regen: Box::new(FRegen(c.regen, ctl.clone())),
        hhx: Box::new(FHhx(c.hhx, ctl.clone())),
    };
    let fluid = FFluid(LibFluid::new(s.gas), ctl.clone());
    let (i, set) = (s.inputs(), s.settings());
    let e = crate::par::guarded(|| match s.solver {
        Solver::Lu => Engine::run::<LuSolver>(c, fluid, i, set),
        Solver::Qr => Engine::run::<QrSolver>(c, fluid, i, set),
        Solver::Svd => Engine::run::<SvdDefaultSolver>(c, fluid, i, set),
    })
    .map_err(Fail::Panic)?;
    ctl.fault.set(None);
    ctl.hole.set(None);
    match e {
        Ok(e) => crate::par::guarded(|| Out::new(e)).map_err(Fail::Panic),
        Err(sett_rs::types::RunError::InnerLoop) => Err(Fail::Inner),
        Err(sett_rs::types::RunError::OuterLoop) => Err(Fail::Outer),
    }
}

/// Engines that are fast to run but exercise everything
pub fn quick_bases() -> Vec<(&'static str, Spec)> {
    let mut v = Vec::new();
    for (n, mut s) in bases() {
        s.ode = (1e-3, 1e-3);
        s.inner = (50.0, 0.1);
        s.outer = (20.0, 0.2);
        s.res = 4;
        s.iters = (20, 20);
        if n == "conductance" && !thorough_env() {
            s.outer = (60.0, 0.5);
        }
        v.push((n, s));
    }
    v
}

#[derive(Clone)]
enum Item {
    Fault { base: usize, solver: Solver, site: usize, at: u64, kind: usize, len: u64 },
    /// wrong values on an interval of an argument
    Hole { base: usize, site: usize, arg: usize, lo: f64, hi: f64, kind: usize },
    /// engines that never settle: neither their cycle nor their temperatures
    Restless { spec: Spec, site: Option<usize> },
    Extreme(Spec),
}

fn settings_fields() -> Vec<Field> {
    fn field(name: &'static str, get: fn(&mut Spec) -> Option<&mut f64>, thorough: bool) -> Field {
        let mut kinds = vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, 1e-300, 1e300];
        let mut rel = vec![-1.0, 1e-6, 1e6];
        if thorough {
            kinds.extend([-0.0, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN]);
            rel.extend([-1e-6, 1e-12, 1e12, 0.1, 10.0, 1.5]);
        }
        let mut alts: Vec<Alt> = kinds
            .into_iter()
            .map(|v| -> Alt {
                (
                    format!("{name}={v:e}"),
                    Box::new(move |s: &mut Spec| {
                        if let Some(x) = get(s) {
                            *x = v
                        }
                    }),
                )
            })
            .collect();
        alts.extend(rel.into_iter().map(|v| -> Alt {
            (
                format!("{name}*={v:e}"),
                Box::new(move |s: &mut Spec| {
                    if let Some(x) = get(s) {
                        *x *= v
                    }
                }),
            )
        }));
        Field { name, alts }
    }
    fn law_of(l: &mut Law) -> Option<&mut f64> {
        match l {
            Law::Approach(a) => Some(a),
            Law::Ua(u) => Some(u),
            Law::Linear { a, .. } => Some(a),
        }
    }
    let t = thorough_env();
    let mut v = vec![
        field("p0", |s| Some(&mut s.p0), t),
        field("sink", |s| Some(&mut s.t_sink), t),
        field("source", |s| Some(&mut s.t_source), t),
        field(
            "f",
            |s| match &mut s.drive {
                Drive::Sin { f, .. } | Drive::Rhombic { f, .. } | Drive::Harm { f, .. } => Some(f),
            },
            t,
        ),
        field(
            "phase",
            |s| match &mut s.drive {
                Drive::Sin { phase, .. } => Some(phase),
                Drive::Rhombic { r, .. } => Some(r),
                _ => None,
            },
            t,
        ),
        field(
            "swept_c",
            |s| match &mut s.drive {
                Drive::Sin { comp, .. } => Some(&mut comp.0),
                Drive::Rhombic { l, .. } => Some(l),
                _ => None,
            },
            t,
        ),
        field(
            "clear_c",
            |s| match &mut s.drive {
                Drive::Sin { comp, .. } => Some(&mut comp.1),
                Drive::Rhombic { vcc, .. } => Some(vcc),
                _ => None,
            },
            t,
        ),
        field(
            "swept_e",
            |s| match &mut s.drive {
                Drive::Sin { exp, .. } => Some(&mut exp.0),
                Drive::Rhombic { dd, .. } => Some(dd),
                _ => None,
            },
            t,
        ),
        field(
            "clear_e",
            |s| match &mut s.drive {
                Drive::Sin { exp, .. } => Some(&mut exp.1),
                Drive::Rhombic { vce, .. } => Some(vce),
                _ => None,
            },
            t,
        ),
        field("rc", |s| Some(&mut s.rc), t),
        field("re", |s| Some(&mut s.re), t),
        field("chx.vol", |s| Some(&mut s.chx.vol), t),
        field("regen.vol", |s| Some(&mut s.regen.vol), t),
        field("hhx.vol", |s| Some(&mut s.hhx.vol), t),
        field("chx.law", |s| law_of(&mut s.chx.law), t),
        field("regen.law", |s| law_of(&mut s.regen.law), t),
        field("hhx.law", |s| law_of(&mut s.hhx.law), t),
        field("inner.abs", |s| Some(&mut s.inner.0), t),
        field("inner.rel", |s| Some(&mut s.inner.1), t),
        field("outer.abs", |s| Some(&mut s.outer.0), t),
        field("outer.rel", |s| Some(&mut s.outer.1), t),
        field("ode.abs", |s| Some(&mut s.ode.0), t),
        field("ode.rel", |s| Some(&mut s.ode.1), t),
    ];
    v.push(Field {
        name: "res",
        alts: [0u32, 1, 2, 3, 50_000].into_iter().map(|n| -> Alt { (format!("res={n}"), Box::new(move |s| s.res = n)) }).collect(),
    });
    v.push(Field {
        name: "iters.inner",
        alts: [0usize, 1, 2].into_iter().map(|n| -> Alt { (format!("iters.inner={n}"), Box::new(move |s| s.iters.0 = n)) }).collect(),
    });
    v.push(Field {
        name: "iters.outer",
        alts: [0usize, 1, 2].into_iter().map(|n| -> Alt { (format!("iters.outer={n}"), Box::new(move |s| s.iters.1 = n)) }).collect(),
    });
    v
}

fn thorough_env() -> bool {
    std::env::var("VERIF_TIER").as_deref() == Ok("thorough")
}

/// All items; the same list in every process of a check
fn items() -> Vec<(String, Item)> {
    let thorough = thorough_env();
    let mut out = Vec::new();
    // settings
    for (n, b) in bases() {
        for solver in [Solver::Lu, Solver::Qr, Solver::Svd] {
            let mut b = b.clone();
            b.iters = (3, 3);
            b.ode = if solver == Solver::Svd { (1e-5, 1e-5) } else { (1e-7, 1e-7) };
            b.inner = (0.1, 1e-3);
            b.outer = (0.1, 1e-3);
            b.res = 12;
            b.solver = solver;
            let name = format!("{n} {solver:?}");
            for c in within(&name, &b, &settings_fields(), 1) {
                out.push((c.label, Item::Extreme(c.spec)));
            }
            // pairs: one value of each sort, and without the frequencies for
            // which every run takes all the steps that it is allowed
            if solver == Solver::Lu && (thorough || n == "fixed") {
                let mut fields = settings_fields();
                for f in &mut fields {
                    let name = f.name;
                    f.alts.retain(|a| !a.0.contains("e300") && !a.0.contains("e-300") && !(name == "f" && ["f=NaN", "f=0e0", "f=inf", "f=-inf"].contains(&a.0.as_str())));
                    f.alts.retain(|a| !(name.starts_with("ode") && a.0.ends_with("e-6")));
                    f.alts.retain(|a| a.0 != "ode.rel=0e0" && (thorough || !(a.0.ends_with("=-inf") || a.0.ends_with("e-6"))));
                    if name == "res" {
                        f.alts.truncate(4);
                    }
                }
                for c in within(&name, &b, &fields, 2).into_iter().filter(|c| c.deviations == 2) {
                    out.push((c.label, Item::Extreme(c.spec)));
                }
            }
        }
    }
    // faults
    for (k, (n, b)) in quick_bases().into_iter().enumerate() {
        for solver in [Solver::Lu, Solver::Qr, Solver::Svd] {
            if !thorough && k != 0 && solver != Solver::Lu {
                continue;
            }
            // all kinds of faults, or a choice where runs are slow
            let kinds: &[usize] = match (n, solver, thorough) {
                ("conductance", Solver::Lu, true) | ("fixed" | "virial", _, true) | ("fixed", Solver::Lu, false) => &[0, 1, 2, 3, 4, 5, 6, 7],
                ("virial", _, false) => &[0, 3],
                ("fixed", _, false) => &[0, 1],
                _ => &[0],
            };
            let mut b = b.clone();
            b.solver = solver;
            let ctl = Rc::new(Ctl::default());
            let _ = controlled(&b, &ctl);
            for site in 0..SITES.len() {
                for at in 0..ctl.counts[site].get() {
                    for &kind in kinds {
                        for persistent in [false, true] {
                            // lasting faults that are not detected at once make long runs
                            if !thorough && persistent && (k > 0 || solver != Solver::Lu || ![0, 3].contains(&kind)) {
                                continue;
                            }
                            let l = format!("{n} {solver:?}: {} {} at call {at}{}", KINDS[kind], SITES[site], if persistent { " and later" } else { "" });
                            let len = if persistent { u64::MAX } else { 1 };
                            out.push((l, Item::Fault { base: k, solver, site, at, kind, len }));
                        }
                    }
                }
            }
        }
    }
    bursts(&mut out);
    restless(&mut out);
    out
}

/// Functions that fail for a number of calls, and on intervals
fn bursts(out: &mut Vec<(String, Item)>) {
    let thorough = thorough_env();
    for (k, (n, b)) in quick_bases().into_iter().enumerate() {
        let mut b = b.clone();
        b.solver = Solver::Lu;
        let ctl = Rc::new(Ctl::default());
        let Ok(o) = controlled(&b, &ctl) else { continue };
        // failing calls
        let sites: &[usize] = match (thorough, n) {
            (true, _) => &[0, 1, 4, 8],
            (false, "fixed") => &[1],
            _ => &[],
        };
        for &site in sites {
            let calls = ctl.counts[site].get();
            let (start, step) = if thorough { (7, 25) } else { (23, 30) };
            for at in (0..calls).step_by(start) {
                for len in (2..1200).step_by(step) {
                    let l = format!("{n} Lu: NaN {} at calls {at} to {}", SITES[site], at + len - 1);
                    out.push((l, Item::Fault { base: k, solver: Solver::Lu, site, at, kind: 0, len }));
                }
            }
        }
        // intervals of the cycle
        let period = o.v.t[o.n() - 1];
        let (parts, kinds): (usize, &[usize]) = if thorough { (240, &[0, 1, 2, 3, 4, 5, 6, 7]) } else { (60, &[0, 1]) };
        for site in 8..12 {
            for i in 0..parts {
                for width in [1e-9, 1e-5, 3e-3, 0.1] {
                    for &kind in kinds {
                        let lo = period * i as f64 / parts as f64;
                        let hi = lo + period * width;
                        let l = format!("{n}: {} {} for t in ({lo:e}, {hi:e})", KINDS[kind], SITES[site]);
                        out.push((l, Item::Hole { base: k, site, arg: 0, lo, hi, kind }));
                    }
                }
            }
        }
        // intervals of temperature and pressure of the gas
        let ends = |v: &[f64]| (v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(0.0, f64::max));
        let ranges = [(0, ends(&o.v.tc)), (0, ends(&o.v.te)), (1, ends(&o.v.p))];
        let parts = if thorough { 60 } else { 12 };
        for site in 0..8 {
            for (arg, (lo, hi)) in ranges {
                for i in 0..parts {
                    for width in [1e-6, 1e-2, 0.2] {
                        let (lo, hi) = (lo + (hi - lo) * i as f64 / parts as f64, lo + (hi - lo) * (i as f64 / parts as f64 + width));
                        let l = format!("{n}: NaN {} for {} in ({lo:e}, {hi:e})", SITES[site], ["T", "P"][arg]);
                        out.push((l, Item::Hole { base: k, site, arg, lo, hi, kind: 0 }));
                    }
                }
            }
        }
    }
}

/// Engines that never settle, with all small iteration limits
fn restless(out: &mut Vec<(String, Item)>) {
    let limits: &[usize] = if thorough_env() { &[0, 1, 2, 3, 5, 8, 13, 21, 50] } else { &[0, 1, 2, 7] };
    for (n, b) in quick_bases() {
        for &inner in limits {
            for &outer in limits {
                for site in [None, Some(12), Some(13), Some(14)] {
                    let mut s = b.clone();
                    s.iters = (inner, outer);
                    match site {
                        None => s.inner = (1e-12, 1e-15),
                        Some(_) => s.outer = (1.0, 1e-3),
                    }
                    let l = format!("{n} never settles ({}), limits {inner} and {outer}", site.map_or("cycle", |s| SITES[s]));
                    out.push((l, Item::Restless { spec: s, site }));
                }
            }
        }
    }
}

/// Outcome of an item: (key of the outcome, complaint)
fn run_item(item: &Item, bases: &[(&'static str, Spec)]) -> (String, Option<String>) {
    let (got, name) = match item {
        Item::Fault { base, solver, site, at, kind, len } => {
            let mut s = bases[*base].1.clone();
            s.solver = *solver;
            let ctl = Rc::new(Ctl::default());
            ctl.fault.set(Some((*site, *at, *kind, *len)));
            (controlled(&s, &ctl), format!("{} {}", SITES[*site], KINDS[*kind]))
        }
        Item::Hole { base, site, arg, lo, hi, kind } => {
            let ctl = Rc::new(Ctl::default());
            ctl.hole.set(Some((*site, *arg, *lo, *hi, *kind)));
            (controlled(&bases[*base].1, &ctl), format!("{} {} interval", SITES[*site], KINDS[*kind]))
        }
        Item::Restless { spec, site } => {
            let ctl = Rc::new(Ctl::default());
            if let Some(site) = site {
                ctl.fault.set(Some((*site, 0, ALTERNATING, u64::MAX)));
            }
            let got = controlled(spec, &ctl);
            if let Ok(o) = &got {
                return ("restless ok".into(), Some(format!("ends with results: net power {}", o.r.power.net)));
            }
            (got, "restless".to_string())
        }
        Item::Extreme(s) => (s.run(), "settings".to_string()),
    };
    let res = match item {
        Item::Fault { base, .. } | Item::Hole { base, .. } => bases[*base].1.res,
        Item::Restless { spec, .. } | Item::Extreme(spec) => spec.res,
    };
    match got {
        Err(Fail::Panic(m)) => (format!("{name} panic"), Some(format!("panic: {m}"))),
        Err(e) => (format!("{name} {e}"), None),
        Ok(o) => {
            let no_heat = o.r.heat_flow.input == 0.0;
            let bad: Vec<String> = o
                .scalars()
                .into_iter()
                .filter(|(n, x)| !x.is_finite() && !(no_heat && n.starts_with("efficiency")))
                .map(|(n, x)| format!("{n} = {x}"))
                .chain(series_of(&o.r).into_iter().flat_map(|(n, v)| v.iter().enumerate().filter(|x| !x.1.is_finite()).map(move |(i, x)| format!("{n}[{i}] = {x}"))))
                .collect();
            // a full cycle: as many points as requested, at equal distances
            let t = &o.v.t;
            let full = t.len() == res as usize
                && t[0] == 0.0
                && t.iter().enumerate().all(|(i, x)| (x - t[t.len() - 1] * i as f64 / (t.len() - 1) as f64).abs() <= 1e-6 * t[t.len() - 1]);
            if bad.is_empty() && !full {
                return (format!("{name} partial"), Some(format!("{} points from {} to {} instead of {res}", t.len(), t[0], t[t.len() - 1])));
            }
            let msg = (!bad.is_empty()).then(|| format!("reported without error: {}", bad.iter().take(6).cloned().collect::<Vec<_>>().join(", ")));
            (format!("{name} ok {:x}", hash_f64(&o.flat())), msg)
        }
    }
}

/// Worker process: runs the items whose numbers it reads
pub fn worker() {
    let items = items();
    let bases = quick_bases();
    let stdout = std::io::stdout();
    println!("READY {}", items.len());
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { return };
        let (from, to) = line.split_once(' ').unwrap();
        let (from, to): (usize, usize) = (from.parse().unwrap(), to.parse().unwrap());
        for i in from..to {
            let mut o = stdout.lock();
            writeln!(o, "S {i}").unwrap();
            o.flush().unwrap();
            drop(o);
            let start = std::time::Instant::now();
            let (key, msg) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_item(&items[i].1, &bases)))
                .unwrap_or(("panic".into(), Some("panic".into())));
            println!("D {i}\t{key}\t{}\t{}", start.elapsed().as_micros(), msg.unwrap_or_default().replace(['\n', '\t'], " "));
        }
        println!("E");
    }
}

struct Worker {
    child: std::process::Child,
    rx: mpsc::Receiver<String>,
}

impl Worker {
    fn start() -> Self {
        let exe = std::env::current_exe().unwrap();
        let mut child = std::process::Command::new("bash")
            .args(["-c", "ulimit -v 3000000; exec \"$0\" --fault-worker"])
            .arg(exe)
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            
            .spawn()
            .unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            for line in std::io::BufReader::new(out).lines() {
                let Ok(line) = line else { break };
                if tx.send(line).is_err() {
                    break;
                }
            }
        });
        Self { child, rx }
    }
    fn stop(mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub fn c15(rep: &Report) {
    let items = items();
    let limit = Duration::from_secs(std::env::var("SETT_MC_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(60));
    rep.extra("items", serde_json::json!(items.len()));
    for (_, i) in &items {
        match i {
            Item::Fault { site, kind, .. } => {
                rep.set_insert("fault sites", SITES[*site]);
                rep.set_insert("fault kinds", KINDS[*kind]);
            }
            Item::Hole { site, kind, arg, .. } => {
                rep.set_insert("fault sites", SITES[*site]);
                rep.set_insert("fault kinds", format!("{} on an interval of {}", KINDS[*kind], if *site > 7 { "time" } else { ["temperature", "pressure"][*arg] }));
            }
            Item::Restless { .. } => rep.count("runs_that_never_settle", 1),
            Item::Extreme(_) => rep.count("runs_with_extreme_settings", 1),
        }
    }
    let chunk = 64;
    // only the selected case of a replay
    let chunks: Vec<(usize, usize)> = match &rep.filter {
        Some(f) => items.iter().position(|x| x.0 == *f).map(|i| (i, i + 1)).into_iter().collect(),
        None => (0..items.len().div_ceil(chunk)).map(|k| (k * chunk, ((k + 1) * chunk).min(items.len()))).collect(),
    };
    let next = AtomicUsize::new(0);
    let broken = AtomicUsize::new(0);
    let cores = std::thread::available_parallelism().map_or(4, |n| n.get());
    std::thread::scope(|s| {
        for _ in 0..cores.min(chunks.len()) {
            s.spawn(|| {
                let mut w: Option<Worker> = None;
                loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    // after many crashes or hangs there is no need to go on
                    if k >= chunks.len() || broken.load(Ordering::SeqCst) > 12 {
                        break;
                    }
                    let (mut from, to) = chunks[k];
                    while from < to && broken.load(Ordering::SeqCst) <= 12 {
                        let worker = w.get_or_insert_with(Worker::start);
                        let _ = writeln!(worker.child.stdin.as_mut().unwrap(), "{from} {to}");
                        let mut current = None;
                        let end = loop {
                            match worker.rx.recv_timeout(limit) {
                                Ok(l) if l == "E" => break None,
                                Ok(l) => {
                                    if let Some(i) = l.strip_prefix("S ") {
                                        current = i.parse::<usize>().ok();
                                    } else if let Some(d) = l.strip_prefix("D ") {
                                        let mut it = d.splitn(4, '\t');
                                        let i: usize = it.next().unwrap().parse().unwrap();
                                        let key = it.next().unwrap_or("");
                                        let us: u64 = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                                        let msg = it.next().unwrap_or("");
                                        rep.count(if !matches!(items[i].1, Item::Extreme(_)) { "cpu_us_faults" } else { "cpu_us_settings" }, us);
                                        if std::env::var_os("SETT_MC_SLOW").is_some() {
                                            eprintln!("time {us} {}", items[i].0);
                                        }
                                        record(rep, &items[i], key, msg);
                                        current = None;
                                        from = i + 1;
                                    }
                                }
                                Err(mpsc::RecvTimeoutError::Timeout) => break Some(format!("no result after {} s", limit.as_secs())),
                                Err(mpsc::RecvTimeoutError::Disconnected) => break Some("the process crashed or ran out of memory".to_string()),
                            }
                        };
                        match (end, current) {
                            (None, _) => from = to,
                            (Some(e), Some(i)) => {
                                broken.fetch_add(1, Ordering::SeqCst);
                                record(rep, &items[i], "broken", &e);
                                from = i + 1;
                                w.take().unwrap().stop();
                            }
                            (Some(e), None) => {
                                eprintln!("worker failed: {e}");
                                std::process::exit(2);
                            }
                        }
                    }
                }
                if let Some(w) = w {
                    w.stop();
                }
            });
        }
    });
}

fn record(rep: &Report, item: &(String, Item), key: &str, msg: &str) {
    rep.count("evaluations", 1);
    let outcome = key.split_whitespace().filter(|w| ["ok", "Inner", "Outer"].contains(w)).last().unwrap_or("other");
    rep.count(&format!("outcome_{outcome}"), 1);
    let mut h = 7u64;
    for b in key.bytes() {
        h = h.wrapping_mul(0x100_0000_01b3) ^ u64::from(b);
    }
    rep.observe(h);
    if rep.filter.is_some() || h % 997 == 0 {
        rep.sample(serde_json::json!({"case": item.0, "outcome": key}));
    }
    if !msg.is_empty() {
        rep.violation(&item.0, &item.0, msg);
    }
}

/// Sizes and run times of the fault spaces (for tuning)
pub fn sizes() {
    for tol in [1e-3, 1e-2, 3e-2] {
        for (n, b) in quick_bases() {
            for solver in [Solver::Lu, Solver::Qr, Solver::Svd] {
                let mut b = b.clone();
                b.solver = solver;
                b.ode = (tol, tol);
                let ctl = Rc::new(Ctl::default());
                let r = controlled(&b, &ctl).map(|o| o.r.power.net);
                let t = std::time::Instant::now();
                for _ in 0..20 {
                    let ctl = Rc::new(Ctl::default());
                    let _ = controlled(&b, &ctl);
                }
                println!("{tol:e} {n} {solver:?} {r:?} calls {} {:?} time {:.2} ms", ctl.counts.iter().map(|c| c.get()).sum::<u64>(), ctl.counts.iter().map(|c| c.get()).collect::<Vec<_>>(), t.elapsed().as_secs_f64() * 50.0);
            }
        }
    }
}
