//! Engine specifications: a point of the explored configuration space, how to
//! build it from the library's public API, and the plain results of a run.
use crate::mocks::*;
use crate::par::guarded;
use sett_rs::api::RunResults;
use sett_rs::types::*;
use sett_rs::{chx, hhx, regen, ws, Components, Engine, LuSolver, QrSolver, SvdDefaultSolver};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Law {
    Approach(f64),
    Ua(f64),
    /// approach = a + k * field (field: index into `HxView`)
    Linear { a: f64, field: usize, k: f64 },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Hx {
    pub vol: f64,
    pub r_hyd: f64,
    pub law: Law,
    pub par: ParasiticPower,
    /// initial approach for mock laws, and for wrapped built-in laws
    pub init: Option<f64>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Solver {
    Lu,
    Qr,
    Svd,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub gas: Gas,
    pub drive: Drive,
    pub rc: f64,
    pub re: f64,
    pub par_c: ParasiticPower,
    pub par_e: ParasiticPower,
    pub chx: Hx,
    pub regen: Hx,
    pub hhx: Hx,
    pub p0: f64,
    pub t_sink: f64,
    pub t_source: f64,
    pub res: u32,
    pub inner: (f64, f64),
    pub outer: (f64, f64),
    pub ode: (f64, f64),
    pub iters: (usize, usize),
    pub solver: Solver,
}

pub fn pp(thermal: f64, mechanical: f64, electrical: f64) -> ParasiticPower {
    ParasiticPower { thermal, mechanical, electrical }
}

/// (abs, rel) tolerances used unless a check says otherwise
pub const INNER: (f64, f64) = (1e-3, 3e-6);
pub const OUTER: (f64, f64) = (2e-2, 1e-4);
pub const ODE: (f64, f64) = (1e-10, 1e-10);

impl Spec {
    /// Fixed approaches, adiabatic spaces
    pub fn base_fixed() -> Self {
        Spec {
            gas: Gas::He,
            drive: Drive::Sin { f: 50.0, phase: 90.0, comp: (1.128e-4, 4.68e-5), exp: (1.0e-4, 1.68e-5) },
            rc: f64::INFINITY,
            re: f64::INFINITY,
            par_c: pp(3.0, 7.0, 11.0),
            par_e: pp(13.0, 17.0, 19.0),
            chx: Hx { vol: 4e-5, r_hyd: 2e6, law: Law::Approach(30.0), par: pp(23.0, 29.0, 31.0), init: None },
            regen: Hx { vol: 9e-5, r_hyd: 5e6, law: Law::Approach(12.0), par: pp(37.0, 41.0, 43.0), init: None },
            hhx: Hx { vol: 7e-5, r_hyd: 3e6, law: Law::Approach(60.0), par: pp(47.0, 53.0, 59.0), init: None },
            p0: 2e6,
            t_sink: 300.0,
            t_source: 900.0,
            res: 24,
            inner: INNER,
            outer: OUTER,
            ode: ODE,
            iters: (2000, 200),
            solver: Solver::Lu,
        }
    }

    /// Fixed conductances, wall heat transfer, rhombic drive
    pub fn base_conductance() -> Self {
        let mut s = Self::base_fixed();
        s.gas = Gas::H2;
        s.drive = rhombic_default();
        s.rc = 0.5;
        s.re = 0.8;
        s.chx = Hx { vol: 2e-5, r_hyd: 1e6, law: Law::Ua(150.0), par: pp(2.0, 5.0, 3.0), init: None };
        s.regen = Hx { vol: 6e-5, r_hyd: 4e6, law: Law::Ua(4000.0), par: pp(29.0, 7.0, 5.0), init: None };
        s.hhx = Hx { vol: 5e-5, r_hyd: 2e6, law: Law::Ua(120.0), par: pp(31.0, 11.0, 13.0), init: None };
        s.p0 = 3e6;
        s
    }

    /// A thermodynamically consistent real gas, our own drive and laws
    pub fn base_virial() -> Self {
        let mut s = Self::base_fixed();
        s.gas = Gas::Virial;
        s.drive = Drive::Harm {
            f: 30.0,
            comp: [1.1e-4, 5e-5, 6e-6, 0.0],
            exp: [1.0e-4, 5.5e-5, -5e-6, 1.7],
            f_pres: 0.0,
            p_ref: 2e6,
        };
        s.rc = 2.0;
        s.re = f64::INFINITY;
        s.chx.law = Law::Linear { a: 5.0, field: 5, k: 0.01 };
        s.hhx.law = Law::Ua(200.0);
        s.p0 = 5e6;
        s.t_source = 700.0;
        s
    }

    pub fn hxs(&self) -> [&Hx; 3] {
        [&self.chx, &self.regen, &self.hhx]
    }

    pub fn components(&self) -> Components {
        self.components_tap(None)
    }

    pub fn components_tap(&self, tap: Option<Arc<dyn Fn(f64) + Send + Sync>>) -> Components {
        let res = ws::ThermalResistance { comp: self.rc, exp: self.re };
        let par = ws::Parasitics { comp: self.par_c, exp: self.par_e };
        let drive: Box<dyn ws::WorkingSpaces> = match &self.drive {
            Drive::Sin { f, phase, comp, exp } if tap.is_none() => Box::new(ws::SinusoidalDrive {
                frequency: *f,
                phase_angle: *phase,
                comp_geometry: ws::sinusoidal_drive::Geometry { swept_volume: comp.0, clearance_volume: comp.1 },
                exp_geometry: ws::sinusoidal_drive::Geometry { swept_volume: exp.0, clearance_volume: exp.1 },
                thermal_resistance: res,
                parasitics: par,
            }),
            // A rhombic drive can be built from a configuration only, which
            // cannot express all parasitics
            Drive::Rhombic { .. } if tap.is_none() => Box::new(Override { inner: rhombic(self), par }),
            d => Box::new(MockDrive { drive: d.clone(), res, par, tap }),
        };
        Components {
            ws: drive,
            chx: {
                let h = &self.chx;
                match (&h.law, h.init) {
                    (Law::Approach(a), None) => Box::new(chx::FixedApproach::new(h.vol, h.r_hyd, *a, h.par)),
                    (Law::Ua(u), None) => Box::new(chx::FixedConductance::new(h.vol, h.r_hyd, *u, h.par)),
                    _ => Box::new(mock_hx(h, false)),
                }
            },
            regen: {
                let h = &self.regen;
                match (&h.law, h.init) {
                    (Law::Approach(a), None) => Box::new(regen::FixedApproach::new(h.vol, h.r_hyd, *a, h.par)),
                    (Law::Ua(u), None) => Box::new(regen::FixedConductance::new(h.vol, h.r_hyd, *u, h.par)),
                    _ => Box::new(mock_hx(h, true)),
                }
            },
            hhx: {
                let h = &self.hhx;
                match (&h.law, h.init) {
                    (Law::Approach(a), None) => Box::new(hhx::FixedApproach::new(h.vol, h.r_hyd, *a, h.par)),
                    (Law::Ua(u), None) => Box::new(hhx::FixedConductance::new(h.vol, h.r_hyd, *u, h.par)),
                    _ => Box::new(mock_hx(h, false)),
                }
            },
        }
    }

    pub fn inputs(&self) -> RunInputs {
        RunInputs { pres_zero: self.p0, temp_sink: self.t_sink, temp_source: self.t_source }
    }

    pub fn settings(&self) -> RunSettings {
        let ct = |t: (f64, f64)| ConvergenceTolerance { abs: t.0, rel: t.1 };
        RunSettings {
            resolution: self.res,
            loop_tol: LoopTolerance { inner: ct(self.inner), outer: ct(self.outer) },
            ode_tol: OdeTolerance { abs: self.ode.0, rel: self.ode.1 },
            max_iters: MaxIters { inner: self.iters.0, outer: self.iters.1 },
        }
    }

    /// Run the library on this specification
    pub fn run(&self) -> Result<Out, Fail> {
        self.run_with(self.components(), LibFluid::new(self.gas))
    }

    pub fn run_with<F: sett_rs::fluid::Fluid>(&self, c: Components, fluid: F) -> Result<Out, Fail> {
        let (i, s) = (self.inputs(), self.settings());
        guarded(|| {
            let e = match self.solver {
                Solver::Lu => Engine::run::<LuSolver>(c, fluid, i, s),
                Solver::Qr => Engine::run::<QrSolver>(c, fluid, i, s),
                Solver::Svd => Engine::run::<SvdDefaultSolver>(c, fluid, i, s),
            };
            e.map(Out::new)
        })
        .map_err(Fail::Panic)?
        .map_err(|e| match e {
            RunError::InnerLoop => Fail::Inner,
            RunError::OuterLoop => Fail::Outer,
        })
    }

    pub fn freq(&self, p_avg: f64) -> f64 {
        self.drive.freq(p_avg)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    Inner,
    Outer,
    Panic(String),
}

impl std::fmt::Display for Fail {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}

/// A built-in drive with our parasitics
struct Override {
    inner: ws::RhombicDrive,
    par: ws::Parasitics,
}

impl ws::WorkingSpaces for Override {
    fn frequency(&self, s: &ws::State) -> f64 {
        self.inner.frequency(s)
    }
    fn volumes(&self, s: &ws::State) -> Box<dyn Fn(f64) -> (ws::CompVolume, ws::ExpVolume)> {
        self.inner.volumes(s)
    }
    fn thermal_resistance(&self, s: &ws::State) -> ws::ThermalResistance {
        self.inner.thermal_resistance(s)
    }
    fn parasitics(&self, _: &ws::State) -> ws::Parasitics {
        self.par
    }
}

pub fn rhombic_default() -> Drive {
    Drive::Rhombic {
        f: 50.0,
        vcc: 5.785e-6,
        vce: 4.13e-6,
        r: 0.01397,
        l: 0.04602,
        e: 0.02065,
        dp: 0.0698,
        dd: 0.0696,
    }
}

/// TOML float
pub fn tf(x: f64) -> String {
    if x.is_infinite() {
        if x > 0.0 { "inf".into() } else { "-inf".into() }
    } else if x.is_nan() {
        "nan".into()
    } else {
        let s = format!("{x:e}");
        if s.contains('.') || s.contains('e') { s } else { format!("{s}.0") }
    }
}

pub fn parse_toml<T: serde::de::DeserializeOwned>(s: &str) -> Result<T, String> {
    config::Config::builder()
        .add_source(config::File::from_str(s, config::FileFormat::Toml))
        .build()
        .and_then(|c| c.try_deserialize::<T>())
        .map_err(|e| e.to_string())
}

fn rhombic(s: &Spec) -> ws::RhombicDrive {
    let Drive::Rhombic { f, vcc, vce, r, l, e, dp, dd } = s.drive else { unreachable!() };
    let t = format!(
        "[rhombic]\nfrequency={}\nV_clearance_c={}\nR_c={}\nW_parasitic_c=0.0\nV_clearance_e={}\nR_e={}\nW_parasitic_e=0.0\nQ_parasitic_e=0.0\nr_crank={}\nL_conn={}\neccentricity={}\nD_p={}\nD_d={}\n",
        tf(f), tf(vcc), tf(s.rc), tf(vce), tf(s.re), tf(r), tf(l), tf(e), tf(dp), tf(dd)
    );
    match parse_toml::<ws::Config>(&t).expect("rhombic config") {
        ws::Config::Rhombic(c) => c.into(),
        _ => unreachable!(),
    }
}

impl HxView {
    pub fn field(&self, i: usize) -> f64 {
        [self.temp, self.pres, self.dens, self.cp, self.m_dot, self.q_dot, self.t1, self.t2][i]
    }
}

/// Reference law of a heat exchanger (`regen` selects the regenerator's)
pub fn law(h: &Law, regen: bool, v: &HxView) -> f64 {
    match *h {
        Law::Approach(a) => a,
        Law::Linear { a, field, k } => a + k * v.field(field),
        Law::Ua(ua) => {
            let c = v.cp * v.m_dot;
            if regen {
                // C (dT - A) = (UA / 2) A
                (v.t2 - v.t1) / (1.0 + ua / (2.0 * c))
            } else {
                // Q = UA * LMTD(A + Q/C, A)
                (v.q_dot / c) / (ua / c).exp_m1()
            }
        }
    }
}

fn mock_hx(h: &Hx, is_regen: bool) -> MockHx {
    let l = h.law.clone();
    let (r, p) = (h.r_hyd, h.par);
    MockHx {
        vol: h.vol,
        init: h.init.unwrap_or(match h.law {
            Law::Approach(a) | Law::Linear { a, .. } => a,
            Law::Ua(_) => 10.0,
        }),
        r_hyd: Arc::new(move |_| r),
        law: Arc::new(move |v| law(&l, is_regen, v)),
        par: Arc::new(move |_| p),
    }
}

/// Plain copy of everything a run reports
#[derive(Debug)]
pub struct Out {
    pub pres: [f64; 4], // avg, max, min, t_zero
    pub temp: Temps,
    pub sink: f64,
    pub source: f64,
    pub m: [f64; 3],
    pub q: [f64; 3],
    pub imb: f64,
    pub v: Vals,
    pub r: RunResults,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Temps {
    pub chx: f64,
    pub cold: f64,
    pub avg: f64,
    pub hot: f64,
    pub hhx: f64,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Vals {
    pub t: Vec<f64>,
    pub p: Vec<f64>,
    pub tc: Vec<f64>,
    pub te: Vec<f64>,
    pub m: [Vec<f64>; 4],
    pub q: [Vec<f64>; 3],
}

impl Out {
    pub fn new<T: sett_rs::fluid::Fluid>(e: Engine<T>) -> Self {
        let s = &e.state;
        let v = &e.values;
        let (pres, temp, sink, source, m, q, imb) = (
            [s.pres.avg, s.pres.max, s.pres.min, s.pres.t_zero],
            Temps { chx: s.temp.chx, cold: s.temp.regen.cold, avg: s.temp.regen.avg, hot: s.temp.regen.hot, hhx: s.temp.hhx },
            s.temp.sink,
            s.temp.source,
            [s.mass_flow.chx, s.mass_flow.regen, s.mass_flow.hhx],
            [s.heat_flow.chx, s.heat_flow.regen, s.heat_flow.hhx],
            s.regen_imbalance.0,
        );
        let v = Vals {
            t: v.time.clone(),
            p: v.P.clone(),
            tc: v.T_c.clone(),
            te: v.T_e.clone(),
            m: [v.m_dot_ck.clone(), v.m_dot_kr.clone(), v.m_dot_rl.clone(), v.m_dot_le.clone()],
            q: [v.Q_dot_k.clone(), v.Q_dot_r.clone(), v.Q_dot_l.clone()],
        };
        let r = RunResults::from(e);
        Self { pres, temp, sink, source, m, q, imb, v, r }
    }

    pub fn n(&self) -> usize {
        self.v.t.len()
    }

    /// Every scalar reported through `RunResults` and the engine, named
    pub fn scalars(&self) -> Vec<(&'static str, f64)> {
        scalars_of(&self.r)
    }

    pub fn flat(&self) -> Vec<f64> {
        let mut x: Vec<f64> = self.scalars().into_iter().map(|s| s.1).collect();
        x.extend(self.pres);
        x.extend(self.m);
        x.extend(self.q);
        x.extend(series_of(&self.r).into_iter().flat_map(|s| s.1.clone()));
        x
    }

    pub fn all_finite(&self) -> bool {
        self.flat().iter().all(|x| x.is_finite())
    }
}

pub fn scalars_of(r: &RunResults) -> Vec<(&'static str, f64)> {
    vec![
        ("efficiency.mechanical", r.efficiency.mechanical),
        ("heat_flow.input", r.heat_flow.input),
        ("heat_flow.rejection", r.heat_flow.rejection),
        ("heat_flow.chx", r.heat_flow.chx),
        ("heat_flow.regen", r.heat_flow.regen),
        ("heat_flow.hhx", r.heat_flow.hhx),
        ("mass_flow.chx", r.mass_flow.chx),
        ("mass_flow.regen", r.mass_flow.regen),
        ("mass_flow.hhx", r.mass_flow.hhx),
        ("power.ideal_indicated", r.power.ideal_indicated),
        ("power.indicated", r.power.indicated),
        ("power.shaft", r.power.shaft),
        ("power.net", r.power.net),
        ("pressure.avg", r.pressure.avg),
        ("pressure.max", r.pressure.max),
        ("pressure.min", r.pressure.min),
        ("pressure.t_zero", r.pressure.t_zero),
        ("regen_imbalance", r.regen_imbalance),
        ("shaft_torque", r.shaft_torque),
        ("temperature.sink", r.temperature.sink),
        ("temperature.chx", r.temperature.chx),
        ("temperature.regen_cold", r.temperature.regen_cold),
        ("temperature.regen_avg", r.temperature.regen_avg),
        ("temperature.regen_hot", r.temperature.regen_hot),
        ("temperature.hhx", r.temperature.hhx),
        ("temperature.source", r.temperature.source),
    ]
}

pub fn series_of(r: &RunResults) -> Vec<(&'static str, &Vec<f64>)> {
    let v = &r.values;
    vec![
        ("time", &v.time),
        ("P", &v.P),
        ("P_c", &v.P_c),
        ("P_e", &v.P_e),
        ("T_c", &v.T_c),
        ("T_e", &v.T_e),
        ("m_dot_ck", &v.m_dot_ck),
        ("m_dot_kr", &v.m_dot_kr),
        ("m_dot_rl", &v.m_dot_rl),
        ("m_dot_le", &v.m_dot_le),
        ("Q_dot_k", &v.Q_dot_k),
        ("Q_dot_r", &v.Q_dot_r),
        ("Q_dot_l", &v.Q_dot_l),
    ]
}
