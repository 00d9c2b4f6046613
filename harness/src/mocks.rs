//! Environment components used to close the system: fluids, drives and heat
//! exchangers that are written here, independently of the library.
use sett_rs::fluid::Fluid;
use sett_rs::types::ParasiticPower;
use sett_rs::{chx, hhx, regen, ws};
use std::f64::consts::PI;
use std::sync::Arc;

/// Fluids.  `He` and `H2` restate the library's ideal gases (including their
/// recorded findings), the others are thermodynamically consistent.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Gas {
    He,
    H2,
    /// helium with u = h - RT (consistent)
    HeC,
    /// polyatomic ideal gas with cp(T), exact integrals (consistent)
    Poly,
    /// virial gas: every partial derivative is non-zero (consistent)
    Virial,
}

pub const ALL_GASES: [Gas; 5] = [Gas::He, Gas::H2, Gas::HeC, Gas::Poly, Gas::Virial];

const R_HE: f64 = 2077.23;
const CP_HE: f64 = 5193.17;
const R_H2: f64 = 4124.2;
const T_REF: f64 = 250.0;
const CP_H2: [f64; 6] = [
    12471.4839,
    13.319_443_2,
    -3.477_828_06e-2,
    4.317_848_38e-5,
    -2.428_833_35e-8,
    5.142_898_38e-12,
];
// Polyatomic
const R_P: f64 = 518.0;
const CP_P: (f64, f64) = (1200.0, 2.5);
// Virial
const VB: f64 = 6.0e-3;
const VA: f64 = 2500.0;

impl Gas {
    pub fn gas_constant(self) -> f64 {
        match self {
            Gas::H2 => R_H2,
            Gas::Poly => R_P,
            _ => R_HE,
        }
    }
    /// `true` if h - u = P/rho and dh = cp dT hold exactly
    pub fn consistent(self) -> bool {
        !matches!(self, Gas::He | Gas::H2)
    }
    pub fn du_dt_actual(self, t: f64, p: f64) -> f64 {
        match self {
            Gas::H2 => {
                // d/dT of (T - Tref) * sum c_k/(k+1) T^k  - R
                let mut s = 0.0;
                for (k, c) in CP_H2.iter().enumerate() {
                    let kf = k as f64;
                    let a = c / (kf + 1.0);
                    s += a * t.powi(k as i32);
                    if k > 0 {
                        s += (t - T_REF) * a * kf * t.powi(k as i32 - 1);
                    }
                }
                s - R_H2
            }
            _ => self.du_dT_P(t, p),
        }
    }
}

#[allow(non_snake_case)]
impl Fluid for Gas {
    fn dens(&self, t: f64, p: f64) -> f64 {
        match self {
            Gas::Virial => 1.0 / (R_HE * t / p + VB - VA / (R_HE * t)),
            g => p / (g.gas_constant() * t),
        }
    }
    fn inte(&self, t: f64, p: f64) -> f64 {
        match self {
            Gas::He | Gas::H2 => self.enth(t, p) - self.gas_constant() * (t - T_REF),
            Gas::HeC => (CP_HE - R_HE) * t - CP_HE * T_REF,
            Gas::Poly => self.enth(t, p) - R_P * t,
            Gas::Virial => (CP_HE - R_HE) * t - p * VA / (R_HE * t),
        }
    }
    fn enth(&self, t: f64, p: f64) -> f64 {
        match self {
            Gas::He | Gas::HeC => CP_HE * (t - T_REF),
            Gas::H2 => {
                let mut s = 0.0;
                for (k, c) in CP_H2.iter().enumerate() {
                    s += c / (k as f64 + 1.0) * t.powi(k as i32);
                }
                s * (t - T_REF)
            }
            Gas::Poly => CP_P.0 * (t - 300.0) + 0.5 * CP_P.1 * (t * t - 300.0 * 300.0),
            Gas::Virial => CP_HE * t + p * (VB - 2.0 * VA / (R_HE * t)),
        }
    }
    fn cp(&self, t: f64, p: f64) -> f64 {
        match self {
            Gas::He | Gas::HeC => CP_HE,
            Gas::H2 => CP_H2.iter().enumerate().map(|(k, c)| c * t.powi(k as i32)).sum(),
            Gas::Poly => CP_P.0 + CP_P.1 * t,
            Gas::Virial => CP_HE + 2.0 * VA * p / (R_HE * t * t),
        }
    }
    fn dd_dP_T(&self, t: f64, p: f64) -> f64 {
        match self {
            Gas::Virial => {
                let rho = self.dens(t, p);
                rho * rho * R_HE * t / (p * p)
            }
            g => 1.0 / (g.gas_constant() * t),
        }
    }
    fn dd_dT_P(&self, t: f64, p: f64) -> f64 {
        match self {
            Gas::Virial => {
                let rho = self.dens(t, p);
                -rho * rho * (R_HE / p + VA / (R_HE * t * t))
            }
            g => -p / (g.gas_constant() * t * t),
        }
    }
    fn du_dP_T(&self, t: f64, _p: f64) -> f64 {
        match self {
            Gas::Virial => -VA / (R_HE * t),
            _ => 0.0,
        }
    }
    fn du_dT_P(&self, t: f64, p: f64) -> f64 {
        match self {
            Gas::Virial => CP_HE - R_HE + p * VA / (R_HE * t * t),
            g => g.cp(t, p) - g.gas_constant(),
        }
    }
}

/// The fluid given to the library: its own ideal gas or one of ours
pub enum LibFluid {
    Lib(sett_rs::fluid::IdealGas),
    Mine(Gas),
}

impl LibFluid {
    pub fn new(g: Gas) -> Self {
        match g {
            Gas::He => LibFluid::Lib(sett_rs::fluid::IdealGas::helium()),
            Gas::H2 => LibFluid::Lib(sett_rs::fluid::IdealGas::hydrogen()),
            g => LibFluid::Mine(g),
        }
    }
    fn f(&self) -> &dyn Fluid {
        match self {
            LibFluid::Lib(x) => x,
            LibFluid::Mine(x) => x,
        }
    }
}

#[allow(non_snake_case)]
impl Fluid for LibFluid {
    fn dens(&self, t: f64, p: f64) -> f64 {
        self.f().dens(t, p)
    }
    fn inte(&self, t: f64, p: f64) -> f64 {
        self.f().inte(t, p)
    }
    fn enth(&self, t: f64, p: f64) -> f64 {
        self.f().enth(t, p)
    }
    fn cp(&self, t: f64, p: f64) -> f64 {
        self.f().cp(t, p)
    }
    fn dd_dP_T(&self, t: f64, p: f64) -> f64 {
        self.f().dd_dP_T(t, p)
    }
    fn dd_dT_P(&self, t: f64, p: f64) -> f64 {
        self.f().dd_dT_P(t, p)
    }
    fn du_dP_T(&self, t: f64, p: f64) -> f64 {
        self.f().du_dP_T(t, p)
    }
    fn du_dT_P(&self, t: f64, p: f64) -> f64 {
        self.f().du_dT_P(t, p)
    }
}

/// Reference kinematics
#[derive(Clone, Debug, PartialEq)]
pub enum Drive {
    /// f, phase (deg), (swept, clearance) of compression and expansion space
    Sin { f: f64, phase: f64, comp: (f64, f64), exp: (f64, f64) },
    /// f, clearances, crank radius, connecting rod, eccentricity, diameters
    Rhombic { f: f64, vcc: f64, vce: f64, r: f64, l: f64, e: f64, dp: f64, dd: f64 },
    /// Two harmonics per space, written here; `f_pres` makes the frequency
    /// depend on the average pressure: f * (pres / p_ref)^f_pres
    Harm { f: f64, comp: [f64; 4], exp: [f64; 4], f_pres: f64, p_ref: f64 },
}

#[derive(Clone, Copy, Debug)]
pub struct Vols {
    pub c: f64,
    pub dc: f64,
    pub e: f64,
    pub de: f64,
}

impl Drive {
    pub fn freq(&self, p_avg: f64) -> f64 {
        match *self {
            Drive::Sin { f, .. } | Drive::Rhombic { f, .. } => f,
            Drive::Harm { f, f_pres, p_ref, .. } => {
                if f_pres == 0.0 {
                    f
                } else {
                    f * (p_avg / p_ref).powf(f_pres)
                }
            }
        }
    }

    pub fn vols(&self, t: f64, freq: f64) -> Vols {
        let w = 2.0 * PI * freq;
        let th = w * t;
        match *self {
            Drive::Sin { phase, comp, exp, .. } => {
                let a = phase.to_radians();
                Vols {
                    c: comp.1 + comp.0 * (1.0 + th.cos()) / 2.0,
                    dc: -comp.0 * w * th.sin() / 2.0,
                    e: exp.1 + exp.0 * (1.0 + (th + a).cos()) / 2.0,
                    de: -exp.0 * w * (th + a).sin() / 2.0,
                }
            }
            Drive::Rhombic { vcc, vce, r, l, e, dp, dd, .. } => {
                // The yokes move at +/- b(theta) from the crank pin, which is
                // at height r sin(theta).  Compression space: between the two
                // pistons, closed at the largest b.  Expansion space: above
                // the displacer, closed when crank and rod are aligned.
                let (ap, ad) = (PI * dp * dp / 4.0, PI * dd * dd / 4.0);
                let x = e + r * th.cos();
                let dx = -r * th.sin() * w;
                let b = (l * l - x * x).sqrt();
                let db = -x * dx / b;
                let x_min = (e - r).max(0.0);
                let b_max = (l * l - x_min * x_min).sqrt();
                let y_min = ((l - r) * (l - r) - e * e).sqrt();
                Vols {
                    c: vcc + 2.0 * ap * (b_max - b),
                    dc: -2.0 * ap * db,
                    e: vce + ad * (b - r * th.sin() - y_min),
                    de: ad * (db - r * th.cos() * w),
                }
            }
            Drive::Harm { comp, exp, .. } => {
                let f = |a: &[f64; 4]| {
                    (
                        a[0] + a[1] * (th + a[3]).cos() + a[2] * (2.0 * th).sin(),
                        w * (-a[1] * (th + a[3]).sin() + 2.0 * a[2] * (2.0 * th).cos()),
                    )
                };
                let (c, dc) = f(&comp);
                let (e, de) = f(&exp);
                Vols { c, dc, e, de }
            }
        }
    }
}

/// A `WorkingSpaces` component that is driven by the reference kinematics
pub struct MockDrive {
    pub drive: Drive,
    pub res: ws::ThermalResistance,
    pub par: ws::Parasitics,
    pub tap: Option<Arc<dyn Fn(f64) + Send + Sync>>,
}

impl ws::WorkingSpaces for MockDrive {
    fn frequency(&self, s: &ws::State) -> f64 {
        self.drive.freq(s.pres.avg)
    }
    fn volumes(&self, s: &ws::State) -> Box<dyn Fn(f64) -> (ws::CompVolume, ws::ExpVolume)> {
        let d = self.drive.clone();
        let f = self.frequency(s);
        let tap = self.tap.clone();
        Box::new(move |t| {
            if let Some(tap) = &tap {
                tap(t);
            }
            let v = d.vols(t, f);
            (ws::CompVolume { value: v.c, deriv: v.dc }, ws::ExpVolume { value: v.e, deriv: v.de })
        })
    }
    fn thermal_resistance(&self, _: &ws::State) -> ws::ThermalResistance {
        self.res
    }
    fn parasitics(&self, _: &ws::State) -> ws::Parasitics {
        self.par
    }
}

/// What a heat exchanger component is told about its state, plus the two
/// neighbouring temperatures (sink or source; chx and hhx for a regenerator)
#[derive(Clone, Copy, Debug)]
pub struct HxView {
    pub temp: f64,
    pub pres: f64,
    pub dens: f64,
    pub cp: f64,
    pub m_dot: f64,
    pub q_dot: f64,
    pub t1: f64,
    pub t2: f64,
}

/// Heat exchanger component with an arbitrary law
pub struct MockHx {
    pub vol: f64,
    pub init: f64,
    pub r_hyd: Arc<dyn Fn(&HxView) -> f64 + Send + Sync>,
    pub law: Arc<dyn Fn(&HxView) -> f64 + Send + Sync>,
    pub par: Arc<dyn Fn(&HxView) -> ParasiticPower + Send + Sync>,
}

fn view(h: &sett_rs::types::HeatExchanger, t1: f64, t2: f64) -> HxView {
    HxView { temp: h.temp, pres: h.pres, dens: h.dens, cp: h.cp, m_dot: h.m_dot, q_dot: h.Q_dot, t1, t2 }
}

macro_rules! hx_impl {
    ($tr:path, $st:path, $v:expr) => {
        impl $tr for MockHx {
            fn volume(&self) -> f64 {
                self.vol
            }
            fn approach(&self, s: &$st) -> f64 {
                (self.law)(&$v(s))
            }
            fn hydraulic_resistance(&self, s: &$st) -> f64 {
                (self.r_hyd)(&$v(s))
            }
            fn parasitics(&self, s: &$st) -> ParasiticPower {
                (self.par)(&$v(s))
            }
            fn initial_approach(&self) -> f64 {
                self.init
            }
        }
    };
}
hx_impl!(chx::ColdHeatExchanger, chx::State, |s: &chx::State| view(&s.hxr, s.sink_temp, 0.0));
hx_impl!(hhx::HotHeatExchanger, hhx::State, |s: &hhx::State| view(&s.hxr, s.source_temp, 0.0));
hx_impl!(regen::Regenerator, regen::State, |s: &regen::State| view(&s.hxr, s.temp_chx, s.temp_hhx));
