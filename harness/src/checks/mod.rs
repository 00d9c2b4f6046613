pub mod conf;
pub mod faults;
pub mod parts;
pub mod proto;
pub mod rel;
pub mod sched;
pub mod told;
pub mod trace;

use crate::mocks::*;
use crate::par::run_cases;
use crate::refm::*;
use crate::report::*;
use crate::space::*;
use crate::spec::*;
use sett_rs::fluid::Fluid;

/// Time constant of wall heat transfer, relative to the period.  An explicit
/// integrator may decline stiff problems, so no result is demanded for them.
pub fn too_stiff(s: &Spec) -> bool {
    let r = s.rc.min(s.re);
    if !r.is_finite() || r > 1e100 {
        return false;
    }
    let f = s.freq(s.p0);
    let v = s.drive.vols(0.0, f);
    let w = s.drive.vols(0.5 / f, f);
    let vmin = v.c.min(v.e).min(w.c).min(w.e);
    let m = vmin * s.gas.dens(s.t_source.max(s.t_sink), s.p0);
    m * s.gas.cp(s.t_sink, s.p0) * r * f < 5e-3
}

/// Run a case; if there is no result although the reference engine has one
/// (with loop tolerances that are five times tighter), that is a violation.
pub fn run_case(rep: &Report, label: &str, s: &Spec) -> Option<Out> {
    match s.run() {
        Ok(o) => Some(o),
        Err(Fail::Panic(m)) => {
            rep.violation(label, label, format!("panic: {m}"));
            None
        }
        Err(e) => {
            if too_stiff(s) {
                rep.count("no_result_stiff", 1);
            } else if ref_engine(s, 0.2, 1e-9).is_ok() {
                rep.violation(label, label, format!("no result ({e}) for an engine that has a cyclic steady state"));
            } else {
                rep.count("no_result_expected", 1);
            }
            None
        }
    }
}

/// Explore every case and monitor every reported instant with `oracle`
pub fn explore(rep: &Report, meta: &Meta, cases: &[Case], oracle: impl Fn(&Case, &Out) + Sync) {
    run_cases(rep, meta, cases, |c| c.label.clone(), |c| {
        rep.count("evaluations", 1);
        rep.count(&format!("cases_with_{}_deviations", c.deviations), 1);
        if let Some(o) = run_case(rep, &c.label, &c.spec) {
            rep.count("traces", 1);
            rep.count("states", o.n() as u64);
            rep.count("transitions", o.n().saturating_sub(1) as u64);
            rep.observe(hash_f64(&[o.v.p[o.n() / 2], o.temp.chx, o.temp.hhx, o.r.power.net]));
            rep.sample(serde_json::json!({
                "case": c.label,
                "instants": o.n(),
                "pressure": o.pres,
                "T_chx": o.temp.chx, "T_hhx": o.temp.hhx,
                "net_power": o.r.power.net, "heat_input": o.r.heat_flow.input,
            }));
            oracle(c, &o);
        }
    });
}

/// The standard configuration space of the trace checks
pub fn standard_space(rep: &Report, extra: Vec<Field>) -> Vec<Case> {
    let mut fields = physics_fields();
    fields.extend(extra);
    let mut out = Vec::new();
    for (n, b) in bases() {
        let k = match (n, rep.thorough()) {
            ("fixed", _) => 2,
            (_, true) => 2,
            _ => 1,
        };
        out.extend(within(n, &b, &fields, k));
    }
    out
}

/// Deepest space: every specification within three deviations of the base with
/// fixed approaches
pub fn deep_space(rep: &Report, extra: Vec<Field>) -> Vec<Case> {
    let mut out = standard_space(rep, extra);
    if rep.thorough() {
        let fields = physics_fields();
        out.extend(within("fixed", &Spec::base_fixed(), &fields, 3).into_iter().filter(|c| c.deviations == 3));
    }
    out
}

pub fn sign_pattern(m: [f64; 4]) -> String {
    m.iter().map(|x| if *x > 0.0 { '+' } else if *x < 0.0 { '-' } else { '0' }).collect()
}

pub fn max_abs(v: &[f64]) -> f64 {
    v.iter().fold(0.0, |a, b| a.max(b.abs()))
}

/// Compare a reported value with the expected one
#[allow(clippy::too_many_arguments)]
pub fn expect(rep: &Report, case: &str, what: &str, got: f64, want: f64, scale: f64, tol: f64) -> bool {
    let r = rel(got, want, scale);
    rep.maximum(what, r, case);
    if r > tol {
        rep.violation(case, case, format!("{what}: reported {got:e}, expected {want:e} (relative to {scale:e}: {r:.2e} > {tol:.0e})"));
        false
    } else {
        true
    }
}

pub fn gas_of(s: &Spec) -> Gas {
    s.gas
}
