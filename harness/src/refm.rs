//! Reference model: an independent statement of the engine's equations.
//!
//! The ten state equations are solved in closed form by elimination for every
//! combination of flow directions that matters, and combinations whose result
//! contradicts the assumed directions are discarded.
use crate::mocks::*;
use crate::spec::*;
use sett_rs::fluid::Fluid;

#[derive(Clone, Copy, Debug)]
pub struct Sol {
    pub m: [f64; 4],
    pub q: [f64; 3],
    pub dtc: f64,
    pub dte: f64,
    pub dp: f64,
}

/// One engine cycle at constant heat exchanger temperatures
pub struct Ctx<'a> {
    pub s: &'a Spec,
    pub t: Temps,
    pub freq: f64,
}

struct Space {
    a: f64,
    b: f64,
    x0: f64,
    x1: f64,
}

impl<'a> Ctx<'a> {
    pub fn new(s: &'a Spec, t: Temps, freq: f64) -> Self {
        Self { s, t, freq }
    }

    /// Flow out of a working space (m = a + b Y) and its temperature change
    /// (X = x0 + x1 Y) as a function of the pressure change Y
    fn space(&self, v: f64, dv: f64, t: f64, p: f64, h: f64, q: f64) -> Space {
        let g = self.s.gas;
        let (rho, u) = (g.dens(t, p), g.inte(t, p));
        let (rp, rt, up, ut) = (g.dd_dP_T(t, p), g.dd_dT_P(t, p), g.du_dP_T(t, p), g.du_dT_P(t, p));
        let d = rho * ut + (u - h) * rt;
        let n = rho * up + (u - h) * rp;
        let x0 = ((rho * (h - u) - p) * dv - q) / (v * d);
        let x1 = -n / d;
        Space { a: -rho * dv - v * rt * x0, b: -v * (rp + rt * x1), x0, x1 }
    }

    /// All solutions that agree with their own flow directions
    pub fn solve(&self, time: f64, p: f64, tc: f64, te: f64) -> Vec<Sol> {
        let (s, g, t) = (self.s, self.s.gas, &self.t);
        let v = s.drive.vols(time, self.freq);
        let qc = (tc - t.chx) / s.rc;
        let qe = (te - t.hhx) / s.re;
        let hv = [s.chx.vol, s.regen.vol, s.hhx.vol];
        let ht = [t.chx, t.avg, t.hhx];
        let mut cap = [0.0; 3];
        let mut een = [0.0; 3];
        for i in 0..3 {
            let (rho, u) = (g.dens(ht[i], p), g.inte(ht[i], p));
            cap[i] = hv[i] * g.dd_dP_T(ht[i], p);
            een[i] = hv[i] * (rho * g.du_dP_T(ht[i], p) + u * g.dd_dP_T(ht[i], p));
        }
        let h = |x: f64| g.enth(x, p);
        let mut out = Vec::new();
        for ck_pos in [true, false] {
            for le_pos in [true, false] {
                let h_ck = if ck_pos { h(tc) } else { h(t.chx) };
                let h_le = if le_pos { h(t.hhx) } else { h(te) };
                let c = self.space(v.c, v.dc, tc, p, h_ck, qc);
                let e = self.space(v.e, v.de, te, p, h_le, qe);
                let y = -(c.a + e.a) / (c.b + e.b - cap[0] - cap[1] - cap[2]);
                let ck = c.a + c.b * y;
                let le = -(e.a + e.b * y);
                if (ck >= 0.0) != ck_pos || (le >= 0.0) != le_pos {
                    continue;
                }
                let kr = ck - cap[0] * y;
                let rl = kr - cap[1] * y;
                let h_kr = if kr >= 0.0 { h(t.chx) } else { h(t.cold) };
                let h_rl = if rl >= 0.0 { h(t.hot) } else { h(t.hhx) };
                out.push(Sol {
                    m: [ck, kr, rl, le],
                    q: [
                        ck * h_ck - kr * h_kr - een[0] * y,
                        kr * h_kr - rl * h_rl - een[1] * y,
                        le * h_le - rl * h_rl + een[2] * y,
                    ],
                    dtc: c.x0 + c.x1 * y,
                    dte: e.x0 + e.x1 * y,
                    dp: y,
                });
            }
        }
        out
    }

    fn rhs(&self, t: f64, y: &[f64; 3]) -> Option<[f64; 3]> {
        let sols = self.solve(t, y[0], y[1], y[2]);
        let s = sols.first()?;
        let r = [s.dp, s.dtc, s.dte];
        r.iter().all(|x| x.is_finite()).then_some(r)
    }

    /// Integrate [P, T_c, T_e] from `t0` to `t1` (adaptive Dormand-Prince)
    pub fn integrate(&self, t0: f64, t1: f64, y0: [f64; 3], tol: f64) -> Option<[f64; 3]> {
        const A: [[f64; 6]; 6] = [
            [1.0 / 5.0, 0.0, 0.0, 0.0, 0.0, 0.0],
            [3.0 / 40.0, 9.0 / 40.0, 0.0, 0.0, 0.0, 0.0],
            [44.0 / 45.0, -56.0 / 15.0, 32.0 / 9.0, 0.0, 0.0, 0.0],
            [19372.0 / 6561.0, -25360.0 / 2187.0, 64448.0 / 6561.0, -212.0 / 729.0, 0.0, 0.0],
            [9017.0 / 3168.0, -355.0 / 33.0, 46732.0 / 5247.0, 49.0 / 176.0, -5103.0 / 18656.0, 0.0],
            [35.0 / 384.0, 0.0, 500.0 / 1113.0, 125.0 / 192.0, -2187.0 / 6784.0, 11.0 / 84.0],
        ];
        const C: [f64; 6] = [0.2, 0.3, 0.8, 8.0 / 9.0, 1.0, 1.0];
        const E: [f64; 7] = [
            71.0 / 57600.0,
            0.0,
            -71.0 / 16695.0,
            71.0 / 1920.0,
            -17253.0 / 339200.0,
            22.0 / 525.0,
            -1.0 / 40.0,
        ];
        let span = t1 - t0;
        let mut t = t0;
        let mut y = y0;
        let mut h = span / 8.0;
        let mut k = [[0.0f64; 3]; 7];
        k[0] = self.rhs(t, &y)?;
        for _ in 0..200_000 {
            if t >= t1 || (t1 - t) < 1e-14 * span.abs() {
                return Some(y);
            }
            if t + h > t1 {
                h = t1 - t;
            }
            let mut yn = y;
            let mut bad = false;
            for i in 0..6 {
                yn = y;
                for j in 0..=i {
                    for d in 0..3 {
                        yn[d] += h * A[i][j] * k[j][d];
                    }
                }
                match self.rhs(t + C[i] * h, &yn) {
                    Some(r) => k[i + 1] = r,
                    None => {
                        bad = true;
                        break;
                    }
                }
            }
            let mut err = 0.0f64;
            for d in 0..3 {
                let mut e = 0.0;
                for j in 0..7 {
                    e += h * E[j] * k[j][d];
                }
                err = err.max((e / (tol * y[d].abs().max(yn[d].abs()))).abs());
            }
            if !bad && (err <= 1.0 || h < 1e-9 * span) {
                t += h;
                y = yn;
                k[0] = k[6];
            }
            let fac = if bad { 0.1 } else if err == 0.0 { 4.0 } else { (0.9 * err.powf(-0.2)).clamp(0.15, 4.0) };
            h *= fac;
            if h < 1e-12 * span {
                return None;
            }
        }
        None
    }

    pub fn gas_mass(&self, time: f64, p: f64, tc: f64, te: f64) -> f64 {
        let v = self.s.drive.vols(time, self.freq);
        let g = self.s.gas;
        v.c * g.dens(tc, p)
            + v.e * g.dens(te, p)
            + self.s.chx.vol * g.dens(self.t.chx, p)
            + self.s.regen.vol * g.dens(self.t.avg, p)
            + self.s.hhx.vol * g.dens(self.t.hhx, p)
    }
}

/// Log mean of two positive temperatures
pub fn log_mean(a: f64, b: f64) -> f64 {
    let x = (b - a) / a;
    if x.abs() < 1e-4 {
        a * (1.0 + x / 2.0 - x * x / 12.0 + x * x * x / 24.0)
    } else {
        (b - a) / (b / a).ln()
    }
}

/// Temperatures that follow from the approach temperatures
pub fn temps(sink: f64, source: f64, a: [f64; 3]) -> Temps {
    let chx = sink + a[0];
    let hhx = source - a[2];
    Temps {
        chx,
        cold: chx + a[1],
        avg: log_mean(chx + 0.5 * a[1], hhx - 0.5 * a[1]),
        hot: hhx - a[1],
        hhx,
    }
}

pub fn trapz(x: &[f64], y: impl Fn(usize) -> f64) -> f64 {
    (1..x.len()).map(|i| 0.5 * (y(i) + y(i - 1)) * (x[i] - x[i - 1])).sum()
}

/// Averages a heat exchanger component must be shown for given cycle values
pub fn hx_views(s: &Spec, o: &Out) -> [HxView; 3] {
    cycle_views(s, &o.v, &o.temp)
}

/// Relative closeness with a scale
pub fn close(a: f64, b: f64, scale: f64, tol: f64) -> bool {
    (a - b).abs() <= tol * scale.abs().max(a.abs()).max(b.abs()) || a == b
}

pub fn rel(a: f64, b: f64, scale: f64) -> f64 {
    let d = (a - b).abs();
    if d == 0.0 {
        0.0
    } else {
        let s = scale.abs().max(a.abs()).max(b.abs());
        let r = d / s;
        if r.is_nan() {
            f64::INFINITY
        } else {
            r
        }
    }
}

/// Result of the reference engine
pub struct RefRun {
    pub temps: Temps,
    pub start: [f64; 3],
    pub vals: Vals,
    pub inner_total: usize,
    pub outer: usize,
}

/// `|new - old|` within both the absolute and the relative tolerance
pub fn within_tol(old: f64, new: f64, tol: (f64, f64)) -> bool {
    (new - old).abs() < tol.0 && ((new - old) / old).abs() < tol.1
}

/// Cycle values on a uniform grid, starting from `y0`
pub fn ref_values(c: &Ctx, y0: [f64; 3], n: usize, tol: f64) -> Option<Vals> {
    let period = 1.0 / c.freq;
    let mut v = Vals::default();
    let mut y = y0;
    let mut t = 0.0;
    for i in 0..n {
        let tn = period * i as f64 / (n - 1) as f64;
        if i > 0 {
            y = c.integrate(t, tn, y, tol)?;
        }
        t = tn;
        let s = *c.solve(t, y[0], y[1], y[2]).first()?;
        v.t.push(t);
        v.p.push(y[0]);
        v.tc.push(y[1]);
        v.te.push(y[2]);
        for k in 0..4 {
            v.m[k].push(s.m[k]);
        }
        for k in 0..3 {
            v.q[k].push(s.q[k]);
        }
    }
    Some(v)
}

pub fn initial_approaches(s: &Spec) -> [f64; 3] {
    let mut a = [0.0; 3];
    for (i, h) in s.hxs().iter().enumerate() {
        a[i] = h.init.unwrap_or(match h.law {
            Law::Approach(a) | Law::Linear { a, .. } => a,
            Law::Ua(u) => {
                if i == 0 && u < 0.0 {
                    0.0
                } else {
                    10.0
                }
            }
        });
    }
    a
}

/// Independent simulation of the whole run: successive substitution of the
/// working space temperatures and of the approach temperatures.  `tighten`
/// scales the loop tolerances.
pub fn ref_engine(s: &Spec, tighten: f64, ode: f64) -> Result<RefRun, Fail> {
    let inner = (s.inner.0 * tighten, s.inner.1 * tighten);
    let outer = (s.outer.0 * tighten, s.outer.1 * tighten);
    let n = s.res as usize;
    let mut t = temps(s.t_sink, s.t_source, initial_approaches(s));
    let mut p_avg = s.p0;
    let mut inner_total = 0;
    for o in 0..s.iters.1 {
        let c = Ctx::new(s, t, s.freq(p_avg));
        let mut y = [s.p0, t.chx, t.hhx];
        let mut found = None;
        for _ in 0..s.iters.0 {
            inner_total += 1;
            let e = c.integrate(0.0, 1.0 / c.freq, y, ode).ok_or(Fail::Inner)?;
            if within_tol(y[1], e[1], inner) && within_tol(y[2], e[2], inner) {
                found = Some(y);
                break;
            }
            y = [s.p0, e[1], e[2]];
        }
        let y = found.ok_or(Fail::Inner)?;
        let vals = ref_values(&c, y, n, ode).ok_or(Fail::Inner)?;
        let views = cycle_views(s, &vals, &t);
        let a = [
            law(&s.chx.law, false, &views[0]),
            law(&s.regen.law, true, &views[1]),
            law(&s.hhx.law, false, &views[2]),
        ];
        p_avg = views[0].pres;
        let tn = temps(s.t_sink, s.t_source, a);
        let ok = [(t.chx, tn.chx), (t.cold, tn.cold), (t.avg, tn.avg), (t.hot, tn.hot), (t.hhx, tn.hhx)]
            .iter()
            .all(|(a, b)| within_tol(*a, *b, outer));
        if ok {
            return Ok(RefRun { temps: t, start: y, vals, inner_total, outer: o + 1 });
        }
        t = tn;
    }
    Err(Fail::Outer)
}

/// `hx_views` for plain cycle values
pub fn cycle_views(s: &Spec, v: &Vals, t: &Temps) -> [HxView; 3] {
    let g = s.gas;
    let tf = *v.t.last().unwrap();
    let p = trapz(&v.t, |i| v.p[i]) / tf;
    let m = |a: usize| trapz(&v.t, |i| 0.5 * (v.m[a][i] + v.m[a + 1][i]).abs()) / tf;
    let qc = trapz(&v.t, |i| (v.tc[i] - t.chx) / s.rc) / tf;
    let qe = trapz(&v.t, |i| (t.hhx - v.te[i]) / s.re) / tf;
    let q = |a: usize| trapz(&v.t, |i| v.q[a][i]) / tf;
    let mk = |tt: f64, m: f64, q: f64, t1: f64, t2: f64| HxView {
        temp: tt,
        pres: p,
        dens: g.dens(tt, p),
        cp: g.cp(tt, p),
        m_dot: m,
        q_dot: q,
        t1,
        t2,
    };
    [
        mk(t.chx, m(0), q(0) + qc, s.t_sink, 0.0),
        mk(t.avg, m(1), q(1), t.chx, t.hhx),
        mk(t.hhx, m(2), q(2) + qe, s.t_source, 0.0),
    ]
}
