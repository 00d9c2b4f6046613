//! Configurations: every entry of every supported component, in every format.
use super::*;
use crate::par::guarded;
use config::FileFormat;
use sett_rs::{Config, Legacy};
use std::collections::BTreeMap;

pub const C12: Meta = Meta {
    level: "model_checking",
    rule: "states are configurations: every combination of the supported components, every entry changed alone, and every pair of entries changed, each run from its text and compared with the engine assembled through the API from the same numbers; further, every entry removed, misspelled or replaced by text, and every unknown component, must be rejected",
    assumptions: &["rhombic drives can only be built from configurations: their volumes are compared with an independent drive"],
};

pub const C21: Meta = Meta {
    level: "model_checking",
    rule: "states are configurations as in C12, written as TOML, JSON and YAML and in the legacy format; all must give equal configurations; damaged legacy configurations must be rejected",
    assumptions: &[],
};

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    F(f64),
    I(i64),
    S(String),
    M(Vec<(String, Node)>),
}
use Node::*;

fn m(v: Vec<(&str, Node)>) -> Node {
    M(v.into_iter().map(|(k, n)| (k.to_string(), n)).collect())
}

impl Node {
    fn path_mut(&mut self, path: &[String]) -> Option<&mut Node> {
        let mut n = self;
        for p in path {
            let M(v) = n else { return None };
            n = &mut v.iter_mut().find(|(k, _)| k == p)?.1;
        }
        Some(n)
    }

    fn leaves(&self) -> Vec<Vec<String>> {
        fn rec(n: &Node, p: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
            if let M(v) = n {
                for (k, c) in v {
                    p.push(k.clone());
                    rec(c, p, out);
                    p.pop();
                }
            } else {
                out.push(p.clone());
            }
        }
        let mut out = Vec::new();
        rec(self, &mut Vec::new(), &mut out);
        out
    }

    fn branches(&self) -> Vec<Vec<String>> {
        fn rec(n: &Node, p: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
            if let M(v) = n {
                for (k, c) in v {
                    p.push(k.clone());
                    if matches!(c, M(_)) {
                        out.push(p.clone());
                    }
                    rec(c, p, out);
                    p.pop();
                }
            }
        }
        let mut out = Vec::new();
        rec(self, &mut Vec::new(), &mut out);
        out
    }

    fn num(&self, path: &str) -> f64 {
        let mut n = self.clone();
        let p: Vec<String> = path.split('/').map(String::from).collect();
        match n.path_mut(&p) {
            Some(F(x)) => *x,
            Some(I(x)) => *x as f64,
            x => panic!("{path}: {x:?}"),
        }
    }

    fn key(&self, path: &str) -> String {
        let mut n = self.clone();
        let p: Vec<String> = path.split('/').map(String::from).collect();
        match n.path_mut(&p) {
            Some(M(v)) => v[0].0.clone(),
            x => panic!("{path}: {x:?}"),
        }
    }

    pub fn toml(&self) -> String {
        fn rec(n: &Node, path: &str, out: &mut String) {
            let M(v) = n else { unreachable!() };
            if !path.is_empty() {
                out.push_str(&format!("[{path}]\n"));
            }
            for (k, c) in v {
                match c {
                    F(x) => out.push_str(&format!("{k} = {}\n", tf(*x))),
                    I(x) => out.push_str(&format!("{k} = {x}\n")),
                    S(x) => out.push_str(&format!("{k} = \"{x}\"\n")),
                    M(_) => {}
                }
            }
            for (k, c) in v {
                if matches!(c, M(_)) {
                    rec(c, &if path.is_empty() { k.clone() } else { format!("{path}.{k}") }, out);
                }
            }
        }
        let mut out = String::new();
        rec(self, "", &mut out);
        out
    }

    pub fn json(&self) -> String {
        match self {
            F(x) if x.is_infinite() => format!("\"{x}\""),
            F(x) => format!("{x:e}"),
            I(x) => format!("{x}"),
            S(x) => format!("\"{x}\""),
            M(v) => format!("{{{}}}", v.iter().map(|(k, n)| format!("\"{k}\":{}", n.json())).collect::<Vec<_>>().join(",")),
        }
    }

    pub fn yaml(&self) -> String {
        fn rec(n: &Node, ind: usize, out: &mut String) {
            let M(v) = n else { unreachable!() };
            for (k, c) in v {
                out.push_str(&" ".repeat(ind));
                match c {
                    F(x) if x.is_infinite() => out.push_str(&format!("{k}: \"{x}\"\n")),
                    F(x) => {
                        let s = format!("{x:?}");
                        let s = if s.contains('.') { s } else { s.replace('e', ".0e") };
                        out.push_str(&format!("{k}: {s}\n"));
                    }
                    I(x) => out.push_str(&format!("{k}: {x}\n")),
                    S(x) => out.push_str(&format!("{k}: {x}\n")),
                    M(_) => {
                        out.push_str(&format!("{k}:\n"));
                        rec(c, ind + 2, out);
                    }
                }
            }
        }
        let mut out = String::new();
        rec(self, 0, &mut out);
        out
    }
}

fn parse<T: serde::de::DeserializeOwned>(text: &str, format: FileFormat) -> Result<T, String> {
    guarded(|| {
        config::Config::builder()
            .add_source(config::File::from_str(text, format))
            .build()
            .and_then(|c| c.try_deserialize::<T>())
            .map_err(|e| e.to_string())
    })
    .unwrap_or_else(|p| Err(format!("PANIC {p}")))
}

/// gas, drive, and fixed conductance (instead of approach) for chx, regen, hhx
pub fn combos() -> Vec<(usize, usize, [bool; 3])> {
    let mut v = Vec::new();
    for g in 0..2 {
        for d in 0..2 {
            for k in 0..8 {
                v.push((g, d, [k & 1 != 0, k & 2 != 0, k & 4 != 0]));
            }
        }
    }
    v
}

fn ws_entries(d: usize) -> Vec<(&'static str, Node)> {
    if d == 0 {
        vec![
            ("frequency", F(41.5)),
            ("phase_angle", F(95.0)),
            ("V_swept_c", F(1.13e-4)),
            ("V_clearance_c", F(4.7e-5)),
            ("R_c", F(0.9)),
            ("W_parasitic_c", F(7.5)),
            ("V_swept_e", F(1.21e-4)),
            ("V_clearance_e", F(1.7e-5)),
            ("R_e", F(1.4)),
            ("W_parasitic_e", F(17.5)),
            ("Q_parasitic_e", F(13.25)),
        ]
    } else {
        vec![
            ("frequency", F(43.5)),
            ("V_clearance_c", F(6.0e-6)),
            ("R_c", F(0.8)),
            ("W_parasitic_c", F(8.5)),
            ("V_clearance_e", F(4.5e-6)),
            ("R_e", F(1.3)),
            ("W_parasitic_e", F(16.5)),
            ("Q_parasitic_e", F(12.25)),
            ("r_crank", F(0.01397)),
            ("L_conn", F(0.04602)),
            ("eccentricity", F(0.02065)),
            ("D_p", F(0.0698)),
            ("D_d", F(0.0636)),
        ]
    }
}

fn hx_entries(kind: usize, ua: bool) -> Vec<(&'static str, Node)> {
    let (vol, r) = [(4.1e-5, 1.1e6), (9.2e-5, 5.3e6), (7.3e-5, 2.7e6)][kind];
    let val = if ua { [240.0, 5100.0, 190.0][kind] } else { [31.0, 12.5, 61.0][kind] };
    let mut v = vec![("vol", F(vol)), (if ua { "UA" } else { "DT" }, F(val)), ("R_hyd", F(r))];
    if kind != 1 {
        v.push(("W_parasitic", F([23.5, 0.0, 47.5][kind])));
    }
    if kind != 0 {
        v.push(("Q_parasitic", F([0.0, 37.75, 53.25][kind])));
    }
    v
}

/// The configuration of a combination
pub fn base(combo: (usize, usize, [bool; 3])) -> Node {
    let (g, d, ua) = combo;
    let hx = |k: usize| m(vec![(if ua[k] { "fixed_conductance" } else { "fixed_approach" }, m(hx_entries(k, ua[k])))]);
    m(vec![
        (
            "engine",
            m(vec![
                ("fluid", m(vec![(if g == 0 { "hydrogen" } else { "helium" }, m(vec![("model", S("ideal_gas".into()))]))])),
                (
                    "components",
                    m(vec![
                        ("chx", hx(0)),
                        ("regen", hx(1)),
                        ("hhx", hx(2)),
                        ("ws", m(vec![(if d == 0 { "sinusoidal" } else { "rhombic" }, m(ws_entries(d)))])),
                    ]),
                ),
            ]),
        ),
        (
            "solver",
            m(vec![
                ("inner_loop", m(vec![("tolerance", m(vec![("abs", F(0.51)), ("rel", F(2.1e-3))])), ("max_iterations", I(31))])),
                ("outer_loop", m(vec![("tolerance", m(vec![("abs", F(0.83)), ("rel", F(3.3e-3))])), ("max_iterations", I(17))])),
                ("ode", m(vec![("tolerance", m(vec![("abs", F(1.3e-6)), ("rel", F(0.9e-6))])), ("num_timesteps", I(21))])),
            ]),
        ),
        ("conditions", m(vec![("temp_sink", F(301.0)), ("temp_source", F(877.0)), ("pres_zero", F(2.3e6))])),
    ])
}

/// Our own reading of a configuration
fn spec_of(n: &Node) -> Spec {
    let mut s = Spec::base_fixed();
    s.gas = if n.key("engine/fluid") == "hydrogen" { Gas::H2 } else { Gas::He };
    let w = |k: &str| n.num(&format!("engine/components/ws/{}/{k}", n.key("engine/components/ws")));
    s.drive = if n.key("engine/components/ws") == "sinusoidal" {
        Drive::Sin { f: w("frequency"), phase: w("phase_angle"), comp: (w("V_swept_c"), w("V_clearance_c")), exp: (w("V_swept_e"), w("V_clearance_e")) }
    } else {
        Drive::Rhombic { f: w("frequency"), vcc: w("V_clearance_c"), vce: w("V_clearance_e"), r: w("r_crank"), l: w("L_conn"), e: w("eccentricity"), dp: w("D_p"), dd: w("D_d") }
    };
    s.rc = w("R_c");
    s.re = w("R_e");
    s.par_c = pp(0.0, w("W_parasitic_c"), 0.0);
    s.par_e = pp(w("Q_parasitic_e"), w("W_parasitic_e"), 0.0);
    let hx = |name: &str| {
        let kind = n.key(&format!("engine/components/{name}"));
        let v = |k: &str| n.num(&format!("engine/components/{name}/{kind}/{k}"));
        Hx {
            vol: v("vol"),
            r_hyd: v("R_hyd"),
            law: if kind == "fixed_approach" { Law::Approach(v("DT")) } else { Law::Ua(v("UA")) },
            par: pp(if name == "chx" { 0.0 } else { v("Q_parasitic") }, if name == "regen" { 0.0 } else { v("W_parasitic") }, 0.0),
            init: None,
        }
    };
    s.chx = hx("chx");
    s.regen = hx("regen");
    s.hhx = hx("hhx");
    s.p0 = n.num("conditions/pres_zero");
    s.t_sink = n.num("conditions/temp_sink");
    s.t_source = n.num("conditions/temp_source");
    let tol = |k: &str| (n.num(&format!("solver/{k}/tolerance/abs")), n.num(&format!("solver/{k}/tolerance/rel")));
    s.inner = tol("inner_loop");
    s.outer = tol("outer_loop");
    s.ode = tol("ode");
    s.iters = (n.num("solver/inner_loop/max_iterations") as usize, n.num("solver/outer_loop/max_iterations") as usize);
    s.res = n.num("solver/ode/num_timesteps") as u32;
    s
}

/// A value with few digits, which every format reads exactly
fn short(x: f64) -> f64 {
    format!("{x:.3e}").parse().unwrap()
}

/// Alternative values of an entry
fn alts(path: &[String], n: &Node) -> Vec<Node> {
    match n {
        F(x) => {
            let name = path.last().unwrap().as_str();
            let mut v = match name {
                // tolerances and iteration limits must bite
                "abs" | "rel" if path[1] != "ode" => vec![F(short(x * 1e-2)), F(short(x * 1e6))],
                "abs" | "rel" => vec![F(short(x * 1e-3)), F(short(x * 30.0))],
                "R_c" | "R_e" => vec![F(f64::INFINITY), F(short(x * 2.0))],
                "r_crank" => vec![F(short(x * 0.9))],
                "L_conn" => vec![F(short(x * 1.1))],
                "eccentricity" => vec![F(short(x * 0.93))],
                _ => vec![F(short(x * 1.09)), F(short(x * 0.9))],
            };
            // Whole numbers need no decimal point
            if *x >= 2.0 && x.is_finite() {
                v.push(I(x.round() as i64));
            }
            v
        }
        I(x) => match path.last().unwrap().as_str() {
            "max_iterations" => vec![I(1), I(2), I(0), I(x + 1)],
            _ => vec![I(x * 2 - 1), I(2), I(1), I(0)],
        },
        S(_) | M(_) => vec![],
    }
}

/// Values far from the usual: nothing limits an entry but its type
fn extremes(path: &[String], n: &Node) -> Vec<Node> {
    let f = |v: &[f64]| v.iter().map(|x| F(*x)).collect();
    match n {
        F(x) => match path.last().unwrap().as_str() {
            "abs" | "rel" if path[1] != "ode" => f(&[0.0, 1e9]),
            "abs" | "rel" => f(&[1e-9, 0.1]),
            "D_p" | "D_d" => f(&[1e-5, 1e-3, 0.01, 0.7, 50.0]),
            "frequency" => f(&[-x, 0.05, 700.0]),
            "UA" => f(&[0.0, -x, short(x * 0.02), short(x * 30.0), short(x * 1e3)]),
            "phase_angle" => f(&[-95.0, 0.0, 180.0, 275.0, 455.0]),
            "temp_source" => f(&[290.0, 301.0, 320.0, 1700.0, 2900.0]),
            "temp_sink" => f(&[250.0, 600.0, 877.0, 950.0]),
            "r_crank" => f(&[0.0, 0.001, 0.02]),
            "L_conn" => f(&[0.036, 0.5]),
            "eccentricity" => f(&[0.0, 0.003, 0.031]),
            _ => f(&[0.0, -x, short(x * 1e-3), short(x * 30.0), short(x * 1e3)]),
        },
        I(_) => match path.last().unwrap().as_str() {
            "max_iterations" => vec![I(3), I(1000)],
            _ => vec![I(3), I(500), I(4001)],
        },
        S(_) | M(_) => vec![],
    }
}

const PATIENT: [((usize, usize, [bool; 3]), f64, f64); 2] = [((0, 0, [false; 3]), 4.7e-3, 1.7e-3), ((1, 1, [false; 3]), 6e-3, 4.5e-3)];

fn patient_variants() -> Vec<(String, Node)> {
    let mut out = Vec::new();
    let path = |s: &str| -> Vec<String> { s.split('/').map(String::from).collect() };
    for (combo, clear, dt) in PATIENT {
        for (k, limits) in [("inner_loop", &[127, 128, 200, 255, 256, 257, 258, 300, 512, 513, 1000, 65535, 65536, 65537, 65540][..]), ("outer_loop", &[255, 256, 257, 258, 300, 65536, 65540][..])] {
            for &n in limits {
                let mut b = base(combo);
                let mut set = |p: &str, v: Node| *b.path_mut(&path(p)).unwrap() = v;
                let ws = if combo.1 == 0 { "sinusoidal" } else { "rhombic" };
                set(&format!("engine/components/ws/{ws}/V_clearance_c"), F(clear));
                set(&format!("engine/components/ws/{ws}/V_clearance_e"), F(dt));
                set("solver/inner_loop/tolerance/abs", F(1e-5));
                set("solver/inner_loop/tolerance/rel", F(1e-8));
                set("solver/inner_loop/max_iterations", I(70000));
                set("solver/outer_loop/tolerance/abs", F(3e3));
                set("solver/outer_loop/tolerance/rel", F(3e3));
                set("solver/ode/tolerance/abs", F(1e-2));
                set("solver/ode/tolerance/rel", F(1e-2));
                set(&format!("solver/{k}/max_iterations"), I(n));
                out.push((format!("patient {combo:?} {clear:e} {dt:e} {k}={n}"), b));
            }
        }
    }
    // iterations that settle just before, at and after their limit
    for combo in [(0, 0, [false; 3]), (1, 1, [true; 3])] {
        for k in ["inner_loop", "outer_loop"] {
            for e in -4..=4 {
                for n in 0..=6 {
                    let mut b = base(combo);
                    let mut set = |p: &str, v: Node| *b.path_mut(&path(p)).unwrap() = v;
                    for x in ["inner_loop", "outer_loop"] {
                        set(&format!("solver/{x}/tolerance/abs"), F(1e-2));
                        set(&format!("solver/{x}/tolerance/rel"), F(1e9));
                        set(&format!("solver/{x}/max_iterations"), I(200));
                    }
                    set(&format!("solver/{k}/tolerance/abs"), F(10f64.powi(e)));
                    set(&format!("solver/{k}/max_iterations"), I(n));
                    out.push((format!("settling {combo:?} {k} abs=1e{e} limit {n}"), b));
                }
            }
        }
    }
    for n in [256, 257, 65535, 65536, 65537, 70001] {
        let mut b = base((0, 0, [false; 3]));
        *b.path_mut(&path("solver/ode/num_timesteps")).unwrap() = I(n);
        out.push((format!("{n} instants"), b));
    }
    out
}

fn extreme_variants() -> Vec<(String, Node)> {
    let mut out = patient_variants();
    for combo in combos() {
        let b = base(combo);
        for p in b.leaves() {
            let cur = b.clone().path_mut(&p).unwrap().clone();
            for v in extremes(&p, &cur) {
                let mut n = b.clone();
                *n.path_mut(&p).unwrap() = v.clone();
                out.push((format!("{combo:?}+{}={}", p.join("."), v.json()), n));
            }
        }
    }
    out
}

/// (label, configuration) within `k` deviations
pub fn variants(combo: (usize, usize, [bool; 3]), k: usize) -> Vec<(String, Node)> {
    let b = base(combo);
    let name = format!("{:?}", combo);
    let mut out = vec![(name.clone(), b.clone())];
    let leaves = b.leaves();
    let change = |n: &Node, p: &[String], v: &Node| {
        let mut n = n.clone();
        *n.path_mut(p).unwrap() = v.clone();
        n
    };
    for (i, p) in leaves.iter().enumerate() {
        let cur = b.clone().path_mut(p).unwrap().clone();
        for v in alts(p, &cur) {
            let n1 = change(&b, p, &v);
            let l1 = format!("{name}+{}={}", p.join("."), v.json());
            out.push((l1.clone(), n1.clone()));
            if k > 1 {
                for p2 in &leaves[i + 1..] {
                    let cur = b.clone().path_mut(p2).unwrap().clone();
                    for v2 in alts(p2, &cur).into_iter().take(1) {
                        out.push((format!("{l1}+{}={}", p2.join("."), v2.json()), change(&n1, p2, &v2)));
                    }
                }
            }
        }
    }
    out
}

fn all_variants(rep: &Report) -> Vec<(String, Node)> {
    let mut items = Vec::new();
    for c in combos() {
        let two = rep.thorough() || c == (0, 0, [true, true, true]) || c == (1, 1, [false, false, false]);
        items.extend(variants(c, if two { 2 } else { 1 }));
    }
    items
}

/// First difference between the components of a configuration and its numbers
fn component_difference(n: &Node, s: &Spec, probes: &[sett_rs::ws::State]) -> Option<String> {
    use sett_rs::types::HeatExchanger;
    use sett_rs::{chx, hhx, regen, Components};
    let cfg: Config = parse(&n.toml(), FileFormat::Toml).ok()?;
    let c: Components = match guarded(|| cfg.engine.components.into()) {
        Ok(c) => c,
        Err(e) => return Some(format!("panic: {e}")),
    };
    let bad = |what: &str, got: f64, want: f64, scale: f64| -> Option<String> {
        (got != want && !(rel(got, want, scale) < 1e-9)).then(|| format!("{what} of the configured engine is {got:e}, expected {want:e}"))
    };
    let mut d = None;
    let f = s.freq(0.0);
    for st in probes {
        d = d.or_else(|| bad("frequency", c.ws.frequency(st), f, 0.0));
        let r = c.ws.thermal_resistance(st);
        d = d.or_else(|| bad("R_c", r.comp, s.rc, 0.0)).or_else(|| bad("R_e", r.exp, s.re, 0.0));
        let p = c.ws.parasitics(st);
        for (name, got, want) in [("parasitic_c", p.comp, s.par_c), ("parasitic_e", p.exp, s.par_e)] {
            d = d.or_else(|| bad(&format!("{name}.thermal"), got.thermal, want.thermal, 0.0));
            d = d.or_else(|| bad(&format!("{name}.mechanical"), got.mechanical, want.mechanical, 0.0));
            d = d.or_else(|| bad(&format!("{name}.electrical"), got.electrical, want.electrical, 0.0));
        }
        let vols = c.ws.volumes(st);
        // rounding is that of the largest volume
        let all: Vec<_> = (0..24).map(|k| k as f64 / 24.0 / f).map(|t| (vols(t), s.drive.vols(t, f))).collect();
        let top = |g: &dyn Fn(&crate::mocks::Vols) -> f64| all.iter().fold(0.0, |m: f64, (_, v)| m.max(g(v).abs())) * 1e-4;
        let (top_c, top_e) = (top(&|v| v.c), top(&|v| v.e));
        for ((a, b), v) in &all {
            d = d.or_else(|| bad("compression space volume", a.value, v.c, top_c)).or_else(|| bad("compression space rate", a.deriv, v.dc, (v.c + top_c) * f));
            d = d.or_else(|| bad("expansion space volume", b.value, v.e, top_e)).or_else(|| bad("expansion space rate", b.deriv, v.de, (v.e + top_e) * f));
        }
    }
    for (m_dot, q) in [(0.013, 250.0), (0.002, -70.0), (0.11, 4000.0)] {
        let h = HeatExchanger { temp: 340.0, pres: 2e6, dens: 2.0, cp: 5200.0, m_dot, Q_dot: q };
        let v = |t1: f64, t2: f64| HxView { temp: 340.0, pres: 2e6, dens: 2.0, cp: 5200.0, m_dot, q_dot: q, t1, t2 };
        let cs = chx::State { hxr: h, sink_temp: 300.0 };
        let rs = regen::State { hxr: h, temp_chx: 333.0, temp_hhx: 777.0 };
        let hs = hhx::State { hxr: h, source_temp: 900.0 };
        let all = [
            ("chx", c.chx.volume(), c.chx.hydraulic_resistance(&cs), c.chx.approach(&cs), c.chx.parasitics(&cs), &s.chx, law(&s.chx.law, false, &v(300.0, 0.0))),
            ("regen", c.regen.volume(), c.regen.hydraulic_resistance(&rs), c.regen.approach(&rs), c.regen.parasitics(&rs), &s.regen, law(&s.regen.law, true, &v(333.0, 777.0))),
            ("hhx", c.hhx.volume(), c.hhx.hydraulic_resistance(&hs), c.hhx.approach(&hs), c.hhx.parasitics(&hs), &s.hhx, law(&s.hhx.law, false, &v(900.0, 0.0))),
        ];
        for (name, vol, r, a, p, want, approach) in all {
            d = d.or_else(|| bad(&format!("{name} volume"), vol, want.vol, 0.0));
            d = d.or_else(|| bad(&format!("{name} R_hyd"), r, want.r_hyd, 0.0));
            d = d.or_else(|| bad(&format!("{name} approach"), a, approach, (q / (5200.0 * m_dot)).abs()));
            d = d.or_else(|| bad(&format!("{name} thermal parasitic"), p.thermal, want.par.thermal, 0.0));
            d = d.or_else(|| bad(&format!("{name} mechanical parasitic"), p.mechanical, want.par.mechanical, 0.0));
            d = d.or_else(|| bad(&format!("{name} electrical parasitic"), p.electrical, want.par.electrical, 0.0));
        }
    }
    d
}

pub fn c12(rep: &Report) {
    let mut items = all_variants(rep);
    items.extend(extreme_variants());
    let probes = crate::checks::parts::ws_states();
    run_cases(rep, &C12, &items, |x| x.0.clone(), |(l, n)| {
        rep.count("states", 1);
        let cfg: Config = match parse(&n.toml(), FileFormat::Toml) {
            Ok(c) => c,
            Err(e) => {
                rep.violation(l, l, format!("rejected: {e}"));
                return;
            }
        };
        let got = guarded(|| sett_rs::run_engine(cfg)).map_err(Fail::Panic).and_then(|r| {
            r.map_err(|e| match e {
                sett_rs::types::RunError::InnerLoop => Fail::Inner,
                sett_rs::types::RunError::OuterLoop => Fail::Outer,
            })
        });
        let s = spec_of(n);
        if let Some(msg) = parse::<Config>(&n.toml(), FileFormat::Toml).err().or_else(|| component_difference(n, &s, &probes)) {
            return rep.violation(l, l, msg);
        }
        // The components are equal: so must be the results
        let c = s.components();
        let tol = 1e-11;
        let want = s.run_with(c, LibFluid::new(s.gas));
        match (got, want) {
            (Err(a), Err(b)) if a == b => {
                rep.count("runs_that_fail_alike", 1);
            }
            (Ok(r), Ok(o)) => {
                let scale = |n: &str| match n {
                    "heat_flow.regen" => o.r.heat_flow.chx.abs(),
                    "heat_flow.input" | "heat_flow.rejection" => o.r.heat_flow.hhx.abs(),
                    x if x.starts_with("power") => o.r.power.ideal_indicated.abs() + o.r.heat_flow.hhx.abs(),
                    "shaft_torque" => (o.r.power.ideal_indicated.abs() + o.r.heat_flow.hhx.abs()) / (2.0 * std::f64::consts::PI * s.freq(0.0)),
                    "efficiency.mechanical" => 1.0,
                    _ => 0.0,
                };
                rep.count("traces", 1);
                rep.count("transitions", r.values.time.len() as u64);
                rep.observe(hash_f64(&[r.power.net, r.heat_flow.input, r.pressure.avg, r.temperature.chx]));
                for ((name, a), (_, b)) in scalars_of(&r).into_iter().zip(o.scalars()) {
                    if !expect(rep, l, name, a, b, scale(name), tol) {
                        return;
                    }
                }
                for ((name, a), (_, b)) in series_of(&r).into_iter().zip(series_of(&o.r)) {
                    if a.len() != b.len() {
                        rep.violation(l, l, format!("{name}: {} points instead of {}", a.len(), b.len()));
                        return;
                    }
                    let sc = max_abs(b).max(if name == "Q_dot_r" { max_abs(&o.r.values.Q_dot_k) } else { 0.0 });
                    for (x, y) in a.iter().zip(b) {
                        if !expect(rep, l, name, *x, *y, sc, tol * 10.0) {
                            return;
                        }
                    }
                }
                rep.sample(serde_json::json!({"configuration": l, "net_power": r.power.net}));
            }
            (a, b) => rep.violation(l, l, format!("the configuration gives {:?}, the assembled engine {:?}", a.map(|r| r.power), b.map(|o| o.r.power))),
        }
    });
    damages(rep, &C12);
    defaults(rep);
    printed(rep);
}

/// Other spellings of a name, and other names for the same thing
fn spellings(name: &str) -> Vec<String> {
    let words: Vec<String> = {
        let mut w = vec![String::new()];
        let mut lower = false;
        for c in name.chars() {
            if c == '_' || (c.is_uppercase() && lower) {
                w.push(String::new());
            }
            lower = c.is_lowercase();
            if c != '_' {
                w.last_mut().unwrap().extend(c.to_lowercase());
            }
        }
        w.retain(|x| !x.is_empty());
        w
    };
    let cap = |x: &String| x[..1].to_uppercase() + &x[1..];
    let pascal: String = words.iter().map(cap).collect();
    let mut v = vec![
        name.to_uppercase(),
        name.to_lowercase(),
        words.join("_"),
        words.join("-"),
        words.join(" "),
        words.concat(),
        words[0].clone() + &words[1..].iter().map(cap).collect::<String>(),
        cap(&words.concat()),
        pascal,
        name.replace('_', "-"),
        name.replace('_', ""),
        format!("{name}s"),
    ];
    const SAME: &[&[&str]] = &[
        &["hydrogen", "h2", "H2", "n-hydrogen", "parahydrogen", "gas"],
        &["helium", "he", "He", "He4", "gas"],
        &["ideal_gas", "IdealGas", "ideal", "perfect_gas", "refprop", "RefProp", "real_gas", "none", "default"],
        &["fixed_approach", "approach", "constant_approach", "fixed_temperature", "default"],
        &["fixed_conductance", "conductance", "ua", "effectiveness", "default"],
        &["sinusoidal", "sine", "sin", "harmonic", "crank", "default"],
        &["rhombic", "rhombic_drive", "crank", "default"],
        &["chx", "cooler", "cold"],
        &["hhx", "heater", "hot"],
        &["regen", "regenerator"],
        &["ws", "working_spaces", "drive"],
        &["frequency", "freq", "f", "speed", "n"],
        &["phase_angle", "phase", "phaseAngle", "alpha"],
        &["V_swept_c", "V_c", "V_sw_c", "V_swept"],
        &["V_swept_e", "V_e", "V_sw_e", "V_swept"],
        &["V_clearance_c", "V_cl_c", "V_dead_c"],
        &["V_clearance_e", "V_cl_e", "V_dead_e"],
        &["R_c", "R", "Rc"],
        &["R_e", "R", "Re"],
        &["vol", "volume", "V"],
        &["UA", "U_A", "ua", "conductance", "DT"],
        &["DT", "dT", "delta_T", "approach", "UA"],
        &["R_hyd", "R", "resistance", "hydraulic_resistance"],
        &["W_parasitic", "W_par", "W_dot_parasitic", "parasitic"],
        &["Q_parasitic", "Q_par", "Q_dot_parasitic", "parasitic"],
        &["abs", "absolute", "atol"],
        &["rel", "relative", "rtol"],
        &["tolerance", "tol", "tolerances"],
        &["inner_loop", "innerLoopTolerance", "inner"],
        &["outer_loop", "outerLoopTolerance", "outer"],
        &["ode", "odeTolerance", "integrator"],
        &["innerLoopTolerance", "inner_loop"],
        &["outerLoopTolerance", "outer_loop"],
        &["odeTolerance", "ode"],
        &["odeSolver", "ode_solver", "solver"],
        &["timeResolution", "num_timesteps", "time_resolution"],
        &["max_iterations", "maxIterations", "max_iter", "iterations"],
        &["num_timesteps", "timeResolution", "time_resolution", "num_steps"],
        &["temp_sink", "T_cold", "T_sink", "sink", "temp_cold"],
        &["temp_source", "T_hot", "T_source", "source", "temp_hot"],
        &["pres_zero", "P_0", "p_zero", "pressure", "charge"],
        &["T_cold", "temp_sink", "T_sink"],
        &["T_hot", "temp_source", "T_source"],
        &["P_0", "pres_zero", "P0"],
        &["FixedApproach", "Approach"],
        &["FixedConductance", "Conductance"],
        &["Sinusoidal", "Sine"],
        &["Rhombic", "RhombicDrive"],
        &["IdealGas", "Ideal", "PerfectGas", "HydrogenIdealGas", "RefProp", "Custom"],
        &["Hydrogen", "H2", "HYDROGEN", "Deuterium", "Nitrogen", "Air"],
        &["Helium", "He", "HELIUM", "Nitrogen", "Air"],
        &["ode45", "ode23", "ode15s", "ode113", "ODE45", "Ode45", "rk45", "dopri5"],
        &["model", "type", "kind"],
        &["params", "parameters"],
        &["name", "gas", "fluid"],
        &["engine", "machine"],
        &["solver", "settings"],
        &["conditions", "inputs"],
        &["components", "parts"],
        &["fluid", "gas"],
    ];
    for s in SAME {
        if s[0] == name {
            v.extend(s[1..].iter().map(|x| x.to_string()));
        }
    }
    v.sort();
    v.dedup();
    v.retain(|x| x != name);
    v
}

/// Every single damage to a configuration is rejected
fn damaged(b: &Node, legacy: bool) -> Vec<(String, Node)> {
    let mut out = Vec::new();
    let edit = |p: &[String], f: &dyn Fn(&mut Vec<(String, Node)>, usize)| {
        let mut n = b.clone();
        let (last, parent) = p.split_last().unwrap();
        let Some(M(v)) = n.path_mut(parent) else { unreachable!() };
        let i = v.iter().position(|x| x.0 == *last).unwrap();
        f(v, i);
        n
    };
    for p in b.leaves().into_iter().chain(b.branches()) {
        let l = p.join(".");
        out.push((format!("without {l}"), edit(&p, &|v, i| {
            v.remove(i);
        })));
        out.push((format!("{l} misspelled"), edit(&p, &|v, i| {
            v[i].0.push('x');
        })));
        out.push((format!("{l} as text"), edit(&p, &|v, i| {
            v[i].1 = S("abc".into());
        })));
        // other spellings of the same name
        for other in spellings(p.last().unwrap()) {
            out.push((format!("{l} spelled {other}"), edit(&p, &|v, i| {
                v[i].0 = other.clone();
            })));
        }
        if let Some(S(x)) = b.clone().path_mut(&p) {
            for other in spellings(x) {
                out.push((format!("{l} is {other}"), edit(&p, &|v, i| {
                    v[i].1 = S(other.clone());
                })));
            }
        }
        if let Some(I(_)) = b.clone().path_mut(&p) {
            out.push((format!("{l} negative"), edit(&p, &|v, i| {
                v[i].1 = I(-3);
            })));
        }
        if matches!(b.clone().path_mut(&p), Some(F(_))) {
            out.push((format!("{l} as a table"), edit(&p, &|v, i| {
                v[i].1 = m(vec![("value", F(1.0))]);
            })));
        }
    }
    if !legacy {
        // two alternatives at once
        for k in 0..3usize {
            let name = ["chx", "regen", "hhx"][k];
            let p: Vec<String> = ["engine", "components", name].iter().map(|s| s.to_string()).collect();
            let mut n = b.clone();
            let Some(M(v)) = n.path_mut(&p) else { unreachable!() };
            let other = v[0].0 == "fixed_approach";
            v.push((if other { "fixed_conductance" } else { "fixed_approach" }.into(), m(hx_entries(k, other))));
            out.push((format!("two kinds of {name}"), n));
        }
    }
    out
}

fn damages(rep: &Report, meta: &'static Meta) {
    let mut items = Vec::new();
    for c in combos() {
        for (l, n) in damaged(&base(c), false) {
            items.push((format!("{c:?} {l}"), n));
        }
    }
    run_cases(rep, meta, &items, |x| x.0.clone(), |(l, n)| {
        rep.count("damaged_configurations", 1);
        rep.count("states", 1);
        for (f, t) in [(FileFormat::Toml, n.toml()), (FileFormat::Json, n.json()), (FileFormat::Yaml, n.yaml())] {
            match parse::<Config>(&t, f) {
                Err(e) if !e.starts_with("PANIC") => {}
                Err(e) => rep.violation(l, l, e),
                Ok(_) => rep.violation(l, l, "accepted".to_string()),
            }
        }
    });
}

/// Default components are those of the default configurations
fn defaults(rep: &Report) {
    use sett_rs::{chx, hhx, regen, ws, Components};
    let run = |c: Components| {
        let mut s = Spec::base_fixed();
        s.inner = (0.5, 1e-3);
        s.outer = (0.5, 1e-3);
        s.ode = (1e-6, 1e-6);
        s.p0 = 5e6;
        s.run_with(c, LibFluid::new(Gas::H2)).map(|o| o.flat())
    };
    let all = |k: usize, api: bool| -> Components {
        let mut c = Spec::base_fixed().components();
        match (k, api) {
            (0, true) => c.chx = Box::<chx::FixedApproach>::default(),
            (1, true) => c.chx = Box::<chx::FixedConductance>::default(),
            (2, true) => c.regen = Box::<regen::FixedApproach>::default(),
            (3, true) => c.regen = Box::<regen::FixedConductance>::default(),
            (4, true) => c.hhx = Box::<hhx::FixedApproach>::default(),
            (5, true) => c.hhx = Box::<hhx::FixedConductance>::default(),
            (6, true) => c.ws = Box::<ws::RhombicDrive>::default(),
            (_, false) => {
                let hx = match k {
                    0 => chx::Config::FixedApproach(Default::default()),
                    1 => chx::Config::FixedConductance(Default::default()),
                    _ => chx::Config::FixedApproach(Default::default()),
                };
                match (k, hx) {
                    (0, chx::Config::FixedApproach(x)) => c.chx = Box::<chx::FixedApproach>::new(x.into()),
                    (1, chx::Config::FixedConductance(x)) => c.chx = Box::<chx::FixedConductance>::new(x.into()),
                    _ => {}
                }
                match k {
                    2 => {
                        if let regen::Config::FixedApproach(x) = regen::Config::FixedApproach(Default::default()) {
                            c.regen = Box::<regen::FixedApproach>::new(x.into());
                        }
                    }
                    3 => {
                        if let regen::Config::FixedConductance(x) = regen::Config::FixedConductance(Default::default()) {
                            c.regen = Box::<regen::FixedConductance>::new(x.into());
                        }
                    }
                    4 => {
                        if let hhx::Config::FixedApproach(x) = hhx::Config::FixedApproach(Default::default()) {
                            c.hhx = Box::<hhx::FixedApproach>::new(x.into());
                        }
                    }
                    5 => {
                        if let hhx::Config::FixedConductance(x) = hhx::Config::FixedConductance(Default::default()) {
                            c.hhx = Box::<hhx::FixedConductance>::new(x.into());
                        }
                    }
                    6 => {
                        if let ws::Config::Rhombic(x) = ws::Config::Rhombic(Default::default()) {
                            c.ws = Box::<ws::RhombicDrive>::new(x.into());
                        }
                    }
                    _ => {}
                }
            }
            _ => unreachable!(),
        }
        c
    };
    let items: Vec<usize> = (0..7).collect();
    run_cases(rep, &C12, &items, |k| format!("default component {k}"), |&k| {
        rep.count("states", 1);
        let (a, b) = (run(all(k, true)), run(all(k, false)));
        let l = format!("default component {k}");
        match (a, b) {
            (Ok(a), Ok(b)) if a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x == y) => {}
            (Err(a), Err(b)) if a == b => {}
            (a, b) => rep.violation(&l, &l, format!("default and default configuration differ: {:?} {:?}", a.map(|x| x[0]), b.map(|x| x[0]))),
        }
    });
}

/// What `run_from_config` prints is what `run_engine` returns
fn printed(rep: &Report) {
    let items: Vec<_> = combos().into_iter().collect();
    run_cases(rep, &C12, &items, |c| format!("printed {c:?}"), |c| {
        let l = format!("printed {c:?}");
        let n = base(*c);
        rep.count("states", 1);
        let text = n.toml();
        let out = match std::process::Command::new(std::env::current_exe().unwrap()).arg("--print-run").arg(&text).output() {
            Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).to_string(),
            x => {
                rep.violation(&l, &l, format!("failed: {x:?}"));
                return;
            }
        };
        let r = match parse::<Config>(&text, FileFormat::Toml).map(sett_rs::run_engine) {
            Ok(Ok(r)) => r,
            _ => return rep.violation(&l, &l, "no result"),
        };
        let legacy = match std::process::Command::new(std::env::current_exe().unwrap()).arg("--print-legacy-run").arg(legacy_of(&n).toml()).output() {
            Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).to_string(),
            x => {
                rep.violation(&l, &l, format!("legacy failed: {x:?}"));
                return;
            }
        };
        // The legacy run has the default iteration limits, which suffice
        if legacy != out {
            rep.violation(&l, &l, "the legacy configuration prints something else".to_string());
        }
        for (what, want) in [
            ("results", format!("{r:?}")),
            ("time", format!("{:?}", r.values.time)),
            ("P", format!("{:?}", r.values.P)),
            ("T_c", format!("{:?}", r.values.T_c)),
            ("T_e", format!("{:?}", r.values.T_e)),
        ] {
            if !out.contains(&want) {
                rep.violation(&l, &l, format!("printed {what} are not the results"));
            }
        }
    });
}

/// Child process of `printed`
pub fn print_run(text: &str) {
    let cfg: Config = parse(text, FileFormat::Toml).expect("config");
    sett_rs::run_from_config(cfg);
}

pub fn print_legacy_run(text: &str) {
    let cfg: Legacy = parse(text, FileFormat::Toml).expect("config");
    sett_rs::run_from_config(cfg);
}

// ---------------------------------------------------------------- C21
/// The legacy configuration that corresponds to a current one
fn legacy_of(n: &Node) -> Node {
    let mut n = n.clone();
    let mut sub = |p: &str| {
        let p: Vec<String> = p.split('/').map(String::from).collect();
        n.path_mut(&p).unwrap().clone()
    };
    let model = |x: Node, names: &BTreeMap<&str, &str>| {
        let M(v) = x else { unreachable!() };
        m(vec![("model", S(names[v[0].0.as_str()].into())), ("params", v[0].1.clone())])
    };
    let names: BTreeMap<&str, &str> =
        [("fixed_approach", "FixedApproach"), ("fixed_conductance", "FixedConductance"), ("sinusoidal", "Sinusoidal"), ("rhombic", "Rhombic")].into();
    let M(fluid) = sub("engine/fluid") else { unreachable!() };
    let gas = if fluid[0].0 == "hydrogen" { "Hydrogen" } else { "Helium" };
    m(vec![
        ("fluid", m(vec![("model", S("IdealGas".into())), ("params", m(vec![("name", S(gas.into()))]))])),
        ("ws", model(sub("engine/components/ws"), &names)),
        ("chx", model(sub("engine/components/chx"), &names)),
        ("regen", model(sub("engine/components/regen"), &names)),
        ("hhx", model(sub("engine/components/hhx"), &names)),
        (
            "solver",
            m(vec![
                ("innerLoopTolerance", sub("solver/inner_loop/tolerance")),
                ("odeSolver", S("ode45".into())),
                ("odeTolerance", sub("solver/ode/tolerance")),
                ("outerLoopTolerance", sub("solver/outer_loop/tolerance")),
                ("timeResolution", sub("solver/ode/num_timesteps")),
            ]),
        ),
        (
            "conditions",
            m(vec![("T_cold", sub("conditions/temp_sink")), ("T_hot", sub("conditions/temp_source")), ("P_0", sub("conditions/pres_zero"))]),
        ),
    ])
}

pub fn c21(rep: &Report) {
    let mut items = all_variants(rep);
    items.extend(extreme_variants());
    run_cases(rep, &C21, &items, |x| x.0.clone(), |(l, n)| {
        rep.count("states", 1);
        let read = |t: &str, f: FileFormat| parse::<Config>(t, f);
        let a = match read(&n.toml(), FileFormat::Toml) {
            Ok(a) => a,
            Err(e) => return rep.violation(l, l, format!("TOML rejected: {e}")),
        };
        rep.observe(n.toml().bytes().fold(7u64, |h, b| h.wrapping_mul(31).wrapping_add(u64::from(b))));
        // Only TOML has a notation for infinity that every parser accepts
        let finite = n.leaves().iter().all(|p| !matches!(n.clone().path_mut(p), Some(F(x)) if x.is_infinite()));
        rep.count("traces", if finite { 6 } else { 2 });
        rep.count("transitions", n.leaves().len() as u64);
        for (name, x) in [("JSON", read(&n.json(), FileFormat::Json)), ("YAML", read(&n.yaml(), FileFormat::Yaml))] {
            if !finite {
                break;
            }
            match x {
                Ok(x) if x == a => {}
                Ok(x) => return rep.violation(l, l, format!("{name} differs from TOML: {x:?} {a:?}")),
                Err(e) => return rep.violation(l, l, format!("{name} rejected: {e}")),
            }
        }
        // legacy: iteration limits are not expressible and have defaults
        let mut d = n.clone();
        for k in ["inner_loop", "outer_loop"] {
            let p: Vec<String> = ["solver", k, "max_iterations"].iter().map(|s| s.to_string()).collect();
            *d.path_mut(&p).unwrap() = I(20);
        }
        let want = match read(&d.toml(), FileFormat::Toml) {
            Ok(a) => a,
            Err(e) => return rep.violation(l, l, format!("TOML rejected: {e}")),
        };
        let leg = legacy_of(n);
        for (name, t, f) in [("TOML", leg.toml(), FileFormat::Toml), ("JSON", leg.json(), FileFormat::Json), ("YAML", leg.yaml(), FileFormat::Yaml)] {
            if !finite && name != "TOML" {
                break;
            }
            match parse::<Legacy>(&t, f).map(Config::from) {
                Ok(x) if x == want => {}
                Ok(x) => return rep.violation(l, l, format!("legacy {name} gives {x:?}, expected {want:?}")),
                Err(e) => return rep.violation(l, l, format!("legacy {name} rejected: {e}")),
            }
        }
        rep.sample(serde_json::json!({"configuration": l}));
    });
    damages(rep, &C21);
    let mut items = Vec::new();
    for c in combos() {
        let b = legacy_of(&base(c));
        for (l, n) in damaged(&b, true) {
            items.push((format!("legacy {c:?} {l}"), n));
        }
        for (p, v) in [
            ("solver/odeSolver", S("ode23".into())),
            ("fluid/params/name", S("Air".into())),
            ("fluid/model", S("PerfectGas".into())),
            ("chx/model", S("Sinusoidal".into())),
            ("ws/model", S("FixedApproach".into())),
        ] {
            let mut n = b.clone();
            let p: Vec<String> = p.split('/').map(String::from).collect();
            *n.path_mut(&p).unwrap() = v.clone();
            items.push((format!("legacy {c:?} {}={}", p.join("."), v.json()), n));
        }
    }
    run_cases(rep, &C21, &items, |x| x.0.clone(), |(l, n)| {
        rep.count("damaged_configurations", 1);
        rep.count("states", 1);
        match parse::<Legacy>(&n.json(), FileFormat::Json) {
            Err(e) if !e.starts_with("PANIC") => {}
            Err(e) => rep.violation(l, l, e),
            Ok(_) => rep.violation(l, l, "accepted".to_string()),
        }
    });
    // Models that can be configured, but not run yet
    let b = base((0, 0, [false; 3]));
    let leg = legacy_of(&b);
    let model = |k: &str| m(vec![("model", S(k.into()))]);
    let name = |k: &str| m(vec![("name", S(k.into()))]);
    let set = |n: &Node, p: &str, v: Node| {
        let mut n = n.clone();
        let p: Vec<String> = p.split('/').map(String::from).collect();
        *n.path_mut(&p).unwrap() = v;
        n
    };
    let mut items: Vec<(String, String, Node, Node)> = unavailable()
        .into_iter()
        .map(|u| {
            (
                format!("{} {}", u.slot, u.label),
                format!("engine/components/{}", u.slot),
                m(vec![(u.key, u.params.clone())]),
                m(vec![("model", S(u.legacy.into())), ("params", u.params)]),
            )
        })
        .collect();
    for (l, cur, old) in [
        ("fluid custom", m(vec![("hydrogen", model("custom"))]), model("Hydrogen")),
        ("fluid refprop", m(vec![("hydrogen", model("ref_prop"))]), m(vec![("model", S("RealGasRefprop".into())), ("params", name("Hydrogen"))])),
        ("fluid refprop helium", m(vec![("helium", model("ref_prop"))]), m(vec![("model", S("RealGasRefprop".into())), ("params", name("Helium"))])),
    ] {
        items.push((l.into(), "engine/fluid".into(), cur, old));
    }
    for (l, p, cur, old) in items {
        rep.count("states", 1);
        let mut n = set(&b, &p, cur);
        for k in ["solver/inner_loop/max_iterations", "solver/outer_loop/max_iterations"] {
            n = set(&n, k, I(20));
        }
        let key = p.rsplit('/').next().unwrap();
        let o = set(&leg, key, old);
        match (parse::<Config>(&n.toml(), FileFormat::Toml), parse::<Legacy>(&o.json(), FileFormat::Json).map(Config::from)) {
            (Ok(a), Ok(b)) if a == b => {}
            (a, b) => rep.violation(&l, &l, format!("{a:?} {b:?}")),
        }
    }
}

// ---------------------------------------------------------------- C22
pub const C22: Meta = Meta {
    level: "model_checking",
    rule: "states are the choices of models: every combination of every heat exchanger, regenerator, working space, and fluid model that a configuration can name, with every material and correlation of those; each is run, and only combinations made up of available models may give a result",
    assumptions: &["the parameters of each unavailable model have one value each"],
};

/// A component model that can be configured, but cannot be run
pub struct Unavailable {
    slot: &'static str,
    key: &'static str,
    legacy: &'static str,
    label: String,
    params: Node,
}

fn unavailable() -> Vec<Unavailable> {
    // Parameters: integers start with N_, everything else is a number
    let flat = |names: &[&'static str]| -> Vec<(&'static str, Node)> {
        names.iter().enumerate().map(|(i, n)| (*n, if n.starts_with("N_") || *n == "number" { I(10 + i as i64) } else { F(0.5 + i as f64 / 4.0) })).collect()
    };
    let with = |mut a: Vec<(&'static str, Node)>, b: Vec<(&'static str, Node)>| {
        a.extend(b);
        m(a)
    };
    let s = |x: &str| S(x.into());
    let mut out = Vec::new();
    let mut add = |slot, key, legacy, label: &str, params| out.push(Unavailable { slot, key, legacy, label: format!("{legacy}{label}"), params });
    let gw = || vec![("correlationf", s("GedeonWood")), ("correlationj", s("GedeonWood"))];
    add(
        "chx", "g_p_u3", "GPU3", "",
        with(
            flat(&["length_total", "length_ht", "D_inner", "D_outer", "N_total", "N_shell", "D_sh", "Ac_d", "roughness", "vol_h", "m_dot_w", "m_dot_a", "UA_a", "W_parasitic"]),
            vec![("coolant", s("Water"))],
        ),
    );
    add("hhx", "g_p_u3", "GPU3", "", m(flat(&["L_total", "L_htr", "R_tc", "D_outer", "D_inner", "roughness", "N_total", "vol_h", "eta_comb", "R_c_loss", "W_parasitic"])));
    for (k, l) in [("g_p_u3_n_i", "GPU3NI"), ("mod2_n_i", "Mod2NI")] {
        add("hhx", k, l, "", m(flat(&["R_f", "L_f", "R_regen", "D_outer", "D_inner", "k_f", "roughness", "N_total", "vol_h", "R_ins", "W_parasitic"])));
    }
    add("ws", "g_p_u3", "GPU3", "", m(flat(&["frequency", "V_clearance_c", "R_c", "V_clearance_e", "R_e", "r_crank", "L_conn", "eccentricity", "D", "D_dr", "L", "h"])));
    for (a, b) in [("SS304", "Multimet"), ("Multimet", "StainlessSteel"), ("StainlessSteel", "SS304")] {
        add(
            "regen", "g_p_u3", "GPU3", &format!(" {a}"),
            with(
                vec![(
                    "geometry",
                    m(vec![
                        ("vol_h", F(1e-5)),
                        ("mesh", with(vec![("material", s(a))], flat(&["D_wire", "pitch"]))),
                        ("shell", m(flat(&["diameter", "length", "number"]))),
                    ]),
                )],
                flat(&["Q_parasitic", "bypass"]).into_iter().chain(gw()).collect(),
            ),
        );
        add(
            "ws", "mod2", "Mod2", &format!(" {a}"),
            with(
                flat(&["frequency", "phaseAngle", "D", "h", "L", "stroke", "V_clearance_c", "R_c", "V_clearance_e", "R_e", "th_pw", "th_cw", "L_cond", "e"]),
                vec![("material_p", s(a)), ("material_c", s(b))],
            ),
        );
        for c in ["Steady", "Oscillating"] {
            let label = format!(" {a} {c}");
            add(
                "chx", "mod2", "Mod2", &label,
                with(
                    vec![(
                        "geometry",
                        m(vec![
                            ("tubes", with(flat(&["length", "length_ht", "D_outer", "D_inner", "N_total", "roughness"]), vec![("material", s(a))])),
                            ("shell", m(flat(&["R_inner", "V_header", "Ac_header"]))),
                        ]),
                    )],
                    flat(&["m_dot_p_fs", "W_dot_p_fs", "n_fs"]).into_iter().chain([("fluid", s("Water")), ("correlation", s(c))]).collect(),
                ),
            );
            add(
                "regen", "mod2", "Mod2", &label,
                with(
                    vec![(
                        "geometry",
                        m(vec![
                            ("mesh", with(vec![("material", s(a))], flat(&["D_wire", "pitch"]))),
                            ("shell", with(vec![("material", s(b))], flat(&["R_sh", "th_sh_cold", "th_sh_hot", "length"]))),
                        ]),
                    )],
                    [("correlationtype", s(c))].into_iter().chain(gw()).collect(),
                ),
            );
            add(
                "hhx", "mod2", "Mod2", &label,
                m(vec![
                    (
                        "geometry",
                        m(vec![
                            (
                                "tubes",
                                with(
                                    flat(&["L_front", "L_rear", "L_inactive", "D_outer", "D_inner", "roughness", "N_total"]),
                                    vec![("materialtube", s(a)), ("materialfin", s(b))],
                                ),
                            ),
                            ("shell", m(flat(&["R_outer", "R_inner", "V_header"]))),
                            ("fins", m(flat(&["thickness", "pitch", "L_fin"]))),
                        ]),
                    ),
                    ("correlation", s(c)),
                ]),
            );
        }
    }
    out
}

pub fn c22(rep: &Report) {
    let un = unavailable();
    let slots = ["chx", "regen", "hhx", "ws"];
    // The available models first
    let options: Vec<Vec<(String, bool, Node)>> = slots
        .iter()
        .map(|slot| {
            let mut v: Vec<(String, bool, Node)> = Vec::new();
            for k in 0..2 {
                let b = base((0, if *slot == "ws" { k } else { 0 }, [k == 1; 3]));
                let p: Vec<String> = ["engine", "components", slot].iter().map(|s| s.to_string()).collect();
                let n = b.clone().path_mut(&p).unwrap().clone();
                v.push((b.key(&p.join("/")), true, n));
            }
            v.extend(un.iter().filter(|u| u.slot == *slot).map(|u| (u.label.clone(), false, m(vec![(u.key, u.params.clone())]))));
            v
        })
        .collect();
    let mut fluids = Vec::new();
    for g in ["hydrogen", "helium"] {
        for k in ["ideal_gas", "ref_prop", "fit", "custom"] {
            fluids.push((format!("{g} {k}"), k == "ideal_gas", m(vec![(g, m(vec![("model", S(k.into()))]))])));
        }
    }
    let mut items: Vec<[usize; 5]> = Vec::new();
    for a in 0..options[0].len() {
        for b in 0..options[1].len() {
            for c in 0..options[2].len() {
                for d in 0..options[3].len() {
                    for e in 0..fluids.len() {
                        items.push([a, b, c, d, e]);
                    }
                }
            }
        }
    }
    let make = |x: &[usize; 5]| {
        let mut n = base((0, 0, [false; 3]));
        let mut label = fluids[x[4]].0.clone();
        let mut available = fluids[x[4]].1;
        let mut set = |p: &str, v: &Node| *n.path_mut(&p.split('/').map(String::from).collect::<Vec<_>>()).unwrap() = v.clone();
        set("engine/fluid", &fluids[x[4]].2);
        for (k, slot) in slots.iter().enumerate() {
            let o = &options[k][x[k]];
            set(&format!("engine/components/{slot}"), &o.2);
            label = format!("{label}, {slot} {}", o.0);
            available &= o.1;
        }
        (label, available, n)
    };
    let run = |n: &Node| match parse::<Config>(&n.toml(), FileFormat::Toml) {
        Ok(c) => Ok(guarded(|| sett_rs::run_engine(c).map(|r| format!("{r:?}")).map_err(|e| format!("{e:?}")))),
        Err(e) => Err(e),
    };
    // Fewest unavailable models first
    let mut order: Vec<(usize, [usize; 5])> = items.into_iter().map(|x| ((0..4).filter(|&k| x[k] > 1).count() + usize::from(x[4] % 4 != 0), x)).collect();
    order.sort();
    let first: Vec<_> = order.iter().filter(|o| o.0 == 0).map(|o| (o.1, run(&make(&o.1).2))).collect();
    run_cases(rep, &C22, &order, |o| make(&o.1).0, |(k, x)| {
        let (l, available, n) = make(x);
        rep.count("states", 1);
        rep.count("transitions", 5);
        rep.count(&format!("combinations_with_{k}_unavailable_models"), 1);
        rep.observe(l.bytes().fold(7u64, |h, b| h.wrapping_mul(31).wrapping_add(u64::from(b))));
        match (available, run(&n)) {
            (_, Err(e)) => rep.violation(&l, &l, format!("rejected: {e}")),
            (true, Ok(Ok(Ok(_)))) => rep.count("traces", 1),
            (true, Ok(x)) => rep.violation(&l, &l, format!("no result: {x:?}")),
            (false, Ok(Ok(Ok(r)))) => rep.violation(&l, &l, format!("result without such a model: {}", r.chars().take(120).collect::<String>())),
            (false, Ok(Ok(Err(_)))) => rep.count("declined", 1),
            (false, Ok(Err(_))) => rep.count("not_implemented", 1),
        }
        if *k < 2 {
            rep.sample(serde_json::json!({"models": l, "available": available}));
        }
    });
    // The same engines as ever, after all those that could not be run
    for (x, before) in first {
        let (l, _, n) = make(&x);
        rep.count("states", 1);
        if format!("{before:?}") != format!("{:?}", run(&n)) {
            rep.violation(&l, &l, "differs after unavailable models were run".to_string());
        }
    }
    // Printing runs
    let few: Vec<_> = order.iter().filter(|o| o.0 == 1 && o.1.iter().take(4).filter(|&&v| v == 1).count() == 0).collect();
    run_cases(rep, &C22, &few, |o| format!("printed {}", make(&o.1).0), |(_, x)| {
        let (l, _, n) = make(x);
        rep.count("states", 1);
        rep.count("printing_runs", 1);
        match std::process::Command::new(std::env::current_exe().unwrap()).arg("--print-run").arg(n.toml()).output() {
            Ok(o) if !o.status.success() && !String::from_utf8_lossy(&o.stdout).contains("Results") => {}
            Ok(o) => {
                let l = format!("printed {l}");
                rep.violation(&l, &l, format!("result without such a model: {}", String::from_utf8_lossy(&o.stdout).chars().take(120).collect::<String>()));
            }
            Err(e) => panic!("{e}"),
        }
    });
}
