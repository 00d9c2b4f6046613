//! Deviation-bounded enumeration of engine configurations.
//!
//! A space is a base specification plus, for each field, a list of alternative
//! values.  `within(k)` enumerates every specification that differs from the
//! base in at most `k` fields.
use crate::mocks::*;
use crate::spec::*;

pub type Alt = (String, Box<dyn Fn(&mut Spec) + Sync + Send>);

pub struct Field {
    pub name: &'static str,
    pub alts: Vec<Alt>,
}

pub struct Case {
    pub label: String,
    pub spec: Spec,
    pub deviations: usize,
}

fn num(v: f64) -> String {
    if v != 0.0 && (v.abs() >= 1e5 || v.abs() < 1e-3) {
        format!("{v:e}")
    } else {
        format!("{v}")
    }
}

fn f64s(name: &'static str, vals: &[f64], set: impl Fn(&mut Spec, f64) + Sync + Send + Copy + 'static) -> Field {
    Field {
        name,
        alts: vals
            .iter()
            .map(|&v| -> Alt { (format!("{name}={}", num(v)), Box::new(move |s: &mut Spec| set(s, v))) })
            .collect(),
    }
}

fn set_f(s: &mut Spec, v: f64) {
    match &mut s.drive {
        Drive::Sin { f, .. } | Drive::Rhombic { f, .. } | Drive::Harm { f, .. } => *f = v,
    }
}

/// All the fields that shape the thermodynamic solution
pub fn physics_fields() -> Vec<Field> {
    let mut v = vec![
        Field {
            name: "gas",
            alts: ALL_GASES.iter().map(|&g| -> Alt { (format!("gas={g:?}"), Box::new(move |s| s.gas = g)) }).collect(),
        },
        Field {
            name: "drive",
            alts: vec![
                ("drive=rhombic".into(), Box::new(|s| s.drive = rhombic_default())),
                ("drive=harm".into(), Box::new(|s| s.drive = Spec::base_virial().drive)),
                ("drive=sin".into(), Box::new(|s| s.drive = Spec::base_fixed().drive)),
                (
                    "drive=alpha".into(),
                    Box::new(|s| {
                        s.drive = Drive::Sin { f: 66.6667, phase: 120.0, comp: (5e-4, 2e-5), exp: (4e-4, 3e-5) }
                    }),
                ),
                // both volumes are smallest at time zero: so is no pressure larger
                (
                    "drive=top".into(),
                    Box::new(|s| {
                        s.drive = Drive::Harm { f: 40.0, comp: [1.1e-4, -5e-5, 0.0, 0.0], exp: [1e-4, -5.5e-5, 0.0, 0.0], f_pres: 0.0, p_ref: 2e6 }
                    }),
                ),
            ],
        },
        f64s("f", &[0.05, 1.0, 12.5, 200.0, 1000.0], set_f),
        f64s("phase", &[-90.0, 0.0, 30.0, 150.0, 180.0, 270.0, 450.0], |s, v| {
            if let Drive::Sin { phase, .. } = &mut s.drive {
                *phase = v;
            }
        }),
        f64s("swept_c", &[1e-5, 4e-4], |s, v| {
            if let Drive::Sin { comp, .. } = &mut s.drive {
                comp.0 = v;
            }
        }),
        f64s("clear_c", &[5e-6, 4e-4], |s, v| match &mut s.drive {
            Drive::Sin { comp, .. } => comp.1 = v,
            Drive::Rhombic { vcc, .. } => *vcc = v,
            Drive::Harm { .. } => {}
        }),
        f64s("swept_e", &[1e-5, 4e-4], |s, v| {
            if let Drive::Sin { exp, .. } = &mut s.drive {
                exp.0 = v;
            }
        }),
        f64s("clear_e", &[5e-6, 4e-4], |s, v| match &mut s.drive {
            Drive::Sin { exp, .. } => exp.1 = v,
            Drive::Rhombic { vce, .. } => *vce = v,
            Drive::Harm { .. } => {}
        }),
        f64s("rc", &[f64::INFINITY, 1e300, 1e4, 5.0, 0.3, 0.03, 1e-4], |s, v| s.rc = v),
        f64s("re", &[f64::INFINITY, 1e300, 1e4, 5.0, 0.3, 0.03, 1e-4], |s, v| s.re = v),
        f64s("chx.vol", &[0.0, 1e-6, 5e-4], |s, v| s.chx.vol = v),
        f64s("regen.vol", &[0.0, 1e-6, 5e-4], |s, v| s.regen.vol = v),
        f64s("hhx.vol", &[0.0, 1e-6, 5e-4], |s, v| s.hhx.vol = v),
        f64s("p0", &[1e3, 1e5, 1e7, 5e7], |s, v| s.p0 = v),
        f64s("sink", &[20.0, 77.0, 250.0, 400.0], |s, v| {
            // The built-in gases are singular at about 100 K (recorded finding)
            if v > 200.0 || s.gas.consistent() {
                s.t_sink = v;
            }
        }),
        f64s("source", &[290.0, 310.0, 350.0, 400.0, 1500.0, 3000.0], |s, v| s.t_source = v),
    ];
    let laws: Vec<(&'static str, Vec<(&'static str, Law)>)> = vec![
        (
            "chx",
            vec![
                ("dt0", Law::Approach(0.0)),
                ("dt-15", Law::Approach(-15.0)),
                ("dt250", Law::Approach(250.0)),
                ("ua300", Law::Ua(300.0)),
                ("ua1e5", Law::Ua(1e5)),
                ("lin_q", Law::Linear { a: 8.0, field: 5, k: 0.01 }),
                ("lin_m", Law::Linear { a: 8.0, field: 4, k: 200.0 }),
                ("lin_t", Law::Linear { a: 2.0, field: 0, k: 0.02 }),
            ],
        ),
        (
            "regen",
            vec![
                ("dt0", Law::Approach(0.0)),
                ("dt-5", Law::Approach(-5.0)),
                ("ua2000", Law::Ua(2000.0)),
                ("ua1e6", Law::Ua(1e6)),
                ("lin_q", Law::Linear { a: 10.0, field: 5, k: 1e-3 }),
                ("lin_m", Law::Linear { a: 5.0, field: 4, k: 300.0 }),
            ],
        ),
        (
            "hhx",
            vec![
                ("dt0", Law::Approach(0.0)),
                ("dt-15", Law::Approach(-15.0)),
                ("dt250", Law::Approach(250.0)),
                ("ua300", Law::Ua(300.0)),
                ("ua1e5", Law::Ua(1e5)),
                ("lin_q", Law::Linear { a: 8.0, field: 5, k: 0.01 }),
                ("lin_p", Law::Linear { a: 8.0, field: 1, k: 1e-6 }),
            ],
        ),
    ];
    for (hx, ls) in laws {
        v.push(Field {
            name: match hx {
                "chx" => "chx.law",
                "regen" => "regen.law",
                _ => "hhx.law",
            },
            alts: ls
                .into_iter()
                .map(|(n, l)| -> Alt {
                    (
                        format!("{hx}.law={n}"),
                        Box::new(move |s: &mut Spec| match hx {
                            "chx" => s.chx.law = l.clone(),
                            "regen" => s.regen.law = l.clone(),
                            _ => s.hhx.law = l.clone(),
                        }),
                    )
                })
                .collect(),
        });
    }
    v
}

/// Fields that only affect reported performance
pub fn performance_fields() -> Vec<Field> {
    let par = |name: &'static str, pick: fn(&mut Spec) -> &mut sett_rs::types::ParasiticPower| Field {
        name,
        alts: [(0.0, 0.0, 0.0), (1000.0, 0.0, 0.0), (0.0, 2000.0, 0.0), (0.0, 0.0, 3000.0), (-5.0, -6.0, -7.0)]
            .into_iter()
            .map(|(a, b, c)| -> Alt {
                (format!("{name}=({a},{b},{c})"), Box::new(move |s: &mut Spec| *pick(s) = pp(a, b, c)))
            })
            .collect(),
    };
    vec![
        f64s("chx.r_hyd", &[-1e6, 0.0, 1e4, 5e7], |s, v| s.chx.r_hyd = v),
        f64s("regen.r_hyd", &[-1e6, 0.0, 1e4, 5e7], |s, v| s.regen.r_hyd = v),
        f64s("hhx.r_hyd", &[-1e6, 0.0, 1e4, 5e7], |s, v| s.hhx.r_hyd = v),
        par("par_c", |s| &mut s.par_c),
        par("par_e", |s| &mut s.par_e),
        par("chx.par", |s| &mut s.chx.par),
        par("regen.par", |s| &mut s.regen.par),
        par("hhx.par", |s| &mut s.hhx.par),
    ]
}

pub fn numeric_fields() -> Vec<Field> {
    vec![
        Field {
            name: "res",
            alts: [2u32, 3, 4, 7, 60, 101, 500]
                .into_iter()
                .map(|n| -> Alt { (format!("res={n}"), Box::new(move |s| s.res = n)) })
                .collect(),
        },
        Field {
            name: "solver",
            alts: [Solver::Lu, Solver::Qr, Solver::Svd]
                .into_iter()
                .map(|x| -> Alt { (format!("solver={x:?}"), Box::new(move |s| s.solver = x)) })
                .collect(),
        },
    ]
}

/// Cycles that are integrated or closed roughly: what is derived from a
/// reported cycle must be right for those as well
pub fn rough_fields() -> Vec<Field> {
    vec![Field {
        name: "rough",
        alts: vec![
            (
                "rough=integration".into(),
                Box::new(|s: &mut Spec| {
                    s.ode = (1e-3, 1e-3);
                    s.inner = (5.0, 1e-2);
                    s.outer = (5.0, 1e-2);
                }) as _,
            ),
            (
                "rough=first".into(),
                Box::new(|s: &mut Spec| {
                    s.ode = (1e-3, 1e-3);
                    s.inner = (1e4, 1e2);
                    s.outer = (30.0, 0.2);
                }) as _,
            ),
            (
                "rough=closure".into(),
                Box::new(|s: &mut Spec| {
                    s.inner = (30.0, 0.06);
                    s.outer = (30.0, 0.2);
                }) as _,
            ),
        ],
    }]
}

/// Specifications whose values are all that the run must be exact about
pub fn exact_fields() -> Vec<Field> {
    let mut f = numeric_fields();
    f.extend(rough_fields());
    f
}

/// Every specification within `k` deviations of `base`
pub fn within(name: &str, base: &Spec, fields: &[Field], k: usize) -> Vec<Case> {
    let mut out = vec![Case { label: name.to_string(), spec: base.clone(), deviations: 0 }];
    fn rec(out: &mut Vec<Case>, label: &str, spec: &Spec, fields: &[Field], from: usize, k: usize, d: usize) {
        if k == 0 {
            return;
        }
        for i in from..fields.len() {
            for (l, set) in &fields[i].alts {
                let mut s = spec.clone();
                set(&mut s);
                if format!("{s:?}") == format!("{spec:?}") {
                    continue; // no deviation
                }
                let label = format!("{label}+{l}");
                rec(out, &label, &s, fields, i + 1, k - 1, d + 1);
                out.push(Case { label, spec: s, deviations: d + 1 });
            }
        }
    }
    rec(&mut out, name, base, fields, 0, k, 0);
    out.sort_by_key(|c| c.deviations); // simplest first
    out
}

pub fn bases() -> Vec<(&'static str, Spec)> {
    vec![
        ("fixed", Spec::base_fixed()),
        ("conductance", Spec::base_conductance()),
        ("virial", Spec::base_virial()),
    ]
}
