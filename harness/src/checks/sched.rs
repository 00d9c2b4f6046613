//! Sequences and interleavings of runs, under a controlled scheduler.
//!
//! All runs take place in worker processes in which nothing else happens, so
//! that an execution is determined by its description.
use super::faults::{controlled, quick_bases, Ctl};
use super::*;
use std::cell::Cell;
use std::io::{BufRead, Read, Write};
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};

pub const C14: Meta = Meta {
    level: "model_checking",
    rule: "states are scheduling points of runs, transitions the steps between them; explored are all sequences of runs (each in a new process) up to a length, all schedules of two concurrent runs with two preemptions at evaluations of the drive, and all with one preemption at any call to the environment; every result must equal that of the run alone in a new process, bit for bit",
    assumptions: &["runs can only influence each other between calls to their environment"],
};

/// The engines that take part
const NAMES: [&str; 10] = ["fixed", "conductance", "virial", "no cycle", "no temperatures", "fixed QR", "config", "crash", "just enough iterations", "one iteration short"];

fn engine(k: usize) -> Spec {
    let mut v: Vec<Spec> = quick_bases().into_iter().map(|x| x.1).collect();
    match k {
        0 | 1 | 2 => v.swap_remove(k),
        3 => {
            let mut s = v.swap_remove(0);
            s.inner = (1e-12, 1e-15);
            s.iters.0 = 3;
            s
        }
        4 => {
            let mut s = v.swap_remove(1);
            s.outer = (1e-12, 1e-15);
            s.iters.1 = 2;
            s
        }
        5 => {
            let mut s = v.swap_remove(0);
            s.solver = Solver::Qr;
            s
        }
        8 | 9 => {
            let n = std::env::var("SETT_MC_LIMITS").expect("limits");
            let n: Vec<usize> = n.split(',').map(|x| x.parse().unwrap()).collect();
            limited(n[0], n[1] + 8 - k)
        }
        _ => unreachable!(),
    }
}

/// An engine that needs a few iterations of each loop
fn limited(inner: usize, outer: usize) -> Spec {
    let mut s = quick_bases().swap_remove(2).1;
    s.inner = (20.0, 4e-2);
    s.ode = (1e-2, 1e-2);
    s.res = 2;
    s.iters = (inner, outer);
    s
}

fn digest(r: &Result<Out, Fail>) -> u64 {
    match r {
        Ok(o) => hash_f64(&o.flat()),
        Err(Fail::Inner) => 1,
        Err(Fail::Outer) => 2,
        Err(Fail::Panic(_)) => 3,
    }
}

/// A run without scheduler
fn plain(k: usize) -> u64 {
    match k {
        6 => {
            let text = conf::base((0, 1, [true, false, true])).toml();
            let cfg = crate::spec::parse_toml::<sett_rs::Config>(&text).expect("config");
            match sett_rs::run_engine(cfg) {
                Ok(r) => hash_f64(&scalars_of(&r).into_iter().map(|x| x.1).chain(series_of(&r).into_iter().flat_map(|s| s.1.clone())).collect::<Vec<_>>()),
                Err(_) => 1,
            }
        }
        // a heat exchanger that panics in the middle of a run
        7 => {
            let s = engine(2);
            let n = Cell::new(0);
            let ctl = Rc::new(Ctl {
                tap: Some(Box::new(move |_| {
                    n.set(n.get() + 1);
                    assert!(n.get() < 3000, "the environment panics");
                })),
                ..Default::default()
            });
            digest(&controlled(&s, &ctl))
        }
        k => digest(&controlled(&engine(k), &Rc::new(Ctl::default()))),
    }
}

/// Engines around a base, the base first: each differs from it in one entry
fn around(b: usize) -> Vec<(String, Around)> {
    let mut out: Vec<(String, Around)> = Vec::new();
    if b < 3 {
        let (name, spec) = quick_bases().swap_remove(b);
        let mut fields = physics_fields();
        fields.extend(performance_fields());
        fields.extend(numeric_fields());
        out.extend(within(name, &spec, &fields, 1).into_iter().map(|c| (c.label, Around::Spec(Box::new(c.spec)))));
        let mut more = |l: &str, f: &dyn Fn(&mut Spec)| {
            let mut s = spec.clone();
            f(&mut s);
            out.push((format!("{name}+{l}"), Around::Spec(Box::new(s))));
        };
        // values that differ by little
        for d in [1e-9, 1e-4, 0.4] {
            let k = 1.0 + d;
            more(&format!("p0*{k}"), &|s| s.p0 *= k);
            more(&format!("sink*{k}"), &|s| s.t_sink *= k);
            more(&format!("source*{k}"), &|s| s.t_source *= k);
            more(&format!("regen.vol*{k}"), &|s| s.regen.vol *= k);
            more(&format!("rc*{k}"), &|s| s.rc *= k);
            more(&format!("regen.law*{k}"), &|s| match &mut s.regen.law {
                Law::Approach(x) | Law::Ua(x) => *x *= k,
                Law::Linear { a, .. } => *a *= k,
            });
            more(&format!("hhx.law*{k}"), &|s| match &mut s.hhx.law {
                Law::Approach(x) | Law::Ua(x) => *x *= k,
                Law::Linear { a, .. } => *a *= k,
            });
        }
        more("inner tolerance", &|s| s.inner.0 *= 0.1);
        more("outer tolerance", &|s| s.outer.0 *= 0.1);
        more("integration tolerance", &|s| s.ode.1 *= 0.1);
        more("1 cycle", &|s| s.iters.0 = 1);
        more("2 cycles", &|s| s.iters.0 = 2);
        more("1 iteration", &|s| s.iters.1 = 1);
        more("2 iterations", &|s| s.iters.1 = 2);
    } else {
        let combo = [(0, 0, [true, false, true]), (1, 1, [false, true, false])][b - 3];
        out.extend(conf::variants(combo, 1).into_iter().map(|(l, n)| (l, Around::Text(n.toml()))));
        let mut other = combo;
        other.0 = 1 - other.0;
        out.push(("other gas".into(), Around::Text(conf::base(other).toml())));
        out.push(("invalid".into(), Around::Text("abc".into())));
    }
    out
}

enum Around {
    Spec(Box<Spec>),
    Text(String),
}

fn run_around(a: &Around) -> u64 {
    match a {
        Around::Spec(s) => digest(&s.run()),
        Around::Text(t) => match crate::spec::parse_toml::<sett_rs::Config>(t) {
            Ok(cfg) => match crate::par::guarded(|| sett_rs::run_engine(cfg)) {
                Ok(Ok(r)) => hash_f64(&scalars_of(&r).into_iter().map(|x| x.1).chain(series_of(&r).into_iter().flat_map(|s| s.1.clone())).collect::<Vec<_>>()),
                Ok(Err(_)) => 1,
                Err(_) => 3,
            },
            Err(_) => 5,
        },
    }
}

/// Calls to the library's gases, drives and heat exchangers, several of each
/// kind with the same arguments
fn calls() -> Vec<(String, Box<dyn Fn() -> u64>)> {
    use sett_rs::types::HeatExchanger;
    use sett_rs::{chx, hhx, regen};
    let mut out: Vec<(String, Box<dyn Fn() -> u64>)> = Vec::new();
    for gas in [Gas::He, Gas::H2] {
        for (t, p) in [(300.0, 2e6), (300.0, 3e6), (870.0, 2e6)] {
            for (k, name) in ["dens", "inte", "enth", "cp", "dd_dP_T", "dd_dT_P", "du_dP_T", "du_dT_P"].into_iter().enumerate() {
                let call = move || {
                    let g = LibFluid::new(gas);
                    match k {
                        0 => g.dens(t, p),
                        1 => g.inte(t, p),
                        2 => g.enth(t, p),
                        3 => g.cp(t, p),
                        4 => g.dd_dP_T(t, p),
                        5 => g.dd_dT_P(t, p),
                        6 => g.du_dP_T(t, p),
                        _ => g.du_dT_P(t, p),
                    }
                    .to_bits()
                };
                out.push((format!("{gas:?} {name}({t}, {p})"), Box::new(call)));
            }
        }
    }
    // the same geometry but for one entry
    let mut specs = vec![("fixed", Spec::base_fixed()), ("conductance", Spec::base_conductance())];
    let mut more = |name: &'static str, f: &dyn Fn(&mut Spec)| {
        for k in 0..2 {
            let mut s = specs[k].1.clone();
            f(&mut s);
            specs.push((name, s));
        }
    };
    more("other drive", &|s| match &mut s.drive {
        Drive::Sin { phase, .. } => *phase = 60.0,
        Drive::Rhombic { l, .. } => *l *= 1.25,
        Drive::Harm { .. } => unreachable!(),
    });
    more("other laws", &|s| {
        for hx in [&mut s.chx, &mut s.regen, &mut s.hhx] {
            match &mut hx.law {
                Law::Approach(x) | Law::Ua(x) => *x *= 2.0,
                Law::Linear { .. } => unreachable!(),
            }
        }
    });
    let probe = || super::parts::ws_states().swap_remove(0);
    for (k, (name, s)) in specs.into_iter().enumerate() {
        let s = Rc::new(s);
        if name != "other laws" {
            for t in [0.0, 0.007] {
                let s = s.clone();
                let call = move || {
                    let (c, e) = s.components().ws.volumes(&probe())(t);
                    hash_f64(&[c.value, c.deriv, e.value, e.deriv])
                };
                out.push((format!("drive {k} ({name}) volumes({t})"), Box::new(call)));
            }
        }
        if name != "other drive" {
            for (m_dot, q) in [(0.013, 250.0), (0.11, 4000.0)] {
                for side in 0..3 {
                    let s = s.clone();
                    let call = move || {
                        let hxr = HeatExchanger { temp: 340.0, pres: 2e6, dens: 2.0, cp: 5200.0, m_dot, Q_dot: q };
                        let c = s.components();
                        match side {
                            0 => c.chx.approach(&chx::State { hxr, sink_temp: 300.0 }),
                            1 => c.regen.approach(&regen::State { hxr, temp_chx: 333.0, temp_hhx: 777.0 }),
                            _ => c.hhx.approach(&hhx::State { hxr, source_temp: 900.0 }),
                        }
                        .to_bits()
                    };
                    out.push((format!("{} {k} ({name}) approach({m_dot}, {q})", ["chx", "regen", "hhx"][side]), Box::new(call)));
                }
            }
        }
    }
    out
}

/// Token passing between threads
struct Sched {
    state: Mutex<(usize, Vec<bool>)>, // who may run, who is done
    cv: Condvar,
}

impl Sched {
    fn wait(&self, me: usize) {
        let mut g = self.state.lock().unwrap();
        while g.0 != me {
            g = self.cv.wait(g).unwrap();
        }
    }
    /// Let another thread run, if there is one
    fn pass(&self, me: usize, to: usize, done: bool) {
        let mut g = self.state.lock().unwrap();
        if done {
            g.1[me] = true;
        }
        let to = if g.1[to] { (0..g.1.len()).find(|k| !g.1[*k] && *k != me).unwrap_or(to) } else { to };
        if g.1[to] {
            return;
        }
        g.0 = to;
        self.cv.notify_all();
        drop(g);
        if !done {
            self.wait(me);
        }
    }
}

/// Run engines concurrently.  `switches[k]` are (own point, next thread) at
/// which thread k is preempted; returns results and numbers of points.
fn interleave(engines: &[usize], all_sites: bool, switches: &[Vec<(u64, usize)>]) -> Vec<(u64, u64)> {
    let sched = Arc::new(Sched { state: Mutex::new((0, vec![false; engines.len()])), cv: Condvar::new() });
    let threads: Vec<_> = engines
        .iter()
        .enumerate()
        .map(|(me, &e)| {
            let (sched, sw) = (sched.clone(), switches[me].clone());
            std::thread::spawn(move || {
                sched.wait(me);
                let n = Rc::new(Cell::new(0u64));
                let (n2, s2) = (n.clone(), sched.clone());
                let ctl = Rc::new(Ctl {
                    tap: Some(Box::new(move |site| {
                        if all_sites || site == 8 {
                            let c = n2.get();
                            n2.set(c + 1);
                            if let Some((_, to)) = sw.iter().find(|x| x.0 == c) {
                                s2.pass(me, *to, false);
                            }
                        }
                    })),
                    ..Default::default()
                });
                let d = digest(&controlled(&engine(e), &ctl));
                let other = (me + 1) % switches_len(&sched);
                sched.pass(me, other, true);
                (d, n.get())
            })
        })
        .collect();
    threads.into_iter().map(|t| t.join().unwrap_or((4, 0))).collect()
}

fn switches_len(s: &Sched) -> usize {
    s.state.lock().unwrap().1.len()
}

/// Commands of a worker: `seq a b c` runs in sequence;
/// `around base a b c` the same for engines around a base;
/// `calls a b c` calls to components; `again k n` a run n times;
/// `pre1 a b from to` all single preemptions of `a` in a range of its points;
/// `pre2 a b from to` preemption of `a` there, and of `b` anywhere;
/// `pre3 a b c from to` three threads, as pre2 with a third run in between;
/// `one <sites> a,b,.. k:point:to ...` a single schedule.
pub fn worker() {
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { return };
        let w: Vec<&str> = line.split_whitespace().collect();
        let num = |i: usize| w[i].parse::<u64>().unwrap();
        match w[0] {
            "seq" => {
                let r: Vec<String> = w[1..].iter().map(|k| plain(k.parse().unwrap()).to_string()).collect();
                println!("R {}", r.join(" "));
            }
            "around" => {
                let v = around(num(1) as usize);
                let r: Vec<String> = w[2..].iter().map(|k| run_around(&v[k.parse::<usize>().unwrap()].1).to_string()).collect();
                println!("R {}", r.join(" "));
            }
            "calls" => {
                let v = calls();
                let r: Vec<String> = w[1..].iter().map(|k| v[k.parse::<usize>().unwrap()].1().to_string()).collect();
                println!("R {}", r.join(" "));
            }
            // one run again and again: the first result that differs
            "again" => {
                let (k, n) = (num(1) as usize, num(2));
                let first = plain(k);
                let bad = (1..n).map(|i| (i, plain(k))).find(|x| x.1 != first);
                println!("R {first} {} {}", bad.map_or(n, |x| x.0), bad.map_or(first, |x| x.1));
            }
            "limited" => println!("R {}", digest(&controlled(&limited(num(1) as usize, num(2) as usize), &Rc::new(Ctl::default())))),
            "points" => {
                let r = interleave(&[num(1) as usize], w[2] == "all", &[vec![]]);
                println!("R {} {}", r[0].0, r[0].1);
            }
            "pre1" => {
                let e = [num(1) as usize, num(2) as usize];
                for i in num(3)..num(4) {
                    let r = interleave(&e, true, &[vec![(i, 1)], vec![]]);
                    println!("R all {},{} 0:{i}:1 | {} {}", e[0], e[1], r[0].0, r[1].0);
                }
            }
            "pre2" => {
                let e = [num(1) as usize, num(2) as usize];
                for i in num(3)..num(4) {
                    for j in 0..num(5) {
                        let r = interleave(&e, false, &[vec![(i, 1)], vec![(j, 0)]]);
                        println!("R vol {},{} 0:{i}:1 1:{j}:0 | {} {}", e[0], e[1], r[0].0, r[1].0);
                    }
                }
            }
            "pre3" => {
                let e = [num(1) as usize, num(2) as usize, num(3) as usize];
                for i in num(4)..num(5) {
                    for j in 0..num(6) {
                        let r = interleave(&e, false, &[vec![(i, 1)], vec![(j, 2)], vec![]]);
                        println!("R vol {},{},{} 0:{i}:1 1:{j}:2 | {} {} {}", e[0], e[1], e[2], r[0].0, r[1].0, r[2].0);
                    }
                }
            }
            "one" => {
                let e: Vec<usize> = w[2].split(',').map(|x| x.parse().unwrap()).collect();
                let mut sw = vec![Vec::new(); e.len()];
                for x in &w[3..] {
                    let p: Vec<u64> = x.split(':').map(|y| y.parse().unwrap()).collect();
                    sw[p[0] as usize].push((p[1], p[2] as usize));
                }
                let r = interleave(&e, w[1] == "all", &sw);
                println!("R {} | {}", w[1..].join(" "), r.iter().map(|x| x.0.to_string()).collect::<Vec<_>>().join(" "));
            }
            _ => panic!("{line}"),
        }
        println!("E");
    }
}

/// Send one command to a new process; its output lines, or how it failed
fn ask(cmd: &str, limit: u64) -> Result<Vec<String>, String> {
    let mut child = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("--sched-worker")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap();
    writeln!(child.stdin.take().unwrap(), "{cmd}").unwrap();
    let mut out = child.stdout.take().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut s = String::new();
        let _ = out.read_to_string(&mut s);
        let _ = tx.send(s);
    });
    let r = rx.recv_timeout(std::time::Duration::from_secs(limit));
    let _ = child.kill();
    let _ = child.wait();
    let s = r.map_err(|_| "no result: the runs do not end".to_string())?;
    if !s.ends_with("E\n") {
        return Err(format!("the process crashed after {} results", s.lines().count()));
    }
    Ok(s.lines().filter_map(|l| l.strip_prefix("R ")).map(String::from).collect())
}

pub fn c14(rep: &Report) {
    // the iterations that the limited engines need, from one process per try
    let need = |f: &dyn Fn(usize) -> String| (0..60).find(|n| matches!(ask(&f(*n), 60), Ok(v) if v[0].parse::<u64>().is_ok_and(|x| x > 3)));
    let inner = need(&|n| format!("limited {n} 60")).unwrap_or(60);
    let outer = need(&|n| format!("limited 60 {n}")).unwrap_or(60);
    std::env::set_var("SETT_MC_LIMITS", format!("{inner},{outer}"));
    rep.extra("iterations_of_the_engines_with_limits", serde_json::json!([inner, outer]));
    // each run alone, in two new processes
    let mut alone = Vec::new();
    for k in 0..NAMES.len() {
        let l = format!("{} alone", NAMES[k]);
        let get = || ask(&format!("seq {k}"), 60).map(|v| v.join(" "));
        match (get(), get()) {
            (Ok(a), Ok(b)) if a == b => alone.push(a.parse::<u64>().unwrap_or(0)),
            (a, b) => {
                rep.violation(&l, &l, format!("two processes: {a:?}, {b:?}"));
                return;
            }
        }
    }
    rep.extra("engines", serde_json::json!(NAMES));
    // sequences
    let depth = if rep.thorough() { 4 } else { 3 };
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut all = Vec::new();
    for _ in 0..depth {
        seqs = seqs.iter().flat_map(|s| (0..NAMES.len()).map(move |k| [s.clone(), vec![k]].concat())).collect();
        all.extend(seqs.clone());
    }
    let label = |s: &Vec<usize>| format!("sequence {}", s.iter().map(|k| NAMES[*k]).collect::<Vec<_>>().join(", "));
    run_cases(rep, &C14, &all, label, |s| {
        let l = label(s);
        rep.count("sequences", 1);
        rep.count("traces", 1);
        rep.count("states", s.len() as u64);
        rep.count("transitions", s.len() as u64 - 1);
        let cmd = s.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(" ");
        match ask(&format!("seq {cmd}"), 60) {
            Err(e) => rep.violation(&l, &l, e),
            Ok(v) => {
                let got: Vec<u64> = v.join(" ").split_whitespace().map(|x| x.parse().unwrap()).collect();
                let mut h = 0u64;
                for (i, k) in s.iter().enumerate() {
                    h = h.wrapping_mul(31) ^ got.get(i).copied().unwrap_or(0);
                    if got.get(i) != Some(&alone[*k]) {
                        return rep.violation(&l, &l, format!("run {} ({}) differs from the same run alone", i + 1, NAMES[*k]));
                    }
                }
                rep.observe(h);
            }
        }
    });
    // sequences of engines that differ in one entry
    let parsed = |cmd: &str| ask(cmd, 100).map(|v| v.join(" ").split_whitespace().map(|x| x.parse::<u64>().unwrap()).collect::<Vec<_>>());
    for b in 0..5 {
        let names: Vec<String> = around(b).into_iter().map(|x| x.0).collect();
        let alone: Mutex<Vec<u64>> = Mutex::new(vec![0; names.len()]);
        let each: Vec<usize> = (0..names.len()).collect();
        let all = Report::new(&rep.id, rep.tier, rep.seed, None);
        run_cases(&all, &C14, &each, |k| format!("{} alone", names[*k]), |&k| {
            let l = format!("{} alone", names[k]);
            match parsed(&format!("around {b} {k}")) {
                Ok(v) if v.len() == 1 => alone.lock().unwrap()[k] = v[0],
                e => rep.violation(&l, &l, format!("{e:?}")),
            }
        });
        let alone = alone.into_inner().unwrap();
        let mut seqs: Vec<Vec<usize>> = (0..names.len()).map(|k| vec![0, k, 0]).collect();
        seqs.extend((1..names.len()).map(|k| vec![k - 1, k, k - 1]));
        if rep.thorough() {
            seqs.extend((0..names.len()).flat_map(|a| (0..names.len()).map(move |b| vec![a, b])));
        }
        let label = |s: &Vec<usize>| format!("around {}", s.iter().map(|k| names[*k].clone()).collect::<Vec<_>>().join(", "));
        run_cases(rep, &C14, &seqs, label, |s| {
            let l = label(s);
            rep.count("sequences_of_similar_engines", 1);
            rep.count("traces", 1);
            rep.count("states", s.len() as u64);
            rep.count("transitions", s.len() as u64 - 1);
            match parsed(&format!("around {b} {}", s.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(" "))) {
                Err(e) => rep.violation(&l, &l, e),
                Ok(got) => {
                    rep.observe(got.iter().fold(0, |h: u64, x| h.wrapping_mul(31) ^ x));
                    for (i, k) in s.iter().enumerate() {
                        if got.get(i) != Some(&alone[*k]) {
                            return rep.violation(&l, &l, format!("run {} ({}) differs from the same run alone", i + 1, names[*k]));
                        }
                    }
                }
            }
        });
    }
    // calls to components one after another: every pair, and the first again
    let names: Vec<String> = calls().into_iter().map(|x| x.0).collect();
    let alone_calls: Vec<Option<u64>> = names.iter().enumerate().map(|(k, _)| parsed(&format!("calls {k}")).ok().and_then(|v| v.first().copied())).collect();
    let each: Vec<usize> = (0..names.len()).collect();
    run_cases(rep, &C14, &each, |k| format!("calls after {}", names[*k]), |&k| {
        let l = format!("calls after {}", names[k]);
        let seq: Vec<usize> = std::iter::once(k).chain((0..names.len()).flat_map(|b| [b, k])).collect();
        rep.count("pairs_of_calls", names.len() as u64);
        rep.count("traces", 1);
        rep.count("states", seq.len() as u64);
        rep.count("transitions", seq.len() as u64 - 1);
        match parsed(&format!("calls {}", seq.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(" "))) {
            Err(e) => rep.violation(&l, &l, e),
            Ok(got) => {
                rep.observe(got.iter().fold(0, |h: u64, x| h.wrapping_mul(31) ^ x));
                if let Some(i) = (0..seq.len()).find(|i| got.get(*i).copied() != alone_calls[seq[*i]]) {
                    let before = if i > 0 { names[seq[i - 1]].as_str() } else { "nothing" };
                    rep.violation(&l, &l, format!("{} after {before} differs from the same call alone", names[seq[i]]));
                }
            }
        }
    });
    // the same run very often
    let often: Vec<(usize, u64)> = if rep.thorough() {
        vec![(0, 200_000), (1, 50_000), (2, 100_000), (3, 200_000), (4, 50_000), (5, 200_000), (6, 10_000), (8, 200_000)]
    } else {
        vec![(3, 66_000), (0, 20_000), (2, 10_000), (8, 10_000), (5, 20_000), (1, 4_000), (6, 1_000)]
    };
    run_cases(rep, &C14, &often, |(k, n)| format!("{} {n} times", NAMES[*k]), |(k, n)| {
        let l = format!("{} {n} times", NAMES[*k]);
        rep.count("runs_of_long_sequences", *n);
        rep.count("traces", 1);
        rep.count("states", *n);
        rep.count("transitions", n - 1);
        match ask(&format!("again {k} {n}"), 600).map(|v| v.join(" ").split_whitespace().map(|x| x.parse::<u64>().unwrap()).collect::<Vec<_>>()) {
            Err(e) => rep.violation(&l, &l, e),
            Ok(v) if v.len() == 3 && v[0] == alone[*k] && v[1] == *n => rep.observe(v[0] ^ n),
            Ok(v) => rep.violation(&l, &l, format!("run {} differs from the same run alone", v.get(1).map_or(0, |x| x + 1))),
        }
    });
    // schedules
    let points = |e: usize, sites: &str| -> u64 {
        ask(&format!("points {e} {sites}"), 60).ok().and_then(|v| v[0].split_whitespace().nth(1).and_then(|x| x.parse().ok())).unwrap_or(0)
    };
    let mut cmds: Vec<(String, u64)> = Vec::new();
    let pairs1: Vec<(usize, usize)> = if rep.thorough() {
        [0, 1, 2, 3, 4, 5, 8, 9].into_iter().flat_map(|a| [0, 1, 2, 3, 4, 5, 8, 9].map(move |b| (a, b))).collect()
    } else {
        vec![(0, 0), (0, 2), (2, 0), (0, 4), (3, 2), (5, 0), (8, 2), (0, 8)]
    };
    for (a, b) in &pairs1 {
        let n = points(*a, "all");
        let step = 100;
        for i in 0..n.div_ceil(step) {
            cmds.push((format!("pre1 {a} {b} {} {}", i * step, ((i + 1) * step).min(n)), n));
        }
    }
    let pairs2: Vec<(usize, usize)> = if rep.thorough() { vec![(0, 0), (0, 2), (2, 0), (0, 1), (3, 2), (5, 2), (1, 2), (4, 0), (8, 2), (2, 8)] } else { vec![(0, 0), (0, 2), (8, 2)] };
    for (a, b) in &pairs2 {
        let (n, m) = (points(*a, "vol"), points(*b, "vol"));
        for i in 0..n.div_ceil(2) {
            cmds.push((format!("pre2 {a} {b} {} {} {m}", i * 2, (i * 2 + 2).min(n)), n));
        }
    }
    if rep.thorough() {
        for (a, b, c) in [(0, 2, 5), (2, 0, 3)] {
            let (n, m) = (points(a, "vol"), points(b, "vol"));
            for i in 0..n.div_ceil(2) {
                cmds.push((format!("pre3 {a} {b} {c} {} {} {m}", i * 2, (i * 2 + 2).min(n)), n));
            }
        }
    }
    if let Some(f) = rep.filter.clone() {
        cmds.clear();
        if let Some(s) = f.strip_prefix("schedule ") {
            cmds.push((format!("one {s}"), 0));
        }
    }
    let none = Report::new(&rep.id, rep.tier, rep.seed, None);
    run_cases(&none, &C14, &cmds, |c| c.0.clone(), |(c, _)| match ask(c, 140) {
        Err(e) => rep.violation(c, c, e),
        Ok(v) => {
            for line in v {
                let (s, r) = line.split_once(" | ").unwrap();
                let e: Vec<usize> = s.split_whitespace().nth(1).unwrap().split(',').map(|x| x.parse().unwrap()).collect();
                let r: Vec<u64> = r.split_whitespace().map(|x| x.parse().unwrap()).collect();
                let preemptions = s.split_whitespace().count() as u64 - 2;
                rep.count("schedules", 1);
                rep.count(&format!("schedules_with_{preemptions}_preemptions"), 1);
                rep.count("traces", 1);
                rep.count("states", preemptions + e.len() as u64);
                rep.count("transitions", preemptions + 1);
                let l = format!("schedule {s}");
                for (k, x) in r.iter().enumerate() {
                    if *x != alone[e[k]] {
                        rep.violation(&l, &l, format!("thread {k} ({}) differs from the same run alone", NAMES[e[k]]));
                    }
                }
                if r.len() != e.len() {
                    rep.violation(&l, &l, "missing results");
                }
                let mut h = 5u64;
                for b in s.bytes() {
                    h = h.wrapping_mul(0x100_0000_01b3) ^ u64::from(b);
                }
                rep.observe(h);
                if h % 4001 == 0 {
                    rep.sample(serde_json::json!({"schedule": s, "meaning": "scheduling points, engines, then thread:point:next thread"}));
                }
            }
        }
    });
}
