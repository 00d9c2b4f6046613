//! Evidence, violations, known findings and replay files.
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Report {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub filter: Option<String>,
    root: String,
    start: Instant,
    inner: Mutex<Inner>,
}

#[derive(Default)]
struct Inner {
    counts: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    violations: Vec<(String, String, String)>,
    known: BTreeMap<String, String>,
    extra: BTreeMap<String, Value>,
    sets: BTreeMap<String, BTreeSet<String>>,
    maxima: BTreeMap<String, (f64, String)>,
    findings: Vec<(String, String)>,
}

impl Report {
    pub fn new(id: &str, tier: Tier, seed: u64, filter: Option<String>) -> Self {
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        let mut inner = Inner::default();
        // Known findings: lines `finding: property=<id> key=<key> <description>`
        if let Ok(text) = std::fs::read_to_string(format!("{root}/known_findings.txt")) {
            for line in text.lines() {
                let Some(rest) = line.strip_prefix("finding: ") else { continue };
                let mut it = rest.splitn(3, ' ');
                let prop = it.next().unwrap_or("").trim_start_matches("property=");
                let key = it.next().unwrap_or("").trim_start_matches("key=");
                let desc = it.next().unwrap_or("");
                if prop == id {
                    inner.findings.push((key.to_string(), desc.to_string()));
                }
            }
        }
        Self { id: id.into(), tier, seed, filter, root, start: Instant::now(), inner: Mutex::new(inner) }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// Is this case selected (replay runs select a single case)?
    pub fn selected(&self, case: &str) -> bool {
        self.filter.as_deref().map_or(true, |f| f == case)
    }

    pub fn count(&self, name: &str, n: u64) {
        *self.inner.lock().unwrap().counts.entry(name.into()).or_insert(0) += n;
    }

    /// Register an observation; distinct observations are counted by hash
    pub fn observe(&self, h: u64) {
        self.inner.lock().unwrap().distinct.insert(h);
    }

    pub fn set_insert(&self, set: &str, v: impl Into<String>) {
        self.inner.lock().unwrap().sets.entry(set.into()).or_default().insert(v.into());
    }

    /// Track the largest deviation seen for a monitored quantity
    pub fn maximum(&self, name: &str, v: f64, case: &str) {
        let mut g = self.inner.lock().unwrap();
        let e = g.maxima.entry(name.into()).or_insert((f64::NEG_INFINITY, String::new()));
        if v > e.0 {
            *e = (v, case.to_string());
        }
    }

    pub fn sample(&self, v: Value) {
        let mut g = self.inner.lock().unwrap();
        if g.samples.len() < 6 {
            g.samples.push(v);
        }
    }

    pub fn extra(&self, k: &str, v: Value) {
        self.inner.lock().unwrap().extra.insert(k.into(), v);
    }

    /// Report that the property does not hold for `case`.
    ///
    /// `key` identifies the input; violations whose key is listed as a known
    /// finding are reported as such.
    pub fn violation(&self, key: &str, case: &str, msg: impl Into<String>) {
        let msg = msg.into();
        let mut g = self.inner.lock().unwrap();
        if g.findings.iter().any(|(k, _)| k == key) {
            let d = g.findings.iter().find(|(k, _)| k == key).unwrap().1.clone();
            let _ = msg;
            g.known.entry(key.to_string()).or_insert(d);
            *g.counts.entry("known_finding_hits".into()).or_insert(0) += 1;
        } else {
            *g.counts.entry("violating_cases".into()).or_insert(0) += 1;
            if g.violations.len() < 50 && !g.violations.iter().any(|v| v.0 == key && v.1 == case) {
                g.violations.push((key.to_string(), case.to_string(), msg));
            }
        }
    }

    pub fn violated(&self) -> bool {
        !self.inner.lock().unwrap().violations.is_empty()
    }

    /// Is there no point in exploring any further?
    pub fn enough(&self) -> bool {
        let g = self.inner.lock().unwrap();
        let n = g.counts.get("violating_cases").copied().unwrap_or(0);
        n >= 200 || (n > 0 && self.start.elapsed().as_secs() > 240)
    }

    /// Write the evidence and return the exit code
    pub fn finish(&self, meta: &Meta) -> i32 {
        let mut g = self.inner.lock().unwrap();
        g.violations.sort();
        for (k, d) in &g.known {
            println!("KNOWN-FINDING: property={} key={} {}", self.id, k, d);
        }
        for (name, (v, case)) in &g.maxima {
            println!("max {name}: {v:.3e}  [{case}]");
        }
        for (k, v) in &g.counts {
            println!("count {k}: {v}");
        }
        for (k, v) in &g.sets {
            println!("set {k}: {} {:?}", v.len(), v.iter().take(20).collect::<Vec<_>>());
        }
        let get = |k: &str| g.counts.get(k).copied().unwrap_or(0);
        let mut cov = serde_json::Map::new();
        match meta.level {
            "model_checking" => {
                cov.insert("states".into(), json!(get("states")));
                cov.insert("transitions".into(), json!(get("transitions")));
                cov.insert("traces_validated_against_impl".into(), json!(get("traces")));
            }
            _ => {
                cov.insert("evaluations".into(), json!(get("evaluations")));
                cov.insert("distinct_nontrivial".into(), json!(g.distinct.len()));
            }
        }
        cov.insert("rule".into(), json!(meta.rule));
        cov.insert("samples".into(), json!(g.samples));
        cov.insert("exhaustive".into(), json!(self.filter.is_none() && g.violations.is_empty()));
        cov.insert("counts".into(), json!(g.counts));
        cov.insert("distinct_observations".into(), json!(g.distinct.len()));
        cov.insert(
            "sets".into(),
            json!(g.sets.iter().map(|(k, v)| (k.clone(), json!({"size": v.len(), "members": v.iter().take(64).collect::<Vec<_>>()}))).collect::<serde_json::Map<_, _>>()),
        );
        cov.insert(
            "largest_deviations".into(),
            json!(g.maxima.iter().map(|(k, (v, c))| (k.clone(), json!({"value": format!("{v:.3e}"), "case": c}))).collect::<serde_json::Map<_, _>>()),
        );
        cov.insert("known_findings".into(), json!(g.known));
        for (k, v) in &g.extra {
            cov.insert(k.clone(), v.clone());
        }
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough() { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": meta.level,
            "coverage": cov,
            "assumptions": meta.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": g.violations.len(),
        });
        if self.filter.is_none() {
            let _ = std::fs::create_dir_all(format!("{}/evidence", self.root));
            let p = format!("{}/evidence/{}.json", self.root, self.id);
            if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap()) {
                eprintln!("cannot write {p}: {e}");
                return 2;
            }
        }
        println!("wall {:.1}s", self.start.elapsed().as_secs_f64());
        if g.violations.is_empty() {
            println!("OK property={}", self.id);
            return 0;
        }
        let _ = std::fs::create_dir_all(format!("{}/replays", self.root));
        for (i, (key, case, msg)) in g.violations.iter().enumerate().take(50) {
            let p = format!("{}/replays/{}-{}.json", self.root, self.id, i);
            let body = json!({
                "property": self.id,
                "key": key,
                "case": case,
                "what": msg,
                "replay": format!("./run.sh {} --case '{}'", self.id, case),
            });
            let _ = std::fs::write(&p, serde_json::to_string_pretty(&body).unwrap());
            println!("VIOLATION property={} replay={}", self.id, p);
            println!("  case {case} (key {key}): {msg}");
        }
        1
    }
}

pub struct Meta {
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

/// FNV-1a over bits, to count distinct observations
pub fn hash_f64(vals: &[f64]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for v in vals {
        for b in v.to_bits().to_le_bytes() {
            h ^= u64::from(b);
            h = h.wrapping_mul(0x100_0000_01b3);
        }
    }
    h
}
