//! Evidence, verdict lines, known findings and replay files: shared by all checks.
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::time::Instant;

pub use serde_json;

pub struct Report {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub exhaustive: bool,
    pub samples: Vec<Value>,
    pub assumptions: Vec<String>,
    pub extra: Map<String, Value>,
    /// key -> (count, message, replay)
    viol: BTreeMap<String, (u64, String, Value)>,
    start: Instant,
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

impl Report {
    pub fn new(id: &str) -> Report {
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let tier = if tier == "thorough" { "thorough" } else { "quick" }.to_string();
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        Report {
            id: id.into(),
            tier,
            seed,
            states: 0,
            transitions: 0,
            traces: 0,
            exhaustive: true,
            samples: vec![],
            assumptions: vec![],
            extra: Map::new(),
            viol: BTreeMap::new(),
            start: Instant::now(),
        }
    }
    pub fn level_assumptions(&mut self) {
        self.assumptions.push("the application sources run unmodified except that std is replaced by the controlled vstd, the threadpool and indicatif crates by stand-ins with the same contract, and sweeps of random Monte-Carlo calls are fast-forwarded (a few real calls per sweep)".into());
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    /// Record a violation. `key` identifies the kind of failing case (call site, history shape), and is what the
    /// known-findings file refers to.
    pub fn violation(&mut self, key: &str, msg: String, replay: Value) {
        let e = self.viol.entry(key.to_string()).or_insert((0, msg, replay));
        e.0 += 1;
    }
    pub fn violated(&self) -> bool {
        !self.viol.is_empty()
    }
    pub fn nviol(&self) -> u64 {
        self.viol.values().map(|v| v.0).sum()
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 8 {
            self.samples.push(v);
        }
    }
    pub fn merge(&mut self, o: Report) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.exhaustive &= o.exhaustive;
        for s in o.samples {
            self.sample(s);
        }
        for (k, (n, m, r)) in o.viol {
            let e = self.viol.entry(k).or_insert((0, m, r));
            e.0 += n;
        }
        for (k, v) in o.extra {
            match (self.extra.get(&k).and_then(|x| x.as_u64()), v.as_u64()) {
                (Some(a), Some(b)) => {
                    self.extra.insert(k, json!(a + b));
                }
                _ => {
                    self.extra.insert(k, v);
                }
            }
        }
    }
    /// Serialise for transport between worker processes.
    pub fn to_json(&self) -> Value {
        json!({"states": self.states, "transitions": self.transitions, "traces": self.traces,
            "exhaustive": self.exhaustive, "samples": self.samples, "extra": self.extra,
            "viol": self.viol.iter().map(|(k,(n,m,r))| json!([k,n,m,r])).collect::<Vec<_>>()})
    }
    pub fn merge_json(&mut self, v: &Value) {
        let mut o = Report::new(&self.id);
        o.states = v["states"].as_u64().unwrap_or(0);
        o.transitions = v["transitions"].as_u64().unwrap_or(0);
        o.traces = v["traces"].as_u64().unwrap_or(0);
        o.exhaustive = v["exhaustive"].as_bool().unwrap_or(true);
        o.samples = v["samples"].as_array().cloned().unwrap_or_default();
        o.extra = v["extra"].as_object().cloned().unwrap_or_default();
        for x in v["viol"].as_array().cloned().unwrap_or_default() {
            o.viol.insert(
                x[0].as_str().unwrap_or("?").to_string(),
                (x[1].as_u64().unwrap_or(1), x[2].as_str().unwrap_or("").to_string(), x[3].clone()),
            );
        }
        self.merge(o);
    }
    fn known(&self) -> Vec<(String, String)> {
        let mut out = vec![];
        if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())) {
            for l in s.lines() {
                let l = l.trim();
                if let Some(r) = l.strip_prefix("finding: property=") {
                    let mut it = r.splitn(3, ' ');
                    let p = it.next().unwrap_or("");
                    let k = it.next().unwrap_or("").trim_start_matches("key=");
                    let w = it.next().unwrap_or("");
                    if p == self.id {
                        out.push((k.to_string(), w.to_string()));
                    }
                }
            }
        }
        out
    }
    /// Write the evidence file, print verdict lines and return the exit code.
    pub fn finish(mut self) -> i32 {
        let known = self.known();
        let mut bad = 0u64;
        let mut code = 0;
        let dir = verif_dir();
        let _ = std::fs::create_dir_all(format!("{}/replays", dir));
        let viol = std::mem::take(&mut self.viol);
        for (k, (n, m, r)) in &viol {
            if let Some((_, w)) = known.iter().find(|(kk, _)| kk == k) {
                println!("KNOWN-FINDING: property={} {} [{}] ({} cases)", self.id, w, k, n);
                continue;
            }
            bad += n;
            code = 1;
            let path = format!("{}/replays/{}-{}.json", dir, self.id,
                k.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect::<String>());
            let _ = std::fs::write(&path, serde_json::to_string_pretty(
                &json!({"property": self.id, "key": k, "message": m, "cases": n, "replay": r})).unwrap());
            println!("VIOLATION property={} replay={}", self.id, path);
            println!("  [{}] x{}: {}", k, n, m);
        }
        let mut cov = Map::new();
        cov.insert("states".into(), json!(self.states));
        cov.insert("transitions".into(), json!(self.transitions));
        cov.insert("traces_validated_against_impl".into(), json!(self.traces));
        cov.insert("exhaustive".into(), json!(self.exhaustive));
        cov.insert("samples".into(), json!(self.samples));
        for (k, v) in &self.extra {
            cov.insert(k.clone(), v.clone());
        }
        let ev = json!({"property": self.id, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": cov, "assumptions": self.assumptions, "wall_s": self.elapsed(), "violations": bad});
        let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
        std::fs::write(format!("{}/evidence/{}.json", dir, self.id), serde_json::to_string_pretty(&ev).unwrap())
            .expect("write evidence");
        println!("{} {}: states={} transitions={} traces={} wall={:.1}s violations={}", self.id, self.tier,
            self.states, self.transitions, self.traces, self.elapsed(), bad);
        code
    }
}
