//! A run is a plan: the configuration and the totally ordered list of events the seeded scheduler
//! decided on (operations, deliveries, faults).  Executing a plan is a pure function of the plan
//! and the library, so a plan written to a file is a replay.

use std::collections::{BTreeMap, HashSet};

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Step {
    /// simulated nanoseconds
    pub t: u64,
    pub code: u16,
    pub a: [i64; 6],
    pub data: Vec<u8>,
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub cfg: Vec<i64>,
    pub steps: Vec<Step>,
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub class: String,
    pub msg: String,
    pub at: usize,
}

pub fn fail<T>(at: usize, class: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { class: class.into(), msg: msg.into(), at })
}

#[derive(Default)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub runs: HashSet<u64>,
    pub sim_ns: u64,
    pub log: u64,
    pub quiet: bool,
}

impl Stats {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if self.quiet {
            return;
        }
        if let Some(x) = self.counts.get_mut(k) {
            *x += n
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn fault(&mut self, k: &str) {
        if self.quiet {
            return;
        }
        if let Some(x) = self.faults.get_mut(k) {
            *x += 1
        } else {
            self.faults.insert(k.to_string(), 1);
        }
    }
    pub fn state(&mut self, h: u64) {
        if !self.quiet && self.states.len() < 4_000_000 {
            self.states.insert(h);
        }
    }
    pub fn log(&mut self, x: u64) {
        self.log = crate::rng::mix(self.log ^ x);
    }
    pub fn log_bytes(&mut self, b: &[u8]) {
        let mut h = b.len() as u64;
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            h = crate::rng::mix(h ^ u64::from_le_bytes(w));
        }
        self.log(h)
    }
    pub fn merge(&mut self, o: Stats) {
        for (k, v) in o.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.faults {
            *self.faults.entry(k).or_insert(0) += v;
        }
        self.states.extend(o.states);
        self.runs.extend(o.runs);
        self.sim_ns += o.sim_ns;
        self.log = self.log.wrapping_add(o.log);
    }
}

pub fn hash_words(w: &[u64]) -> u64 {
    let mut h = 0x1234;
    for x in w {
        h = crate::rng::mix(h ^ *x);
    }
    h
}

#[derive(Copy, Clone, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub trait Scenario: Sync {
    fn id(&self) -> &'static str;
    fn runs(&self, tier: Tier) -> u64;
    fn gen(&self, run: u64, rng: &mut crate::rng::Rng, tier: Tier) -> Plan;
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Fail>;
    fn describe(&self, p: &Plan, s: &Step) -> String;
    fn rule(&self) -> &'static str;
    /// non-trivial run, by `rule`
    fn nontrivial(&self, p: &Plan) -> bool;
    fn state_measure(&self) -> &'static str;
    fn real(&self) -> &'static str;
    fn stub(&self) -> &'static str;
    /// executions the minimiser may spend
    fn shrink_budget(&self) -> usize {
        2000
    }
    /// may an argument of this step be simplified by the minimiser
    fn shrink_args(&self) -> bool {
        true
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub run: u64,
    pub class: String,
    pub message: String,
    /// runs to execute first in the same process
    pub before: Vec<Plan>,
    pub plan: Plan,
}

fn write_plan(o: &mut String, s: &dyn Scenario, p: &Plan) {
    o.push_str("cfg");
    for c in &p.cfg {
        o.push_str(&format!(" {}", c));
    }
    o.push('\n');
    for st in &p.steps {
        o.push_str(&format!("step {} {}", st.t, st.code));
        for a in &st.a {
            o.push_str(&format!(" {}", a));
        }
        o.push_str(&format!(" x{}   # {}\n", hex(&st.data), s.describe(p, st).replace('\n', " ")));
    }
}

pub fn write_replay(path: &str, s: &dyn Scenario, r: &Replay) -> std::io::Result<()> {
    let mut o = String::new();
    o.push_str("dst-replay 1\n");
    o.push_str(&format!("property {}\n", r.property));
    o.push_str(&format!("build {}\n", std::env::var("DST_BUILD").unwrap_or_default()));
    o.push_str(&format!("origin VERIF_SEED={} run={}\n", r.seed, r.run));
    o.push_str(&format!("class {}\n", r.class));
    o.push_str(&format!("message {}\n", r.message.replace('\n', " ")));
    for p in &r.before {
        write_plan(&mut o, s, p);
        o.push_str("then\n");
    }
    write_plan(&mut o, s, &r.plan);
    std::fs::write(path, o)
}

pub fn read_replay(path: &str) -> Option<Replay> {
    let t = std::fs::read_to_string(path).ok()?;
    let mut r = Replay {
        property: String::new(),
        seed: 0,
        run: 0,
        class: String::new(),
        message: String::new(),
        before: Vec::new(),
        plan: Plan::default(),
    };
    for (i, l) in t.lines().enumerate() {
        if i == 0 {
            if l != "dst-replay 1" {
                return None;
            }
            continue;
        }
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "property" => r.property = v.to_string(),
            "origin" => {
                for w in v.split(' ') {
                    if let Some(x) = w.strip_prefix("VERIF_SEED=") {
                        r.seed = x.parse().ok()?;
                    }
                    if let Some(x) = w.strip_prefix("run=") {
                        r.run = x.parse().ok()?;
                    }
                }
            }
            "then" => r.before.push(std::mem::take(&mut r.plan)),
            "class" => r.class = v.to_string(),
            "message" => r.message = v.to_string(),
            "cfg" => {
                r.plan.cfg = v
                    .split(' ')
                    .filter(|x| !x.is_empty())
                    .map(|x| x.parse().ok())
                    .collect::<Option<Vec<i64>>>()?
            }
            "step" => {
                let v = v.split("   #").next()?;
                let w: Vec<&str> = v.split(' ').collect();
                if w.len() != 9 {
                    return None;
                }
                let mut s = Step { t: w[0].parse().ok()?, code: w[1].parse().ok()?, ..Step::default() };
                for j in 0..6 {
                    s.a[j] = w[2 + j].parse().ok()?;
                }
                s.data = unhex(w[8].strip_prefix('x')?)?;
                r.plan.steps.push(s);
            }
            _ => {}
        }
    }
    Some(r)
}

/// Shrink a failing plan while the same class of violation remains.
/// `exec` executes a plan in a fresh process.
pub fn minimise(
    s: &dyn Scenario,
    plan: &Plan,
    deadline: std::time::Instant,
    exec: &dyn Fn(&Plan) -> Option<Fail>,
    class: &str,
) -> Plan {
    let mut budget = s.shrink_budget();
    let mut best = plan.clone();
    let mut try_plan = |p: &Plan| -> bool {
        if budget == 0 || std::time::Instant::now() > deadline {
            return false;
        }
        budget -= 1;
        matches!(exec(p), Some(f) if f.class == class)
    };
    // everything after the failing step goes first
    {
        if let Some(f) = exec(&best) {
            if f.at + 1 < best.steps.len() {
                let mut p = best.clone();
                p.steps.truncate(f.at + 1);
                if try_plan(&p) {
                    best = p;
                }
            }
        }
    }
    for _round in 0..3 {
        let before = (best.steps.len(), best.clone());
        let mut chunk = (best.steps.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.steps.len() {
                let mut p = best.clone();
                let hi = (i + chunk).min(p.steps.len());
                p.steps.drain(i..hi);
                if try_plan(&p) {
                    best = p;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        if s.shrink_args() {
            for i in 0..best.steps.len() {
                // data: zero, one, zero halves, zero single bytes
                if !best.steps[i].data.is_empty() && best.steps[i].data.iter().any(|x| *x != 0) {
                    let n = best.steps[i].data.len();
                    let mut cands: Vec<(usize, usize)> = vec![(0, n), (1, n), (n / 2, n), (0, n / 2)];
                    for q in 0..8 {
                        cands.push((q * n / 8, (q + 1) * n / 8));
                    }
                    for (lo, hi) in cands {
                        let mut p = best.clone();
                        let d = &mut p.steps[i].data;
                        if d[lo..hi].iter().all(|x| *x == 0) {
                            continue;
                        }
                        for x in d[lo..hi].iter_mut() {
                            *x = 0;
                        }
                        if try_plan(&p) {
                            best = p;
                        }
                    }
                }
                for j in 0..6 {
                    let v = best.steps[i].a[j];
                    for c in [0, 1, -1, 2, v / 2] {
                        if c == v || c.abs() >= v.abs() && c != 0 {
                            continue;
                        }
                        let mut p = best.clone();
                        p.steps[i].a[j] = c;
                        if try_plan(&p) {
                            best = p;
                            break;
                        }
                    }
                }
            }
        }
        if best.steps.len() == before.0 && best.steps == before.1.steps {
            break;
        }
    }
    best
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line()))
            .unwrap_or_default();
        if std::env::var_os("DST_VERBOSE").is_some() {
            eprintln!("panic: {} at {}", m, loc);
        }
        let _ = LAST_PANIC.try_with(|c| *c.borrow_mut() = format!("{} at {}", m, loc));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|c| c.borrow().clone())
}

/// A call into the library that must not panic.
pub fn call<T>(at: usize, what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => fail(at, format!("panic in {}", what), format!("{} panicked: {}", what, last_panic())),
    }
}

/// Harness errors are panics whose message starts with HARNESS; they end the check with exit 2.
pub fn run_exec(s: &dyn Scenario, p: &Plan, st: &mut Stats) -> Result<(), Fail> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.exec(p, st))) {
        Ok(r) => r,
        Err(_) => {
            let m = last_panic();
            fail(0, "harness error", format!("the simulator itself panicked: {}", m))
        }
    }
}
