//! Runs a scenario over many seeds on several workers, minimises and reports what fails, writes
//! the evidence.

use crate::plan::*;
use crate::rng::*;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Outcome {
    pub stats: Stats,
    pub executed: u64,
    pub nontrivial: u64,
    pub wall: f64,
    pub failure: Option<(u64, Fail)>,
}

pub fn plan_of(s: &dyn Scenario, seed: u64, run: u64, tier: Tier) -> Plan {
    let mut r = Rng::new(run_seed(seed, s.id(), run));
    s.gen(run, &mut r, tier)
}

/// How many consecutive runs share a process.
fn chunk_of(s: &dyn Scenario) -> u64 {
    (s.runs(Tier::Quick) / 256).clamp(64, 4096)
}

/// Execute some plans one after the other in a fresh process; what the last one comes to.
fn chain(s: &dyn Scenario, before: &[Plan], p: &Plan, limit: Duration) -> Result<(), Fail> {
    // Not quiet: what a run observes for the evidence are calls into the library, too.
    let mut st = Stats::default();
    crate::proc::isolated(limit, &mut st, |st| {
        for b in before {
            st.log = 0;
            if let Err(f) = run_exec(s, b, st) {
                return fail(0, "earlier run", f.msg);
            }
        }
        run_exec(s, p, st)
    })
}

/// The fewest earlier runs (found) with which the last one still fails.
fn shrink_history(mut b: Vec<Plan>, deadline: Instant, fails: &dyn Fn(&[Plan]) -> bool) -> Vec<Plan> {
    let mut n = 1;
    while n < b.len() && Instant::now() < deadline {
        let tail = b[b.len() - n..].to_vec();
        if fails(&tail) {
            b = tail;
            break;
        }
        n *= 2;
    }
    let mut size = (b.len() / 2).max(1);
    loop {
        let mut i = 0;
        while i < b.len() && Instant::now() < deadline {
            let mut c = b.clone();
            c.drain(i..(i + size).min(b.len()));
            if fails(&c) {
                b = c;
            } else {
                i += size;
            }
        }
        if size == 1 || Instant::now() >= deadline {
            return b;
        }
        size /= 2;
    }
}

fn plan_hash(p: &Plan) -> u64 {
    let mut w: Vec<u64> = p.cfg.iter().map(|x| *x as u64).collect();
    for s in &p.steps {
        w.push(s.code as u64);
        w.extend(s.a.iter().map(|x| *x as u64));
    }
    hash_words(&w)
}

/// Runs first..first+runs on worker processes.
pub fn run_many(
    s: &'static dyn Scenario,
    seed: u64,
    tier: Tier,
    first: u64,
    runs: u64,
    workers: usize,
    cap: Duration,
    hang: Duration,
) -> Outcome {
    let start = Instant::now();
    // shared words: 0 next chunk, 1 lowest failing run, then per worker: its current run and the
    // process executing it
    let page = crate::proc::shared_page(4096) as *const AtomicU64;
    let word = |i: usize| unsafe { &*page.add(i) };
    let cur = |w: usize| word(2 + 2 * w);
    let who = |w: usize| word(3 + 2 * w);
    // Runs are grouped into chunks.  Each chunk executes in a process of its own, so that what the
    // library may remember between calls depends on the runs before it in the same chunk, and on
    // nothing else.
    let size = chunk_of(s);
    word(0).store(first / size, SeqCst);
    word(1).store(u64::MAX, SeqCst);
    let mut kids = Vec::new();
    for w in 0..workers {
        cur(w).store(u64::MAX, SeqCst);
        kids.push(crate::proc::spawn(|| {
            let mut st = Stats::default();
            // one line per run, to compare two executions
            let logs = std::env::var_os("DST_LOGS").and_then(|f| std::fs::OpenOptions::new().create(true).append(true).open(f).ok());
            let mut failure: Option<(u64, Fail)> = None;
            let (mut executed, mut nontriv) = (0u64, 0u64);
            loop {
                let k = word(0).fetch_add(1, SeqCst);
                let (lo, hi) = ((k * size).max(first), ((k + 1) * size).min(first + runs));
                if lo >= hi || lo > word(1).load(SeqCst) || start.elapsed() > cap {
                    break;
                }
                let mut kid = crate::proc::spawn(|| {
                    let mut st = Stats::default();
                    let mut failure: Option<(u64, Fail)> = None;
                    let (mut executed, mut nontriv) = (0u64, 0u64);
                    for i in lo..hi {
                        if i > word(1).load(SeqCst) || start.elapsed() > cap {
                            break;
                        }
                        cur(w).store(i, SeqCst);
                        let p = plan_of(s, seed, i, tier);
                        let saved = std::mem::replace(&mut st.log, mix(i));
                        let r = run_exec(s, &p, &mut st);
                        if let Some(f) = &logs {
                            use std::io::Write;
                            let mut f = f;
                            let _ = f.write_all(format!("{} {:016x}\n", i, st.log).as_bytes());
                        }
                        st.log = saved.wrapping_add(st.log);
                        if let Some(l) = p.steps.last() {
                            st.sim_ns += l.t;
                        }
                        executed += 1;
                        if s.nontrivial(&p) {
                            nontriv += 1;
                            st.runs.insert(plan_hash(&p));
                        }
                        if let Err(f) = r {
                            failure = Some((i, f));
                            word(1).fetch_min(i, SeqCst);
                            break;
                        }
                    }
                    cur(w).store(u64::MAX, SeqCst);
                    let mut o = Vec::new();
                    crate::proc::put_u64(&mut o, executed);
                    crate::proc::put_u64(&mut o, nontriv);
                    crate::proc::put_stats(&mut o, &st);
                    crate::proc::put_fail(&mut o, &failure);
                    o
                });
                who(w).store(kid.pid as u64, SeqCst);
                let buf = kid.read_all();
                let status = kid.wait();
                let at = cur(w).swap(u64::MAX, SeqCst);
                let f = if status == 0 {
                    let mut r = crate::proc::Rd(&buf);
                    match (r.u64(), r.u64(), crate::proc::get_stats(&mut r), crate::proc::get_fail(&mut r)) {
                        (Some(e), Some(n), Some(x), Some(f)) => {
                            executed += e;
                            nontriv += n;
                            st.merge(x);
                            f
                        }
                        _ => Some((0, Fail { class: "harness error".into(), msg: "short result from a worker".into(), at: 0 })),
                    }
                } else {
                    Some(match crate::proc::death(status) {
                        f if at != u64::MAX => (at, f),
                        f => (0, Fail { class: "harness error".into(), ..f }),
                    })
                };
                if let Some((i, f)) = f {
                    word(1).fetch_min(i, SeqCst);
                    if failure.as_ref().map_or(true, |(j, _)| i < *j) {
                        failure = Some((i, f));
                    }
                }
            }
            let mut o = Vec::new();
            crate::proc::put_u64(&mut o, executed);
            crate::proc::put_u64(&mut o, nontriv);
            crate::proc::put_stats(&mut o, &st);
            crate::proc::put_fail(&mut o, &failure);
            o
        }));
    }
    let mut out = Outcome { stats: Stats::default(), executed: 0, nontrivial: 0, wall: 0.0, failure: None };
    let mut fails: Vec<(u64, Fail)> = Vec::new();
    let bufs: Vec<Mutex<Vec<u8>>> = (0..workers).map(|_| Mutex::new(Vec::new())).collect();
    let mut status: Vec<Option<i32>> = vec![None; workers];
    let mut watch: Vec<(u64, u64, crate::proc::Patience)> =
        (0..workers).map(|_| (u64::MAX, 0, crate::proc::Patience::new(0))).collect();
    std::thread::scope(|sc| {
        for (w, k) in kids.iter_mut().enumerate() {
            let mut rx = k.take_reader();
            let b = &bufs[w];
            sc.spawn(move || {
                use std::io::Read;
                let mut v = Vec::new();
                let _ = rx.read_to_end(&mut v);
                *b.lock().unwrap() = v;
            });
        }
        // Hang detection: together with the time cap the only place a real clock is read, and
        // never part of a run's choices.
        loop {
            let mut open = false;
            for w in 0..workers {
                if status[w].is_some() {
                    continue;
                }
                status[w] = kids[w].poll();
                match status[w] {
                    Some(0) => {}
                    Some(st) => {
                        fails.push((0, Fail { class: "harness error".into(), msg: format!("a worker died (status {})", st), at: 0 }));
                    }
                    None => {
                        open = true;
                        let (i, pid) = (cur(w).load(SeqCst), who(w).load(SeqCst));
                        if (watch[w].0, watch[w].1) != (i, pid) {
                            watch[w] = (i, pid, crate::proc::Patience::new(pid as i32));
                        } else if i != u64::MAX && watch[w].2.since() > Duration::from_millis(250) {
                            watch[w].2.look();
                            if watch[w].2.spent > hang && cur(w).load(SeqCst) == i {
                                crate::proc::bite(pid as i32);
                            }
                        }
                    }
                }
            }
            if !open {
                break;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    });
    for w in 0..workers {
        let b = bufs[w].lock().unwrap();
        let mut r = crate::proc::Rd(&b);
        if status[w] != Some(0) {
            continue;
        }
        match (r.u64(), r.u64(), crate::proc::get_stats(&mut r), crate::proc::get_fail(&mut r)) {
            (Some(e), Some(n), Some(s), Some(f)) => {
                out.executed += e;
                out.nontrivial += n;
                out.stats.merge(s);
                fails.extend(f);
            }
            _ => fails.push((0, Fail { class: "harness error".into(), msg: "short result from a worker".into(), at: 0 })),
        }
    }
    // a real violation outranks trouble a killed worker may have left
    fails.sort_by_key(|(i, f)| (f.class == "harness error", *i));
    out.failure = fails.into_iter().next();
    out.wall = start.elapsed().as_secs_f64();
    out
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jmap(m: &std::collections::BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
    format!("{{{}}}", v.join(", "))
}

pub fn evidence(
    s: &dyn Scenario,
    tier: Tier,
    seed: u64,
    o: &Outcome,
    violations: u64,
    path: &str,
    workers: usize,
    planned: u64,
) -> std::io::Result<()> {
    let mut samples = Vec::new();
    for i in 0..3u64 {
        let p = plan_of(s, seed, i, tier);
        let mut t = format!("run {}: cfg {:?}, {} events: ", i, p.cfg, p.steps.len());
        for st in p.steps.iter().take(8) {
            t.push_str(&format!("[{}ns {}] ", st.t, s.describe(&p, st)));
        }
        if p.steps.len() > 8 {
            t.push_str("...");
        }
        samples.push(jstr(&t));
    }
    let per_hour = if o.wall > 0.0 { (o.executed as f64 / o.wall * 3600.0) as u64 } else { 0 };
    let txt = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \
         \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [\n   {}\n  ],\n  \
         \"planned_runs\": {},\n  \"nontrivial_runs\": {},\n  \"simulated_runs_per_hour\": {},\n  \"simulated_seconds\": {:.6},\n  \
         \"faults_fired\": {},\n  \"probes\": {},\n  \"distinct_states\": {},\n  \"state_measure\": {},\n  \
         \"real_components\": {},\n  \"stubbed_components\": {},\n  \"event_log_digest\": \"{:016x}\",\n  \"workers\": {},\n  \"build\": {}{}\n }},\n \
         \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        jstr(s.id()),
        jstr(if tier == Tier::Quick { "quick" } else { "thorough" }),
        seed,
        o.executed,
        o.stats.runs.len(),
        jstr(s.rule()),
        samples.join(",\n   "),
        planned,
        o.nontrivial,
        per_hour,
        o.stats.sim_ns as f64 / 1e9,
        jmap(&o.stats.faults),
        jmap(&o.stats.counts),
        o.stats.states.len(),
        jstr(s.state_measure()),
        jstr(s.real()),
        jstr(s.stub()),
        o.stats.log,
        workers,
        jstr(&std::env::var("DST_BUILD").unwrap_or_default()),
        // the evidence of an earlier phase of the same check
        match std::env::var("DST_INCLUDE").ok().and_then(|f| std::fs::read_to_string(f).ok()) {
            Some(t) => format!(",\n  \"also\": {}", t.trim()),
            None => String::new(),
        },
        [
            "sampled runs: a clean batch is evidence, not proof",
            "the reference arithmetic in the simulator (big.rs) is right",
            "rustc and the SanitizerCoverage pass compile the library faithfully"
        ]
        .iter()
        .map(|x| jstr(x))
        .collect::<Vec<_>>()
        .join(", "),
        o.wall,
        violations
    );
    if let Some(d) = std::path::Path::new(path).parent() {
        std::fs::create_dir_all(d)?;
    }
    std::fs::write(path, txt)
}

fn replay_path(dir: &str, s: &dyn Scenario, seed: u64, run: u64) -> String {
    let _ = std::fs::create_dir_all(dir);
    format!("{}/{}-{:016x}.replay", dir, s.id(), run_seed(seed, s.id(), run))
}

/// known findings: lines "known: property=<id> class=<class>" (rest of the line is the class)
fn known(root: &str, id: &str) -> Vec<String> {
    let mut v = Vec::new();
    if let Ok(t) = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", root)) {
        for l in t.lines() {
            if let Some(x) = l.strip_prefix(&format!("known: property={} class=", id)) {
                v.push(x.trim().to_string());
            }
        }
    }
    v
}

pub fn check(s: &'static dyn Scenario, root: &str) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.trim().parse().ok()).unwrap_or(20260801);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let workers = std::env::var("DST_WORKERS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8));
    let runs = std::env::var("DST_RUNS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| s.runs(tier));
    let first = std::env::var("DST_FIRST").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
    // The number of runs is fixed; the cap only keeps a slow machine inside the check's time limit.
    let cap = Duration::from_secs(std::env::var("DST_CAP").ok().and_then(|x| x.parse().ok()).unwrap_or(if tier == Tier::Quick { 420 } else { 760 }));
    println!("{} tier={} seed={} runs={} workers={}", s.id(), if tier == Tier::Quick { "quick" } else { "thorough" }, seed, runs, workers);
    let evp = format!("{}/evidence/{}.json", root, s.id());
    let rdir = format!("{}/replays", root);
    let hang = Duration::from_secs(60);
    let o = run_many(s, seed, tier, first, runs, workers, cap, hang);
    if o.executed < runs && o.failure.is_none() {
        println!("note: stopped at the time cap after {} of {} runs", o.executed, runs);
    }
    let mut violations = 0;
    let mut code = 0;
    if let Some((i, f)) = &o.failure {
        if f.class == "harness error" {
            println!("HARNESS ERROR in run {}: {}", i, f.msg);
            return 2;
        }
        let kn = known(root, s.id());
        if kn.iter().any(|k| *k == f.class) {
            println!("KNOWN-FINDING: property={} {}", s.id(), f.class);
        } else {
            violations = 1;
            code = 1;
            let plan = plan_of(s, seed, *i, tier);
            let deadline = Instant::now() + Duration::from_secs(90);
            let nomin = std::env::var_os("DST_NOMIN").is_some();
            let limit = if f.class == "hang" { hang } else { Duration::from_secs(20).min(hang) };
            let fails = |before: &[Plan], p: &Plan| -> Option<Fail> {
                chain(s, before, p, limit).err().filter(|g| g.class == f.class)
            };
            // does it take the runs before it in the same chunk?
            let mut before: Vec<Plan> = Vec::new();
            if !nomin && fails(&before, &plan).is_none() {
                let lo = (*i / chunk_of(s) * chunk_of(s)).max(first);
                before = (lo..*i).map(|k| plan_of(s, seed, k, tier)).collect();
                if fails(&before, &plan).is_some() {
                    before = shrink_history(before, deadline, &|b| fails(b, &plan).is_some());
                }
            }
            let small = if f.class == "hang" || nomin {
                plan.clone()
            } else {
                minimise(s, &plan, deadline, &|p| chain(s, &before, p, limit).err(), &f.class)
            };
            if before.len() <= 4 && !nomin && f.class != "hang" {
                for k in 0..before.len() {
                    let b = before.clone();
                    let with = |p: &Plan| {
                        let mut c = b.clone();
                        c[k] = p.clone();
                        chain(s, &c, &small, limit).err()
                    };
                    before[k] = minimise(s, &b[k], deadline, &with, &f.class);
                }
            }
            let f2 = if nomin { f.clone() } else { fails(&before, &small).unwrap_or(f.clone()) };
            let path = replay_path(&rdir, s, seed, *i);
            let rep = Replay {
                property: s.id().into(),
                seed,
                run: *i,
                class: f2.class.clone(),
                message: f2.msg.clone(),
                before: before.clone(),
                plan: small.clone(),
            };
            if let Err(e) = write_replay(&path, s, &rep) {
                println!("cannot write {}: {}", path, e);
            }
            // the replay file must fail the same way in a fresh process
            let fresh = std::env::current_exe().ok().and_then(|e| {
                std::process::Command::new(e).arg("replay").arg(&path).stdout(std::process::Stdio::null()).status().ok()
            });
            if !before.is_empty() {
                println!("it needs {} earlier runs in the same process", before.len());
            }
            println!(
                "run {} of seed {} fails: {}: {} ({} events, minimised to {})",
                i, seed, f2.class, f2.msg, plan.steps.len(), small.steps.len()
            );
            for st in small.steps.iter().take(40) {
                println!("  {:>12}ns {}", st.t, s.describe(&small, st));
            }
            if fresh.and_then(|x| x.code()) != Some(1) {
                println!("note: a fresh process did not reproduce the minimised plan; writing the original plans");
                let lo = (*i / chunk_of(s) * chunk_of(s)).max(first);
                let before = (lo..*i).map(|k| plan_of(s, seed, k, tier)).collect();
                let rep = Replay { class: f.class.clone(), message: f.msg.clone(), before, plan, ..rep };
                let _ = write_replay(&path, s, &rep);
            }
            println!("VIOLATION property={} replay={}", s.id(), path);
        }
    }
    if let Err(e) = evidence(s, tier, seed, &o, violations, &evp, workers, runs) {
        println!("HARNESS ERROR: cannot write evidence: {}", e);
        return if code == 1 { 1 } else { 2 };
    }
    println!(
        "{}: {} runs ({} non-trivial, {} distinct), {} distinct states, {:.1}s, log {:016x}",
        s.id(),
        o.executed,
        o.nontrivial,
        o.stats.runs.len(),
        o.stats.states.len(),
        o.wall,
        o.stats.log
    );
    if std::env::var_os("DST_STATS").is_some() {
        println!("faults {}", jmap(&o.stats.faults));
        println!("probes {}", jmap(&o.stats.counts));
    }
    code
}

/// development aid: every distinct class of violation over many runs
pub fn survey(s: &'static dyn Scenario, runs: u64) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.trim().parse().ok()).unwrap_or(20260801);
    let m: Mutex<std::collections::BTreeMap<String, (u64, u64, String)>> = Mutex::new(Default::default());
    let next = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= runs {
                    break;
                }
                let p = plan_of(s, seed, i, Tier::Quick);
                let mut st = Stats { quiet: true, ..Stats::default() };
                if let Err(f) = run_exec(s, &p, &mut st) {
                    let mut g = m.lock().unwrap();
                    let e = g.entry(f.class.clone()).or_insert((0, i, f.msg.clone()));
                    e.0 += 1;
                    if i < e.1 {
                        e.1 = i;
                        e.2 = f.msg;
                    }
                }
            });
        }
    });
    for (k, v) in m.lock().unwrap().iter() {
        println!("{:>7} x {} (run {}): {}", v.0, k, v.1, v.2.chars().take(300).collect::<String>());
    }
    0
}

pub fn replay(all: &[&'static dyn Scenario], path: &str) -> i32 {
    let r = match read_replay(path) {
        Some(r) => r,
        None => {
            println!("cannot read replay {}", path);
            return 2;
        }
    };
    let s = match all.iter().find(|s| s.id() == r.property) {
        Some(s) => *s,
        None => {
            println!("unknown property {}", r.property);
            return 2;
        }
    };
    if !r.before.is_empty() {
        println!("  ({} earlier runs)", r.before.len());
    }
    for st in &r.plan.steps {
        println!("  {:>12}ns {}", st.t, s.describe(&r.plan, st));
    }
    match chain(s, &r.before, &r.plan, Duration::from_secs(60)) {
        Ok(()) => {
            println!("replay passes (recorded: {})", r.class);
            0
        }
        Err(f) if f.class == "harness error" => {
            println!("HARNESS ERROR {}", f.msg);
            2
        }
        Err(f) => {
            println!("{}: {} (event {})", f.class, f.msg, f.at);
            println!("same as recorded: {}", f.class == r.class && f.msg == r.message);
            println!("VIOLATION property={} replay={}", r.property, path);
            1
        }
    }
}
