//! Worker processes.  Runs execute in forked children, so that state the library might keep
//! between calls is never shared between two simulations running at the same time, and a crash
//! or a hang of one run is seen and attributed.

use crate::plan::*;
use std::io::{Read, Write};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

/// Did this wait status come from the code under test crashing (as opposed to the simulator
/// failing or something outside ending the process)?
pub fn crashed(status: i32) -> bool {
    matches!(status & 0x7f, 4 | 6 | 7 | 8 | 11)
}

pub fn shared_page(len: usize) -> *mut u8 {
    unsafe {
        let p = mmap(std::ptr::null_mut(), len, 3, 0x21, -1, 0);
        assert!(p as isize != -1, "HARNESS mmap");
        p
    }
}

pub fn put_u64(o: &mut Vec<u8>, x: u64) {
    o.extend_from_slice(&x.to_le_bytes());
}
pub fn put_str(o: &mut Vec<u8>, s: &str) {
    put_u64(o, s.len() as u64);
    o.extend_from_slice(s.as_bytes());
}
pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    pub fn u64(&mut self) -> Option<u64> {
        if self.0.len() < 8 {
            return None;
        }
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        Some(u64::from_le_bytes(a.try_into().unwrap()))
    }
    pub fn str(&mut self) -> Option<String> {
        let n = self.u64()? as usize;
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(String::from_utf8_lossy(a).into_owned())
    }
}

pub fn put_stats(o: &mut Vec<u8>, s: &Stats) {
    for m in [&s.counts, &s.faults] {
        put_u64(o, m.len() as u64);
        for (k, v) in m.iter() {
            put_str(o, k);
            put_u64(o, *v);
        }
    }
    for h in [&s.states, &s.runs] {
        put_u64(o, h.len() as u64);
        for x in h.iter() {
            put_u64(o, *x);
        }
    }
    put_u64(o, s.sim_ns);
    put_u64(o, s.log);
}
pub fn get_stats(r: &mut Rd) -> Option<Stats> {
    let mut s = Stats::default();
    for w in 0..2 {
        let n = r.u64()?;
        for _ in 0..n {
            let k = r.str()?;
            let v = r.u64()?;
            if w == 0 { &mut s.counts } else { &mut s.faults }.insert(k, v);
        }
    }
    for w in 0..2 {
        let n = r.u64()?;
        for _ in 0..n {
            let v = r.u64()?;
            if w == 0 { &mut s.states } else { &mut s.runs }.insert(v);
        }
    }
    s.sim_ns = r.u64()?;
    s.log = r.u64()?;
    Some(s)
}
pub fn put_fail(o: &mut Vec<u8>, f: &Option<(u64, Fail)>) {
    match f {
        None => put_u64(o, 0),
        Some((i, f)) => {
            put_u64(o, 1);
            put_u64(o, *i);
            put_str(o, &f.class);
            put_str(o, &f.msg);
            put_u64(o, f.at as u64);
        }
    }
}
pub fn get_fail(r: &mut Rd) -> Option<Option<(u64, Fail)>> {
    if r.u64()? == 0 {
        return Some(None);
    }
    let i = r.u64()?;
    let class = r.str()?;
    let msg = r.str()?;
    let at = r.u64()? as usize;
    Some(Some((i, Fail { class, msg, at })))
}

pub struct Child {
    pub pid: i32,
    rx: Option<std::io::PipeReader>,
}

/// Fork; the child runs f, sends what it returns and exits.
pub fn spawn(f: impl FnOnce() -> Vec<u8>) -> Child {
    let (rx, mut tx) = std::io::pipe().expect("HARNESS pipe");
    let _ = std::io::stdout().flush();
    let pid = unsafe { fork() };
    assert!(pid >= 0, "HARNESS fork");
    if pid == 0 {
        drop(rx);
        unsafe { prctl(1, 9, 0, 0, 0) }; // die with the parent
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let code = match r {
            Ok(v) => {
                if tx.write_all(&v).is_ok() {
                    0
                } else {
                    90
                }
            }
            Err(_) => 91,
        };
        drop(tx);
        unsafe { _exit(code) }
    }
    drop(tx);
    Child { pid, rx: Some(rx) }
}

impl Child {
    /// everything the child sends, once it has closed its end
    pub fn read_all(&mut self) -> Vec<u8> {
        let mut v = Vec::new();
        let _ = self.take_reader().read_to_end(&mut v);
        v
    }
    pub fn take_reader(&mut self) -> std::io::PipeReader {
        self.rx.take().unwrap()
    }
    /// None: still running.  Some(0): clean exit.
    pub fn poll(&self) -> Option<i32> {
        let mut st = 0;
        let r = unsafe { waitpid(self.pid, &mut st, 1) };
        if r == self.pid {
            Some(st)
        } else if r < 0 {
            Some(-1)
        } else {
            None
        }
    }
    pub fn wait(&self) -> i32 {
        let mut st = 0;
        loop {
            let r = unsafe { waitpid(self.pid, &mut st, 0) };
            if r == self.pid {
                return st;
            }
            if r < 0 && std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted {
                return -1;
            }
        }
    }
}

/// How long a process has been getting nowhere: the processor time it used plus the time it was
/// seen asleep.  Time during which it was stopped, or ready but not scheduled on a loaded
/// machine, does not count, so that only a run that really never ends is called a hang.
pub struct Patience {
    pid: i32,
    cpu: u64,
    last: Instant,
    pub spent: Duration,
}

impl Patience {
    pub fn new(pid: i32) -> Patience {
        Patience { pid, cpu: cpu_ticks(pid).map_or(0, |x| x.1), last: Instant::now(), spent: Duration::ZERO }
    }
    pub fn since(&self) -> Duration {
        self.last.elapsed()
    }
    pub fn look(&mut self) {
        let dt = self.last.elapsed();
        self.last = Instant::now();
        if let Some((state, cpu)) = cpu_ticks(self.pid) {
            let used = Duration::from_millis(10 * cpu.saturating_sub(self.cpu));
            self.cpu = cpu;
            self.spent += if state == 'S' || state == 'D' { dt } else { used.min(dt) };
        }
    }
}

/// State and processor time (in ticks of 10 ms) of a process.
fn cpu_ticks(pid: i32) -> Option<(char, u64)> {
    let t = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let f: Vec<&str> = t[t.rfind(')')? + 1..].split_whitespace().collect();
    Some((f.first()?.chars().next()?, f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?))
}

/// The signal a watchdog ends a run with (SIGVTALRM: nothing else sends it).
const BITE: i32 = 26;

pub fn bite(pid: i32) {
    unsafe { kill(pid, BITE) };
}

/// What a child's ending otherwise than by itself means.
pub fn death(status: i32) -> Fail {
    let (class, msg) = if status & 0x7f == BITE {
        ("hang", "a run never ended: some library call did not return".to_string())
    } else if crashed(status) {
        ("crash", format!("the process died inside the run (wait status {})", status))
    } else {
        ("harness error", format!("a child ended with wait status {}", status))
    };
    Fail { class: class.into(), msg, at: 0 }
}

/// Execute a plan in a child of its own.
pub fn isolated(
    limit: Duration,
    st: &mut Stats,
    f: impl FnOnce(&mut Stats) -> Result<(), Fail>,
) -> Result<(), Fail> {
    let quiet = st.quiet;
    let (log0, _) = (st.log, 0);
    let mut c = spawn(move || {
        let mut s = Stats { quiet, log: log0, ..Stats::default() };
        let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut s))) {
            Ok(r) => r,
            Err(_) => fail(0, "harness error", format!("the simulator itself panicked: {}", last_panic())),
        };
        let mut o = Vec::new();
        put_stats(&mut o, &s);
        put_fail(&mut o, &r.err().map(|f| (0, f)));
        o
    });
    let mut rx = c.take_reader();
    let pid = c.pid;
    // A helper thread would make later forks of this process unsafe, so hang detection is done
    // by a watchdog process that kills the child.
    let dog = watchdog(pid, limit);
    let mut buf = Vec::new();
    let _ = rx.read_to_end(&mut buf);
    let status = c.wait();
    stop_watchdog(dog);
    if status != 0 {
        return Err(death(status));
    }
    let mut r = Rd(&buf);
    let s = get_stats(&mut r);
    let f = get_fail(&mut r);
    match (s, f) {
        (Some(s), Some(f)) => {
            let log = s.log;
            st.merge(s);
            st.log = log;
            match f {
                None => Ok(()),
                Some((_, f)) => Err(f),
            }
        }
        _ => fail(0, "harness error", "short result from a child"),
    }
}

fn watchdog(pid: i32, limit: Duration) -> i32 {
    let d = unsafe { fork() };
    if d == 0 {
        unsafe { prctl(1, 9, 0, 0, 0) };
        let mut p = Patience::new(pid);
        while p.spent < limit {
            std::thread::sleep(Duration::from_millis(250));
            p.look();
        }
        unsafe {
            kill(pid, BITE);
            _exit(0)
        }
    }
    d
}
fn stop_watchdog(d: i32) {
    if d > 0 {
        unsafe { kill(d, 9) };
        let mut st = 0;
        unsafe { waitpid(d, &mut st, 0) };
    }
}
