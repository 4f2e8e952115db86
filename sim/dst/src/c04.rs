//! C04: concurrent callers never affect one another.
//!
//! Each simulated caller is a real thread running a program of library calls on elements and
//! points of its own, reading operands that all of them share.  Exactly one thread runs at a time
//! and the plan decides, to the memory access, when it is preempted and by whom.  Every caller's
//! transcript must be the one it produces alone in a fresh process.
//!
//! In some runs callers share a thread, as the tasks of a thread pool do: their calls take turns
//! there, and one caller's entropy source or sink may make the other's calls.

use crate::big::*;
use crate::curveops::*;
use crate::fieldops::*;
use crate::plan::*;
use crate::proc;
use crate::rng::*;
use crate::yieldpt;
use std::cell::{Cell, RefCell};
use std::fmt;
use std::io::Read;
use std::sync::{Arc, Mutex};
use surface as s;
use surface::{El, Pt};

pub struct C04;

// steps; a[5] is the thread
const SHARE: u16 = 68; // index skew | data          a shared element, made before the threads start
const SHAREPT: u16 = 69; // index skew skew | data    a shared point
const SH_BIN: u16 = 70; // dst own shared op form order
const SH_UN: u16 = 71; // dst shared kind form imm
const SH_OBS: u16 = 72; // own shared kind form
const FRAND: u16 = 73; // dst form seed panic-after nest
const FFMT: u16 = 74; // src form sink k nest
const PTOP: u16 = 75; // dst x y kind form
const CODEC: u16 = 76; // dst src form
const KONST: u16 = 77; // dst which
const SMUL: u16 = 78; // dst x scalar form
const SWITCH: u16 = 79; // points next rare threshold

const NSH: usize = 4;
const NREG: usize = 4;
const NPT: usize = 3;

/// everything the callers only read
struct Shared {
    els: Vec<El>,
    norm: Vec<El>,
    pts: Vec<Pt>,
}

struct World {
    fi: i64,
    curve: Option<i64>,
}

fn shared(p: &Plan) -> Shared {
    let w = world(p, 0);
    let f = fld(w.fi);
    let mut els = vec![f.konst(1); NSH];
    let mut pts = Vec::new();
    if let Some(c) = w.curve {
        pts = vec![crv(c).zero(); NSH];
    }
    for s in &p.steps {
        match s.code {
            SHARE if s.data.len() >= f.nbytes() => {
                let e = f.unpacked(&s.data);
                els[reg(s.a[0], NSH)] = skew(f, &e, s.a[1]);
            }
            SHAREPT => {
                if let Some(c) = w.curve {
                    let q = unpack_point(ec(c), &s.data);
                    pts[reg(s.a[0], NSH)] = make(crv(c), f, md(w.fi), &q, s.a[1], s.a[2], &Pt::new());
                }
            }
            _ => {}
        }
    }
    let norm = els
        .iter()
        .map(|e| {
            let mut c = *e;
            f.normalize(&mut c);
            c
        })
        .collect();
    Shared { els, norm, pts }
}

/// cfg: threads, field of the shared operands, then per thread its field (-1: the shared one)
fn world(p: &Plan, th: usize) -> World {
    let g = |i: usize| p.cfg.get(i).copied().unwrap_or(0);
    let own = if th > 0 || p.cfg.len() > 2 { p.cfg.get(2 + th).copied().unwrap_or(-1) } else { -1 };
    let fi = if own < 0 { g(1) } else { own };
    let curve = (0..s::CURVES.len() as i64).find(|c| crv(*c).field() == (fi.unsigned_abs() as usize) % 9);
    World { fi, curve }
}

/// At this callback, let the other callers on this thread make their calls.
struct Nest<'a> {
    at: i64,
    run: &'a mut dyn FnMut(),
}
impl<'a> Nest<'a> {
    fn here(&mut self) {
        self.at -= 1;
        if self.at == 0 {
            (self.run)();
        }
    }
}

struct Source<'a> {
    r: Rng,
    left: i64,
    nest: Nest<'a>,
}
impl<'a> s::Entropy for Source<'a> {
    fn next_u32(&mut self) -> u32 {
        yieldpt::here(1);
        self.nest.here();
        if self.left == 0 {
            panic!("entropy source failed");
        }
        self.left -= 1;
        (self.r.next() >> 32) as u32
    }
}
struct Sink<'a> {
    got: Vec<u8>,
    room: i64,
    mode: i64,
    nest: Nest<'a>,
}
impl<'a> fmt::Write for Sink<'a> {
    fn write_str(&mut self, t: &str) -> fmt::Result {
        for b in t.bytes() {
            yieldpt::here(2);
            self.nest.here();
            if self.mode > 0 && self.room == 0 {
                if self.mode == 1 {
                    return Err(fmt::Error);
                }
                panic!("sink failed");
            }
            self.room -= 1;
            self.got.push(b);
        }
        Ok(())
    }
}

struct Caller<'a> {
    w: World,
    sh: &'a Shared,
    regs: Vec<El>,
    pts: Vec<Pt>,
}

impl<'a> Caller<'a> {
    fn new(p: &Plan, th: usize, sh: &'a Shared) -> Caller<'a> {
        let w = world(p, th);
        let f = fld(w.fi);
        let regs = vec![f.konst(5); NREG];
        let pts = match w.curve {
            Some(c) => vec![crv(c).zero(); NPT],
            None => Vec::new(),
        };
        Caller { w, sh, regs, pts }
    }
    /// One call; the bytes it makes visible.
    fn step(&mut self, same: bool, st: &Step, nest: &mut dyn FnMut()) -> Vec<u8> {
        let f = fld(self.w.fi);
        let n = NREG;
        let d = reg(st.a[0], n);
        let sh = self.sh;
        let mut out = Vec::new();
        let ok = |x: std::thread::Result<()>, out: &mut Vec<u8>| out.push(if x.is_ok() { 1 } else { 0 });
        let sx = |i: i64| reg(i, NSH);
        match st.code {
            1..=10 => {
                if st.code == LOAD && st.data.len() < f.nbytes() {
                    return out;
                }
                real(f, &mut self.regs, st);
            }
            // what follows reads shared operands: only callers in their field do it
            SH_BIN if same => {
                let x = self.regs[reg(st.a[1], n)];
                let y = &sh.els[sx(st.a[2])];
                let op = (st.a[3].unsigned_abs() % 4) as u8;
                let form = (st.a[4] & 3) as u8;
                if st.a[4] & 4 == 0 {
                    f.bin(op, form, &mut self.regs[d], &x, y);
                } else {
                    f.bin(op, form, &mut self.regs[d], y, &x);
                }
            }
            SH_UN if same => {
                let y = &sh.els[sx(st.a[1])];
                let k = st.a[2].unsigned_abs();
                match k % 3 {
                    0 => f.un((k / 3 % 5) as u8, (st.a[3] & 1) as u8, &mut self.regs[d], y),
                    _ => f.small((k / 3 % 3) as u8, (st.a[3].unsigned_abs() % 14) as u8, &mut self.regs[d], y, st.a[4] as i32),
                }
            }
            SH_OBS if same => {
                let y = &sh.norm[sx(st.a[1])];
                let mut x = self.regs[d];
                match st.a[2].unsigned_abs() % 5 {
                    0 => out.push(f.normalize_self_eq(&mut x, y) as u8),
                    1 => out.push(f.bit_normalized(y, st.a[3].unsigned_abs() as usize % f.n()) as u8),
                    2 => {
                        let mut b = vec![0; f.nbytes()];
                        f.pack_normalized(y, &mut b);
                        out.extend(b);
                    }
                    3 => {
                        let mut m = *y;
                        f.bitop(st.a[3] & 1 == 1, 1, &mut x, &mut m);
                        self.regs[d] = x;
                    }
                    _ => {
                        let mut k = Sink { got: Vec::new(), room: 0, mode: 0, nest: Nest { at: 0, run: nest } };
                        let _ = f.format((st.a[3].unsigned_abs() % 3) as u8, &sh.els[sx(st.a[1])], &mut k);
                        out.extend(k.got);
                    }
                }
            }
            FRAND => {
                let mut src = Source { r: Rng::new(st.a[2] as u64), left: st.a[3], nest: Nest { at: st.a[4].max(0), run: nest } };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.rand((st.a[1] & 1) as u8, &mut src)));
                if let Ok(e) = &r {
                    self.regs[d] = *e;
                }
                ok(r.map(|_| ()), &mut out);
                out.push(src.left as u8);
            }
            FFMT => {
                let mut k = Sink { got: Vec::new(), room: st.a[3].max(0), mode: st.a[2].unsigned_abs() as i64 % 3, nest: Nest { at: st.a[4].max(0), run: nest } };
                let x = &self.regs[d];
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    f.format((st.a[1].unsigned_abs() % 3) as u8, x, &mut k).is_ok()
                }));
                out.push(match r {
                    Ok(true) => 1,
                    Ok(false) => 2,
                    Err(_) => 0,
                });
                out.extend(k.got);
            }
            CODEC => {
                let mut x = self.regs[reg(st.a[1], n)];
                let v = crate::c02::save(f, &mut x, st.a[2], f.nbytes());
                out.extend(&v);
                if st.a[2] & 8 == 0 {
                    self.regs[d] = f.unpacked(&v);
                } else {
                    f.unpack(&mut self.regs[d], &v);
                }
            }
            KONST => {
                self.regs[d] = match (st.a[1].unsigned_abs() % 12, self.w.curve) {
                    (k, _) if k < 8 => f.konst(k as u8),
                    (8, Some(c)) => crv(c).base().0,
                    (9, Some(c)) => crv(c).base().1,
                    (10, Some(c)) => crv(c).order(),
                    (_, Some(c)) => crv(c).d(),
                    (_, None) => f.filled(st.a[1] & 1 == 1),
                };
            }
            PTOP | SMUL => {
                let c = match self.w.curve {
                    Some(c) => crv(c),
                    None => return out,
                };
                let d = reg(st.a[0], NPT);
                let x = self.pts[reg(st.a[1], NPT)];
                let form = (st.a[4] & 3) as u8;
                if st.code == SMUL {
                    let mut q = x;
                    if st.a[4] & 2 != 0 && same && !sh.pts.is_empty() {
                        q = sh.pts[sx(st.a[1])];
                    }
                    let mut k = self.regs[reg(st.a[2], n)];
                    if st.a[4] & 1 == 0 {
                        c.scalar_mult(&mut q, &mut k);
                    } else {
                        f.normalize(&mut k);
                        c.scalar_mult_normalized(&mut q, &k);
                    }
                    self.pts[d] = q;
                } else {
                    let own = !same || sh.pts.is_empty();
                    let y = if own || st.a[3] & 8 == 0 { self.pts[reg(st.a[2], NPT)] } else { Pt::new() };
                    let y = if own || st.a[3] & 8 == 0 { &y } else { &sh.pts[sx(st.a[2])] };
                    match st.a[3].unsigned_abs() % 8 {
                        0..=2 => c.add(form, &mut self.pts[d], &x, y),
                        3 => c.add(form, &mut self.pts[d], y, &x),
                        4 => c.double(form, &mut self.pts[d], y),
                        5 => c.triple(form, &mut self.pts[d], y),
                        6 => {
                            let (bx, by) = c.base();
                            c.init(&mut self.pts[d], &bx, &by);
                        }
                        _ => self.pts[d] = c.zero(),
                    }
                }
                for k in c.coords(&self.pts[d]).iter() {
                    out.extend(bytes_of(f, k));
                }
                return out;
            }
            _ => return out,
        }
        out.extend(bytes_of(f, &self.regs[d]));
        out
    }
}

/// (step, bytes); a panicking call leaves the single byte 0xEE
type Transcript = Vec<(usize, Vec<u8>)>;

/// The callers in the order of their calls on one thread.
struct Thread<'a> {
    p: &'a Plan,
    /// (caller, itself, whether it is in the shared operands' field, its transcript)
    callers: Vec<(usize, RefCell<Caller<'a>>, bool, &'a Mutex<Transcript>)>,
    next: Cell<usize>,
}

impl<'a> Thread<'a> {
    fn pending(&self) -> Option<(usize, usize)> {
        loop {
            let i = self.next.get();
            let st = self.p.steps.get(i)?;
            let k = self.callers.iter().position(|c| c.0 == st.a[5].unsigned_abs() as usize);
            if let (Some(k), false) = (k, matches!(st.code, SWITCH | SHARE | SHAREPT)) {
                return Some((i, k));
            }
            self.next.set(i + 1);
        }
    }
    /// Makes the next call, unless its caller is already inside one.
    fn one(&self) -> bool {
        let (i, k) = match self.pending() {
            Some(x) => x,
            None => return false,
        };
        let (_, c, same, into) = &self.callers[k];
        let mut c = match c.try_borrow_mut() {
            Ok(c) => c,
            Err(_) => return false,
        };
        self.next.set(i + 1);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.step(*same, &self.p.steps[i], &mut || while self.one() {})));
        into.lock().unwrap().push((i, r.unwrap_or_else(|_| vec![0xEE])));
        true
    }
}

fn program(p: &Plan, who: &[usize], sh: &Shared, into: &[&Mutex<Transcript>]) {
    let mut t = Thread { p, callers: Vec::new(), next: Cell::new(0) };
    for (th, into) in who.iter().zip(into) {
        let same = world(p, *th).fi == world(p, usize::MAX - 8).fi;
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Caller::new(p, *th, sh))) {
            Ok(c) => t.callers.push((*th, RefCell::new(c), same, into)),
            Err(_) => into.lock().unwrap().push((usize::MAX, vec![0xEE])),
        }
    }
    while t.one() {}
}

/// which callers live on which thread
fn tenants(p: &Plan) -> Vec<Vec<usize>> {
    let n = threads(p);
    let per = p.cfg.get(2 + n).copied().unwrap_or(0).clamp(0, 7) as usize + 1;
    (0..n).collect::<Vec<_>>().chunks(per).map(|c| c.to_vec()).collect()
}

/// the library's constants, as a caller sees them
fn constants(p: &Plan) -> Vec<u8> {
    let mut v = Vec::new();
    for th in 0..threads(p) {
        let w = world(p, th);
        let f = fld(w.fi);
        for k in 0..8 {
            v.extend(bytes_of(f, &f.konst(k)));
        }
        for b in [false, true] {
            let z = f.filled(b);
            for x in &z.0[..f.size() / 8] {
                v.extend(x.to_le_bytes());
            }
        }
        if let Some(c) = w.curve {
            let c = crv(c);
            for e in [c.base().0, c.base().1, c.order(), c.d()] {
                v.extend(bytes_of(f, &e));
            }
        }
    }
    v
}

fn threads(p: &Plan) -> usize {
    p.cfg.first().copied().unwrap_or(1).clamp(1, 20) as usize
}

fn put_transcript(o: &mut Vec<u8>, t: &Transcript) {
    proc::put_u64(o, t.len() as u64);
    for (i, b) in t {
        proc::put_u64(o, *i as u64);
        proc::put_u64(o, b.len() as u64);
        o.extend(b);
    }
}
fn get_transcript(r: &mut proc::Rd) -> Option<Transcript> {
    let n = r.u64()?;
    let mut t = Vec::new();
    for _ in 0..n {
        let i = r.u64()? as usize;
        let l = r.u64()? as usize;
        if r.0.len() < l {
            return None;
        }
        let (a, b) = r.0.split_at(l);
        r.0 = b;
        t.push((i, a.to_vec()));
    }
    Some(t)
}

fn raw(sh: &Shared) -> Vec<u64> {
    let mut v = Vec::new();
    for e in sh.els.iter().chain(&sh.norm) {
        v.extend_from_slice(&e.0);
    }
    for q in &sh.pts {
        v.extend_from_slice(&q.0);
    }
    v
}

fn child(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, Fail> {
    let mut c = proc::spawn(f);
    let mut rx = c.take_reader();
    let mut v = Vec::new();
    let _ = rx.read_to_end(&mut v);
    match c.wait() {
        0 => Ok(v),
        w if w == yieldpt::NEVER << 8 => fail(0, "a call never completes", "a caller alone is still inside a call after far more steps than any program takes"),
        w if proc::crashed(w) => fail(0, "crash", format!("the process died (wait status {})", w)),
        w => fail(0, "harness error", format!("a child ended with wait status {}", w)),
    }
}

fn what(p: &Plan, i: usize) -> String {
    let st = match p.steps.get(i) {
        Some(s) => s,
        None => return "setting up".into(),
    };
    let w = world(p, st.a[5].unsigned_abs() as usize);
    let n = match st.code {
        1..=10 => opname(st),
        SH_BIN => ["add", "sub", "mul", "div"][(st.a[3].unsigned_abs() % 4) as usize].to_string() + " with a shared operand",
        SH_UN => "operation on a shared operand".into(),
        SH_OBS => "observation of a shared operand".into(),
        FRAND => "rand".into(),
        FFMT => "formatting".into(),
        PTOP => "point operation".into(),
        CODEC => "encoding".into(),
        KONST => "constant".into(),
        SMUL => "scalar multiplication".into(),
        _ => "?".into(),
    };
    format!("{} {}", fld(w.fi).name(), n)
}

/// All callers together, under one of the plan's schedules.
#[allow(clippy::too_many_arguments)]
fn together(p: &Plan, id: i64, homes: &[Vec<usize>], solo: &[Transcript], konst: &[u8], rare: &[bool], (rares, hots): (u64, u64), work: u64, st: &mut Stats) -> Result<(), Fail> {
        let n = threads(p);
        let nt = homes.len();
        let quiet = st.quiet;
        let rare = rare.to_vec();
        proc::isolated(std::time::Duration::from_secs(40), st, move |st| {
            let sh = Arc::new(shared(p));
            let before = raw(&sh);
            let part = |whole: u64, s: &Step| ((whole * s.a[0].clamp(0, 1 << 20) as u64) >> 20).max(1);
            let sched: Vec<(u64, usize, yieldpt::Counts)> = p
                .steps
                .iter()
                .filter(|s| s.code == SWITCH && s.a[4] == id)
                .map(|s| {
                    let (q, c) = match s.a[2] {
                        0 => (s.a[0].max(1) as u64, yieldpt::Counts::All),
                        1 => (s.a[0].max(1) as u64, yieldpt::Counts::Rare),
                        2 => (part(rares, s), yieldpt::Counts::Rare),
                        _ => (part(hots, s), yieldpt::Counts::Hot),
                    };
                    (q, s.a[1].unsigned_abs() as usize % nt, c)
                })
                .collect();
            let sc = Arc::new(yieldpt::Sched::new(nt, sched, rare, span(&sh), work));
            let outs: Vec<Arc<Mutex<Transcript>>> = (0..n).map(|_| Arc::new(Mutex::new(Vec::new()))).collect();
            for th in 0..nt {
                let started = &sc;
                let (sc, sh, p, who) = (sc.clone(), sh.clone(), p.clone(), homes[th].clone());
                let o: Vec<Arc<Mutex<Transcript>>> = who.iter().map(|c| outs[*c].clone()).collect();
                std::thread::Builder::new()
                    .stack_size(1 << 20)
                    .spawn(move || sc.run(th, || program(&p, &who, &sh, &o.iter().map(|x| &**x).collect::<Vec<_>>())))
                    .expect("HARNESS thread");
                started.ready(th);
            }
            let end = sc.drive(0);
            let log = sc.log();
            let mut pre = 0;
            for (a, loc, acc, pts, b) in &log {
                if a != b {
                    pre += 1;
                }
                if !quiet {
                    st.state(hash_words(&[*a as u64, *loc as u64, *acc as u64, *b as u64]));
                }
                match *loc {
                    u32::MAX => st.count("caller found waiting for something outside the simulator"),
                    yieldpt::WAITS => st.count("caller waited for another caller"),
                    yieldpt::YIELDS => st.count("caller gave way"),
                    _ => {}
                }
                if *loc != u32::MAX {
                    st.log(hash_words(&[*a as u64, *loc as u64, *acc as u64, *pts, *b as u64]));
                }
            }
            st.add("preemptions inside a call", pre);
            for _ in 0..pre {
                st.fault("preemption");
            }
            if nt < n {
                st.count("runs in which callers share a thread");
            }
            for s in &p.steps {
                if nt < n && matches!(s.code, FRAND | FFMT) && s.a[4] > 0 {
                    st.fault("callback makes another caller's calls");
                }
                match s.code {
                    FRAND if s.a[3] < 30 => st.fault("entropy source panics"),
                    FFMT if s.a[2] == 1 => st.fault("sink fails"),
                    FFMT if s.a[2] == 2 => st.fault("sink panics"),
                    _ => {}
                }
            }
            // interleaved transcripts against solo ones
            let mut first: Option<(usize, String)> = None;
            for th in 0..n {
                let t = outs[th].lock().unwrap().clone();
                for (k, (i, b)) in solo[th].iter().enumerate() {
                    st.count(match p.steps.get(*i).map(|s| s.code) {
                        Some(1..=10) => "field calls",
                        Some(SH_BIN) | Some(SH_UN) | Some(SH_OBS) => "calls on shared elements",
                        Some(PTOP) => "point calls",
                        Some(SMUL) => "scalar multiplications",
                        _ => "other calls",
                    });
                    let why = match t.get(k) {
                        None => "never completed".to_string(),
                        Some((j, c)) if j == i && c == b => {
                            st.log_bytes(b);
                            continue;
                        }
                        Some((_, c)) if c.as_slice() == [0xEE] => "panicked; it does not when run alone".to_string(),
                        Some((_, c)) => format!("gave {}, alone it gives {}", hex(c), hex(b)),
                    };
                    if first.as_ref().map_or(true, |(j, _)| i < j) {
                        first = Some((*i, why));
                    }
                    break;
                }
            }
            if end == yieldpt::End::Stuck {
                return fail(first.map_or(0, |x| x.0), "a call never completes", "long after the last preemption some caller is still inside a call that completes when it runs alone");
            }
            if end == yieldpt::End::Deadlock {
                return fail(first.map_or(0, |x| x.0), "deadlock", "every caller left waits for another");
            }
            if let Some((i, why)) = first {
                let th = p.steps.get(i).map_or(0, |s| s.a[5]);
                return fail(i, format!("{}: concurrent result differs", what(p, i)), format!("caller {}: {}", th, why));
            }
            let after = raw(&sh);
            if after != before {
                return fail(p.steps.len().saturating_sub(1), "a shared operand was modified", "shared operands differ after the run");
            }
            if constants(p) != *konst {
                return fail(p.steps.len().saturating_sub(1), "a constant was modified", "constants differ after the run");
            }
            Ok(())
        })
}

/// Where the shared operands are, and how long.
fn span(sh: &Shared) -> [(u64, u64); 3] {
    [
        (sh.els.as_ptr() as u64, std::mem::size_of_val(&sh.els[..]) as u64),
        (sh.norm.as_ptr() as u64, std::mem::size_of_val(&sh.norm[..]) as u64),
        (sh.pts.as_ptr() as u64, std::mem::size_of_val(&sh.pts[..]) as u64),
    ]
}

impl Scenario for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 36_000,
            Tier::Thorough => 400_000,
        }
    }
    fn gen(&self, run: u64, r: &mut Rng, _tier: Tier) -> Plan {
        let fi = (run % 9) as i64;
        let m = md(fi);
        // now and then a crowd: what the library might hold a fixed number of runs out
        let crowd = r.chance(1, 24);
        let nth = if crowd { r.range(5, 18) } else { 2 + r.pick(&[0, 0, 0, 1, 1, 2]) };
        let mut cfg = vec![nth, fi];
        for _ in 0..nth {
            cfg.push(if r.chance(1, 8) { r.range(0, 8) } else { -1 });
        }
        let mut steps = Vec::new();
        let heavy = !crowd && r.chance(1, 12);
        let curve = !crowd && r.chance(1, 3) || heavy;
        let p0 = Plan { cfg: cfg.clone(), steps: Vec::new() };
        for i in 0..NSH {
            let mut s = Step { code: SHARE, ..Step::default() };
            s.a[0] = i as i64;
            s.a[1] = r.range(0, SKEWS - 1);
            s.data = value(r, m).to_le(m.nbytes);
            steps.push(s);
            if let (true, Some(c)) = (curve, world(&p0, usize::MAX - 8).curve) {
                let mut s = Step { code: SHAREPT, ..Step::default() };
                s.a[0] = i as i64;
                s.a[1] = r.range(0, SKEWS - 1);
                s.a[2] = r.range(0, SKEWS - 1);
                s.data = pack_point(m, &some_point(r, ec(c)));
                steps.push(s);
            }
        }
        let mut mx = Mix::swarm(r, r.clone().chance(1, 3));
        mx.w[10] = 0; // instrumented, repeated operations take too long
        // swarm: which kinds of call this run makes; all callers draw from the same few, so that
        // they meet in the same code
        let base = [10u32, 5, 2, 2, 2, 2, 2, 1];
        let mut kinds = [0u32; 8];
        for i in 0..8 {
            kinds[i] = base[i] * r.pick(&[0, 1, 1, 3]) as u32;
        }
        kinds[0] += 1;
        if curve {
            kinds[5] += 4;
        } else {
            kinds[5] = 0;
        }
        let len = r.range(2, if heavy || crowd { 4 } else { 12 });
        // callers that make the same few calls on the same few values meet in whatever the
        // library might remember from one call to the next
        let echo = r.chance(1, if crowd { 1 } else { 3 });
        let mut loads: Vec<Vec<u8>> = Vec::new();
        let mut pool: Vec<Step> = Vec::new();
        let mut psize = 0;
        let costly = echo && r.chance(1, 2) || crowd;
        if echo {
            psize = r.range(1, if crowd { 2 } else { 4 });
            loads = (0..r.range(1, NREG as i64)).map(|_| value(r, m).to_le(m.nbytes)).collect();
        }
        for th in 0..nth {
            let w = world(&p0, th as usize);
            let m = md(w.fi);
            for k in 0..NREG as i64 {
                if r.chance(3, 4) {
                    let mut s = Step { code: LOAD, ..Step::default() };
                    s.a = [k, r.range(0, 1), 0, 0, 0, th];
                    s.data = if echo && w.fi == fi { loads[(k as usize + r.idx(2) * th as usize) % loads.len()].clone() } else { value(r, m).to_le(m.nbytes) };
                    steps.push(s);
                }
            }
            let mut left = r.range(1, len);
            if w.curve.is_some() && curve {
                let mut s = Step { code: PTOP, ..Step::default() };
                s.a = [r.range(0, 2), 0, 0, 6, 0, th];
                steps.push(s);
            }
            while left > 0 {
                left -= 1;
                if pool.len() as i64 >= psize.max(1) && w.fi == fi && r.chance(7, 8) {
                    let mut s = pool[r.idx(pool.len())].clone();
                    s.a[5] = th;
                    steps.push(s);
                    continue;
                }
                let mut s = Step::default();
                let g = |r: &mut Rng| r.range(0, 7);
                // what a library would most likely remember: the results of its costliest calls
                if costly && w.fi == fi && r.chance(7, 8) {
                    s.code = r.pick(&[UN, UN, SH_UN, BIN, if heavy { SMUL } else { UN }]);
                    s.a = match s.code {
                        UN => [g(r) & 3, g(r) & 3, r.range(2, 4), r.range(0, 1), 0, th],
                        BIN => [g(r) & 3, g(r) & 3, g(r) & 3, 3, r.range(0, 3), th],
                        SH_UN => [g(r), g(r), r.pick(&[6, 9, 12]), r.range(0, 1), 0, th],
                        _ => [g(r), g(r), g(r), 0, g(r), th],
                    };
                    if echo && (pool.len() as i64) < psize {
                        pool.push(s.clone());
                    }
                    steps.push(s);
                    continue;
                }
                match r.weighted(&kinds) {
                    0 => s = gen_op(r, m, NREG as i64, &mx),
                    1 => {
                        s.code = r.pick(&[SH_BIN, SH_BIN, SH_UN, SH_OBS]);
                        s.a[0] = g(r);
                        s.a[1] = g(r);
                        s.a[2] = g(r);
                        s.a[3] = r.pick(&[0, 1, 2, 2, if mx.un[2] > 0 { 3 } else { 2 }]);
                        s.a[4] = g(r);
                        if s.code == SH_UN {
                            // 0 neg 3 square 6 invert 9 legendre 12 sqrt; 1 4 7 small
                            s.a[2] = if mx.un[2] > 0 { r.pick(&[0, 3, 6, 9, 12, 1, 4, 7]) } else { r.pick(&[0, 3, 1, 4, 7]) };
                            s.a[3] = r.range(0, 13);
                            s.a[4] = imm(r);
                        }
                        if s.code == SH_OBS {
                            s.a[3] = r.range(0, m.n as i64);
                        }
                    }
                    2 => {
                        s.code = FRAND;
                        s.a[0] = g(r);
                        s.a[1] = g(r);
                        s.a[2] = r.next() as i64;
                        s.a[3] = if r.chance(1, 3) { r.range(0, 24) } else { 1_000_000 };
                    }
                    3 => {
                        s.code = FFMT;
                        s.a[0] = g(r);
                        s.a[1] = r.range(0, 2);
                        s.a[2] = r.pick(&[0, 0, 1, 2]);
                        s.a[3] = r.range(0, 2 * m.nbytes as i64);
                    }
                    4 => {
                        s.code = CODEC;
                        s.a[0] = g(r);
                        s.a[1] = g(r);
                        s.a[2] = r.range(0, 15);
                    }
                    5 => {
                        s.code = PTOP;
                        s.a[0] = g(r);
                        s.a[1] = g(r);
                        s.a[2] = g(r);
                        s.a[3] = r.range(0, 15);
                        s.a[4] = g(r);
                        if heavy && r.chance(1, 3) {
                            s.code = SMUL;
                        }
                    }
                    6 => {
                        s.code = KONST;
                        s.a[0] = g(r);
                        s.a[1] = r.range(0, 11);
                    }
                    _ => {
                        s = gen_op(r, m, NREG as i64, &mx);
                    }
                }
                s.a[5] = th;
                if echo && w.fi == fi && (pool.len() as i64) < psize {
                    pool.push(s.clone());
                }
                steps.push(s);
            }
        }
        // The preemptions: several schedules for the same programs.  The last ones preempt at
        // accesses to state the callers share, and are left out if they make none.
        let (usual, hot) = if heavy { (2, 4) } else if crowd { (3, 8) } else { (1 + r.below(5), 16) };
        let mut t = 0;
        for k in 0..usual + hot {
            let hot = k >= usual;
            let many = r.chance(1, 3);
            let len = 1 + r.below(if many { 60 } else { 12 });
            // hot loops would otherwise take nearly all the preemptions
            let rare = r.chance(1, 2);
            // one or two preemptions at just the right place, then the others run on
            let probe = rare && r.chance(1, 2) || hot;
            let len = if probe { r.pick(&[1, 1, 2, 3]) } else { len };
            let below = r.pick(&[0, 1, 2, 3, 4, 6]);
            let top = if rare { r.pick(&[3, 5, 6, 8, 10]) } else { r.pick(&[6, 9, 12, 12, 15]) + if heavy { 5 } else { 0 } };
            for _ in 0..len {
                let e = r.below(top + 1);
                let q = (1u64 << e) + r.below(1 << e);
                t += q;
                let mut s = Step { t, code: SWITCH, ..Step::default() };
                s.a[0] = q as i64;
                s.a[1] = r.range(0, nth - 1);
                if probe {
                    s.a[0] = r.below(1 << 20) as i64;
                }
                if rare && !hot {
                    s.a[2] = 1 + probe as i64;
                    s.a[3] = below;
                }
                if hot {
                    s.a[2] = 3;
                }
                s.a[4] = k as i64;
                steps.push(s);
            }
        }
        // callers that share a thread: their calls take turns, or nest in callbacks
        if r.chance(1, 4) {
            let per = r.range(1, nth - 1);
            cfg.push(per);
            let own = |s: &Step| !matches!(s.code, SWITCH | SHARE | SHAREPT);
            let mut queues: Vec<std::collections::VecDeque<Step>> = vec![Default::default(); nth as usize];
            for s in steps.iter().filter(|s| own(s)) {
                let mut s = s.clone();
                if matches!(s.code, FRAND | FFMT) && r.chance(1, 2) {
                    s.a[4] = 1 + r.below(r.clone().pick(&[1, 4, 2 * m.nbytes as u64])) as i64;
                }
                queues[s.a[5] as usize].push_back(s);
            }
            let mut merged = Vec::new();
            let mut at = 0;
            while queues.iter().any(|q| !q.is_empty()) {
                if r.chance(1, 2) || queues[at].is_empty() {
                    at = r.idx(queues.len());
                }
                merged.extend(queues[at].pop_front());
            }
            let mut rest: Vec<Step> = steps.into_iter().filter(|s| !own(s)).collect();
            let cut = rest.iter().position(|s| s.code == SWITCH).unwrap_or(rest.len());
            let tail = rest.split_off(cut);
            rest.extend(merged);
            rest.extend(tail);
            steps = rest;
        }
        Plan { cfg, steps }
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Fail> {
        if yieldpt::instrumented() == 0 {
            return fail(0, "harness error", "this build of the simulator has no yield points");
        }
        let n = threads(p);
        // the callers alone, each in a process that has done nothing else
        let mut solo: Vec<Transcript> = Vec::new();
        let mut konst = Vec::new();
        // a location is rare if the solo runs visit it at most this often each
        let below = p.steps.iter().filter(|s| s.code == SWITCH && matches!(s.a[2], 1 | 2)).map(|s| 1u64 << s.a[3].clamp(0, 20)).max();
        let mut visits = vec![(0u64, 0u64); yieldpt::instrumented() as usize + 1];
        let (mut work, mut hot) = (0, 0);
        for th in 0..n {
            let b = child(|| {
                let sh = shared(p);
                let t = Mutex::new(Vec::new());
                let mut o = Vec::new();
                let (_, v, points, hot) = yieldpt::counted(span(&sh), || program(p, &[th], &sh, &[&t]));
                let v = if below.is_some() { v } else { Vec::new() };
                put_transcript(&mut o, &t.lock().unwrap());
                proc::put_u64(&mut o, points);
                proc::put_u64(&mut o, hot);
                for (i, k) in v.iter().enumerate().filter(|x| x.1 .0 != 0) {
                    proc::put_u64(&mut o, i as u64);
                    proc::put_u64(&mut o, k.0 as u64);
                    proc::put_u64(&mut o, k.1 as u64);
                }
                o
            })?;
            let mut rd = proc::Rd(&b);
            match get_transcript(&mut rd) {
                Some(t) => solo.push(t),
                None => return fail(0, "harness error", "short result from a solo run"),
            }
            work += rd.u64().unwrap_or(0);
            hot += rd.u64().unwrap_or(0);
            while let (Some(i), Some(k), Some(q)) = (rd.u64(), rd.u64(), rd.u64()) {
                if let Some(v) = visits.get_mut(i as usize) {
                    v.0 += k;
                    v.1 += q;
                }
            }
        }
        let rare: Vec<bool> = match below {
            Some(b) => visits.iter().map(|v| v.0 <= b * n as u64).collect(),
            None => Vec::new(),
        };
        // how many points at rare locations, and at accesses to shared state, a caller passes
        let rares: u64 = visits.iter().zip(&rare).filter(|x| *x.1).map(|x| x.0 .1).sum::<u64>() / n as u64;
        let hots = hot / n as u64;
        if n > 0 {
            konst = child(|| constants(p))?;
        }
        let homes = tenants(p);
        let (homes, solo, konst) = (&homes, &solo, &konst);
        if hot > 0 {
            st.count("programs that access shared state");
        }
        let mut ids: Vec<i64> = p.steps.iter().filter(|s| s.code == SWITCH && (hot > 0 || s.a[2] != 3)).map(|s| s.a[4]).collect();
        ids.dedup();
        if ids.is_empty() {
            ids.push(0);
        }
        for id in ids {
            st.count("schedules");
            together(p, id, homes, solo, konst, &rare, (rares, hots), work, st)?;
        }
        Ok(())
    }
    fn describe(&self, p: &Plan, st: &Step) -> String {
        let a = &st.a;
        match st.code {
            SHARE => format!("shared element {} = {} (form {})", a[0], Big::from_le(&st.data).hex(), a[1]),
            SHAREPT => format!("shared point {} = {}", a[0], hex(&st.data)),
            SWITCH if a[2] == 3 => format!("schedule {}: after {}/2^20 of the yield points a caller alone passes at accesses to shared state: preempt, resume caller {}", a[4], a[0], a[1]),
            SWITCH if a[2] == 2 => format!("schedule {}: after {}/2^20 of the yield points a caller alone passes at locations it visits at most {} times: preempt, resume caller {}", a[4], a[0], 1u64 << a[3].clamp(0, 20), a[1]),
            SWITCH if a[2] != 0 => format!("schedule {}: after {} yield points at locations visited at most {} times by a caller alone: preempt, resume caller {}", a[4], a[0], 1u64 << a[3].clamp(0, 20), a[1]),
            SWITCH => format!("schedule {}: after {} yield points: preempt, resume caller {}", a[4], a[0], a[1]),
            1..=10 => format!("caller {}: {}", a[5], describe_op(st)),
            _ => {
                let i = p.steps.iter().position(|x| x == st).unwrap_or(0);
                format!("caller {}: {} {:?}", a[5], what(p, i), &a[..5])
            }
        }
    }
    fn rule(&self) -> &'static str {
        "one run = 2-4 (now and then up to 18) callers' programs interleaved by one seeded schedule of preemptions; non-trivial: at least one planned preemption and two callers that make a call"
    }
    fn nontrivial(&self, p: &Plan) -> bool {
        let mut th: Vec<i64> = p.steps.iter().filter(|s| !matches!(s.code, SWITCH | SHARE | SHAREPT)).map(|s| s.a[5]).collect();
        th.dedup();
        th.len() >= 2 && p.steps.iter().any(|s| s.code == SWITCH)
    }
    fn state_measure(&self) -> &'static str {
        "distinct (caller preempted, basic block, memory accesses since, caller resumed) preemptions"
    }
    fn real(&self) -> &'static str {
        "all of the library, compiled with a yield point at every basic block, load and store; real threads, thread-local storage, unwinding"
    }
    fn stub(&self) -> &'static str {
        "the thread scheduler (one thread runs at a time, chosen by the plan), entropy sources, output sinks, the callers' programs"
    }
    fn shrink_budget(&self) -> usize {
        400
    }
    fn shrink_args(&self) -> bool {
        false
    }
}
