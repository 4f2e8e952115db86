//! C11: a co-scheduled observer sees the same progress whatever the secrets are.
//!
//! The same public sequence of calls runs several times in one process under one schedule of
//! preemptions, each time with other secrets.  At every preemption the observer notes where the
//! victim stands; it must note the same each time.  The complete path (basic blocks) and the
//! addresses touched are compared as well, which decides every other schedule of that pair too.

use crate::big::*;
use crate::curveops::*;
use crate::fieldops::*;
use crate::plan::*;
use crate::rng::*;
use crate::yieldpt;
use crate::yieldpt::Trace;
use surface as s;
use surface::{El, Pt};

pub struct C11;

const SECRET: u16 = 100; // reg assignment skew | data
const SECPT: u16 = 101; // point assignment skx sky | data
const CALL: u16 = 102; // kind dst x y form imm
const STOP: u16 = 103; // points

const NREG: usize = 4;
const NPT: usize = 3;

const KINDS: [&str; 25] = [
    "add", "sub", "mul", "neg", "square", "invert", "div", "small_add", "small_sub", "small_mul", "normalize", "select", "bit",
    "encode", "decode", "point add", "point double", "point triple", "point init", "scalar_mult", "scalar_mult_normalized", "mask",
    "legendre", "sqrt", "bitwise",
];

struct State {
    regs: [El; NREG],
    pts: [Pt; NPT],
    buf: [u8; 96],
    /// secret bytes, one string per register, that a call may decode
    raw: [[u8; 96]; NREG],
    sel: [El; 4],
}

fn field_of(p: &Plan) -> i64 {
    match curve_of(p) {
        Some(c) => crv(c).field() as i64,
        None => p.cfg.first().copied().unwrap_or(0),
    }
}
fn curve_of(p: &Plan) -> Option<i64> {
    p.cfg.get(1).copied().filter(|c| *c >= 0)
}
fn assignments(p: &Plan) -> i64 {
    p.cfg.get(2).copied().unwrap_or(2).clamp(2, 6)
}
fn name(p: &Plan, st: &Step) -> String {
    let k = st.a[0].unsigned_abs() as usize % KINDS.len();
    let on = match curve_of(p) {
        Some(c) if (15..21).contains(&k) => crv(c).name(),
        _ => fld(field_of(p)).name(),
    };
    format!("{} {}", on, KINDS[k])
}

/// The small number of a small-number call under assignment `who`: secret like everything else.
fn secret_imm(i: i64, who: i64) -> i32 {
    let r = mix(i as u64 ^ mix(who as u64));
    match (who, r % 8) {
        (0, _) => i as i32,
        (_, 0) => 0,
        (_, 1) => 1,
        (_, 2) => -1,
        (_, 3) => i32::MIN,
        (_, 4) => -(i as i32).wrapping_abs().wrapping_shr(16),
        _ => (r >> 32) as i32,
    }
}

#[inline(never)]
fn one(p: &Plan, z: &mut State, st: &Step, who: i64) {
    let f = fld(field_of(p));
    let r = |i: i64| reg(i, NREG);
    let (d, x, y) = (r(st.a[1]), r(st.a[2]), r(st.a[3]));
    let form = st.a[4].unsigned_abs();
    let bf = (form & 3) as u8;
    let kind = st.a[0].unsigned_abs() as usize % KINDS.len();
    // fixed places for operands, so that addresses are the same in every run
    let State { regs, pts, buf, raw, sel } = z;
    sel[0] = regs[x];
    sel[1] = regs[y];
    match kind {
        0..=2 => f.bin(kind as u8, bf, &mut regs[d], &sel[0], &sel[1]),
        3 => f.un(s::NEG, bf & 1, &mut regs[d], &sel[0]),
        4 => f.un(s::SQR, bf & 1, &mut regs[d], &sel[0]),
        5 => f.un(s::INV, bf & 1, &mut regs[d], &sel[0]),
        6 => f.bin(s::DIV, bf, &mut regs[d], &sel[0], &sel[1]),
        7..=9 => f.small((kind - 7) as u8, (form % 14) as u8, &mut regs[d], &sel[0], secret_imm(st.a[5], who)),
        10 => f.normalize(&mut regs[d]),
        11 => {
            // select between x and y by a secret bit of d
            let b = f.bit(&mut regs[d], st.a[5].unsigned_abs() as usize % f.n());
            let (c, e) = (f.filled(b), f.filled(!b));
            sel[2] = c;
            sel[3] = e;
            let [x, y, c, e] = sel;
            f.bitop(false, (form % 3) as u8, x, c);
            f.bitop(false, (form % 3) as u8, y, e);
            f.bitop(true, (form % 3) as u8, x, y);
            regs[d] = *x;
        }
        12 => {
            let i = st.a[5].unsigned_abs() as usize % f.n();
            if form % 3 == 2 {
                f.normalize(&mut regs[d]);
                f.bit_normalized(&regs[d], i);
            } else {
                f.bit(&mut regs[d], i);
            }
        }
        13 => match form % 4 {
            2 => {
                f.normalize(&mut regs[d]);
                f.pack_normalized(&regs[d], &mut buf[..]);
            }
            3 => {
                // only the encoding is watched, not what becomes of the bytes
                f.packed(&mut regs[d]);
            }
            _ => f.pack(&mut regs[d], &mut buf[..]),
        },
        14 => {
            let from = if form & 2 == 0 { &buf[..] } else { &raw[x][..] };
            if form & 1 == 0 {
                f.unpack(&mut regs[d], from)
            } else {
                regs[d] = f.unpacked(from)
            }
        }
        21 => {
            let b = f.bit(&mut regs[x], st.a[5].unsigned_abs() as usize % f.n());
            f.fill(&mut regs[d], b);
        }
        22 => f.un(s::LEG, 0, &mut regs[d], &sel[0]),
        23 => f.un(s::SQRT, 0, &mut regs[d], &sel[0]),
        24 => {
            let [x, y, _, _] = sel;
            f.normalize(y);
            if form % 3 == 2 {
                f.normalize(x);
            }
            f.bitop(form & 4 == 0, (form % 3) as u8, x, y);
            regs[d] = *x;
        }
        _ => {
            let c = match curve_of(p) {
                Some(c) => crv(c),
                None => return,
            };
            let q = |i: i64| reg(i, NPT);
            let (d, a, b) = (q(st.a[1]), pts[q(st.a[2])], pts[q(st.a[3])]);
            match kind {
                15 => c.add(bf, &mut pts[d], &a, &b),
                16 => c.double(bf & 1, &mut pts[d], &a),
                17 => c.triple(bf & 1, &mut pts[d], &a),
                18 => c.init(&mut pts[d], &sel[0], &sel[1]),
                19 => c.scalar_mult(&mut pts[d], &mut sel[0]),
                _ => {
                    f.normalize(&mut sel[0]);
                    c.scalar_mult_normalized(&mut pts[d], &sel[0])
                }
            }
        }
    }
}

/// One execution with the secrets of assignment `who`.
#[inline(never)]
fn observe(p: &Plan, z: &mut State, who: i64, quanta: &[u64], keep: usize) -> Result<Vec<(usize, Trace)>, (usize, String)> {
    let f = fld(field_of(p));
    let m = md(field_of(p));
    z.regs = [f.konst(5); NREG];
    z.buf = [0; 96];
    z.raw = [[0; 96]; NREG];
    z.sel = [f.konst(4); 4];
    if let Some(c) = curve_of(p) {
        let (bx, by) = ec(c).base;
        z.pts = [make(crv(c), f, m, &(bx, by), 0, 0, &Pt::new()); NPT];
    }
    let mut out = Vec::with_capacity(p.steps.len());
    for (i, st) in p.steps.iter().enumerate() {
        match st.code {
            SECRET if st.a[1] == who && st.data.len() >= f.nbytes() => {
                let e = f.unpacked(&st.data);
                let raw = &mut z.raw[reg(st.a[0], NREG)];
                raw[..f.nbytes()].copy_from_slice(&st.data[..f.nbytes()]);
                z.regs[reg(st.a[0], NREG)] = skew(f, &e, st.a[2]);
            }
            SECPT if st.a[1] == who => {
                if let Some(c) = curve_of(p) {
                    let q = unpack_point(ec(c), &st.data);
                    z.pts[reg(st.a[0], NPT)] = make(crv(c), f, m, &q, st.a[2], st.a[3], &Pt::new());
                }
            }
            CALL => {
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| yieldpt::traced(quanta, keep, || one(p, z, st, who)))) {
                    Ok((_, t)) => out.push((i, t)),
                    Err(_) => return Err((i, last_panic())),
                }
            }
            _ => {}
        }
    }
    Ok(out)
}

type Seen = Vec<(usize, Trace)>;

/// The same for several assignments, each in a child process of its own and all forked from the
/// same state, so that what they find in memory, down to where the allocator puts things, differs
/// in nothing but the secrets.  None: a call panicked.
fn observed(p: &Plan, z: &mut State, whos: &[i64], quanta: &[u64], keep: usize) -> Result<Vec<Option<Seen>>, Fail> {
    use std::io::Read;
    let mut kids = Vec::with_capacity(whos.len());
    for who in whos {
        kids.push(crate::proc::spawn(|| {
            let mut v = Vec::new();
            match observe(p, z, *who, quanta, keep) {
                Err(_) => crate::proc::put_u64(&mut v, u64::MAX),
                Ok(o) => {
                    crate::proc::put_u64(&mut v, o.len() as u64);
                    for (i, t) in &o {
                        crate::proc::put_u64(&mut v, *i as u64);
                        t.put(&mut v);
                    }
                }
            }
            v
        }));
    }
    let mut all = Vec::new();
    for mut k in kids {
        let mut v = Vec::new();
        let _ = k.take_reader().read_to_end(&mut v);
        let w = k.wait();
        if crate::proc::crashed(w) {
            // C01 and C08 decide what may crash
            all.push(None);
            continue;
        }
        let mut r = crate::proc::Rd(&v);
        let seen = match r.u64() {
            Some(u64::MAX) => None,
            Some(n) => match (0..n).map(|_| Some((r.u64()? as usize, Trace::get(&mut r)?))).collect::<Option<Seen>>() {
                Some(s) => Some(s),
                None => return Err(Fail { class: "harness error".into(), msg: "short result from a child".into(), at: 0 }),
            },
            None => return Err(Fail { class: "harness error".into(), msg: format!("a child ended with wait status {}", w), at: 0 }),
        };
        all.push(seen);
    }
    Ok(all)
}

/// the first call whose observation differs: (index in the list, does the path differ)
fn differ(a: &Seen, b: &Seen) -> Option<(usize, bool)> {
    for (k, (x, y)) in a.iter().zip(b).enumerate() {
        let (x, y) = (&x.1, &y.1);
        if x.code != y.code || x.points != y.points || x.stops != y.stops {
            return Some((k, true));
        }
        if x.mem != y.mem {
            return Some((k, false));
        }
    }
    None
}

impl Scenario for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 20_000,
            Tier::Thorough => 400_000,
        }
    }
    fn gen(&self, run: u64, r: &mut Rng, _tier: Tier) -> Plan {
        let on_curve = r.chance(2, 5);
        let fi = (run % 9) as i64;
        let cv = if on_curve { (0..9).find(|c| crv(*c).field() as i64 == fi).unwrap() } else { -1 };
        let m = md(fi);
        let na = r.range(2, 4);
        let mut p = Plan { cfg: vec![fi, cv, na], steps: Vec::new() };
        let mut forms = [0; 8];
        for k in 0..NREG {
            forms[k] = if r.chance(1, 2) { r.range(0, SKEWS - 1) } else { 0 };
        }
        for who in 0..na {
            let mut old: Vec<Big> = Vec::new();
            for k in 0..NREG {
                let v = match r.below(8) {
                    0 => ZERO,
                    1 => Big::small(1 + r.below(3)),
                    2 => m.p.sub(&Big::small(1 + r.below(3))),
                    3 if !old.is_empty() => old[r.idx(old.len())],
                    4 => m.reduce(&Big::from_le(&r.bytes(m.nbytes)).low_bits(m.n)),
                    _ => value(r, m),
                };
                old.push(v);
                // digits, halves and ends that are zero or all ones
                let v = if r.chance(1, 6) {
                    let (lo, hi) = (r.idx(m.n), r.idx(m.n + 1));
                    let w = v.sub(&v.low_bits(lo)).low_bits(hi.max(lo + 1));
                    if r.chance(1, 2) { w } else { m.p.sub(&m.reduce(&w)) }
                } else {
                    v
                };
                let v = m.reduce(&v);
                let mut s = Step { code: SECRET, ..Step::default() };
                // the internal form is part of the secret: what a history left behind
                s.a = [k as i64, who, if r.chance(1, 4) { r.range(0, SKEWS - 1) } else { forms[k] }, 0, 0, 0];
                s.data = v.to_le(m.nbytes);
                p.steps.push(s);
            }
            if on_curve {
                for k in 0..NPT {
                    let mut s = Step { code: SECPT, ..Step::default() };
                    s.a = [k as i64, who, r.range(0, SKEWS - 1), r.range(0, SKEWS - 1), 0, 0];
                    s.data = pack_point(m, &point(r, ec(cv)));
                    p.steps.push(s);
                }
            }
        }
        let mut t = 0;
        let calls = if on_curve { r.range(1, 8) } else { r.range(2, 20) };
        let smul = on_curve && r.chance(1, 3);
        let dear = r.chance(1, 3);
        for q in 0..calls {
            t += 1000;
            let mut s = Step { t, code: CALL, ..Step::default() };
            s.a[0] = if smul && q == calls - 1 {
                r.range(19, 20)
            } else if on_curve && r.chance(2, 3) {
                r.range(15, 18)
            } else {
                match r.range(0, 18) {
                    5 | 6 | 16 | 17 if !dear => 2,
                    15 => 21,
                    k if k > 15 => k + 6,
                    k => k,
                }
            };
            for j in 1..5 {
                s.a[j] = r.range(0, 13);
            }
            s.a[5] = if s.a[0] < 10 { imm(r) } else { r.range(0, 600) };
            p.steps.push(s);
        }
        for _ in 0..r.range(1, 20) {
            let top = r.pick(&[4, 8, 12, 18]);
            let e = r.below(top + 1);
            let q = (1u64 << e) + r.below(1 << e);
            let mut s = Step { t, code: STOP, ..Step::default() };
            s.a[0] = q as i64;
            p.steps.push(s);
        }
        p
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Fail> {
        if yieldpt::instrumented() == 0 {
            return fail(0, "harness error", "this build of the simulator has no yield points");
        }
        let quanta: Vec<u64> = p.steps.iter().filter(|s| s.code == STOP).map(|s| s.a[0].max(1) as u64).collect();
        let na = assignments(p);
        let mut z = Box::new(State { regs: [El::new(); NREG], pts: [Pt::new(); NPT], buf: [0; 96], raw: [[0; 96]; NREG], sel: [El::new(); 4] });
        let mut noise = 0;
        // assignment 0 runs twice: the first time warms up whatever is set up once
        if observe(p, &mut z, 0, &quanta, 0).is_err() {
            // C01 and C08 decide what may panic; here it leaves nothing to compare
            st.count("run stopped: a call panicked");
            return Ok(());
        }
        let whos: Vec<i64> = (0..na).collect();
        let all = observed(p, &mut z, &whos, &quanta, 0)?;
        if all.iter().any(|o| o.is_none()) {
            st.count("run stopped: a call panicked");
            return Ok(());
        }
        let all: Vec<Seen> = all.into_iter().flatten().collect();
        for (i, t) in &all[0] {
            let k = p.steps[*i].a[0].unsigned_abs() as usize % KINDS.len();
            st.count(KINDS[k]);
            st.add("yield points per observed history", t.points);
            for q in &t.stops {
                st.fault("preemption");
                st.state(hash_words(&[k as u64, q.0 as u64, q.1 as u64]));
            }
            st.log(t.code);
            st.log(t.points);
        }
        for who in 1..na {
            let (b, o) = (&all[0], &all[who as usize]);
            st.count("pairs of secrets compared");
            if let Some((k, path)) = differ(b, o) {
                // Is it the secrets?  Each must be observed the same way again, and still differ.
                let mut again = observed(p, &mut z, &[0, who, 0, who], &quanta, 1 << 20)?.into_iter();
                let mut one = || again.next().flatten();
                let (a1, b1, a2, b2) = match (one(), one(), one(), one()) {
                    (Some(a), Some(b), Some(c), Some(d)) => (a, b, c, d),
                    _ => return Ok(()),
                };
                let clean = differ(&a1, &a2).is_none() && differ(&b1, &b2).is_none();
                let still = differ(&a1, &b1);
                if !clean || still != Some((k, path)) {
                    noise += 1;
                    continue;
                }
                let (i, ta) = &a1[k];
                let tb = &b1[k].1;
                let at = ta.path.iter().zip(&tb.path).position(|(x, y)| x != y);
                let n = name(p, &p.steps[*i]);
                let ns = ta.stops.iter().zip(&tb.stops).position(|(x, y)| x != y);
                let msg = format!(
                    "secrets 0 and {}: {} against {} yield points; paths part after {} blocks; observer's first different note: {}",
                    who,
                    ta.points,
                    tb.points,
                    at.map_or(-1, |x| x as i64),
                    match ns {
                        Some(j) => format!("preemption {}", j),
                        None => "none under this schedule".into(),
                    }
                );
                return fail(*i, format!("{}: {} on secrets", n, if path { "the path depends" } else { "the addresses touched depend" }), msg);
            }
        }
        if noise > 0 {
            st.count("observations not repeatable, ignored");
        }
        Ok(())
    }
    fn describe(&self, p: &Plan, st: &Step) -> String {
        let a = &st.a;
        match st.code {
            SECRET => format!("secrets {}: r{} = {} (form {})", a[1], a[0], Big::from_le(&st.data).hex(), a[2]),
            SECPT => format!("secrets {}: point {} = {}", a[1], a[0], hex(&st.data)),
            STOP => format!("the observer preempts after {} yield points", a[0]),
            _ => format!("call {} {:?}", name(p, st), &a[1..]),
        }
    }
    fn rule(&self) -> &'static str {
        "one run = one public sequence of calls under one schedule of preemptions, executed with 2-4 assignments of secrets; non-trivial: at least one call and two different assignments"
    }
    fn nontrivial(&self, p: &Plan) -> bool {
        let s = |w: i64| -> Vec<&Vec<u8>> { p.steps.iter().filter(|s| s.code == SECRET && s.a[1] == w).map(|s| &s.data).collect() };
        p.steps.iter().any(|s| s.code == CALL) && s(0) != s(1)
    }
    fn state_measure(&self) -> &'static str {
        "distinct (operation, basic block, memory accesses since) at which the observer stopped the victim"
    }
    fn real(&self) -> &'static str {
        "all nine fields and all curves, optimised, compiled with a yield point at every basic block, load and store"
    }
    fn stub(&self) -> &'static str {
        "the observer and the preemption schedule; the processor's own timing is not modelled"
    }
    fn shrink_budget(&self) -> usize {
        1500
    }
}
