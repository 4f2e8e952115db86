//! C08: key agreement reaches one secret in any message order.
//!
//! Parties hold secret scalars; tokens (points) travel over a faulty network and every party
//! multiplies each token by its scalar once, in whatever order the token reaches it.  Duplicated
//! messages fork a token; crashed parties restart from their packed scalar.

use crate::big::*;
use crate::curveops::*;
use crate::fieldops::*;
use crate::net::*;
use crate::plan::*;
use crate::rng::*;
use std::collections::HashMap;
use surface::{El, Pt};

pub const SCALAR: u16 = 50; // party load form, skew | scalar
pub const TOKEN: u16 = 51; // msg, library base? skews | point
pub const APPLY: u16 = 52; // party msg-in msg-out entry transport skew
pub const CRASH: u16 = 53; // party

pub struct C08;

struct Tok {
    p: Pt,
    packed: Option<Vec<u8>>,
    start: usize,
    set: u64,
}

fn scalar(r: &mut Rng, e: &Ec) -> Big {
    let m = e.m();
    let v = match r.below(24) {
        0 => ZERO,
        1 => Big::small(1),
        2 => Big::small(2 + r.below(14)),
        3 => e.order,
        4 => e.order.add(&Big::small(r.below(3))),
        5 => {
            if e.order.is_zero() {
                m.p.sub(&Big::small(1))
            } else {
                e.order.sub(&Big::small(1 + r.below(3)))
            }
        }
        6 => m.p.sub(&Big::small(1 + r.below(3))),
        7 => {
            // between the order and the prime, or twice the order
            let v = e.order.add(&e.order);
            v.add(&Big::small(r.below(3)))
        }
        8 => Big::pow2(r.idx(m.n)),
        _ => value(r, m),
    };
    m.reduce(&v)
}

enum Ev {
    Arrive(usize, i64, u64),
    Crash(usize),
}

impl Scenario for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick {
            20_000
        } else {
            500_000
        }
    }
    fn gen(&self, run: u64, r: &mut Rng, _t: Tier) -> Plan {
        let ci = [0, 1, 2, 3, 4, 0, 1, 2, 3, 4, 5, 6, 7, 8][(run % 14) as usize];
        let e = ec(ci);
        let m = e.m();
        let np = r.pick(&[1, 2, 2, 2, 3, 3, 4]);
        let mut steps = Vec::new();
        for p in 0..np {
            let mut s = Step { code: SCALAR, ..Step::default() };
            s.a = [p as i64, r.range(0, 1), r.range(0, SKEWS - 1), 0, 0, 0];
            s.data = scalar(r, e).to_le(m.nbytes);
            steps.push(s);
        }
        let horizon = 50_000_000u64;
        let mut net = Net::new(r, np, horizon);
        let mut q: Queue<Ev> = Queue::new();
        let same = if r.chance(1, 2) { Some(point(r, e)) } else { None };
        let full = (1u64 << np) - 1;
        let mut msgs = 0i64;
        let lib = r.chance(1, 2);
        for p in 0..np {
            if p > 0 && r.chance(1, 3) {
                continue;
            }
            let mut s = Step { code: TOKEN, ..Step::default() };
            s.a = [msgs, (lib && ci < 5) as i64, r.range(0, SKEWS * SKEWS - 1), 0, 0, 0];
            s.data = pack_point(m, &same.unwrap_or_else(|| point(r, e)));
            steps.push(s);
            q.push(1 + r.below(horizon), Ev::Arrive(p, msgs, 0));
            msgs += 1;
        }
        for _ in 0..r.below(3) {
            q.push(r.below(2 * horizon), Ev::Crash(r.idx(np)));
        }
        // work is bounded: a multiplication is the expensive step
        let mut budget = 8 + np;
        while let Some((t, ev)) = q.pop() {
            let mut s = Step { t, ..Step::default() };
            match ev {
                Ev::Arrive(p, msg, set) => {
                    if set >> p & 1 == 1 || budget == 0 {
                        continue;
                    }
                    budget -= 1;
                    s.code = APPLY;
                    s.a = [p as i64, msg, msgs, r.range(0, 1), r.range(0, 3), r.range(0, SKEWS * SKEWS - 1)];
                    let out = msgs;
                    msgs += 1;
                    let set = set | 1 << p;
                    let left: Vec<usize> = (0..np).filter(|q| set >> q & 1 == 0).collect();
                    if set != full {
                        let d = left[r.idx(left.len())];
                        // a lost token is sent again later, perhaps to someone else
                        let mut at = t;
                        loop {
                            let v = net.send(r, at, p, d);
                            if !v.is_empty() {
                                for a in v {
                                    let d = if r.chance(1, 4) { left[r.idx(left.len())] } else { d };
                                    q.push(a, Ev::Arrive(d, out, set));
                                }
                                break;
                            }
                            at += 30_000_000;
                        }
                    }
                }
                Ev::Crash(p) => {
                    s.code = CRASH;
                    s.a = [p as i64, r.range(0, 1), r.range(0, SKEWS - 1), 0, 0, 0];
                }
            }
            steps.push(s);
        }
        weave(&mut steps, &net);
        Plan { cfg: vec![ci, np as i64], steps }
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Fail> {
        let c = crv(p.cfg[0]);
        let e = ec(p.cfg[0]);
        let f = fld(e.fi as i64);
        let m = e.m();
        let np = p.cfg[1].clamp(1, 16) as usize;
        let one = call(0, "one()", || f.konst(1))?;
        let mut key: Vec<(Big, El)> = vec![(Big::small(1), one); np];
        let mut msgs: HashMap<i64, Tok> = HashMap::new();
        let mut starts: Vec<EcPt> = Vec::new();
        // (start, set) -> exact multiple by the product of the set's scalars
        let mut exact: HashMap<(usize, u64), EcPt> = HashMap::new();
        for (i, s) in p.steps.iter().enumerate() {
            let pa = reg(s.a[0], np);
            match s.code {
                SCALAR => {
                    let k = m.reduce(&Big::from_le(&s.data));
                    let x = call(i, "loading a scalar", || {
                        let x = f.unpacked(&k.to_le(m.nbytes));
                        skew(f, &x, s.a[2])
                    })?;
                    key[pa] = (k, x);
                }
                TOKEN => {
                    let mut w = unpack_point(e, &s.data);
                    let pt;
                    if s.a[1] & 1 == 1 && !e.order.is_zero() {
                        // the published base point of the library
                        let (bx, by) = c.base();
                        let b = call(i, "base point", || (bytes_of(f, &bx), bytes_of(f, &by)))?;
                        if b.0 != e.base.0.to_le(m.nbytes) || b.1 != e.base.1.to_le(m.nbytes) {
                            return fail(i, format!("{} base point", c.name()), format!("library has ({}, {})", Big::from_le(&b.0).hex(), Big::from_le(&b.1).hex()));
                        }
                        w = e.base;
                        pt = call(i, "affine constructor", || {
                            let mut q = Pt::new();
                            let z = c.zero();
                            q.0.copy_from_slice(&z.0);
                            c.init(&mut q, &skew(f, &bx, s.a[2]), &by);
                            q
                        })?;
                    } else {
                        pt = call(i, "affine constructor", || make(c, f, m, &w, s.a[2], s.a[2] / SKEWS, &c.zero()))?;
                    }
                    let t = starts.len();
                    starts.push(e.affine(&w.0, &w.1));
                    exact.insert((t, 0), starts[t]);
                    msgs.insert(s.a[0], Tok { p: pt, packed: None, start: t, set: 0 });
                }
                APPLY => {
                    let tok = match msgs.get(&s.a[1]) {
                        Some(t) => t,
                        None => continue,
                    };
                    if tok.set >> pa & 1 == 1 {
                        continue;
                    }
                    let (start, set) = (tok.start, tok.set);
                    let mut pt = match &tok.packed {
                        Some(b) => call(i, "rebuilding a point", || reload(c, f, b, s.a[5], &tok.p))?,
                        None => tok.p,
                    };
                    let want = match exact.get(&(start, set | 1 << pa)) {
                        Some(w) => *w,
                        None => {
                            let w = e.mul(&exact[&(start, set)], &key[pa].0);
                            exact.insert((start, set | 1 << pa), w);
                            w
                        }
                    };
                    let k0 = key[pa].1;
                    let entry = s.a[3] & 1;
                    let mut k = k0;
                    if entry == 1 {
                        call(i, "normalising a scalar", || f.normalize(&mut k))?;
                        call(i, "scalar multiplication", || c.scalar_mult_normalized(&mut pt, &k))?;
                    } else {
                        call(i, "scalar multiplication", || c.scalar_mult(&mut pt, &mut k))?;
                    }
                    st.count(if entry == 1 { "pre-normalised entry" } else { "normalising entry" });
                    if !is_normal(f, &k0) {
                        st.count("scalar not normalised");
                    }
                    // the caller's scalar keeps its value
                    let kb = call(i, "packing a scalar", || bytes_of(f, &k))?;
                    if kb != key[pa].0.to_le(m.nbytes) {
                        return fail(i, format!("{} scalar changed", c.name()), format!("was {} is {}", key[pa].0.hex(), Big::from_le(&kb).hex()));
                    }
                    if s.a[4] & 1 == 1 {
                        key[pa].1 = k;
                    }
                    verify(i, e, c, f, &pt, &want, "scalar multiplication", st)?;
                    let packed = if s.a[4] & 2 == 0 {
                        let b = call(i, "affine coordinates", || affine_bytes(c, f, &pt, s.a[5]))?;
                        if b != pack_point(m, &e.to_affine(&want)) {
                            return fail(i, format!("{} affine coordinates wrong", c.name()), "");
                        }
                        Some(b)
                    } else {
                        None
                    };
                    let set = set | 1 << pa;
                    if set.count_ones() as usize == np {
                        st.count("tokens completed");
                    }
                    if want.x.is_zero() {
                        st.count("result of order at most two");
                    }
                    st.state(hash_words(&[p.cfg[0] as u64, np as u64, pa as u64, set, entry as u64, klass(e, &key[pa].0)]));
                    msgs.insert(s.a[2], Tok { p: pt, packed, start, set });
                }
                CRASH => {
                    st.fault("crash-restart");
                    let b = key[pa].0.to_le(m.nbytes);
                    key[pa].1 = call(i, "reloading a scalar", || {
                        let mut x = key[pa].1;
                        if s.a[1] & 1 == 0 {
                            f.unpack(&mut x, &b)
                        } else {
                            x = f.unpacked(&b)
                        }
                        skew(f, &x, s.a[2])
                    })?;
                }
                FAULT => st.fault(fault_name(s)),
                _ => {}
            }
        }
        // every party's view of a finished token is the same point, to the byte
        let mut fin: HashMap<(EcKey, u64), Vec<u8>> = HashMap::new();
        for (k, t) in msgs.iter().collect::<std::collections::BTreeMap<_, _>>() {
            if t.set.count_ones() as usize != np {
                continue;
            }
            let b = call(p.steps.len(), "affine coordinates", || affine_bytes(c, f, &t.p, *k))?;
            let key = (eckey(e, &starts[t.start]), t.set);
            if let Some(o) = fin.get(&key) {
                st.count("finished tokens compared");
                if *o != b {
                    return fail(p.steps.len(), format!("{} parties disagree", c.name()), format!("message {}", k));
                }
            }
            fin.insert(key, b);
        }
        Ok(())
    }
    fn describe(&self, p: &Plan, s: &Step) -> String {
        let a = &s.a;
        match s.code {
            SCALAR => format!("party {} holds scalar {} (skew {})", a[0], Big::from_le(&s.data).hex(), a[2]),
            TOKEN => {
                let q = unpack_point(ec(p.cfg[0]), &s.data);
                if a[1] & 1 == 1 {
                    format!("token {} starts at the published base point", a[0])
                } else {
                    format!("token {} starts at ({}, {})", a[0], q.0.hex(), q.1.hex())
                }
            }
            APPLY => format!(
                "party {} receives token {}, multiplies it ({}) and sends it on as {} ({})",
                a[0],
                a[1],
                if a[3] & 1 == 1 { "pre-normalised" } else { "normalising" },
                a[2],
                if a[4] & 2 == 0 { "affine, packed" } else { "in memory" }
            ),
            CRASH => format!("party {} crashes and restarts", a[0]),
            FAULT => fault_name(s).to_string(),
            c => format!("code {}", c),
        }
    }
    fn rule(&self) -> &'static str {
        "one run = 1-4 parties of one curve with seeded scalars and 1-4 tokens visiting them in network order, with duplication forking tokens and crash-restarts; non-trivial: at least two multiplications"
    }
    fn nontrivial(&self, p: &Plan) -> bool {
        p.steps.iter().filter(|s| s.code == APPLY).count() >= 2
    }
    fn state_measure(&self) -> &'static str {
        "distinct (curve, parties, party, set of applied parties, entry point, scalar class: 0, 1, small, below / at / above order, sparse) at a multiplication"
    }
    fn real(&self) -> &'static str {
        "scalar multiplication and all curve code over five published and four user-defined curves, and the fields below it"
    }
    fn stub(&self) -> &'static str {
        "parties, network, disk, crashes"
    }
    fn shrink_budget(&self) -> usize {
        600
    }
}

type EcKey = ([u64; 9], [u64; 9]);
fn eckey(e: &Ec, p: &EcPt) -> EcKey {
    let a = e.to_affine(p);
    (a.0 .0, a.1 .0)
}

fn klass(e: &Ec, k: &Big) -> u64 {
    if k.bits() < 5 {
        return k.0[0];
    }
    let ones: u32 = k.0.iter().map(|w| w.count_ones()).sum();
    let a = if *k == e.order {
        1
    } else if k.ge(&e.order) {
        2
    } else {
        0
    };
    100 + a * 10 + (ones < 4) as u64 + 2 * (ones + 4 > k.bits() as u32) as u64
}
