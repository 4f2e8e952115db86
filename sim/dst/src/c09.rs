//! C09: point accumulation follows the curve's group law in any order.
//!
//! Replicas fold weighted curve points they originate or receive over a faulty network, with any
//! mix of additions, doublings and triplings, relay partial sums, checkpoint, crash and restart.

use crate::big::*;
use crate::curveops::*;
use crate::fieldops::*;
use crate::net::*;
use crate::plan::*;
use crate::rng::*;
use std::collections::HashMap;
use surface::{Curve, Field, Pt};

pub const DEFINE: u16 = 60; // id weight origin | point
pub const CONTRIB: u16 = 61; // party id spelling form skew
pub const SEND: u16 = 62; // msg party kind(0 packed affine, 1 memory)
pub const DELIVER: u16 = 63; // party msg form side skew
pub const CKPT: u16 = 64; // party form
pub const CRASH: u16 = 65; // party skew
pub const LOCAL: u16 = 66; // party op form: double / triple / add identity / cancel, on the party's whole sum

pub struct C09;

enum Ev {
    Fold(usize, usize),
    Agg(usize),
    Arrive(usize, i64),
    Save(usize),
    Crash(usize),
    Own(usize),
}

fn gen_fold(r: &mut Rng, t: u64, p: usize, id: usize) -> Step {
    let mut s = Step { code: CONTRIB, t, ..Step::default() };
    s.a = [p as i64, id as i64, r.range(0, 5), r.range(0, 3), r.range(0, SKEWS * SKEWS - 1), r.range(0, 7)];
    s
}

impl Scenario for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick {
            100_000
        } else {
            1_200_000
        }
    }
    fn gen(&self, run: u64, r: &mut Rng, _t: Tier) -> Plan {
        let ci = [0, 1, 2, 3, 4, 0, 1, 2, 3, 4, 5, 6, 7, 8][(run % 14) as usize];
        let e = ec(ci);
        let m = e.m();
        let np = 1 + r.idx(4);
        let ids = 1 + r.idx(8);
        let mut steps = Vec::new();
        let mut pts: Vec<(Big, Big)> = Vec::new();
        for id in 0..ids {
            let mut s = Step { code: DEFINE, ..Step::default() };
            s.a = [id as i64, r.pick(&[1, 1, 1, 1, 2, 3, -1, -2, 0, 4, 5, 6, 7, 9, -3, 8, 13]), r.idx(np) as i64, 0, 0, 0];
            let p = match (pts.last(), r.below(6)) {
                // equal points and inverse points
                (Some(_), 0) => pts[r.idx(pts.len())],
                (Some(_), 1) => {
                    let q = pts[r.idx(pts.len())];
                    (m.neg(&q.0), q.1)
                }
                _ => point(r, e),
            };
            pts.push(p);
            s.data = pack_point(m, &p);
            steps.push(s);
        }
        let horizon = 50_000_000u64;
        let mut net = Net::new(r, np, horizon);
        let mut q: Queue<Ev> = Queue::new();
        for id in 0..ids {
            let o = steps[id].a[2] as usize;
            let t = 1 + r.below(horizon);
            q.push(t, Ev::Fold(o, id));
            for p in 0..np {
                if p != o {
                    for a in net.send(r, t, o, p) {
                        q.push(a, Ev::Fold(p, id));
                    }
                }
            }
        }
        for _ in 0..r.below(8) {
            q.push(r.below(2 * horizon), Ev::Agg(r.idx(np)));
        }
        for _ in 0..r.below(5) {
            q.push(r.below(2 * horizon), Ev::Save(r.idx(np)));
        }
        for _ in 0..r.below(4) {
            q.push(r.below(2 * horizon), Ev::Crash(r.idx(np)));
        }
        for _ in 0..r.below(8) {
            q.push(r.below(2 * horizon), Ev::Own(r.idx(np)));
        }
        let mut msgs = 0;
        let mut end = 0;
        while let Some((t, ev)) = q.pop() {
            end = t;
            let mut s = Step { t, ..Step::default() };
            match ev {
                Ev::Fold(p, id) => s = gen_fold(r, t, p, id),
                Ev::Agg(p) => {
                    s.code = SEND;
                    s.a = [msgs, p as i64, r.range(0, 1), r.range(0, 1), 0, 0];
                    for d in 0..np {
                        if d != p && r.chance(2, 3) {
                            for a in net.send(r, t, p, d) {
                                q.push(a, Ev::Arrive(d, msgs));
                            }
                        }
                    }
                    msgs += 1;
                }
                Ev::Arrive(p, msg) => {
                    s.code = DELIVER;
                    s.a = [p as i64, msg, r.range(0, 3), r.range(0, 1), r.range(0, SKEWS * SKEWS - 1), 0];
                }
                Ev::Save(p) => {
                    s.code = CKPT;
                    s.a = [p as i64, r.range(0, 1), 0, 0, 0, 0];
                }
                Ev::Crash(p) => {
                    s.code = CRASH;
                    s.a = [p as i64, r.range(0, SKEWS * SKEWS - 1), 0, 0, 0, 0];
                }
                Ev::Own(p) => {
                    s.code = LOCAL;
                    let k = r.below(8);
                    s.a = [p as i64, r.range(0, 8), r.range(0, 3), ((1 << k) + r.below(1 << k)) as i64, 0, 0];
                }
            }
            steps.push(s);
        }
        let mut t = end;
        for p in 0..np {
            let mut o: Vec<usize> = (0..ids).collect();
            r.shuffle(&mut o);
            for id in o {
                t += 1;
                steps.push(gen_fold(r, t, p, id));
            }
        }
        weave(&mut steps, &net);
        Plan { cfg: vec![ci, np as i64], steps }
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Fail> {
        let c = crv(p.cfg[0]);
        let e = ec(p.cfg[0]);
        let f = fld(e.fi as i64);
        let m = e.m();
        let np = p.cfg[1].clamp(1, 16) as usize;
        // setup: the identity and the curve's own coefficient
        let zero = call(0, "identity", || c.zero())?;
        verify(0, e, c, f, &zero, &e.zero(), "identity", st)?;
        let d = call(0, "d_val", || bytes_of(f, &c.d()))?;
        if d != e.d.to_le(m.nbytes) {
            return fail(0, format!("{} coefficient d", c.name()), format!("d is {} want {}", Big::from_le(&d).hex(), e.d.hex()));
        }
        let mut acc = vec![zero; np];
        let mut want = vec![e.zero(); np];
        let mut set = vec![0u64; np];
        let mut disk: Vec<Option<(Vec<u8>, u64, EcPt)>> = vec![None; np];
        let mut msgs: HashMap<i64, (i64, Vec<u8>, Pt, u64, EcPt)> = HashMap::new();
        let mut def: Vec<((Big, Big), i64, EcPt)> = vec![((ZERO, Big::small(1)), 1, e.zero()); 16];
        for (i, s) in p.steps.iter().enumerate() {
            let pa = reg(s.a[0], np);
            let what;
            match s.code {
                DEFINE => {
                    let q = unpack_point(e, &s.data);
                    let w = s.a[1] % 16;
                    let mut t = e.mul(&e.affine(&q.0, &q.1), &Big::small(w.unsigned_abs()));
                    if w < 0 {
                        t = e.neg(&t);
                    }
                    def[reg(s.a[0], 16)] = (q, w, t);
                    continue;
                }
                CONTRIB => {
                    let id = reg(s.a[1], 16);
                    if set[pa] >> id & 1 == 1 {
                        st.count("duplicate contribution dropped");
                        continue;
                    }
                    let (q, w, t) = &def[id];
                    let (q, w, t) = (*q, *w, *t);
                    acc[pa] = self.fold(i, e, c, f, m, &acc[pa], &want[pa], &q, w, &t, &s.a, st)?;
                    want[pa] = e.add(&want[pa], &t);
                    set[pa] |= 1 << id;
                    st.count("points folded");
                    what = "addition";
                }
                SEND => {
                    let b = call(i, "affine coordinates", || affine_bytes(c, f, &acc[pa], s.a[3]))?;
                    let w = e.to_affine(&want[pa]);
                    if b != pack_point(m, &w) {
                        return fail(i, format!("{} affine coordinates wrong", c.name()), format!("party {} set {:x}", pa, set[pa]));
                    }
                    msgs.insert(s.a[0], (s.a[2], b, acc[pa], set[pa], want[pa]));
                    continue;
                }
                DELIVER => {
                    let (kind, b, q, ms, w) = match msgs.get(&s.a[1]) {
                        Some(x) => x,
                        None => continue,
                    };
                    let q = if kind & 1 == 1 { *q } else { call(i, "rebuilding a point", || reload(c, f, b, s.a[4], &acc[pa]))? };
                    if set[pa] & ms == 0 {
                        let a0 = acc[pa];
                        let form = (s.a[2] & 3) as u8;
                        acc[pa] = call(i, "merging sums", || {
                            let mut o = a0;
                            if s.a[3] & 1 == 0 {
                                c.add(form, &mut o, &a0, &q)
                            } else {
                                c.add(form, &mut o, &q, &a0)
                            }
                            o
                        })?;
                        want[pa] = e.add(&want[pa], w);
                        set[pa] |= ms;
                        st.count("sums merged");
                        what = "addition";
                    } else if set[pa] & ms == set[pa] {
                        acc[pa] = q;
                        want[pa] = *w;
                        set[pa] = *ms;
                        st.count("sums adopted");
                        what = "affine constructor";
                    } else {
                        continue;
                    }
                }
                CKPT => {
                    let b = call(i, "affine coordinates", || affine_bytes(c, f, &acc[pa], s.a[1]))?;
                    disk[pa] = Some((b, set[pa], want[pa]));
                    st.count("checkpoints");
                    continue;
                }
                CRASH => {
                    st.fault("crash-restart");
                    match &disk[pa] {
                        Some((b, ss, w)) => {
                            acc[pa] = call(i, "rebuilding a point", || reload(c, f, b, s.a[1], &acc[pa]))?;
                            set[pa] = *ss;
                            want[pa] = *w;
                        }
                        None => {
                            acc[pa] = zero;
                            set[pa] = 0;
                            want[pa] = e.zero();
                        }
                    }
                    what = "restart";
                }
                LOCAL => {
                    let a0 = acc[pa];
                    let w0 = want[pa];
                    let form = (s.a[2] & 3) as u8;
                    let mut o = a0;
                    // on a copy: the sum itself must stay what the other replicas expect
                    let times = s.a[3].unsigned_abs() % 512;
                    let (w, wh) = match s.a[1].unsigned_abs() % 9 {
                        0 => {
                            call(i, "doubling", || c.double(form, &mut o, &a0))?;
                            (e.add(&w0, &w0), "doubling")
                        }
                        1 => {
                            call(i, "tripling", || c.triple(form, &mut o, &a0))?;
                            (e.add(&e.add(&w0, &w0), &w0), "tripling")
                        }
                        2 => {
                            call(i, "addition", || c.add(form, &mut o, &a0, &zero))?;
                            (w0, "adding the identity")
                        }
                        3 => {
                            call(i, "addition", || c.add(form, &mut o, &zero, &a0))?;
                            (w0, "adding to the identity")
                        }
                        4 => {
                            call(i, "addition", || c.add(form, &mut o, &a0, &a0))?;
                            (e.add(&w0, &w0), "adding a point to itself")
                        }
                        6 => {
                            let mut w = w0;
                            for _ in 0..times {
                                let x = o;
                                call(i, "doubling", || c.double(form, &mut o, &x))?;
                                w = e.add(&w, &w);
                            }
                            (w, "doubling again and again")
                        }
                        7 => {
                            let mut w = w0;
                            for _ in 0..times {
                                let x = o;
                                call(i, "tripling", || c.triple(form, &mut o, &x))?;
                                w = e.add(&e.add(&w, &w), &w);
                            }
                            (w, "tripling again and again")
                        }
                        8 => {
                            for _ in 0..times {
                                let x = o;
                                call(i, "addition", || c.add(form, &mut o, &x, &a0))?;
                            }
                            (e.mul(&w0, &Big::small(times + 1)), "adding again and again")
                        }
                        _ => {
                            // the inverse, built from affine coordinates
                            let mut v = e.to_affine(&w0);
                            v.0 = m.neg(&v.0);
                            let n = call(i, "affine constructor", || make(c, f, m, &v, 0, 0, &a0))?;
                            call(i, "addition", || c.add(form, &mut o, &a0, &n))?;
                            (e.zero(), "adding the inverse")
                        }
                    };
                    st.count(wh);
                    verify(i, e, c, f, &o, &w, wh, st)?;
                    if !matches!(s.a[1].unsigned_abs() % 9, 2 | 3) {
                        continue;
                    }
                    // the identity is neutral: carry on with the result
                    acc[pa] = o;
                    continue;
                }
                FAULT => {
                    st.fault(fault_name(s));
                    continue;
                }
                _ => continue,
            }
            verify(i, e, c, f, &acc[pa], &want[pa], what, st)?;
            st.state(hash_words(&[p.cfg[0] as u64, np as u64, pa as u64, s.code as u64, set[pa], want[pa].x.is_zero() as u64]));
            if want[pa].x.is_zero() {
                st.count("sum of order at most two");
            }
        }
        Ok(())
    }
    fn describe(&self, p: &Plan, s: &Step) -> String {
        let a = &s.a;
        match s.code {
            DEFINE => {
                let q = unpack_point(ec(p.cfg[0]), &s.data);
                format!("point {} = ({}, {}) with weight {} from party {}", a[0], q.0.hex(), q.1.hex(), a[1], a[2])
            }
            CONTRIB => format!("party {} receives and folds point {} (spelling {}, form {}, skew {}, order {})", a[0], a[1], a[2], a[3], a[4], a[5]),
            SEND => format!("party {} sends its sum as message {} ({})", a[1], a[0], if a[2] & 1 == 1 { "in memory" } else { "affine, packed" }),
            DELIVER => format!("party {} receives message {}", a[0], a[1]),
            CKPT => format!("party {} checkpoints", a[0]),
            CRASH => format!("party {} crashes and restarts", a[0]),
            LOCAL => format!("party {} probes its sum: {}", a[0], ["double", "triple", "+ identity", "identity +", "+ itself", "+ inverse", "doubled again and again", "tripled again and again", "added again and again"][(a[1].unsigned_abs() % 9) as usize]),
            FAULT => fault_name(s).to_string(),
            c => format!("code {}", c),
        }
    }
    fn rule(&self) -> &'static str {
        "one run = 1-4 replicas folding 1-8 weighted points (random, base multiples, small order, equal, inverse) of one curve over a faulty network with relayed sums, checkpoints and crash-restarts; non-trivial: at least three folds or merges"
    }
    fn nontrivial(&self, p: &Plan) -> bool {
        p.steps.iter().filter(|s| matches!(s.code, CONTRIB | DELIVER)).count() >= 3
    }
    fn state_measure(&self) -> &'static str {
        "distinct (curve, parties, party, event kind, set of points held, sum of order at most two) after an event"
    }
    fn real(&self) -> &'static str {
        "the generic Edwards curve code over the five published curves and four user-defined ones, and the nine fields below it"
    }
    fn stub(&self) -> &'static str {
        "parties, network, disk, crashes"
    }
}

impl C09 {
    /// acc + w * q by one of several routes; every intermediate point is checked
    #[allow(clippy::too_many_arguments)]
    fn fold(&self, i: usize, e: &Ec, c: &dyn Curve, f: &dyn Field, m: &Mod, acc: &Pt, accw: &EcPt, q: &(Big, Big), w: i64, t: &EcPt, a: &[i64; 6], st: &mut Stats) -> Result<Pt, Fail> {
        let (sp, form) = (a[2].unsigned_abs() % 6, (a[3] & 3) as u8);
        let mut q = *q;
        if w < 0 {
            q.0 = m.neg(&q.0);
        }
        let k = w.unsigned_abs();
        let q0 = call(i, "affine constructor", || make(c, f, m, &q, a[4], a[4] / SKEWS, acc))?;
        let qw = e.affine(&q.0, &q.1);
        verify(i, e, c, f, &q0, &qw, "affine constructor", st)?;
        let add = |x: &Pt, y: &Pt| {
            let mut o = *x;
            if a[5] & 1 == 0 {
                c.add(form, &mut o, x, y)
            } else {
                c.add(form, &mut o, y, x)
            }
            o
        };
        st.count(&format!("spelling {}", sp));
        if sp == 0 || (sp == 1 && k < 4) {
            // one at a time onto the running sum
            let mut o = *acc;
            let mut ow = *accw;
            for _ in 0..k {
                o = call(i, "addition", || add(&o, &q0))?;
                ow = e.add(&ow, &qw);
                verify(i, e, c, f, &o, &ow, "addition", st)?;
            }
            return Ok(o);
        }
        // the multiple on its own, by doublings and triplings, then one addition
        let mut x = call(i, "identity", || c.zero())?;
        let mut xw = e.zero();
        let mut plan: Vec<u8> = Vec::new(); // how to reach k, backwards
        let mut n = k;
        while n > 0 {
            if n % 3 == 0 && (sp & 1 == 1 || n % 2 == 1) && n >= 3 {
                plan.push(3);
                n /= 3
            } else if n % 2 == 0 {
                plan.push(2);
                n /= 2
            } else {
                plan.push(1);
                n -= 1
            }
        }
        for op in plan.iter().rev() {
            let x0 = x;
            match op {
                1 => {
                    x = call(i, "addition", || add(&x0, &q0))?;
                    xw = e.add(&xw, &qw);
                }
                2 if sp >= 4 => {
                    x = call(i, "addition", || add(&x0, &x0))?;
                    xw = e.add(&xw, &xw);
                }
                2 => {
                    call(i, "doubling", || c.double((a[5] >> 1) as u8 & 1, &mut x, &x0))?;
                    xw = e.add(&xw, &xw);
                }
                _ => {
                    call(i, "tripling", || c.triple((a[5] >> 2) as u8 & 1, &mut x, &x0))?;
                    xw = e.add(&e.add(&xw, &xw), &xw);
                }
            }
            verify(i, e, c, f, &x, &xw, ["", "addition", "doubling", "tripling"][*op as usize], st)?;
        }
        if !e.same(&xw, t) {
            return fail(i, "harness error", "addition chain");
        }
        call(i, "addition", || add(acc, &x))
    }
}

