//! C03: replicas that received the same contributions agree byte for byte.
//!
//! Parties fold field elements they originate or receive over a faulty network, singly or as
//! partial aggregates relayed by others, checkpoint to disk, crash and restart.

use crate::big::*;
use crate::fieldops::*;
use crate::net::*;
use crate::plan::*;
use crate::rng::*;
use std::collections::HashMap;
use surface as s;
use surface::{El, Field};

pub const DEFINE: u16 = 40; // id weight origin | value
pub const CONTRIB: u16 = 41; // party id spelling form skew: the party folds a single contribution
pub const SEND: u16 = 42; // msg party kind: 0 packed aggregate, 1 in-memory aggregate, 2 packed copy
pub const DELIVER: u16 = 43; // party msg form side
pub const CKPT: u16 = 44; // party form
pub const CRASH: u16 = 45; // party reload form
pub const COMPARE: u16 = 46; // party party form

pub struct C03;

enum Ev {
    Local(usize, usize),
    Single(usize, usize),
    Agg(usize),
    Arrive(usize, i64),
    Save(usize),
    Crash(usize),
    Cmp,
}

fn gen_fold(r: &mut Rng, t: u64, p: usize, id: usize) -> Step {
    let mut s = Step { code: CONTRIB, t, ..Step::default() };
    s.a = [p as i64, id as i64, r.range(0, 7), r.range(0, 13), r.range(0, SKEWS - 1), r.range(0, 3)];
    s
}

impl Scenario for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick {
            700_000
        } else {
            18_000_000
        }
    }
    fn gen(&self, run: u64, r: &mut Rng, _t: Tier) -> Plan {
        let fi = (run % 9) as i64;
        let m = md(fi);
        let product = (run / 9) % 4 == 3;
        let np = 2 + r.idx(4);
        let ids = 2 + r.idx(if product { 6 } else { 13 });
        let mut steps: Vec<Step> = Vec::new();
        let same = if r.chance(1, 4) { Some(value(r, m)) } else { None };
        let mut prev: Option<(Big, i64)> = None;
        for id in 0..ids {
            let mut s = Step { code: DEFINE, ..Step::default() };
            let w = if product {
                r.range(1, 7) * if r.chance(1, 8) { -1 } else { 1 }
            } else {
                match r.below(4) {
                    0 => 1,
                    1 => -1,
                    _ => imm(r),
                }
            };
            s.a = [id as i64, w, r.idx(np) as i64, 0, 0, 0];
            let mut v = match same {
                Some(v) if r.chance(2, 3) => v,
                _ if product && r.chance(1, 3) => crate::steer::root(r, m),
                _ if !product && r.chance(1, 4) => crate::steer::small_factor(r, m, w),
                _ => value(r, m),
            };
            if let Some((u, k)) = prev {
                // with the one before it, this contribution makes a total or product of chosen digits
                if r.chance(1, 3) {
                    if product {
                        if k == 1 && w == 1 {
                            let (x, y) = crate::steer::product(r, m);
                            steps[id - 1].data = x.to_le(m.nbytes);
                            v = y;
                        }
                    } else if w.abs() == 1 {
                        v = crate::steer::other(r, m, &m.mul(&u, &m.signed(k)));
                        if w < 0 {
                            v = m.neg(&v);
                        }
                    }
                }
            }
            prev = Some((v, w));
            s.data = v.to_le(m.nbytes);
            steps.push(s);
        }
        let horizon = 50_000_000u64;
        let mut net = Net::new(r, np, horizon);
        let mut q: Queue<Ev> = Queue::new();
        for id in 0..ids {
            let o = steps[id].a[2] as usize;
            let t = 1 + r.below(horizon);
            q.push(t, Ev::Local(o, id));
            for p in 0..np {
                if p != o {
                    for a in net.send(r, t, o, p) {
                        q.push(a, Ev::Single(p, id));
                    }
                }
            }
        }
        let pagg = r.below(4);
        for _ in 0..r.below(2 + 3 * pagg) {
            q.push(r.below(2 * horizon), Ev::Agg(r.idx(np)));
        }
        let pcrash = r.below(3);
        for _ in 0..r.below(1 + 2 * pcrash) {
            q.push(r.below(2 * horizon), Ev::Crash(r.idx(np)));
        }
        for _ in 0..r.below(2 + 3 * pcrash) {
            q.push(r.below(2 * horizon), Ev::Save(r.idx(np)));
        }
        for _ in 0..r.below(5) {
            q.push(r.below(2 * horizon), Ev::Cmp);
        }
        let mut msgs = 0;
        let mut end = 0;
        let mut budget = 90;
        while let Some((t, e)) = q.pop() {
            end = t;
            let mut s = Step { t, ..Step::default() };
            match e {
                Ev::Local(p, id) | Ev::Single(p, id) => {
                    s = gen_fold(r, t, p, id);
                    // relay on receipt
                    if r.chance(pagg, 12) {
                        q.push(t + r.below(1_000_000), Ev::Agg(p));
                    }
                }
                Ev::Agg(p) => {
                    if budget == 0 {
                        continue;
                    }
                    budget -= 1;
                    s.code = SEND;
                    s.a = [msgs, p as i64, r.range(0, 2), 0, 0, 0];
                    for d in 0..np {
                        if d != p && r.chance(2, 3) {
                            for a in net.send(r, t, p, d) {
                                q.push(a, Ev::Arrive(d, msgs));
                            }
                        }
                    }
                    msgs += 1;
                }
                Ev::Arrive(p, msg) => {
                    s.code = DELIVER;
                    s.a = [p as i64, msg, r.range(0, 3), r.range(0, 1), r.range(0, SKEWS - 1), 0];
                    if r.chance(pagg, 16) {
                        q.push(t + r.below(1_000_000), Ev::Agg(p));
                    }
                }
                Ev::Save(p) => {
                    s.code = CKPT;
                    s.a = [p as i64, r.range(0, 2), r.range(0, 1), 0, 0, 0];
                }
                Ev::Crash(p) => {
                    s.code = CRASH;
                    s.a = [p as i64, r.range(0, 1), 0, 0, 0, 0];
                }
                Ev::Cmp => {
                    s.code = COMPARE;
                    s.a = [r.idx(np) as i64, r.idx(np) as i64, r.range(0, 3), 0, 0, 0];
                }
            }
            steps.push(s);
        }
        // faults stop: every origin retransmits until everyone has everything
        let mut t = end;
        for p in 0..np {
            let mut o: Vec<usize> = (0..ids).collect();
            r.shuffle(&mut o);
            for id in o {
                t += 1;
                steps.push(gen_fold(r, t, p, id));
            }
        }
        for p in 0..np {
            t += 1;
            let mut s = Step { t, code: COMPARE, ..Step::default() };
            s.a = [p as i64, ((p + 1) % np) as i64, r.range(0, 3), 1, 0, 0];
            steps.push(s);
        }
        weave(&mut steps, &net);
        Plan { cfg: vec![fi, np as i64, product as i64], steps }
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Fail> {
        let f = fld(p.cfg[0]);
        let m = md(p.cfg[0]);
        let np = p.cfg[1].clamp(1, 16) as usize;
        let product = p.cfg[2] & 1 == 1;
        let unit = call(0, "identity element", || f.konst(product as u8))?;
        let mut acc = vec![unit; np];
        let mut set = vec![0u64; np];
        let mut disk: Vec<Option<(Vec<u8>, u64)>> = vec![None; np];
        let mut msgs: HashMap<i64, (i64, Vec<u8>, El, u64)> = HashMap::new();
        let mut def: Vec<(Big, i64, Big)> = vec![(Big::small(1), 1, Big::small(1)); 64];
        let mut cache: HashMap<u64, Big> = HashMap::new();
        for (i, s) in p.steps.iter().enumerate() {
            let pa = reg(s.a[0], np);
            match s.code {
                DEFINE => {
                    let mut v = m.reduce(&Big::from_le(&s.data));
                    let w = s.a[1];
                    if product && w < 0 && v.is_zero() {
                        v = Big::small(1);
                    }
                    let term = if product {
                        let e = m.pow(&v, &Big::small(w.unsigned_abs() % 16));
                        if w < 0 {
                            m.inv(&e)
                        } else {
                            e
                        }
                    } else {
                        m.mul(&v, &m.signed(w as i32 as i64))
                    };
                    def[reg(s.a[0], 64)] = (v, if product { w % 16 } else { w as i32 as i64 }, term);
                    continue;
                }
                CONTRIB => {
                    let id = reg(s.a[1], 64);
                    if set[pa] >> id & 1 == 1 {
                        st.count("duplicate contribution dropped");
                        continue;
                    }
                    let (v, w, _) = &def[id];
                    let a0 = acc[pa];
                    acc[pa] = call(i, &format!("{} folding", m.name), || fold(f, m, product, &a0, v, *w, &s.a, st))?;
                    set[pa] |= 1 << id;
                    st.count("contributions folded");
                }
                SEND => {
                    let mut c = acc[pa];
                    let b = call(i, "packing", || {
                        let b = f.packed(&mut c);
                        if s.a[2] == 0 {
                            acc[pa] = c;
                        }
                        b
                    })?;
                    msgs.insert(s.a[0], (s.a[2], b, acc[pa], set[pa]));
                    continue;
                }
                DELIVER => {
                    let (kind, b, e, ms) = match msgs.get(&s.a[1]) {
                        Some(x) => x,
                        None => continue,
                    };
                    let e = call(i, "receiving", || {
                        let x = if *kind == 1 { *e } else { f.unpacked(b) };
                        skew(f, &x, s.a[4])
                    })?;
                    if set[pa] & ms == 0 {
                        let a0 = acc[pa];
                        acc[pa] = call(i, &format!("{} merging aggregates", m.name), || {
                            let mut o = a0;
                            let op = if product { s::MUL } else { s::ADD };
                            let form = (s.a[2] & 3) as u8;
                            if s.a[3] & 1 == 0 {
                                f.bin(op, form, &mut o, &a0, &e)
                            } else {
                                f.bin(op, form, &mut o, &e, &a0)
                            }
                            o
                        })?;
                        set[pa] |= ms;
                        st.count("aggregates merged");
                    } else if set[pa] & ms == set[pa] {
                        acc[pa] = e;
                        set[pa] = *ms;
                        st.count("aggregates adopted");
                    } else {
                        st.count("stale or overlapping aggregates dropped");
                        continue;
                    }
                }
                CKPT => {
                    let w = call(i, "saving", || {
                        let mut c = acc[pa];
                        let w = crate::c02::save(f, &mut c, s.a[1], m.nbytes);
                        if s.a[2] & 1 == 1 {
                            acc[pa] = c;
                        }
                        w
                    })?;
                    disk[pa] = Some((w, set[pa]));
                    st.count("checkpoints");
                }
                CRASH => {
                    st.fault("crash-restart");
                    match &disk[pa] {
                        Some((w, ss)) => {
                            acc[pa] = call(i, "reloading", || {
                                if s.a[1] & 1 == 0 {
                                    f.unpacked(w)
                                } else {
                                    let mut e = acc[pa];
                                    f.unpack(&mut e, w);
                                    e
                                }
                            })?;
                            set[pa] = *ss;
                        }
                        None => {
                            acc[pa] = unit;
                            set[pa] = 0;
                        }
                    }
                }
                COMPARE => {
                    let qa = reg(s.a[1], np);
                    let want = total(&mut cache, &def, m, product, set[pa]) == total(&mut cache, &def, m, product, set[qa]);
                    let (x, y) = (acc[pa], acc[qa]);
                    let got = call(i, "comparing", || {
                        let (mut x, mut y) = (x, y);
                        match s.a[2] & 3 {
                            0 => f.normalize_eq(&mut x, &mut y),
                            1 => f.normalize_eq(&mut y, &mut x),
                            2 => {
                                f.normalize(&mut y);
                                f.normalize_self_eq(&mut x, &y)
                            }
                            _ => f.packed(&mut x) == f.packed(&mut y),
                        }
                    })?;
                    if s.a[3] == 0 && s.a[2] & 1 == 0 {
                        // the comparison normalises in place
                        call(i, "normalising", || f.normalize(&mut acc[pa]))?;
                    }
                    st.count(if want { "comparisons of equal totals" } else { "comparisons of different totals" });
                    if got != want {
                        return fail(
                            i,
                            format!("{} replicas {}", m.name, if want { "with equal totals differ" } else { "with different totals agree" }),
                            format!("parties {} {:x} and {} {:x}, comparison form {}: got {}", pa, set[pa], qa, set[qa], s.a[2] & 3, got),
                        );
                    }
                    if s.a[3] == 1 && set[pa] == set[qa] {
                        st.count("replicas converged");
                    }
                }
                FAULT => {
                    st.fault(fault_name(s));
                    continue;
                }
                _ => continue,
            }
            let got = call(i, "packing", || bytes_of(f, &acc[pa]))?;
            st.log_bytes(&got);
            let want = total(&mut cache, &def, m, product, set[pa]);
            if got != want.to_le(m.nbytes) {
                return fail(
                    i,
                    format!("{} folded total wrong", m.name),
                    format!("party {} with set {:x} holds {} want {}", pa, set[pa], Big::from_le(&got).hex(), want.hex()),
                );
            }
            st.state(hash_words(&[p.cfg[0] as u64, product as u64, np as u64, pa as u64, s.code as u64, set[pa]]));
        }
        Ok(())
    }
    fn describe(&self, _p: &Plan, s: &Step) -> String {
        let a = &s.a;
        match s.code {
            DEFINE => format!("contribution {} = {} with weight {} from party {}", a[0], Big::from_le(&s.data).hex(), a[1], a[2]),
            CONTRIB => format!("party {} receives and folds contribution {} (spelling {}, form {}, skew {})", a[0], a[1], a[2], a[3], a[4]),
            SEND => format!("party {} sends its aggregate as message {} ({})", a[1], a[0], ["packed in place", "in memory", "packed copy"][(a[2].unsigned_abs() % 3) as usize]),
            DELIVER => format!("party {} receives message {}", a[0], a[1]),
            CKPT => format!("party {} checkpoints (form {})", a[0], a[1]),
            CRASH => format!("party {} crashes and restarts", a[0]),
            COMPARE => format!("parties {} and {} compare (form {})", a[0], a[1], a[2]),
            FAULT => fault_name(s).to_string(),
            c => format!("code {}", c),
        }
    }
    fn rule(&self) -> &'static str {
        "one run = 2-5 replicas folding 2-14 contributions over a faulty network with relayed aggregates, checkpoints and crash-restarts, until all have everything; non-trivial: at least two parties fold at least two contributions each and something besides singles in the origin's order happens (relay, crash or network fault)"
    }
    fn nontrivial(&self, p: &Plan) -> bool {
        p.steps.iter().filter(|s| s.code == CONTRIB).count() >= 4 && p.steps.iter().any(|s| matches!(s.code, DELIVER | CRASH | FAULT))
    }
    fn state_measure(&self) -> &'static str {
        "distinct (field, sum or product, parties, party, event kind, set of contributions held) after an event"
    }
    fn real(&self) -> &'static str {
        "all nine fields: arithmetic, serialisation, comparison"
    }
    fn stub(&self) -> &'static str {
        "parties, network (delay, loss, duplication, reordering, partitions), disk, crashes"
    }
}

fn total(cache: &mut HashMap<u64, Big>, def: &[(Big, i64, Big)], m: &Mod, product: bool, set: u64) -> Big {
    if let Some(v) = cache.get(&set) {
        return *v;
    }
    let mut x = if product { Big::small(1) } else { ZERO };
    for (id, d) in def.iter().enumerate() {
        if set >> id & 1 == 1 {
            x = if product { m.mul(&x, &d.2) } else { m.add(&x, &d.2) };
        }
    }
    cache.insert(set, x);
    x
}

/// a spelling of the small-number operation that can carry this integer
fn fit(form: i64, k: i64) -> u8 {
    let f = form.unsigned_abs() % 14;
    if f >= 10 && k as i8 as i64 != k || f >= 6 && f < 10 && k as i16 as i64 != k {
        (f % 6) as u8
    } else {
        f as u8
    }
}

#[allow(clippy::too_many_arguments)]
fn fold(f: &dyn Field, m: &Mod, product: bool, acc: &El, v: &Big, w: i64, a: &[i64; 6], st: &mut Stats) -> El {
    let (sp, form, sk, bf) = (a[2].unsigned_abs() % 8, a[3], a[4], (a[5] & 3) as u8);
    let v0 = f.unpacked(&v.to_le(m.nbytes));
    let v0 = skew(f, &v0, sk);
    let mut o = *acc;
    let bin = |op: u8, o: &mut El, x: &El, y: &El| f.bin(op, bf, o, x, y);
    let smul = |x: &El, k: i64| {
        let mut t = *x;
        f.small(s::MUL, fit(form, k), &mut t, x, k as i32);
        t
    };
    if !st.quiet {
        st.count(&format!("{} spelling {}", if product { "product" } else { "sum" }, sp));
    }
    if product {
        let e = w.unsigned_abs();
        match sp {
            0..=3 => {
                for _ in 0..e {
                    let c = o;
                    if w < 0 {
                        bin(s::DIV, &mut o, &c, &v0)
                    } else if sp & 1 == 0 {
                        bin(s::MUL, &mut o, &c, &v0)
                    } else {
                        bin(s::MUL, &mut o, &v0, &c)
                    }
                }
            }
            _ => {
                // v^e by squaring, then one multiplication, division, or multiplication by the inverse
                let mut t = f.konst(1);
                for b in (0..4).rev() {
                    let c = t;
                    f.un(s::SQR, bf & 1, &mut t, &c);
                    if e >> b & 1 == 1 {
                        let c = t;
                        bin(s::MUL, &mut t, &c, &v0);
                    }
                }
                let c = o;
                if w < 0 && sp & 1 == 0 {
                    bin(s::DIV, &mut o, &c, &t)
                } else {
                    if w < 0 {
                        let c = t;
                        f.un(s::INV, bf & 1, &mut t, &c);
                    }
                    bin(s::MUL, &mut o, &c, &t)
                }
            }
        }
        return o;
    }
    let c = o;
    match sp {
        1 if w != i32::MIN as i64 => {
            let t = smul(&v0, -w);
            bin(s::SUB, &mut o, &c, &t)
        }
        2 if w.abs() <= 6 => {
            for _ in 0..w.abs() {
                let c = o;
                bin(if w < 0 { s::SUB } else { s::ADD }, &mut o, &c, &v0)
            }
        }
        3 => {
            let k = f.unpacked(&m.signed(w).to_le(m.nbytes));
            let mut t = v0;
            f.bin(s::MUL, bf, &mut t, &k, &v0);
            bin(s::ADD, &mut o, &c, &t)
        }
        4 if (w - 2) as i32 as i64 == w - 2 => {
            let t = smul(&v0, w - 2);
            bin(s::ADD, &mut o, &c, &t);
            for _ in 0..2 {
                let c = o;
                bin(s::ADD, &mut o, &c, &v0);
            }
        }
        5 => {
            // a small contribution can be folded as an integer
            let k = if v.bits() <= 31 {
                Some(v.0[0] as i64 * w)
            } else if m.p.sub(v).bits() <= 31 {
                Some(-(m.p.sub(v).0[0] as i64) * w)
            } else {
                None
            };
            match k {
                Some(k) if k as i32 as i64 == k && k != i32::MIN as i64 => {
                    st.count("folded as a small integer");
                    if bf & 1 == 0 {
                        f.small(s::ADD, fit(form, k), &mut o, &c, k as i32)
                    } else {
                        f.small(s::SUB, fit(form, -k), &mut o, &c, -k as i32)
                    }
                }
                _ => {
                    let t = smul(&v0, w);
                    bin(s::ADD, &mut o, &t, &c)
                }
            }
        }
        6 => {
            let t = smul(&v0, w);
            let mut t2 = t;
            f.un(s::NEG, 0, &mut t2, &t);
            bin(s::SUB, &mut o, &c, &t2)
        }
        7 => {
            let t = smul(&v0, w);
            bin(s::ADD, &mut o, &t, &c)
        }
        _ => {
            let t = smul(&v0, w);
            bin(s::ADD, &mut o, &c, &t)
        }
    }
    o
}
