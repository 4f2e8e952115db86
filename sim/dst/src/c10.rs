//! C10: observing an element never changes a computation, whenever it is done.
//!
//! Twin runs of one program: A observes nothing; B has observations injected at seeded points.

use crate::big::*;
use crate::fieldops::*;
use crate::plan::*;
use crate::rng::*;
use crate::steer::steered;
use surface::El;

pub const O_NORM: u16 = 30; // x times
pub const O_EQ: u16 = 31; // x y form
pub const O_BIT: u16 = 32; // x i form
pub const O_PACK: u16 = 33; // x form
pub const O_FMT: u16 = 34; // x
pub const O_MASK: u16 = 35; // x kind form
pub const O_BITOP: u16 = 36; // x y or form (on copies)
pub const O_SELECT: u16 = 37; // x y bit: masked selection between two elements (on copies)
pub const O_REPR: u16 = 38; // x : compare with the element reloaded from its encoding

pub struct C10;

impl Scenario for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick {
            1_200_000
        } else {
            18_000_000
        }
    }
    fn gen(&self, run: u64, r: &mut Rng, _t: Tier) -> Plan {
        let fi = (run % 9) as i64;
        let m = md(fi);
        let nregs = r.range(2, 6);
        let mix = Mix::swarm(r, (run / 9) % 4 == 0);
        let mut steps = Vec::new();
        for i in 0..nregs {
            let mut s = Step { code: LOAD, data: value(r, m).to_le(m.nbytes), ..Step::default() };
            s.a[0] = i;
            steps.push(s);
        }
        let max = if r.chance(1, 6) { 80 } else { 25 };
        let len = 3 + r.idx(max);
        let pobs = r.range(10, 90) as u64;
        let mut ow = [0u32; 9];
        for x in ow.iter_mut() {
            *x = r.pick(&[0, 1, 1, 3]);
        }
        ow[r.idx(9)] += 2;
        let mut t = 0;
        for _ in 0..len {
            t += 1 + r.below(1000);
            if r.chance(1, 10) {
                for mut s in steered(r, m, nregs) {
                    s.t = t;
                    steps.push(s);
                }
            } else {
                let mut s = gen_op(r, m, nregs, &mix);
                s.t = t;
                steps.push(s);
            }
            while r.chance(pobs, 130) {
                t += r.below(300);
                let mut s = Step { t, ..Step::default() };
                s.code = O_NORM + r.weighted(&ow) as u16;
                s.a[0] = r.range(0, nregs - 1);
                // the element just written is the one whose representation matters
                if r.chance(1, 2) {
                    s.a[0] = steps.last().unwrap().a[0];
                }
                s.a[1] = r.range(0, nregs - 1);
                s.a[2] = match s.code {
                    O_BIT => {
                        if r.chance(1, 3) {
                            (m.limb as i64 * r.range(0, 10) + r.range(-2, 1)).rem_euclid(m.n as i64)
                        } else {
                            r.range(0, m.n as i64 - 1)
                        }
                    }
                    _ => r.range(0, 5),
                };
                s.a[3] = r.range(0, 5);
                steps.push(s);
            }
        }
        Plan { cfg: vec![fi, nregs], steps }
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Fail> {
        let f = fld(p.cfg[0]);
        let m = md(p.cfg[0]);
        let n = (p.cfg[1].max(1)) as usize;
        let z = call(0, "zero()", || f.konst(0))?;
        let mut a = vec![z; n];
        let mut b = a.clone();
        for (i, s) in p.steps.iter().enumerate() {
            if s.code < 20 {
                if !legal(m, n, s, &|k| Big::from_le(&bytes_of(f, &a[k]))) {
                    st.count("skipped outside contract");
                    continue;
                }
                let d = reg(s.a[0], n);
                if call(i, "op", || real(f, &mut a, s)).is_err() {
                    st.count("run stopped: the unobserved twin panicked");
                    return Ok(());
                }
                call(i, &format!("{} {} in the observed twin only", m.name, opname(s)), || real(f, &mut b, s))?;
                let (x, y) = call(i, "packing", || (bytes_of(f, &a[d]), bytes_of(f, &b[d])))?;
                st.log_bytes(&y);
                if x != y {
                    return fail(
                        i,
                        format!("{} observed run differs", m.name),
                        format!("{}: unobserved {} observed {}", describe_op(s), Big::from_le(&x).hex(), Big::from_le(&y).hex()),
                    );
                }
                if a[d].0 != b[d].0 {
                    st.count("twins in different representations");
                }
                continue;
            }
            self.observe(i, p, s, n, &a, &mut b, st)?;
        }
        for k in 0..n {
            let (x, y) = call(p.steps.len(), "packing", || (bytes_of(f, &a[k]), bytes_of(f, &b[k])))?;
            if x != y {
                return fail(p.steps.len(), format!("{} observed run differs", m.name), "at the end");
            }
        }
        Ok(())
    }
    fn describe(&self, _p: &Plan, s: &Step) -> String {
        let a = &s.a;
        match s.code {
            O_NORM => format!("observe: normalize r{}", a[0]),
            O_EQ => format!("observe: r{} == r{} (form {})", a[0], a[1], a[3]),
            O_BIT => format!("observe: bit {} of r{} (form {})", a[2], a[0], a[3]),
            O_PACK => format!("observe: pack r{} (form {})", a[0], a[3]),
            O_FMT => format!("observe: print r{} (form {})", a[0], a[3]),
            O_MASK => format!("observe: neutral mask on r{} (form {})", a[0], a[3]),
            O_BITOP => format!("observe: r{} {} r{} (form {})", a[0], if a[2] & 1 == 1 { "|" } else { "&" }, a[1], a[3]),
            O_SELECT => format!("observe: select({}, r{}, r{})", a[2] & 1, a[0], a[1]),
            O_REPR => format!("observe: representation of r{}", a[0]),
            _ => describe_op(s),
        }
    }
    fn rule(&self) -> &'static str {
        "one run = one field program run twice, without and with seeded observations between its instructions; non-trivial: at least two observations, each followed by an instruction"
    }
    fn nontrivial(&self, p: &Plan) -> bool {
        let mut k = 0;
        for w in p.steps.windows(2) {
            if w[0].code >= 30 && w[1].code < 20 {
                k += 1
            }
        }
        k >= 2
    }
    fn state_measure(&self) -> &'static str {
        "distinct (field, observation, form, was the element normalised, are the two operands equal) contexts"
    }
    fn real(&self) -> &'static str {
        "all nine fields: normalisation, comparison, bit test, masks, packing, printing, arithmetic"
    }
    fn stub(&self) -> &'static str {
        "the observer and the program, the entropy source"
    }
}

impl C10 {
    fn observe(&self, i: usize, p: &Plan, s: &Step, n: usize, a: &[El], b: &mut [El], st: &mut Stats) -> Result<(), Fail> {
        let f = fld(p.cfg[0]);
        let m = md(p.cfg[0]);
        let (x, y) = (reg(s.a[0], n), reg(s.a[1], n));
        let (vx, vy) = call(i, "packing", || (bytes_of(f, &a[x]), bytes_of(f, &a[y])))?;
        let (bx, by) = (Big::from_le(&vx), Big::from_le(&vy));
        if !st.quiet {
            st.state(hash_words(&[
                p.cfg[0] as u64,
                s.code as u64,
                s.a[3] as u64,
                is_normal(f, &b[x]) as u64,
                (vx == vy) as u64,
                if s.code == O_BIT { s.a[2] as u64 } else { s.a[2] as u64 & 1 },
            ]));
            st.fault(match s.code {
                O_NORM => "observation normalize",
                O_EQ => "observation equality",
                O_BIT => "observation bit",
                O_PACK => "observation pack",
                O_FMT => "observation print",
                O_MASK => "observation mask",
                O_BITOP => "observation bitwise",
                O_SELECT => "observation select",
                _ => "observation representation",
            });
        }
        let bad = |what: &str, msg: String| -> Result<(), Fail> { fail(i, format!("{} {}", m.name, what), msg) };
        let dbg = |e: &El| {
            let mut o = String::new();
            let _ = f.format(2, e, &mut o);
            o
        };
        // what promises to normalise leaves the element ready for the operations that expect it
        let ready = |e: &El, v: &Big, after: &str| -> Result<(), Fail> {
            let (w, bit) = call(i, "the pre-normalised operations", || {
                let mut w = vec![0u8; m.nbytes];
                f.pack_normalized(e, &mut w);
                (w, f.bit_normalized(e, (s.t as usize) % m.n))
            })?;
            if Big::from_le(&w) != *v || bit != v.bit((s.t as usize) % m.n) {
                return bad("not left normalised", format!("after {}: {} reads as {}", after, v.hex(), Big::from_le(&w).hex()));
            }
            Ok(())
        };
        if bx.ge(&m.p) {
            return bad("canonical encoding not below the prime", bx.hex());
        }
        match s.code {
            O_NORM => {
                let (d1, d2) = call(i, "normalize", || {
                    f.normalize(&mut b[x]);
                    let d1 = dbg(&b[x]);
                    let mut c = b[x];
                    f.normalize(&mut c);
                    (d1, dbg(&c))
                })?;
                if d1 != d2 {
                    return bad("normalizing twice differs from once", format!("{} then {}", d1, d2));
                }
                ready(&b[x], &bx, "normalize")?;
            }
            O_EQ => {
                let want = vx == vy;
                let form = s.a[3].unsigned_abs() % 4;
                let got = call(i, "comparison", || match form {
                    0 => {
                        if x == y {
                            let mut c = b[y];
                            f.normalize_eq(&mut b[x], &mut c)
                        } else {
                            let mut cy = b[y];
                            let r = f.normalize_eq(&mut b[x], &mut cy);
                            b[y] = cy;
                            r
                        }
                    }
                    1 => {
                        let mut cy = b[y];
                        f.normalize(&mut cy);
                        f.normalize_self_eq(&mut b[x], &cy)
                    }
                    2 => {
                        let (mut cx, mut cy) = (b[x], b[y]);
                        f.normalize_eq(&mut cy, &mut cx)
                    }
                    _ => {
                        let mut c = f.unpacked(&vy);
                        f.normalize_eq(&mut b[x], &mut c)
                    }
                })?;
                if got != want {
                    return bad("equality wrong", format!("{} == {} said {} (form {})", bx.hex(), by.hex(), got, form));
                }
                if form != 2 {
                    ready(&b[x], &bx, "comparing")?;
                }
                if form == 0 && x != y {
                    ready(&b[y], &by, "being compared")?;
                }
                // and an element is always equal to its own reload, and never to its neighbour
                let (same, other) = call(i, "comparison", || {
                    let mut c = f.unpacked(&vx);
                    let mut d = f.unpacked(&m.add(&bx, &Big::small(1)).to_le(m.nbytes));
                    let (mut p, mut q) = (b[x], b[x]);
                    (f.normalize_eq(&mut p, &mut c), f.normalize_eq(&mut q, &mut d))
                })?;
                if !same || other {
                    return bad("equality wrong", format!("{} against its reload: {}, against its successor: {}", bx.hex(), same, other));
                }
            }
            O_BIT => {
                let k = (s.a[2].unsigned_abs() as usize) % m.n;
                let got = call(i, "bit", || match s.a[3].unsigned_abs() % 3 {
                    0 => f.bit(&mut b[x], k),
                    1 => {
                        f.normalize(&mut b[x]);
                        f.bit_normalized(&b[x], k)
                    }
                    _ => {
                        let mut c = b[x];
                        f.bit(&mut c, k)
                    }
                })?;
                if got != bx.bit(k) {
                    return bad("bit wrong", format!("bit {} of {} said {}", k, bx.hex(), got));
                }
                if s.a[3].unsigned_abs() % 3 < 2 {
                    ready(&b[x], &bx, "reading a bit")?;
                }
            }
            O_PACK => {
                let w = call(i, "packing", || crate::c02::save(f, &mut b[x], s.a[3], m.nbytes))?;
                if w != vx {
                    return bad("encoding depends on the representation", format!("{} and {}", hex(&w), hex(&vx)));
                }
                ready(&b[x], &bx, "encoding")?;
            }
            O_FMT => {
                let form = (s.a[3].unsigned_abs() % 3) as u8;
                let before = b[x];
                let o = call(i, "printing", || {
                    let mut o = String::new();
                    let _ = f.format(form, &b[x], &mut o);
                    o
                })?;
                let h: String = vx.iter().rev().map(|q| format!("{:02x}", q)).collect();
                if form < 2 && o.to_lowercase() != h {
                    return bad("printed hexadecimal wrong", format!("{} printed as {}", h, o));
                }
                if before.0 != b[x].0 {
                    return bad("printing changed the element", h);
                }
            }
            O_MASK => {
                let ones = s.a[3] & 1 == 0;
                call(i, "mask", || {
                    let mut mk = if s.a[3] & 2 == 0 {
                        f.filled(ones)
                    } else {
                        let mut e = b[y];
                        f.fill(&mut e, ones);
                        e
                    };
                    // and with all ones, or with all zeros; with and without normalising first
                    f.bitop(!ones, if s.a[2] & 1 == 0 { 2 } else { 1 }, &mut b[x], &mut mk)
                })?;
                if s.a[2] & 1 == 1 {
                    ready(&b[x], &bx, "normalising and masking")?;
                }
            }
            O_BITOP => {
                let or = s.a[2] & 1 == 1;
                let form = (s.a[3].unsigned_abs() % 3) as u8;
                let (w, cx, cy) = call(i, "bitwise", || {
                    let (mut cx, mut cy) = (b[x], b[y]);
                    if form >= 1 {
                        f.normalize(&mut cy);
                    }
                    if form == 2 {
                        f.normalize(&mut cx);
                    }
                    f.bitop(or, form, &mut cx, &mut cy);
                    (bytes_of(f, &cx), cx, cy)
                })?;
                let bits = if or { bx.or(&by) } else { bx.and(&by) };
                let want = m.reduce(&bits);
                if w != want.to_le(m.nbytes) {
                    return bad(
                        if or { "bitwise or wrong" } else { "bitwise and wrong" },
                        format!("{} with {} gave {}", bx.hex(), by.hex(), Big::from_le(&w).hex()),
                    );
                }
                if bits == want {
                    ready(&cx, &bits, "a bitwise operation")?;
                }
                ready(&cy, &by, "being the other side of a bitwise operation")?;
            }
            O_SELECT => {
                let bit = s.a[2] & 1 == 1;
                let w = call(i, "select", || {
                    let (mut cx, mut cy) = (b[x], b[y]);
                    let (mut t, mut e) = (f.filled(bit), f.filled(!bit));
                    f.bitop(false, 2, &mut cx, &mut t);
                    f.bitop(false, 2, &mut cy, &mut e);
                    f.bitop(true, 2, &mut cx, &mut cy);
                    bytes_of(f, &cx)
                })?;
                if w != if bit { vx.clone() } else { vy.clone() } {
                    return bad("masked selection wrong", format!("select({}, {}, {}) gave {}", bit, bx.hex(), by.hex(), hex(&w)));
                }
            }
            _ => {
                let (d1, d2, e1) = call(i, "representation", || {
                    let mut c = b[x];
                    f.normalize(&mut c);
                    let mut d = f.unpacked(&vx);
                    let d2 = {
                        let mut q = d;
                        f.normalize(&mut q);
                        dbg(&q)
                    };
                    (dbg(&c), d2, f.normalize_self_eq(&mut d, &c))
                })?;
                if d1 != d2 || !e1 {
                    return bad("equal values normalise differently", format!("{}: {} and {}", bx.hex(), d1, d2));
                }
            }
        }
        // whatever was observed, the value is still the same
        let now = call(i, "packing", || bytes_of(f, &b[x]))?;
        if now != vx {
            return bad("observation changed the value", format!("{}: {} became {}", self.describe(p, s), bx.hex(), hex(&now)));
        }
        Ok(())
    }
}
