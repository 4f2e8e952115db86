//! C07: damaged or hostile encodings never yield a wrong or invalid element.

use crate::big::*;
use crate::fieldops::*;
use crate::plan::*;
use crate::rng::*;
use crate::steer::steered;
use surface::{El, Field};

pub const XFER: u16 = 90; // src dst kind p1 p2 form | extra bytes
pub const ENC: u16 = 91; // src form length-difference

pub struct C07;

pub const KINDS: [&str; 11] = [
    "intact",
    "bits flipped",
    "truncated",
    "extended",
    "stray high bits",
    "all ones",
    "at or above the prime",
    "spliced with another message",
    "stale message replayed",
    "another field's encoding",
    "random bytes",
];

/// By how much a buffer is longer than the encoding: a little, or so much that it holds several
/// encodings or has a round length.
fn surplus(r: &mut Rng, nb: usize) -> usize {
    match r.below(4) {
        0 | 1 => 1 + r.idx(40),
        2 => nb * (1 + r.idx(4)),
        _ => {
            let whole = [32, 33, 48, 56, 57, 64, 65, 66, 72, 80, 96, 112, 114, 128, 132, 255, 256, 257, 512, 1024, 4096];
            let k = r.pick(&whole) as usize;
            if k > nb { k - nb } else { k }
        }
    }
}

impl Scenario for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick {
            2_000_000
        } else {
            40_000_000
        }
    }
    fn gen(&self, run: u64, r: &mut Rng, _t: Tier) -> Plan {
        let fi = (run % 9) as i64;
        let m = md(fi);
        let nregs = r.range(2, 5);
        let mix = Mix::swarm(r, false);
        let mut steps = Vec::new();
        for i in 0..nregs {
            let mut s = Step { code: LOAD, data: value(r, m).to_le(m.nbytes), ..Step::default() };
            s.a[0] = i;
            steps.push(s);
        }
        let kinds: Vec<i64> = (0..4).map(|_| r.range(0, 10)).collect();
        let mut t = 0;
        for _ in 0..3 + r.idx(20) {
            t += 1 + r.below(100_000);
            let mut s = Step { t, ..Step::default() };
            match r.below(5) {
                0 | 1 => {
                    s = gen_op(r, m, nregs, &mix);
                    if r.chance(1, 10) {
                        let mut q = steered(r, m, nregs);
                        s = q.pop().unwrap();
                        for mut x in q {
                            x.t = t;
                            steps.push(x);
                        }
                    }
                    s.t = t;
                }
                2 if r.chance(1, 2) => {
                    s.code = ENC;
                    s.a = [r.range(0, nregs - 1), r.range(0, 2), r.pick(&[-1, -1, -2, 0, 1, 2, 7, 40, -4, -8]), r.range(0, 16), 0, 0];
                    match r.below(6) {
                        0 => s.a[2] = -r.range(1, m.nbytes as i64),
                        1 => s.a[2] = surplus(r, m.nbytes) as i64,
                        _ => {}
                    }
                }
                _ => {
                    s.code = XFER;
                    let kind = r.pick(&kinds);
                    s.a = [r.range(0, nregs - 1), r.range(0, nregs - 1), kind, r.next() as i64 >> 1, r.next() as i64 >> 1, r.range(0, 1)];
                    s.data = match kind {
                        3 => {
                            let k = surplus(r, m.nbytes);
                            match r.below(4) {
                                0 => vec![0; k],
                                1 => vec![0xff; k],
                                _ => r.bytes(k),
                            }
                        }
                        6 => {
                            // p plus something that still fits the width, or the whole width
                            let d = r.below(m.c);
                            m.p.add(&Big::small(d)).to_le(m.nbytes)
                        }
                        9 => {
                            let o = md(r.range(0, 8));
                            value(r, o).to_le(o.nbytes)
                        }
                        10 => {
                            let k = m.nbytes + r.idx(3);
                            r.bytes(k)
                        }
                        _ => Vec::new(),
                    };
                }
            }
            steps.push(s);
        }
        Plan { cfg: vec![fi, nregs], steps }
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Fail> {
        let f = fld(p.cfg[0]);
        let m = md(p.cfg[0]);
        let n = (p.cfg[1].max(1)) as usize;
        let z = call(0, "zero()", || f.konst(0))?;
        let mut regs = vec![z; n];
        let mut vals = vec![ZERO; n];
        let mut wire: Vec<Vec<u8>> = Vec::new();
        for (i, s) in p.steps.iter().enumerate() {
            match s.code {
                XFER => self.xfer(i, p, s, f, m, &mut regs, &mut vals, &mut wire, st)?,
                ENC => self.encode(i, s, f, m, &regs, &vals, st)?,
                _ => {
                    if !legal(m, n, s, &|k| vals[k]) {
                        continue;
                    }
                    let d = reg(s.a[0], n);
                    call(i, &format!("{} {}", m.name, opname(s)), || real(f, &mut regs, s))?;
                    let got = Big::from_le(&call(i, "packing", || bytes_of(f, &regs[d]))?);
                    vals[d] = model(m, &vals, s).unwrap_or(got);
                    if got != vals[d] {
                        return fail(i, format!("{} a computation with decoded elements is wrong", m.name), format!("{}: got {} want {}", describe_op(s), got.hex(), vals[d].hex()));
                    }
                    st.count("operations on decoded elements");
                }
            }
        }
        for k in 0..n {
            let b = call(p.steps.len(), "packing", || bytes_of(f, &regs[k]))?;
            if b != vals[k].to_le(m.nbytes) {
                return fail(p.steps.len(), format!("{} element changed", m.name), "an element changed behind its owner's back");
            }
        }
        Ok(())
    }
    fn describe(&self, _p: &Plan, s: &Step) -> String {
        let a = &s.a;
        match s.code {
            XFER => format!("r{} is sent, arrives {} (param {:x}), decoded {} into r{}", a[0], KINDS[(a[2].unsigned_abs() % 11) as usize], a[3], if a[5] & 1 == 0 { "in place" } else { "functionally" }, a[1]),
            ENC => format!("encode r{} ({}) into a buffer of the encoding's length {:+}", a[0], ["pack", "pack_normalized", "pack of a copy"][(a[1].unsigned_abs() % 3) as usize], a[2]),
            _ => describe_op(s),
        }
    }
    fn rule(&self) -> &'static str {
        "one run = one field program whose elements travel as bytes that are corrupted on the way and decoded back into it; non-trivial: at least two transfers, one of them damaged, and one operation"
    }
    fn nontrivial(&self, p: &Plan) -> bool {
        p.steps.iter().filter(|s| s.code == XFER).count() >= 2
            && p.steps.iter().any(|s| s.code == XFER && s.a[2] != 0)
            && p.steps.iter().any(|s| s.code > 1 && s.code < 20)
    }
    fn state_measure(&self) -> &'static str {
        "distinct (field, damage, decoding form, buffer length, did the target hold an un-normalised element, is the number at or above the prime) of a decoding"
    }
    fn real(&self) -> &'static str {
        "Pack of the nine fields and arithmetic on what was decoded"
    }
    fn stub(&self) -> &'static str {
        "transport and its corruption"
    }
}

impl C07 {
    #[allow(clippy::too_many_arguments)]
    fn xfer(&self, i: usize, p: &Plan, s: &Step, f: &dyn Field, m: &Mod, regs: &mut [El], vals: &mut [Big], wire: &mut Vec<Vec<u8>>, st: &mut Stats) -> Result<(), Fail> {
        let n = regs.len();
        let (src, d) = (reg(s.a[0], n), reg(s.a[1], n));
        let nb = m.nbytes;
        let mut b = call(i, "packing", || bytes_of(f, &regs[src]))?;
        wire.push(b.clone());
        let kind = (s.a[2].unsigned_abs() % 11) as usize;
        let mut g = Rng::new(s.a[3] as u64);
        match kind {
            1 => {
                for _ in 0..1 + s.a[4].unsigned_abs() % 5 {
                    let k = g.idx(8 * nb);
                    b[k / 8] ^= 1 << (k % 8);
                }
            }
            2 => b.truncate(if s.a[4] & 1 == 0 { nb - 1 } else { (s.a[4] >> 1).unsigned_abs() as usize % nb }),
            3 => b.extend(&s.data),
            4 => {
                for k in m.n..8 * nb {
                    if g.chance(1, 2) {
                        b[k / 8] |= 1 << (k % 8);
                    }
                }
            }
            5 => b = vec![0xff; nb + (s.a[4].unsigned_abs() % 3) as usize],
            6 | 9 | 10 => b = s.data.clone(),
            7 => {
                let o = &wire[g.idx(wire.len())];
                let k = g.idx(nb);
                b[k..].copy_from_slice(&o[k..nb]);
            }
            8 => b = wire[g.idx(wire.len())].clone(),
            _ => {}
        }
        if kind != 0 {
            st.fault(KINDS[kind]);
        }
        // hostile surroundings: the decoder gets a slice in the middle of other bytes
        let pad = (s.a[4].unsigned_abs() >> 8) as usize % 17;
        let mut buf = vec![0xeeu8; pad];
        buf.extend(&b);
        buf.extend([0xdd; 3]);
        let view = &buf[pad..pad + b.len()];
        let before = regs.to_vec();
        let inplace = s.a[5] & 1 == 0;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if inplace {
                f.unpack(&mut regs[d], view)
            } else {
                let e = f.unpacked(view);
                regs[d] = e
            }
        }));
        for k in 0..n {
            if k != d && before[k].0 != regs[k].0 {
                return fail(i, format!("{} decoding disturbed another element", m.name), format!("r{}", k));
            }
        }
        if b.len() < nb {
            if r.is_ok() {
                return fail(i, format!("{} short buffer accepted", m.name), format!("{} of {} bytes", b.len(), nb));
            }
            st.count("short buffers refused");
            if inplace {
                // what the refused call left in its own target is nobody's business
                regs[d] = call(i, "zero()", || f.konst(0))?;
                vals[d] = ZERO;
            } else if before[d].0 != regs[d].0 {
                return fail(i, format!("{} decoding disturbed another element", m.name), "the functional form changed its target although it panicked");
            }
            return Ok(());
        }
        if r.is_err() {
            return fail(i, format!("{} panic in decoding", m.name), last_panic());
        }
        let num = Big::from_le(&b[..nb]).low_bits(m.n);
        let want = m.reduce(&num);
        let got = call(i, "packing", || bytes_of(f, &regs[d]))?;
        st.log_bytes(&got);
        if got != want.to_le(nb) {
            return fail(
                i,
                format!("{} decoded wrong", m.name),
                format!("{} ({}) decoded {} to {} want {}", hex(&b), KINDS[kind], if inplace { "in place" } else { "functionally" }, Big::from_le(&got).hex(), want.hex()),
            );
        }
        // usable: equal to the element of the canonical encoding, under every comparison
        let (eq, eq2) = call(i, "comparing", || {
            let mut c = f.unpacked(&want.to_le(nb));
            let mut x = regs[d];
            let eq2 = f.normalize_self_eq(&mut x, &c);
            let mut x = regs[d];
            (f.normalize_eq(&mut x, &mut c), eq2)
        })?;
        if !eq || !eq2 {
            return fail(i, format!("{} decoded element unequal to the canonical one", m.name), hex(&b));
        }
        vals[d] = want;
        if !st.quiet {
            if num.ge(&m.p) {
                st.count("decoded numbers at or above the prime");
            }
            st.state(hash_words(&[p.cfg[0] as u64, kind as u64, inplace as u64, b.len() as u64, is_normal(f, &before[d]) as u64, num.ge(&m.p) as u64]));
        }
        Ok(())
    }
    #[allow(clippy::too_many_arguments)]
    fn encode(&self, i: usize, s: &Step, f: &dyn Field, m: &Mod, regs: &[El], vals: &[Big], st: &mut Stats) -> Result<(), Fail> {
        let n = regs.len();
        let x = reg(s.a[0], n);
        let nb = m.nbytes as i64;
        let len = (nb + s.a[2]).max(0) as usize;
        let mut e = regs[x];
        let form = s.a[1].unsigned_abs() % 3;
        if form == 1 {
            call(i, "normalising", || f.normalize(&mut e))?;
        }
        let pad = s.a[3].unsigned_abs() as usize % 17;
        let mut buf: Vec<u8> = (0..pad + len + 3).map(|k| (k as u8).wrapping_mul(37) ^ 0xc3).collect();
        let old = buf.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let v = &mut buf[pad..pad + len];
            if form == 1 {
                f.pack_normalized(&e, v)
            } else {
                f.pack(&mut e, v)
            }
        }));
        if (len as i64) < nb {
            st.fault("buffer too short to encode into");
            if r.is_ok() {
                return fail(i, format!("{} encoding into a short buffer accepted", m.name), format!("{} of {} bytes", len, nb));
            }
        } else {
            if r.is_err() {
                return fail(i, format!("{} panic in encoding", m.name), last_panic());
            }
            if buf[pad..pad + nb as usize] != vals[x].to_le(nb as usize)[..] {
                return fail(i, format!("{} encoded wrong", m.name), hex(&buf[pad..pad + nb as usize]));
            }
            st.log_bytes(&buf);
            if len as i64 > nb {
                st.fault("buffer longer than the encoding");
            }
            if buf[pad + nb as usize..] != old[pad + nb as usize..] {
                return fail(i, format!("{} encoding wrote past its bytes", m.name), hex(&buf));
            }
        }
        if buf[..pad] != old[..pad] || buf[pad + len..] != old[pad + len..] {
            return fail(i, format!("{} encoding wrote outside its buffer", m.name), hex(&buf));
        }
        // refused or not, the element keeps its value
        let b = call(i, "packing", || bytes_of(f, &e))?;
        if b != vals[x].to_le(nb as usize) {
            return fail(i, format!("{} encoding changed the element", m.name), hex(&b));
        }
        Ok(())
    }
}
