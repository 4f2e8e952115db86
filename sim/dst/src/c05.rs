//! C05: random elements stay valid and private to their entropy source under faults.

use crate::big::*;
use crate::fieldops::*;
use crate::plan::*;
use crate::rng::*;
use crate::steer::steered;
use surface::{El, Entropy, Field};

pub const DRAW: u16 = 80; // dst, form + 2*caller, source kind, seed, fault at word k (kind in data[0]), spell length
pub const BIAS: u16 = 81; // form, seed, samples

pub struct C05;

pub const KINDS: [&str; 10] = [
    "healthy",
    "stuck at zero",
    "stuck at ones",
    "short period",
    "counter",
    "biased",
    "alternating",
    "stuck spell, then healthy",
    "high words all ones",
    "extreme digits",
];
const NOFAULT: u8 = 0;
const PANIC: u8 = 1;
const REENTER: u8 = 2;

/// more words than any sane sampler wants of a healthy source for one element
const BOUND: usize = 2000;
const BUDGET: usize = 3000;

struct EntropyFault(u64);
struct Starved;

struct Source<'a> {
    kind: i64,
    seed: u64,
    at: i64,
    spell: i64,
    fault: u8,
    m: &'a Mod,
    idx: usize,
    rec: Vec<u32>,
    panicked: bool,
    starved: bool,
    inner: Option<(usize, El, Vec<u32>)>,
}

impl<'a> Source<'a> {
    fn word(&self, i: usize) -> u32 {
        let rnd = |i: usize| (mix(self.seed ^ mix(i as u64)) >> 32) as u32;
        match self.kind.unsigned_abs() % 10 {
            0 => rnd(i),
            1 => 0,
            2 => u32::MAX,
            3 => rnd(i % (1 + (self.seed % 7) as usize)),
            4 => (self.seed as u32).wrapping_add(i as u32),
            5 => rnd(3 * i) & rnd(3 * i + 1) & rnd(3 * i + 2),
            6 => 0u32.wrapping_sub((i as u32) & 1),
            7 => {
                // the spell repeats one extreme word
                if i as i64 >= self.at && (i as i64) < self.at.saturating_add(self.spell) {
                    [u32::MAX, 0, rnd(0), 0x8000_0000][(self.seed % 4) as usize]
                } else {
                    rnd(i)
                }
            }
            8 => {
                if i % 2 == 0 {
                    u32::MAX
                } else {
                    rnd(i)
                }
            }
            _ => {
                // digits at their extremes; a digit is two words, high one first
                let d = i / 2;
                let digits = (self.m.n + self.m.limb - 1) / self.m.limb;
                let w = if d % digits == digits - 1 { self.m.n - self.m.limb * (digits - 1) } else { self.m.limb };
                let full = (1u64 << w) - 1;
                let sel = if self.seed & 1 == 0 { self.seed >> 8 } else { mix(self.seed ^ d as u64) };
                let v = match sel % 8 {
                    0 => full,
                    1 => full - 1,
                    2 => full.wrapping_sub(self.m.c - 1),
                    3 => full.wrapping_sub(self.m.c),
                    4 => 0,
                    5 => full.wrapping_sub(self.m.c - 1) - (d == 0) as u64,
                    6 => {
                        if d % digits == 0 {
                            full - (self.m.c - 1)
                        } else {
                            full
                        }
                    }
                    _ => full + 1,
                };
                if i % 2 == 0 {
                    (v >> 32) as u32
                } else {
                    v as u32
                }
            }
        }
    }
}

impl<'a> Entropy for Source<'a> {
    fn next_u32(&mut self) -> u32 {
        let i = self.idx;
        if i >= BUDGET + self.spell.max(0) as usize {
            self.starved = true;
            std::panic::panic_any(Starved);
        }
        self.idx += 1;
        if i as i64 == self.at {
            if self.fault == PANIC {
                self.panicked = true;
                std::panic::panic_any(EntropyFault(self.seed));
            }
            if self.fault == REENTER {
                // the source itself uses the library, on another field
                let fi = (self.seed % 9) as usize;
                let f = fld(fi as i64);
                let mut w = Rec { g: Rng::new(self.seed ^ 0x77), rec: Vec::new() };
                let e = f.rand(1, &mut w);
                let mut x = e;
                f.bin(surface::MUL, 2, &mut x, &e, &e);
                let mut s = String::new();
                let _ = f.format(0, &x, &mut s);
                self.inner = Some((fi, x, w.rec));
            }
        }
        let w = self.word(i);
        self.rec.push(w);
        w
    }
}

struct Rec {
    g: Rng,
    rec: Vec<u32>,
}
impl Entropy for Rec {
    fn next_u32(&mut self) -> u32 {
        let w = (self.g.next() >> 32) as u32;
        self.rec.push(w);
        w
    }
}

/// gives exactly the recorded words
struct Tape<'a>(&'a [u32], usize);
impl<'a> Entropy for Tape<'a> {
    fn next_u32(&mut self) -> u32 {
        if self.1 >= self.0.len() {
            self.1 += 1;
            std::panic::panic_any(Starved);
        }
        self.1 += 1;
        self.0[self.1 - 1]
    }
}

impl Scenario for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick {
            700_000
        } else {
            16_000_000
        }
    }
    fn gen(&self, run: u64, r: &mut Rng, _t: Tier) -> Plan {
        let fi = (run % 9) as i64;
        let m = md(fi);
        let nregs = r.range(2, 5);
        let mut steps = Vec::new();
        if (run / 9) % 400 == 7 {
            let mut s = Step { code: BIAS, t: 1, ..Step::default() };
            s.a = [r.range(0, 1), r.next() as i64, r.pick(&[2048, 2048, 16384]), 0, 0, 0];
            steps.push(s);
            return Plan { cfg: vec![fi, nregs], steps };
        }
        let mix = Mix::swarm(r, false);
        let callers = 1 + r.idx(3) as i64;
        let kinds: Vec<i64> = (0..callers).map(|_| if r.chance(1, 3) { 0 } else { r.range(0, 9) }).collect();
        let mut t = 0;
        for _ in 0..3 + r.idx(12) {
            t += 1 + r.below(1000);
            if r.chance(1, 3) {
                if r.chance(1, 8) {
                    for mut s in steered(r, m, nregs) {
                        s.t = t;
                        steps.push(s);
                    }
                    continue;
                }
                let mut s = gen_op(r, m, nregs, &mix);
                s.t = t;
                steps.push(s);
                continue;
            }
            let c = r.range(0, callers - 1);
            let mut s = Step { code: DRAW, t, ..Step::default() };
            let kind = if r.chance(1, 2) { kinds[c as usize] } else { r.pick(&[0, 7, 9]) };
            let fault = r.pick(&[NOFAULT, NOFAULT, PANIC, REENTER]);
            let digits = (m.n / m.limb + 1) as i64;
            s.a = [
                r.range(0, nregs - 1),
                r.range(0, 1) + 2 * c,
                kind,
                r.next() as i64,
                // mostly inside the words one element takes
                if r.chance(4, 5) { r.range(0, 2 * digits - 1) } else { r.range(0, 60) },
                if kind == 7 { r.pick(&[1, 2, 3, 8, 64, 500, 2000, 6000]) } else { 0 },
            ];
            s.data = vec![if kind == 7 { NOFAULT } else { fault }];
            if r.chance(1, 12) {
                t += r.below(5_000_000_000); // a slow source
                s.t = t;
            }
            steps.push(s);
        }
        Plan { cfg: vec![fi, nregs], steps }
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Fail> {
        let f = fld(p.cfg[0]);
        let m = md(p.cfg[0]);
        let n = (p.cfg[1].max(1)) as usize;
        let z = call(0, "zero()", || f.konst(0))?;
        let mut regs = vec![z; n];
        let mut vals = vec![ZERO; n];
        for (i, s) in p.steps.iter().enumerate() {
            match s.code {
                DRAW => {
                    if let Some(e) = self.draw(i, p, s, f, m, st)? {
                        let d = reg(s.a[0], n);
                        regs[d] = e;
                        vals[d] = Big::from_le(&bytes_of(f, &e));
                    }
                }
                BIAS => self.bias(i, s, f, m, st)?,
                _ => {
                    if !legal(m, n, s, &|k| vals[k]) || s.code == RAND {
                        continue;
                    }
                    let d = reg(s.a[0], n);
                    call(i, &format!("{} {}", m.name, opname(s)), || real(f, &mut regs, s))?;
                    let got = Big::from_le(&call(i, "packing", || bytes_of(f, &regs[d]))?);
                    vals[d] = match model(m, &vals, s) {
                        Some(v) => v,
                        None => got,
                    };
                    st.count("operations on random elements");
                    if got != vals[d] {
                        return fail(i, format!("{} a call after random generation is wrong", m.name), format!("{}: got {} want {}", describe_op(s), got.hex(), vals[d].hex()));
                    }
                }
            }
        }
        for k in 0..n {
            let b = call(p.steps.len(), "packing", || bytes_of(f, &regs[k]))?;
            if b != vals[k].to_le(m.nbytes) {
                return fail(p.steps.len(), format!("{} element changed", m.name), "an element changed behind its owner's back");
            }
        }
        Ok(())
    }
    fn describe(&self, _p: &Plan, s: &Step) -> String {
        let a = &s.a;
        match s.code {
            DRAW => format!(
                "caller {}: r{} = rand (form {}) from source {:x}: {}{}",
                a[1] >> 1,
                a[0],
                a[1] & 1,
                a[3],
                KINDS[(a[2].unsigned_abs() % 10) as usize],
                match s.data.first() {
                    Some(&PANIC) => format!(", panics at word {}", a[4]),
                    Some(&REENTER) => format!(", uses the library at word {}", a[4]),
                    _ if a[2] == 7 => format!(", stuck from word {} for {}", a[4], a[5]),
                    _ => String::new(),
                }
            ),
            BIAS => format!("{} elements (form {}) from healthy source {:x}", a[2], a[0], a[1]),
            _ => describe_op(s),
        }
    }
    fn rule(&self) -> &'static str {
        "one run = 1-3 callers drawing elements of one field from seeded entropy sources with faults, mixed with arithmetic on what was drawn, or one bias measurement; non-trivial: at least two draws or a bias measurement"
    }
    fn nontrivial(&self, p: &Plan) -> bool {
        p.steps.iter().filter(|s| s.code == DRAW).count() >= 2 || p.steps.iter().any(|s| s.code == BIAS)
    }
    fn state_measure(&self) -> &'static str {
        "distinct (field, source kind, fault, word at which the fault struck, outcome) of a draw"
    }
    fn real(&self) -> &'static str {
        "Rand of the nine fields through rand 0.3's Rng, arithmetic on the results"
    }
    fn stub(&self) -> &'static str {
        "entropy sources"
    }
    fn shrink_budget(&self) -> usize {
        400
    }
}

impl C05 {
    fn draw(&self, i: usize, p: &Plan, s: &Step, f: &dyn Field, m: &Mod, st: &mut Stats) -> Result<Option<El>, Fail> {
        let fault = s.data.first().copied().unwrap_or(0) % 3;
        let form = (s.a[1] & 1) as u8;
        let kind = (s.a[2].unsigned_abs() % 10) as i64;
        let spell = if kind == 7 { s.a[5].clamp(0, 10_000) } else { 0 };
        let mut src = Source {
            kind,
            seed: s.a[3] as u64,
            at: if fault != NOFAULT || kind == 7 { s.a[4].clamp(0, 10_000) } else { -1 },
            spell,
            fault,
            m,
            idx: 0,
            rec: Vec::new(),
            panicked: false,
            starved: false,
            inner: None,
        };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.rand(form, &mut src)));
        if !st.quiet {
            st.fault(KINDS[kind as usize]);
            if src.panicked {
                st.fault("source panicked");
            }
            if src.inner.is_some() {
                st.fault("source re-entered the library");
            }
        }
        st.log(src.rec.len() as u64);
        let healthy = kind == 0 || kind == 7;
        let mut out = None;
        match r {
            Err(e) => {
                if src.panicked {
                    match e.downcast_ref::<EntropyFault>() {
                        Some(x) if x.0 == src.seed => {}
                        _ => return fail(i, format!("{} another panic than the source's reached the caller", m.name), last_panic()),
                    }
                } else if src.starved {
                    if healthy {
                        return fail(i, format!("{} unbounded draws from a healthy source", m.name), format!("more than {} words", src.idx));
                    }
                    if e.downcast_ref::<Starved>().is_none() {
                        return fail(i, format!("{} another panic than the source's reached the caller", m.name), last_panic());
                    }
                    st.count("never satisfied by an unhealthy source");
                } else {
                    return fail(i, format!("{} panic in rand", m.name), last_panic());
                }
            }
            Ok(e) => {
                if src.panicked || src.starved {
                    return fail(i, format!("{} an element was produced although the source panicked", m.name), "");
                }
                if healthy && src.rec.len() > BOUND + spell as usize {
                    return fail(i, format!("{} unbounded draws from a healthy source", m.name), format!("{} words", src.rec.len()));
                }
                self.valid(i, f, m, &e, st)?;
                // determined by the words alone: the same words give the same element again
                for fm in [form, 1 - form] {
                    let mut tape = Tape(&src.rec, 0);
                    let again = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.rand(fm, &mut tape)));
                    let used = tape.1;
                    match again {
                        Ok(x) if used == src.rec.len() && bytes_of(f, &x) == bytes_of(f, &e) => {}
                        _ => {
                            return fail(
                                i,
                                format!("{} element not determined by the delivered words", m.name),
                                format!("{} words delivered, {} used when replayed (form {})", src.rec.len(), used, fm),
                            )
                        }
                    }
                }
                out = Some(e);
            }
        }
        if let Some((fi, x, rec)) = &src.inner {
            // what the source computed inside the call is what it would have computed alone
            let g = fld(*fi as i64);
            let b = call(i, "packing", || bytes_of(g, x))?;
            let alone = call(i, "rand", || {
                let e = g.rand(1, &mut Tape(rec, 0));
                let v = Big::from_le(&bytes_of(g, &e));
                md(*fi as i64).sqr(&v)
            })?;
            if b != alone.to_le(g.nbytes()) {
                return fail(i, format!("{} nested use by the source is wrong", m.name), "");
            }
        }
        if !st.quiet {
            let o = if out.is_some() { 0 } else { 1 + src.panicked as u64 };
            st.state(hash_words(&[p.cfg[0] as u64, kind as u64, fault as u64, if fault == 0 { 99 } else { s.a[4] as u64 }, o]));
        }
        Ok(out)
    }
    fn valid(&self, i: usize, f: &dyn Field, m: &Mod, e: &El, st: &mut Stats) -> Result<(), Fail> {
        let (raw, canon, d0, d1, bits) = call(i, "packing a random element", || {
            let mut raw = vec![0u8; m.nbytes];
            f.pack_normalized(e, &mut raw);
            let canon = bytes_of(f, e);
            let (mut d0, mut d1) = (String::new(), String::new());
            let _ = f.format(2, e, &mut d0);
            let mut c = *e;
            f.normalize(&mut c);
            let _ = f.format(2, &c, &mut d1);
            let v = Big::from_le(&canon);
            let bits = [0, 1, m.limb - 1, m.limb, m.n - 1].iter().all(|k| f.bit_normalized(e, *k) == v.bit(*k));
            (raw, canon, d0, d1, bits)
        })?;
        st.log_bytes(&raw);
        if raw != canon || d0 != d1 || !bits {
            return fail(i, format!("{} random element not normalised", m.name), format!("raw {} canonical {} ({} / {})", hex(&raw), hex(&canon), d0, d1));
        }
        if Big::from_le(&raw).ge(&m.p) {
            return fail(i, format!("{} random element not below the prime", m.name), hex(&raw));
        }
        st.count("elements drawn");
        Ok(())
    }
    fn bias(&self, i: usize, s: &Step, f: &dyn Field, m: &Mod, st: &mut Stats) -> Result<(), Fail> {
        let n = (s.a[2].clamp(512, 65536) as usize) / 64 * 64;
        let w = n / 64;
        let mut src = Words(Rng::new(s.a[1] as u64));
        let mut col = vec![vec![0u64; w]; m.n];
        let mut seen = std::collections::HashSet::new();
        for k in 0..n {
            let e = call(i, "rand", || f.rand((s.a[0] & 1) as u8, &mut src))?;
            let b = call(i, "packing", || bytes_of(f, &e))?;
            let v = Big::from_le(&b);
            for (j, c) in col.iter_mut().enumerate() {
                if v.bit(j) {
                    c[k / 64] |= 1 << (k % 64);
                }
            }
            if !seen.insert(v) {
                return fail(i, format!("{} random elements repeat", m.name), format!("sample {}", k));
            }
        }
        st.count("bias measurements");
        // eight standard deviations: a fair sampler fails one measurement in 10^9 or fewer
        let lim = 4.0 * (n as f64).sqrt();
        let off = |ones: u32| (ones as f64 - n as f64 / 2.0).abs() > lim;
        for j in 0..m.n {
            let c: u32 = col[j].iter().map(|x| x.count_ones()).sum();
            st.log(c as u64);
            if off(c) {
                return fail(i, format!("{} bit {} of random elements is biased", m.name, j), format!("{} ones in {} samples", c, n));
            }
            for k in 0..j {
                let c: u32 = col[j].iter().zip(&col[k]).map(|(a, b)| (a ^ b).count_ones()).sum();
                if off(c) {
                    return fail(i, format!("{} bits {} and {} of random elements are tied", m.name, k, j), format!("differ in {} of {} samples", c, n));
                }
            }
        }
        // a bit that is always the exclusive or of others (or its complement): 80 samples more than
        // there are bits leave a fair sampler no chance of looking dependent
        let w = (m.n + 80).div_ceil(64);
        if n >= w * 64 {
            let mut basis: Vec<(usize, Vec<u64>)> = vec![(0, vec![u64::MAX; w])];
            for j in 0..m.n {
                let mut v = col[j][..w].to_vec();
                for (lead, b) in &basis {
                    if v[lead / 64] >> (lead % 64) & 1 != 0 {
                        v.iter_mut().zip(b).for_each(|(x, y)| *x ^= y);
                    }
                }
                match v.iter().position(|x| *x != 0) {
                    Some(q) => basis.push((q * 64 + v[q].trailing_zeros() as usize, v)),
                    None => return fail(i, format!("{} bit {} of random elements is determined by lower ones", m.name, j), format!("in all of {} samples", w * 64)),
                }
            }
            st.count("bit dependence tests");
        }
        Ok(())
    }
}
