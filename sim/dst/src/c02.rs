//! C02: checkpoint, crash and restart never change a computation.
//!
//! Twin runs of one program: A is never interrupted and never saves; B saves to a simulated disk
//! (volatile until synced; unsynced records may be lost or torn by a crash), crashes, reloads what
//! the disk still holds and re-executes from there.

use crate::big::*;
use crate::fieldops::*;
use crate::plan::*;
use crate::rng::*;
use crate::steer::steered;
use surface::{El, Field};

pub const SAVE: u16 = 20; // form, in place?, horner?
pub const SYNC: u16 = 21;
pub const CRASH: u16 = 22; // fate bits of pending records, garbage seed, reload form, crash again after k, tear point

pub struct C02;

impl Scenario for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick {
            800_000
        } else {
            24_000_000
        }
    }
    fn gen(&self, run: u64, r: &mut Rng, _t: Tier) -> Plan {
        let fi = (run % 9) as i64;
        let m = md(fi);
        let nregs = r.range(2, 6);
        let mix = Mix::swarm(r, (run / 9) % 4 == 0);
        let mut steps = Vec::new();
        for i in 0..nregs {
            let mut s = Step { code: LOAD, data: value(r, m).to_le(m.nbytes), ..Step::default() };
            s.a[0] = i;
            steps.push(s);
        }
        let max = if r.chance(1, 6) { 90 } else { 25 };
        let len = 4 + r.idx(max);
        let (psave, psync, pcrash) = (r.range(5, 40) as u64, r.range(10, 90) as u64, r.range(2, 30) as u64);
        let mut t = 0;
        for _ in 0..len {
            t += 1 + r.below(5000);
            if r.chance(1, 10) {
                for mut s in steered(r, m, nregs) {
                    s.t = t;
                    steps.push(s);
                }
            } else {
                let mut s = gen_op(r, m, nregs, &mix);
                s.t = t;
                steps.push(s);
            }
            if r.chance(psave, 100) {
                t += r.below(100_000);
                let mut s = Step { code: SAVE, t, ..Step::default() };
                s.a = [r.range(0, 2), r.range(0, 1), r.chance(1, 10) as i64, 0, 0, 0];
                steps.push(s);
                if r.chance(psync, 100) {
                    t += r.below(1_000_000);
                    steps.push(Step { code: SYNC, t, ..Step::default() });
                }
            }
            // crashes like to come right after a save
            let bias = if steps.last().map_or(false, |s| s.code == SAVE) { 3 } else { 1 };
            if r.chance(pcrash * bias, 100) {
                t += r.below(2_000_000);
                let mut s = Step { code: CRASH, t, ..Step::default() };
                s.a = [
                    r.next() as i64 & 0xffff,
                    r.next() as i64 & 0xffffff,
                    r.range(0, 1),
                    if r.chance(1, 4) { r.range(0, 10) } else { -1 },
                    r.range(0, 400),
                    0,
                ];
                steps.push(s);
            }
        }
        let mut s = Step { code: SAVE, t: t + 1, ..Step::default() };
        s.a = [r.range(0, 2), 1, 0, 0, 0, 0];
        steps.push(s);
        Plan { cfg: vec![fi, nregs], steps }
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Fail> {
        let f = fld(p.cfg[0]);
        let m = md(p.cfg[0]);
        let n = (p.cfg[1].max(1)) as usize;
        let mut a = vec![El::new(); n];
        let z = call(0, "zero()", || f.konst(0))?;
        for x in a.iter_mut() {
            *x = z;
        }
        let mut b = a.clone();
        let mut prog: Vec<Step> = Vec::new();
        let mut disk: Vec<Vec<u8>> = Vec::new();
        let mut pending: Vec<Vec<u8>> = Vec::new();
        for (i, s) in p.steps.iter().enumerate() {
            match s.code {
                SAVE => {
                    let mut rec = Vec::new();
                    crate::proc::put_u64(&mut rec, prog.len() as u64);
                    for k in 0..n {
                        let w = call(i, "saving", || {
                            let mut c = b[k];
                            let x = save(f, &mut c, s.a[0], m.nbytes);
                            if s.a[1] & 1 == 1 {
                                b[k] = c;
                            }
                            x
                        })?;
                        self.canonical(i, f, m, &a[k], &w, s.a[2] == 1)?;
                        st.log_bytes(&w);
                        rec.extend(w);
                    }
                    let sum = checksum(&rec);
                    crate::proc::put_u64(&mut rec, sum);
                    pending.push(rec);
                    st.count("saves");
                }
                SYNC => {
                    disk.append(&mut pending);
                    st.count("syncs");
                }
                CRASH => {
                    st.fault("crash");
                    for (q, mut rec) in pending.drain(..).enumerate() {
                        match (s.a[0] >> ((2 * q) % 16)) & 3 {
                            0 => st.fault("unsynced write lost"),
                            1 => {
                                st.fault("torn write");
                                let k = (s.a[4].unsigned_abs() as usize) % rec.len();
                                if s.a[4] & 1 == 0 {
                                    rec.truncate(k);
                                } else {
                                    for x in rec[k..].iter_mut() {
                                        *x = 0;
                                    }
                                }
                                disk.push(rec);
                            }
                            2 => {
                                st.fault("bit rot in unsynced write");
                                let k = (s.a[4].unsigned_abs() as usize) % rec.len();
                                rec[k] ^= 1 << (s.a[4] & 7);
                                disk.push(rec);
                            }
                            _ => disk.push(rec),
                        }
                    }
                    b = self.recover(i, f, m, n, &disk, &prog, s, st, s.a[3])?;
                    if s.a[3] >= 0 {
                        st.fault("crash during recovery");
                        b = self.recover(i, f, m, n, &disk, &prog, s, st, -1)?;
                    }
                    st.state(hash_words(&[p.cfg[0] as u64, disk.len() as u64, prog.len() as u64, s.code as u64, prog.last().map_or(0, |s| s.code as u64 * 16 + s.a[3] as u64)]));
                    for k in 0..n {
                        self.same(i, f, m, &a[k], &b[k], "after recovery")?;
                    }
                }
                _ => {
                    if !legal(m, n, s, &|k| Big::from_le(&bytes_of(f, &a[k]))) {
                        st.count("skipped outside contract");
                        continue;
                    }
                    let d = reg(s.a[0], n);
                    if call(i, "op", || real(f, &mut a, s)).is_err() {
                        st.count("run stopped: the uninterrupted twin panicked");
                        return Ok(());
                    }
                    call(i, &format!("{} {} in the interrupted twin only", m.name, opname(s)), || real(f, &mut b, s))?;
                    prog.push(s.clone());
                    self.same(i, f, m, &a[d], &b[d], "after an operation")?;
                    st.state(hash_words(&[p.cfg[0] as u64, s.code as u64, s.a[2] as u64, s.a[3] as u64, (a[d].0 == b[d].0) as u64]));
                    if a[d].0 != b[d].0 {
                        st.count("twins in different representations");
                    }
                }
            }
        }
        for k in 0..n {
            self.same(p.steps.len(), f, m, &a[k], &b[k], "at the end")?;
        }
        Ok(())
    }
    fn describe(&self, _p: &Plan, s: &Step) -> String {
        match s.code {
            SAVE => format!(
                "save all ({}{})",
                ["pack", "packed", "normalize+pack_normalized"][(s.a[0].unsigned_abs() % 3) as usize],
                if s.a[1] & 1 == 1 { ", in place" } else { ", of copies" }
            ),
            SYNC => "sync".into(),
            CRASH => format!("crash and restart, fate {:x}, second crash after {}", s.a[0], s.a[3]),
            _ => describe_op(s),
        }
    }
    fn rule(&self) -> &'static str {
        "one run = one field program run twice, uninterrupted and with seeded saves, syncs, lost / torn / damaged unsynced writes, crashes and crashes during recovery; non-trivial: at least one save, one crash and one operation after it"
    }
    fn nontrivial(&self, p: &Plan) -> bool {
        let sv = p.steps.iter().position(|s| s.code == SAVE);
        let cr = p.steps.iter().position(|s| s.code == CRASH);
        match (sv, cr) {
            (Some(_), Some(c)) => p.steps[c..].iter().any(|s| s.code < 20),
            _ => false,
        }
    }
    fn state_measure(&self) -> &'static str {
        "distinct (field, durable records, instructions executed, last instruction) at a crash, and (field, instruction, do the twins' representations differ) after each instruction"
    }
    fn real(&self) -> &'static str {
        "all nine fields: serialisation, deserialisation, normalisation and arithmetic"
    }
    fn stub(&self) -> &'static str {
        "the process that crashes, the disk, the entropy source"
    }
}

pub fn checksum(b: &[u8]) -> u64 {
    let mut h = 0x9157u64;
    for x in b {
        h = mix(h ^ *x as u64);
    }
    h
}

pub fn save(f: &dyn Field, e: &mut El, form: i64, nb: usize) -> Vec<u8> {
    match form.unsigned_abs() % 3 {
        0 => {
            let mut v = vec![0xa5u8; nb];
            f.pack(e, &mut v);
            v
        }
        1 => f.packed(e),
        _ => {
            f.normalize(e);
            let mut v = vec![0x5au8; nb];
            f.pack_normalized(e, &mut v);
            v
        }
    }
}

impl C02 {
    fn same(&self, i: usize, f: &dyn Field, m: &Mod, a: &El, b: &El, when: &str) -> Result<(), Fail> {
        let (x, y) = call(i, "packing", || (bytes_of(f, a), bytes_of(f, b)))?;
        if x != y {
            return fail(
                i,
                format!("{} interrupted run differs", m.name),
                format!("{}: uninterrupted {} interrupted {}", when, Big::from_le(&x).hex(), Big::from_le(&y).hex()),
            );
        }
        Ok(())
    }
    /// the saved bytes are the one canonical encoding of the value of `orig`
    fn canonical(&self, i: usize, f: &dyn Field, m: &Mod, orig: &El, w: &[u8], horner: bool) -> Result<(), Fail> {
        if w.len() != m.nbytes || Big::from_le(w).ge(&m.p) {
            return fail(i, format!("{} saved bytes not below the prime", m.name), format!("saved {}", hex(w)));
        }
        let (again, eq) = call(i, "reloading", || {
            let mut back = f.unpacked(w);
            let mut o = *orig;
            let eq = f.normalize_eq(&mut o, &mut back);
            (bytes_of(f, &back), eq)
        })?;
        if again != w {
            return fail(i, format!("{} reload and save again differs", m.name), format!("{} became {}", hex(w), hex(&again)));
        }
        if !eq {
            return fail(i, format!("{} reloaded element not equal to the saved one", m.name), format!("bytes {}", hex(w)));
        }
        if horner {
            // sum of byte_i * 256^i, built from the library's own additions, is the element
            let (v, o) = call(i, "summing the bytes", || {
                let one = f.konst(1);
                let mut acc = f.konst(0);
                for by in w.iter().rev() {
                    for bit in (0..8).rev() {
                        let c = acc;
                        f.bin(surface::ADD, 0, &mut acc, &c, &c);
                        if (by >> bit) & 1 == 1 {
                            let c = acc;
                            f.bin(surface::ADD, 0, &mut acc, &c, &one);
                        }
                    }
                }
                (bytes_of(f, &acc), bytes_of(f, orig))
            })?;
            if v != o {
                return fail(
                    i,
                    format!("{} encoding is not little-endian binary of the value", m.name),
                    format!("bytes {} sum to {}", hex(w), hex(&v)),
                );
            }
        }
        Ok(())
    }
    #[allow(clippy::too_many_arguments)]
    fn recover(&self, i: usize, f: &dyn Field, m: &Mod, n: usize, disk: &[Vec<u8>], prog: &[Step], s: &Step, st: &mut Stats, stop: i64) -> Result<Vec<El>, Fail> {
        // volatile memory: anything at all
        let mut b = vec![El::new(); n];
        let mut g = Rng::new(s.a[1] as u64);
        let z = call(i, "zero()", || f.konst(0))?;
        for x in b.iter_mut() {
            *x = z;
            if s.a[2] & 1 == 0 {
                // an in-place reload overwrites whatever the target held
                let junk = value(&mut g, m).to_le(m.nbytes);
                call(i, "reloading", || f.unpack(x, &junk))?;
            }
        }
        let mut best: Option<(usize, &Vec<u8>)> = None;
        for r in disk {
            if r.len() != 8 + n * m.nbytes + 8 {
                continue;
            }
            let (body, sum) = r.split_at(r.len() - 8);
            if checksum(body) != u64::from_le_bytes(sum.try_into().unwrap()) {
                continue;
            }
            let pc = u64::from_le_bytes(r[..8].try_into().unwrap()) as usize;
            if best.map_or(true, |(q, _)| pc >= q) {
                best = Some((pc, r));
            }
        }
        let mut pc = 0;
        if let Some((q, r)) = best {
            pc = q;
            st.count("restarts from a record");
            for k in 0..n {
                let w = &r[8 + k * m.nbytes..8 + (k + 1) * m.nbytes];
                call(i, "reloading", || {
                    if s.a[2] & 1 == 0 {
                        f.unpack(&mut b[k], w)
                    } else {
                        b[k] = f.unpacked(w)
                    }
                })?;
            }
        } else {
            st.count("restarts from scratch");
            for x in b.iter_mut() {
                *x = z;
            }
        }
        for (q, o) in prog[pc..].iter().enumerate() {
            if stop >= 0 && q as i64 >= stop {
                break;
            }
            call(i, &format!("{} {} in the interrupted twin only", m.name, opname(o)), || real(f, &mut b, o))?;
            st.count("instructions re-executed");
        }
        Ok(b)
    }
}
