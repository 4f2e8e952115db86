//! C01: any history of field operations computes the integers modulo p.

use crate::big::*;
use crate::fieldops::*;
use crate::plan::*;
use crate::rng::*;
use crate::steer::steered;
use surface::El;

pub struct C01;

impl Scenario for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick {
            1_200_000
        } else {
            24_000_000
        }
    }
    fn gen(&self, run: u64, r: &mut Rng, _t: Tier) -> Plan {
        // cfg: field, registers
        let fi = (run % 9) as i64;
        let m = md(fi);
        let nregs = r.range(2, 8);
        let mut steps = Vec::new();
        let callers = 1 + r.idx(4);
        let mixes: Vec<Mix> = (0..callers).map(|_| Mix::swarm(r, r_chance(run))).collect();
        let mut t = 0;
        for i in 0..nregs {
            let mut s = Step { code: LOAD, data: value(r, m).to_le(m.nbytes), ..Step::default() };
            s.a[0] = i;
            steps.push(s);
        }
        let max = if r.chance(1, 4) { 150 } else { 40 };
        let len = 4 + r.idx(max);
        let mut who = 0;
        let steer = r.pick(&[0, 0, 2, 10]);
        for _ in 0..len {
            // the scheduler: next caller, sometimes a burst of the same one
            if r.chance(2, 3) {
                who = r.idx(callers);
            }
            t += 1 + r.below(1000);
            if r.chance(steer, 40) {
                for mut s in steered(r, m, nregs) {
                    s.t = t;
                    s.a[5] = who as i64;
                    steps.push(s);
                }
                continue;
            }
            let mut s = gen_op(r, m, nregs, &mixes[who]);
            s.t = t;
            s.a[5] = who as i64;
            // lazy pile-up: the same accumulation many times without any normalising step
            if r.chance(1, 20) && matches!(s.code, BIN | SMALL) {
                s.a[1] = s.a[0];
                if s.code == BIN && s.a[3] == 3 {
                    s.a[3] = 2;
                }
                for _ in 0..r.below(12) {
                    steps.push(s.clone());
                }
            }
            steps.push(s);
        }
        Plan { cfg: vec![fi, nregs], steps }
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Fail> {
        let f = fld(p.cfg[0]);
        let m = md(p.cfg[0]);
        let n = (p.cfg[1].max(1)) as usize;
        let mut regs = vec![El::new(); n];
        let mut vals = vec![ZERO; n];
        let zero = call(0, "zero()", || f.konst(0))?;
        for r in regs.iter_mut() {
            *r = zero;
        }
        for (i, s) in p.steps.iter().enumerate() {
            if !legal(m, n, s, &|k| vals[k]) {
                st.count("skipped outside contract");
                continue;
            }
            let name = opname(s);
            let d = reg(s.a[0], n);
            let before = regs.clone();
            call(i, &format!("{} {}", m.name, name), || real(f, &mut regs, s))?;
            let got = call(i, &format!("{} packed after {}", m.name, name), || bytes_of(f, &regs[d]))?;
            st.log_bytes(&got);
            let g = Big::from_le(&got);
            let want = match model(m, &vals, s) {
                Some(v) => v,
                None if s.code == UN => {
                    let x = vals[reg(s.a[1], n)];
                    if m.sqr(&m.reduce(&g)) != x {
                        return fail(
                            i,
                            format!("{} sqrt wrong", m.name),
                            format!("sqrt of {} gave {}, whose square is another value", x.hex(), g.hex()),
                        );
                    }
                    m.reduce(&g)
                }
                None => m.reduce(&g),
            };
            if got != want.to_le(m.nbytes) {
                return fail(
                    i,
                    format!("{} {} wrong", m.name, name),
                    format!(
                        "{} with r* = {:?}: got {} want {}",
                        describe_op(s),
                        vals.iter().map(|v| v.hex()).collect::<Vec<_>>(),
                        g.hex(),
                        want.hex()
                    ),
                );
            }
            vals[d] = want;
            for k in 0..n {
                if k != d && before[k].0 != regs[k].0 {
                    return fail(i, "harness error", "an operation changed another register");
                }
            }
            if !st.quiet {
                self.probe(p, s, st, f, m, &before, &vals, n);
            }
        }
        for k in 0..n {
            let got = call(p.steps.len(), "packed at the end", || bytes_of(f, &regs[k]))?;
            if got != vals[k].to_le(m.nbytes) {
                return fail(p.steps.len(), format!("{} element changed", m.name), "an element changed behind its owner's back");
            }
        }
        Ok(())
    }
    fn describe(&self, _p: &Plan, s: &Step) -> String {
        format!("caller {}: {}", s.a[5], describe_op(s))
    }
    fn rule(&self) -> &'static str {
        "one run = one field, 1-4 callers, 2-8 shared registers, a seeded interleaving of their operations with swarm-chosen operation weights; non-trivial: at least 5 operations after the loads, of at least 2 kinds"
    }
    fn nontrivial(&self, p: &Plan) -> bool {
        let mut k: Vec<u16> = p.steps.iter().map(|s| s.code).filter(|c| *c != LOAD).collect();
        let n = k.len();
        k.sort();
        k.dedup();
        n >= 5 && k.len() >= 2
    }
    fn state_measure(&self) -> &'static str {
        "distinct (field, operation, spelling, operand-representation classes: canonical / carries pending / at or above p, near 0 / near p / other) contexts an operation ran in"
    }
    fn real(&self) -> &'static str {
        "all nine field implementations, unmodified"
    }
    fn stub(&self) -> &'static str {
        "callers (seeded programs), entropy source of rand"
    }
}

fn r_chance(run: u64) -> bool {
    (run / 9) % 3 == 0
}

impl C01 {
    fn probe(&self, p: &Plan, s: &Step, st: &mut Stats, f: &dyn surface::Field, m: &Mod, before: &[El], vals: &[Big], n: usize) {
        let cls = |k: usize, st: &mut Stats| -> u64 {
            let norm = is_normal(f, &before[k]);
            if !norm {
                st.count("operand not normalised");
            }
            let v = &vals[k];
            let near = if v.bits() < 16 {
                1
            } else if m.p.sub(v).bits() < 16 {
                2
            } else {
                0
            };
            norm as u64 * 4 + near
        };
        st.count(&format!("op {}", opname(s)));
        let mut w = vec![p.cfg[0] as u64, s.code as u64];
        match s.code {
            BIN => {
                w.extend([s.a[3] as u64, s.a[4] as u64, cls(reg(s.a[1], n), st), cls(reg(s.a[2], n), st), (s.a[1] == s.a[2]) as u64])
            }
            UN => w.extend([s.a[2] as u64, s.a[3] as u64, cls(reg(s.a[1], n), st)]),
            SMALL => {
                let k = imm_of(s.a[3], s.a[4]);
                w.extend([s.a[2] as u64, s.a[3] as u64, cls(reg(s.a[1], n), st), (k < 0) as u64, k.unsigned_abs().leading_zeros() as u64])
            }
            NORM | MASK | BITOP => w.extend([s.a[1] as u64 & 3, s.a[2] as u64, s.a[3] as u64, cls(reg(s.a[0], n), st)]),
            _ => {}
        }
        st.state(hash_words(&w));
    }
}
