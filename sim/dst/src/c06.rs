//! C06: formatting survives any sink failure without losing or inventing output.

use crate::big::*;
use crate::fieldops::*;
use crate::plan::*;
use crate::rng::*;
use crate::steer::steered;
use std::fmt;
use surface::{El, Field, FORMATS};

pub const FMT: u16 = 85; // x format sink-kind k arg

pub struct C06;

pub const SINKS: [&str; 7] =
    ["healthy", "full after k bytes", "short write then error", "error on k-th call", "panic on k-th call", "re-entrant", "one transient error"];

const FNAMES: [&str; 12] = [
    "hex", "upper hex", "debug", "hex with prefix", "hex with width", "upper hex with prefix and zeros", "hex with precision",
    "upper hex with sign", "upper hex centred", "hex with small width", "pretty debug", "debug with flags",
];

struct SinkFault(i64);

/// Is `o` the digits, give or take what width, sign and prefix flags ask for?
fn carries(o: &str, digits: &str) -> bool {
    let o = o.trim_matches(|c| c == ' ' || c == '*');
    let o = o.strip_prefix('+').unwrap_or(o);
    let o = o.strip_prefix("0x").or_else(|| o.strip_prefix("0X")).unwrap_or(o);
    match o.strip_suffix(digits) {
        Some(zeros) => zeros.chars().all(|c| c == '0'),
        None => false,
    }
}

struct Sink<'a> {
    kind: usize,
    k: i64,
    f: &'a dyn Field,
    other: El,
    out: String,
    calls: i64,
    failed: bool,
    panicked: bool,
    after: u32,
    inner: Option<String>,
}

impl<'a> fmt::Write for Sink<'a> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after += 1;
            // a transient error: the sink would take more, were it asked
            if self.kind != 6 {
                return Err(fmt::Error);
            }
        }
        let c = self.calls;
        self.calls += 1;
        let room = (self.k - self.out.len() as i64).max(0) as usize;
        match self.kind {
            1 if s.len() > room => {
                self.failed = true;
                return Err(fmt::Error);
            }
            2 if s.len() > room => {
                self.out.push_str(&s[..room]);
                self.failed = true;
                return Err(fmt::Error);
            }
            3 | 6 if c == self.k => {
                self.failed = true;
                return Err(fmt::Error);
            }
            4 if c == self.k => {
                self.panicked = true;
                std::panic::panic_any(SinkFault(self.k));
            }
            5 if c == self.k => {
                let mut i = String::new();
                let mut x = self.other;
                let y = x;
                self.f.bin(surface::MUL, 0, &mut x, &y, &y);
                let _ = self.f.format(0, &x, &mut i);
                self.inner = Some(i);
            }
            _ => {}
        }
        self.out.push_str(s);
        Ok(())
    }
}

impl Scenario for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick {
            1_200_000
        } else {
            40_000_000
        }
    }
    fn gen(&self, run: u64, r: &mut Rng, _t: Tier) -> Plan {
        let fi = (run % 9) as i64;
        let m = md(fi);
        let nregs = r.range(1, 4);
        let mix = Mix::swarm(r, false);
        let mut steps = Vec::new();
        for i in 0..nregs {
            let mut s = Step { code: LOAD, data: value(r, m).to_le(m.nbytes), ..Step::default() };
            s.a[0] = i;
            steps.push(s);
        }
        let mut t = 0;
        let kinds: Vec<i64> = (0..3).map(|_| r.range(0, 6)).collect();
        for _ in 0..2 + r.idx(14) {
            t += 1 + r.below(1000);
            if r.chance(1, 2) {
                if r.chance(1, 8) {
                    for mut s in steered(r, m, nregs) {
                        s.t = t;
                        steps.push(s);
                    }
                    continue;
                }
                let mut s = gen_op(r, m, nregs, &mix);
                s.t = t;
                steps.push(s);
                continue;
            }
            let mut s = Step { code: FMT, t, ..Step::default() };
            let kind = r.pick(&kinds);
            let top = 2 * m.nbytes as i64 + 2;
            s.a = [
                r.range(0, nregs - 1),
                if r.chance(1, 4) { r.range(3, 11) } else { r.range(0, 2) },
                kind,
                match r.below(6) {
                    0 => r.range(0, 3),
                    1 => r.range(top - 5, top),
                    2 => r.range(0, 2 * top),
                    _ => r.range(0, top),
                },
                r.range(0, nregs - 1),
                0,
            ];
            // right after an operation is where the form is unusual
            if let Some(l) = steps.last() {
                if l.code < 20 && r.chance(2, 3) {
                    s.a[0] = l.a[0];
                }
            }
            steps.push(s);
        }
        Plan { cfg: vec![fi, nregs], steps }
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Fail> {
        let f = fld(p.cfg[0]);
        let m = md(p.cfg[0]);
        let n = (p.cfg[1].max(1)) as usize;
        let z = call(0, "zero()", || f.konst(0))?;
        let mut regs = vec![z; n];
        let mut vals = vec![ZERO; n];
        for (i, s) in p.steps.iter().enumerate() {
            if s.code == FMT {
                self.format(i, p, s, f, m, &regs, &vals, st)?;
                continue;
            }
            if !legal(m, n, s, &|k| vals[k]) {
                continue;
            }
            let d = reg(s.a[0], n);
            call(i, &format!("{} {}", m.name, opname(s)), || real(f, &mut regs, s))?;
            // the value as the library has it: what formatting must show
            vals[d] = Big::from_le(&call(i, "packing", || bytes_of(f, &regs[d]))?);
        }
        Ok(())
    }
    fn describe(&self, _p: &Plan, s: &Step) -> String {
        match s.code {
            FMT => format!("format r{} as {} into a sink: {} (k = {})", s.a[0], FORMATS[(s.a[1].unsigned_abs() % 12) as usize], SINKS[(s.a[2].unsigned_abs() % 7) as usize], s.a[3]),
            _ => describe_op(s),
        }
    }
    fn rule(&self) -> &'static str {
        "one run = one field program whose elements are formatted at seeded points into sinks with seeded faults; non-trivial: at least one operation and two formatting attempts, one of them on a faulty sink"
    }
    fn nontrivial(&self, p: &Plan) -> bool {
        p.steps.iter().filter(|s| s.code == FMT).count() >= 2
            && p.steps.iter().any(|s| s.code == FMT && s.a[2] != 0)
            && p.steps.iter().any(|s| s.code > 1 && s.code < 20)
    }
    fn state_measure(&self) -> &'static str {
        "distinct (field, format, sink kind, failure point, was the element normalised) of a formatting attempt"
    }
    fn real(&self) -> &'static str {
        "Debug, LowerHex, UpperHex of the nine fields through core::fmt"
    }
    fn stub(&self) -> &'static str {
        "output sinks"
    }
}

impl C06 {
    #[allow(clippy::too_many_arguments)]
    fn format(&self, i: usize, p: &Plan, s: &Step, f: &dyn Field, m: &Mod, regs: &[El], vals: &[Big], st: &mut Stats) -> Result<(), Fail> {
        let n = regs.len();
        let (x, y) = (reg(s.a[0], n), reg(s.a[4], n));
        let form = (s.a[1].unsigned_abs() % 12) as u8;
        let kind = (s.a[2].unsigned_abs() % 7) as usize;
        let fname = FNAMES[form as usize];
        let mut e = regs[x];
        let digits = vals[x].to_le(m.nbytes).iter().rev().map(|b| if FORMATS[form as usize].contains('X') { format!("{:02X}", b) } else { format!("{:02x}", b) }).collect::<String>();
        // what a healthy sink gets
        let full = match form {
            0 | 1 => digits,
            _ => {
                let mut o = String::new();
                let mut c = regs[x];
                match call(i, "formatting", || f.format(form, &c, &mut o))? {
                    Ok(()) => {}
                    Err(_) => return fail(i, format!("{} {} fails on a healthy sink", m.name, fname), ""),
                }
                // the same element prints the same: also once copied elsewhere
                let mut o2 = String::new();
                c = regs[x];
                let _ = call(i, "formatting", || f.format(form, &c, &mut o2))?;
                if o != o2 {
                    return fail(i, format!("{} {} output differs between attempts", m.name, fname), format!("{} / {}", o, o2));
                }
                // flags may pad and prefix (or be ignored); the digits must be there
                if !FORMATS[form as usize].contains('?') && !carries(&o, &digits) {
                    return fail(i, format!("{} {}: wrong output", m.name, fname), format!("{} instead of {}", o, digits));
                }
                o
            }
        };
        for attempt in 0..2 {
            // the second attempt is on a healthy sink
            let kind = if attempt == 0 { kind } else { 0 };
            let mut k = Sink { kind, k: s.a[3].max(0), f, other: regs[y], out: String::new(), calls: 0, failed: false, panicked: false, after: 0, inner: None };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.format(form, &e, &mut k)));
            st.log_bytes(k.out.as_bytes());
            if attempt == 0 && !st.quiet {
                if k.failed || k.panicked || k.inner.is_some() {
                    st.fault(SINKS[kind]);
                }
                st.state(hash_words(&[p.cfg[0] as u64, form as u64, kind as u64, if k.failed || k.panicked { k.k as u64 } else { 9999 }, is_normal(f, &e) as u64]));
                st.count(&format!("{} attempts", fname));
                if !is_normal(f, &e) {
                    st.count("element not normalised");
                }
            }
            let bad = |what: &str, got: String| fail(i, format!("{} {}: {}", m.name, fname, what), got);
            match r {
                Err(pl) => match pl.downcast_ref::<SinkFault>() {
                    Some(q) if k.panicked && q.0 == k.k => {}
                    _ => return bad("panic", last_panic()),
                },
                Ok(_) if k.panicked => return bad("swallowed the sink's panic", k.out),
                Ok(Ok(())) => {
                    if k.failed {
                        return bad("swallowed the sink's failure", k.out);
                    }
                    if k.out != full {
                        return bad("wrong output", format!("{} instead of {}", k.out, full));
                    }
                }
                Ok(Err(_)) => {
                    if !k.failed {
                        return bad("reported a failure the sink did not have", k.out);
                    }
                }
            }
            if k.after > 0 {
                return bad("wrote after the sink failed", k.out);
            }
            if !full.starts_with(&k.out) {
                return bad("delivered something else than a prefix", format!("{} instead of {}", k.out, full));
            }
            if k.kind == 2 && k.failed && k.out.len() != (k.k as usize).min(full.len()) {
                return bad("delivered another prefix than the sink accepted", k.out);
            }
            if let Some(inn) = &k.inner {
                let v = md(p.cfg[0]).sqr(&vals[y]);
                let w = v.to_le(m.nbytes).iter().rev().map(|b| format!("{:02x}", b)).collect::<String>();
                if *inn != w {
                    return bad("nested formatting wrong", format!("{} instead of {}", inn, w));
                }
            }
            if e.0 != regs[x].0 {
                return bad("changed the element", String::new());
            }
            let b = call(i, "packing", || bytes_of(f, &e))?;
            if b != vals[x].to_le(m.nbytes) {
                return bad("changed the element's value", hex(&b));
            }
            e = regs[x];
        }
        Ok(())
    }
}
