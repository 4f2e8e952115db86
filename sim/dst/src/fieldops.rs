//! Field programs: a small register machine over the real library, with its reference model.

use crate::big::*;
use crate::plan::*;
use crate::rng::Rng;
use surface as s;
use surface::{El, Field, FIELDS};

pub const LOAD: u16 = 1; // dst form | data
pub const CONST: u16 = 2; // dst k
pub const BIN: u16 = 3; // dst x y op form
pub const UN: u16 = 4; // dst x op form
pub const SMALL: u16 = 5; // dst x op form imm
pub const NORM: u16 = 6; // dst
pub const MASK: u16 = 7; // dst kind: 0 and-ones 1 or-zeros 2 and-zeros ; form
pub const BITOP: u16 = 8; // dst y or form
pub const COPY: u16 = 9; // dst x
pub const RAND: u16 = 10; // dst form seed
pub const LONG: u16 = 11; // dst y kind times imm: dst op= y, many times over

pub const OPNAMES: [&str; 12] =
    ["?", "load", "const", "bin", "un", "small", "normalize", "mask", "bitop", "copy", "rand", "long"];
pub const LONGS: [&str; 9] =
    ["add", "sub", "double", "small_add", "small_sub", "mul", "square", "small_mul", "neg"];
/// how often a long step repeats its operation
pub fn times(st: &Step) -> u64 {
    st.a[3].unsigned_abs() % (1 << 18)
}

pub struct Words(pub Rng);
impl s::Entropy for Words {
    fn next_u32(&mut self) -> u32 {
        (self.0.next() >> 32) as u32
    }
}

pub fn fld(i: i64) -> &'static dyn Field {
    FIELDS[(i as usize) % 9]
}
pub fn md(i: i64) -> &'static Mod {
    &mods()[(i as usize) % 9]
}

/// A residue, biased towards values where digit carries, borrows and folds happen.
pub fn value(r: &mut Rng, m: &Mod) -> Big {
    let v = match r.below(13) {
        0 => Big::small(r.below(20)),
        1 => m.p.sub(&Big::small(1 + r.below(20 + m.c))),
        2 | 3 => Big::from_le(&r.bytes(72)),
        4 => pattern(r, m.n, m.limb),
        5 => pattern(r, m.n, m.limb / 2),
        6 => pattern(r, m.n, m.limb),
        7 => pattern(r, m.n, 8),
        8 => {
            let k = r.idx(m.n);
            let x = Big::pow2(k);
            let d = Big::small(r.below(40));
            if r.chance(1, 2) || d.ge(&x) {
                x.add(&d)
            } else {
                x.sub(&d)
            }
        }
        9 => {
            let mut x = ZERO;
            for _ in 0..1 + r.below(4) {
                x.set_bit(r.idx(m.n), true);
            }
            x
        }
        10 => {
            // a run of ones
            let lo = r.idx(m.n);
            let hi = lo + r.idx(m.n - lo) + 1;
            Big::pow2(hi).sub(&Big::pow2(lo))
        }
        11 => {
            // 2^n - 1 with a few bits cleared, just below or above p
            let mut x = Big::pow2(m.n).sub(&Big::small(1));
            for _ in 0..r.below(3) {
                x.set_bit(r.idx(m.n), false);
            }
            x
        }
        _ => {
            // a multiple of a limb boundary minus something small
            let k = m.limb * (1 + r.idx(m.n / m.limb + 1));
            if k < m.n {
                Big::pow2(k).sub(&Big::small(1 + r.below(300)))
            } else {
                m.p.sub(&Big::small(1 + r.below(300)))
            }
        }
    };
    let v = v.low_bits(m.n);
    if v.ge(&m.p) {
        v.sub(&m.p)
    } else {
        v
    }
}

/// Each digit of width w is zero, all ones, one, all ones but the last, top bit only, or random.
pub fn pattern(r: &mut Rng, n: usize, w: usize) -> Big {
    let mut x = ZERO;
    let style = r.below(3);
    let mut i = 0;
    while i < n {
        let kind = match style {
            0 => r.below(6),
            1 => r.below(2),
            _ => 1 + 4 * r.below(2),
        };
        let mut d = match kind {
            0 => 0,
            1 => u64::MAX,
            2 => 1,
            3 => u64::MAX - 1,
            4 => 1u64 << (w - 1),
            _ => r.next(),
        };
        for b in 0..w {
            if i + b < n && d & 1 == 1 {
                x.set_bit(i + b, true);
            }
            d >>= 1;
        }
        i += w;
    }
    x
}

pub fn imm(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 => r.range(-3, 3),
        1 => r.pick(&[i32::MIN as i64, i32::MIN as i64 + 1, i32::MAX as i64, i32::MAX as i64 - 1]),
        2 => r.pick(&[-128, 127, -32768, 32767, 128, 255, 256, 32768, 65535, 65536]),
        3 => {
            let k = r.below(31);
            let s = if r.chance(1, 2) { 1 } else { -1 };
            s * ((1i64 << k) + r.range(-1, 1))
        }
        4 => r.range(-300, 300),
        _ => r.next() as i32 as i64,
    }
}

/// the integer a small-number form really passes on
pub fn imm_of(form: i64, imm: i64) -> i64 {
    let i = imm as i32;
    match form {
        0..=5 => i as i64,
        6..=9 => (i as i16) as i64,
        _ => (i as i8) as i64,
    }
}

/// which kinds of operation a run uses (swarm testing)
#[derive(Clone)]
pub struct Mix {
    pub w: [u32; 16],
    pub un: [u32; 5],
    pub bin: [u32; 4],
}

impl Mix {
    /// kinds: 0 load 1 const 2 bin 3 un 4 small 5 norm 6 mask 7 bitop 8 copy 9 rand
    pub fn swarm(r: &mut Rng, expensive: bool) -> Mix {
        let mut w = [0u32; 16];
        let base = [6, 2, 14, 5, 12, 2, 1, 1, 1, 1];
        for i in 0..10 {
            w[i] = base[i] * r.pick(&[0, 1, 1, 2]) as u32;
        }
        w[10] = r.chance(1, 12) as u32;
        w[0] += 3;
        w[2] += 3;
        let mut un = [0u32; 5];
        let ub = if expensive { [8, 8, 1, 1, 2] } else { [8, 8, 0, 0, 0] };
        for i in 0..5 {
            un[i] = ub[i] * r.pick(&[0, 1, 2]) as u32;
        }
        un[0] += 1;
        un[1] += 1;
        let mut bin = [0u32; 4];
        let bb = if expensive { [12, 12, 10, 1] } else { [12, 12, 10, 0] };
        for i in 0..4 {
            bin[i] = bb[i] * r.pick(&[0, 1, 2]) as u32;
        }
        bin[r.idx(3)] += 2;
        Mix { w, un, bin }
    }
}

pub fn gen_op(r: &mut Rng, m: &Mod, regs: i64, mx: &Mix) -> Step {
    let mut st = Step::default();
    let reg = |r: &mut Rng| r.range(0, regs - 1);
    st.a[0] = reg(r);
    match r.weighted(&mx.w[..11]) {
        0 => {
            st.code = LOAD;
            st.a[1] = r.range(0, 1);
            st.data = value(r, m).to_le(m.nbytes);
        }
        1 => {
            st.code = CONST;
            st.a[1] = r.range(0, 7);
        }
        2 => {
            st.code = BIN;
            st.a[1] = reg(r);
            st.a[2] = if r.chance(1, 8) { st.a[1] } else { reg(r) };
            st.a[3] = r.weighted(&mx.bin) as i64;
            st.a[4] = r.range(0, 3);
            if r.chance(1, 2) {
                st.a[1] = st.a[0];
            }
        }
        3 => {
            st.code = UN;
            st.a[1] = if r.chance(1, 3) { st.a[0] } else { reg(r) };
            st.a[2] = r.weighted(&mx.un) as i64;
            st.a[3] = r.range(0, 1);
        }
        4 => {
            st.code = SMALL;
            st.a[1] = if r.chance(1, 2) { st.a[0] } else { reg(r) };
            st.a[2] = r.pick(&[0, 1, 2, 2]);
            st.a[3] = if r.chance(2, 3) { r.range(0, 5) } else { r.range(6, 13) };
            st.a[4] = imm(r);
        }
        5 => st.code = NORM,
        6 => {
            st.code = MASK;
            st.a[1] = r.pick(&[0, 0, 1, 1, 2]);
            st.a[2] = r.range(0, 1);
        }
        7 => {
            st.code = BITOP;
            st.a[1] = reg(r);
            st.a[2] = r.range(0, 1);
            st.a[3] = r.range(0, 2);
        }
        8 => {
            st.code = COPY;
            st.a[1] = reg(r);
        }
        9 => {
            st.code = RAND;
            st.a[1] = r.range(0, 1);
            st.a[2] = r.next() as i64;
        }
        _ => {
            st.code = LONG;
            st.a[1] = reg(r);
            st.a[2] = r.range(0, 8);
            // cheap operations for up to 2^17 times, the others for up to 2^11
            let top = if st.a[2] < 5 { 17 } else { 11 };
            let k = r.below(top);
            st.a[3] = ((1 << k) + r.below(1 << k)) as i64;
            st.a[4] = imm(r);
        }
    }
    st
}

pub fn reg(x: i64, n: usize) -> usize {
    (x.unsigned_abs() as usize) % n
}

pub fn opname(st: &Step) -> String {
    match st.code {
        BIN => ["add", "sub", "mul", "div"][(st.a[3].unsigned_abs() as usize) % 4].to_string(),
        UN => ["neg", "square", "invert", "legendre", "sqrt"][(st.a[2].unsigned_abs() as usize) % 5].to_string(),
        SMALL => ["small_add", "small_sub", "small_mul"][(st.a[2].unsigned_abs() as usize) % 3].to_string(),
        LONG => format!("repeated {}", LONGS[(st.a[2].unsigned_abs() % 9) as usize]),
        BITOP => (if st.a[2] & 1 == 1 { "bitor" } else { "bitand" }).to_string(),
        c if (c as usize) < OPNAMES.len() => OPNAMES[c as usize].to_string(),
        _ => "?".into(),
    }
}

pub fn describe_op(st: &Step) -> String {
    let a = &st.a;
    match st.code {
        LOAD => format!("r{} = load {}", a[0], Big::from_le(&st.data).hex()),
        CONST => format!(
            "r{} = {}",
            a[0],
            ["zero()", "one()", "m_one()", "modulus()", "ZERO", "ONE", "M_ONE", "MODULUS"][(a[1] & 7) as usize]
        ),
        BIN => format!("r{} = r{} {} r{} (form {})", a[0], a[1], opname(st), a[2], a[4]),
        UN => format!("r{} = {}(r{}) (form {})", a[0], opname(st), a[1], a[3]),
        SMALL => format!("r{} = {}(r{}, {}) (form {})", a[0], opname(st), a[1], imm_of(a[3], a[4]), a[3]),
        NORM => format!("normalize r{}", a[0]),
        MASK => format!("r{} {}", a[0], ["&= filled(1)", "|= filled(0)", "&= filled(0)"][(a[1].unsigned_abs() % 3) as usize]),
        BITOP => format!("r{} {} r{} (form {})", a[0], opname(st), a[1], a[3]),
        COPY => format!("r{} = r{}", a[0], a[1]),
        RAND => format!("r{} = rand (seed {})", a[0], a[2]),
        LONG => format!("r{}: {} times {} (r{}, {})", a[0], times(st), opname(st), a[1], a[4] as i32),
        c => format!("code {}", c),
    }
}

/// Would this operation be inside its contract for these operand values?
pub fn legal(m: &Mod, n: usize, st: &Step, val: &dyn Fn(usize) -> Big) -> bool {
    match st.code {
        BIN if st.a[3].unsigned_abs() % 4 == 3 => !val(reg(st.a[2], n)).is_zero(),
        UN => match st.a[2].unsigned_abs() % 5 {
            2 => !val(reg(st.a[1], n)).is_zero(),
            4 => m.is_qr(&val(reg(st.a[1], n))),
            _ => true,
        },
        LOAD => st.data.len() >= m.nbytes && !Big::from_le(&st.data[..m.nbytes]).ge(&m.p),
        _ => true,
    }
}

/// Run one operation on the real library.
pub fn real(f: &dyn Field, regs: &mut [El], st: &Step) {
    let n = regs.len();
    let d = reg(st.a[0], n);
    match st.code {
        LOAD => {
            if st.a[1] & 1 == 0 {
                f.unpack(&mut regs[d], &st.data)
            } else {
                regs[d] = f.unpacked(&st.data)
            }
        }
        CONST => regs[d] = f.konst((st.a[1] & 7) as u8),
        BIN => {
            let (x, y) = (regs[reg(st.a[1], n)], regs[reg(st.a[2], n)]);
            f.bin((st.a[3].unsigned_abs() % 4) as u8, (st.a[4] & 3) as u8, &mut regs[d], &x, &y)
        }
        UN => {
            let x = regs[reg(st.a[1], n)];
            f.un((st.a[2].unsigned_abs() % 5) as u8, (st.a[3] & 1) as u8, &mut regs[d], &x)
        }
        SMALL => {
            let x = regs[reg(st.a[1], n)];
            f.small(
                (st.a[2].unsigned_abs() % 3) as u8,
                (st.a[3].unsigned_abs() % 14) as u8,
                &mut regs[d],
                &x,
                st.a[4] as i32,
            )
        }
        NORM => f.normalize(&mut regs[d]),
        MASK => {
            let kind = st.a[1].unsigned_abs() % 3;
            let mut mask = if st.a[2] & 1 == 0 {
                f.filled(kind == 0)
            } else {
                let mut e = regs[d];
                f.fill(&mut e, kind == 0);
                e
            };
            f.bitop(kind == 1, 2, &mut regs[d], &mut mask)
        }
        BITOP => {
            let mut y = regs[reg(st.a[1], n)];
            let form = (st.a[3].unsigned_abs() % 3) as u8;
            if form >= 1 {
                f.normalize(&mut y);
            }
            if form == 2 {
                f.normalize(&mut regs[d]);
            }
            f.bitop(st.a[2] & 1 == 1, form, &mut regs[d], &mut y)
        }
        COPY => regs[d] = regs[reg(st.a[1], n)],
        RAND => {
            let mut w = Words(Rng::new(st.a[2] as u64));
            regs[d] = f.rand((st.a[1] & 1) as u8, &mut w)
        }
        LONG => {
            let y = regs[reg(st.a[1], n)];
            let (kind, k) = (st.a[2].unsigned_abs() % 9, st.a[4] as i32);
            for _ in 0..times(st) {
                let x = regs[d];
                match kind {
                    0 => f.bin(s::ADD, 2, &mut regs[d], &x, &y),
                    1 => f.bin(s::SUB, 2, &mut regs[d], &x, &y),
                    2 => f.bin(s::ADD, 2, &mut regs[d], &x, &x),
                    3 => f.small(s::ADD, 0, &mut regs[d], &x, k),
                    4 => f.small(s::SUB, 0, &mut regs[d], &x, k),
                    5 => f.bin(s::MUL, 2, &mut regs[d], &x, &y),
                    6 => f.un(s::SQR, 0, &mut regs[d], &x),
                    7 => f.small(s::MUL, 0, &mut regs[d], &x, k),
                    _ => f.un(s::NEG, 0, &mut regs[d], &x),
                }
            }
        }
        _ => {}
    }
}

/// The same operation on residues.  None: the model has nothing to say (rand; which root).
pub fn model(m: &Mod, vals: &[Big], st: &Step) -> Option<Big> {
    let n = vals.len();
    let d = reg(st.a[0], n);
    Some(match st.code {
        LOAD => Big::from_le(&st.data[..m.nbytes]),
        CONST => match st.a[1] & 3 {
            0 | 3 => ZERO,
            1 => Big::small(1),
            _ => m.p.sub(&Big::small(1)),
        },
        BIN => {
            let (x, y) = (vals[reg(st.a[1], n)], vals[reg(st.a[2], n)]);
            match st.a[3].unsigned_abs() % 4 {
                0 => m.add(&x, &y),
                1 => m.sub(&x, &y),
                2 => m.mul(&x, &y),
                _ => m.mul(&x, &m.inv(&y)),
            }
        }
        UN => {
            let x = vals[reg(st.a[1], n)];
            match st.a[2].unsigned_abs() % 5 {
                0 => m.neg(&x),
                1 => m.sqr(&x),
                2 => m.inv(&x),
                3 => m.legendre(&x),
                _ => return None,
            }
        }
        SMALL => {
            let x = vals[reg(st.a[1], n)];
            let k = m.signed(imm_of((st.a[3].unsigned_abs() % 14) as i64, st.a[4]));
            match st.a[2].unsigned_abs() % 3 {
                0 => m.add(&x, &k),
                1 => m.sub(&x, &k),
                _ => m.mul(&x, &k),
            }
        }
        NORM => vals[d],
        MASK => {
            if st.a[1].unsigned_abs() % 3 == 2 {
                ZERO
            } else {
                vals[d]
            }
        }
        BITOP => {
            let y = vals[reg(st.a[1], n)];
            m.reduce(&if st.a[2] & 1 == 1 { vals[d].or(&y) } else { vals[d].and(&y) })
        }
        COPY => vals[reg(st.a[1], n)],
        LONG => {
            let (x, y, t) = (vals[d], vals[reg(st.a[1], n)], times(st));
            let (k, nt) = (m.signed(st.a[4] as i32 as i64), m.signed(t as i64));
            let e = Big::small(t);
            match st.a[2].unsigned_abs() % 9 {
                0 => m.add(&x, &m.mul(&nt, &y)),
                1 => m.sub(&x, &m.mul(&nt, &y)),
                2 => m.mul(&x, &m.pow(&Big::small(2), &e)),
                3 => m.add(&x, &m.mul(&nt, &k)),
                4 => m.sub(&x, &m.mul(&nt, &k)),
                5 => m.mul(&x, &m.pow(&y, &e)),
                6 => {
                    let mut x = x;
                    for _ in 0..t {
                        x = m.sqr(&x);
                    }
                    x
                }
                7 => m.mul(&x, &m.pow(&k, &e)),
                _ if t % 2 == 1 => m.neg(&x),
                _ => x,
            }
        }
        _ => return None,
    })
}

/// canonical bytes of a copy
pub fn bytes_of(f: &dyn Field, e: &El) -> Vec<u8> {
    let mut c = *e;
    f.packed(&mut c)
}

pub fn is_normal(f: &dyn Field, e: &El) -> bool {
    let mut c = *e;
    f.normalize(&mut c);
    c.0[..f.size() / 8] == e.0[..f.size() / 8]
}

pub const SKEWS: i64 = 10;
/// The same value in a different internal form, reached through library operations.
pub fn skew(f: &dyn Field, e: &El, kind: i64) -> El {
    let mut o = *e;
    let x = *e;
    match kind.unsigned_abs() % SKEWS as u64 {
        0 => {}
        1 => {
            f.small(s::ADD, 0, &mut o, &x, 77);
            let y = o;
            f.small(s::SUB, 0, &mut o, &y, 77);
        }
        2 => {
            f.small(s::SUB, 0, &mut o, &x, 12345);
            let y = o;
            f.small(s::ADD, 0, &mut o, &y, 12345);
        }
        3 => {
            f.un(s::NEG, 0, &mut o, &x);
            let y = o;
            f.un(s::NEG, 0, &mut o, &y);
        }
        4 => f.bin(s::ADD, 0, &mut o, &x, &f.konst(7)),
        5 => f.bin(s::SUB, 0, &mut o, &x, &f.konst(7)),
        6 => {
            let z = f.konst(0);
            f.bin(s::SUB, 0, &mut o, &z, &x);
            let y = o;
            f.bin(s::SUB, 0, &mut o, &z, &y);
        }
        7 => f.bin(s::MUL, 0, &mut o, &x, &f.konst(1)),
        8 => {
            f.bin(s::ADD, 0, &mut o, &x, &x);
            let y = o;
            f.bin(s::SUB, 0, &mut o, &y, &x);
        }
        _ => {
            f.small(s::MUL, 0, &mut o, &x, -1);
            let y = o;
            f.small(s::MUL, 0, &mut o, &y, -1);
        }
    }
    o
}
