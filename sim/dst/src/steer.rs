//! Inputs whose exact integer product, square, sum, difference or small multiple, or whose reduced
//! result, is a chosen digit pattern: carries and folds that random operands meet once in millions
//! of operations happen here in one of a few.

use crate::big::*;
use crate::fieldops::*;
use crate::plan::*;
use crate::rng::*;
use surface as s;

type W = Vec<u64>;

fn bit(a: &[u64], i: usize) -> bool {
    i / 64 < a.len() && a[i / 64] >> (i % 64) & 1 == 1
}
fn bits(a: &[u64]) -> usize {
    match a.iter().rposition(|x| *x != 0) {
        Some(q) => q * 64 + 64 - a[q].leading_zeros() as usize,
        None => 0,
    }
}
fn ge(a: &[u64], b: &[u64]) -> bool {
    for i in (0..a.len().max(b.len())).rev() {
        let (x, y) = (a.get(i).copied().unwrap_or(0), b.get(i).copied().unwrap_or(0));
        if x != y {
            return x > y;
        }
    }
    true
}
/// a -= b, wrapping at the length of a
fn sub(a: &mut [u64], b: &[u64]) {
    let mut bw = 0u64;
    for i in 0..a.len() {
        let (x, c1) = a[i].overflowing_sub(b.get(i).copied().unwrap_or(0));
        let (x, c2) = x.overflowing_sub(bw);
        a[i] = x;
        bw = (c1 | c2) as u64;
    }
}
fn shl1(a: &mut [u64], low: bool) {
    let mut c = low as u64;
    for x in a.iter_mut() {
        let n = *x >> 63;
        *x = *x << 1 | c;
        c = n;
    }
}
fn mul(a: &[u64], b: &[u64]) -> W {
    let mut t = vec![0u64; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u128;
        for j in 0..b.len() {
            c += a[i] as u128 * b[j] as u128 + t[i + j] as u128;
            t[i + j] = c as u64;
            c >>= 64;
        }
        t[i + b.len()] = c as u64;
    }
    t
}
fn shr(a: &[u64], k: usize) -> W {
    (0..a.len())
        .map(|i| {
            let s = i + k / 64;
            let lo = a.get(s).copied().unwrap_or(0) >> (k % 64);
            let hi = if k % 64 == 0 { 0 } else { a.get(s + 1).copied().unwrap_or(0) << (64 - k % 64) };
            lo | hi
        })
        .collect()
}
fn shl(a: &[u64], k: usize) -> W {
    let mut r = vec![0; a.len() + k / 64 + 1];
    for i in 0..a.len() {
        r[i + k / 64] |= a[i] << (k % 64);
        if k % 64 != 0 {
            r[i + k / 64 + 1] |= a[i] >> (64 - k % 64);
        }
    }
    r
}
fn div(a: &[u64], b: &[u64]) -> W {
    let mut q = vec![0u64; a.len()];
    let mut rem = vec![0u64; b.len() + 1];
    for i in (0..bits(a)).rev() {
        shl1(&mut rem, bit(a, i));
        if ge(&rem, b) {
            sub(&mut rem, b);
            q[i / 64] |= 1 << (i % 64);
        }
    }
    q
}
fn isqrt(a: &[u64]) -> W {
    let mut root = vec![0u64; a.len()];
    let mut rem = vec![0u64; a.len()];
    for i in (0..bits(a).div_ceil(2)).rev() {
        shl1(&mut rem, bit(a, 2 * i + 1));
        shl1(&mut rem, bit(a, 2 * i));
        let mut t = shl(&root, 2);
        t[0] |= 1;
        shl1(&mut root, false);
        if ge(&rem, &t) {
            sub(&mut rem, &t);
            root[0] |= 1;
        }
    }
    root
}
/// b with a * b = t modulo 2^k, a odd
fn quot2(t: &[u64], a: &[u64], k: usize) -> W {
    let mut res = t.to_vec();
    let mut b = vec![0u64; k / 64 + 1];
    for i in 0..k {
        if bit(&res, i) {
            b[i / 64] |= 1 << (i % 64);
            sub(&mut res, &shl(a, i));
        }
    }
    b
}
fn big(a: &[u64]) -> Big {
    let mut r = ZERO;
    for i in 0..9 {
        r.0[i] = a.get(i).copied().unwrap_or(0);
    }
    r
}

/// A number of `n` bits in digits of width `w`: extreme, nearly extreme, small, random digits, and
/// digits where c times the digit comes close to a multiple of the digit base.
fn digits(r: &mut Rng, n: usize, w: usize, c: u64) -> W {
    let mut x = vec![0u64; n / 64 + 1];
    let style = r.below(5);
    let mask = if w >= 64 { u64::MAX } else { (1 << w) - 1 };
    let mut i = 0;
    while i < n {
        let kind = match style {
            0 => r.below(8),
            1 => r.pick(&[0, 1]),
            2 => r.pick(&[1, 2, 4]),
            3 => r.pick(&[0, 3, 4]),
            _ => r.pick(&[2, 5, 6, 7]),
        };
        let d = match kind {
            0 => 0,
            1 => mask,
            2 => r.next() & mask,
            3 => (r.next() & mask) >> r.idx(w),
            4 => mask - ((r.next() & mask) >> r.idx(w)),
            5 => 1 << (w - 1),
            _ => {
                let j = 1 + r.below(c);
                let q = ((j as u128) << w) / c as u128;
                (q as u64).wrapping_add(r.below(3)).wrapping_sub(if kind == 6 { 1 } else { 0 }) & mask
            }
        };
        for b in 0..w.min(n - i) {
            if d >> b & 1 == 1 {
                x[(i + b) / 64] |= 1 << ((i + b) % 64);
            }
        }
        i += w;
    }
    x
}

fn width(r: &mut Rng, m: &Mod) -> usize {
    r.pick(&[m.limb, m.limb, m.limb / 2])
}
/// a residue with a digit pattern
fn patt(r: &mut Rng, m: &Mod) -> Big {
    if r.chance(1, 4) {
        return value(r, m);
    }
    let w = width(r, m);
    m.reduce(&big(&digits(r, m.n, w, m.c)).low_bits(m.n))
}
/// 2n bits to be the exact product
fn wide(r: &mut Rng, m: &Mod) -> W {
    let w = width(r, m);
    let h = match r.below(4) {
        0 => return digits(r, 2 * m.n, w, m.c),
        1 => big(&digits(r, m.n, w, m.c)),
        _ => {
            // the high half times c is the pattern
            let p = digits(r, m.n + 64 - m.c.leading_zeros() as usize, w, m.c);
            big(&div(&p, &[m.c])).low_bits(m.n)
        }
    };
    let mut t = shl(&h.0, m.n);
    let lo = digits(r, m.n, w, m.c);
    for i in 0..lo.len() {
        t[i] |= lo[i];
    }
    t
}
fn fit(m: &Mod, a: &[u64]) -> Option<Big> {
    if bits(a) > m.n {
        return None;
    }
    let b = big(a);
    if b.ge(&m.p) {
        None
    } else {
        Some(b)
    }
}

/// a short number, somewhere
fn tiny(r: &mut Rng, m: &Mod) -> Big {
    let k = if r.chance(1, 2) { 7 } else { 1 + r.idx(m.limb) };
    let sh = r.pick(&[0, 0, m.limb, 2 * m.limb, m.limb / 2, m.n / 2, m.n - k, m.n - k, m.n - k]);
    m.reduce(&big(&shl(&[r.next() & ((1 << k) - 1)], sh)).low_bits(m.n))
}

/// operands of a multiplication
pub fn product(r: &mut Rng, m: &Mod) -> (Big, Big) {
    if r.chance(1, 6) {
        return (tiny(r, m), tiny(r, m));
    }
    let mut a = match r.below(3) {
        0 => patt(r, m),
        1 => Big::from_le(&r.bytes(72)).low_bits(m.n),
        _ => value(r, m),
    };
    a = m.reduce(&a);
    if a.is_zero() {
        a = Big::small(3);
    }
    let b = match r.below(4) {
        0 | 1 => {
            // the high bits of the exact product
            a.set_bit(m.n - 1, true);
            a = m.reduce(&a);
            fit(m, &div(&wide(r, m), &a.0))
        }
        2 => {
            // its low k bits and its high n - k bits
            a.set_bit(m.n - 1, true);
            a.set_bit(0, true);
            a = m.reduce(&a);
            a.set_bit(0, true);
            let k = r.pick(&[m.n, m.limb, 2 * m.limb, m.n / 2, m.n - m.limb]);
            let mut t = wide(r, m);
            t.resize(20, 0);
            let lo = quot2(&t, &a.0, k);
            let al = mul(&a.0, &lo);
            if k < m.n && ge(&t, &al) {
                sub(&mut t, &al);
                let hi = shl(&div(&shr(&t, k), &a.0), k);
                let mut b = hi;
                for i in 0..lo.len().min(b.len()) {
                    b[i] |= lo[i];
                }
                fit(m, &b)
            } else {
                fit(m, &lo)
            }
        }
        _ => Some(m.mul(&patt(r, m), &m.inv(&a))),
    };
    (a, b.unwrap_or_else(|| value(r, m)))
}
/// operand of a squaring
pub fn root(r: &mut Rng, m: &Mod) -> Big {
    if r.chance(2, 3) {
        if let Some(a) = fit(m, &isqrt(&wide(r, m))) {
            return a;
        }
    }
    let x = patt(r, m);
    m.sqrt(&x).unwrap_or(x)
}
/// operand whose product by the small number k is steered
pub fn small_factor(r: &mut Rng, m: &Mod, k: i64) -> Big {
    let kk = k.unsigned_abs().max(1);
    let kb = 64 - kk.leading_zeros() as usize;
    let w = width(r, m);
    match r.below(3) {
        0 => {
            let t = digits(r, m.n + kb, w, m.c);
            fit(m, &div(&t, &[kk])).unwrap_or_else(|| value(r, m))
        }
        1 => {
            // each digit times k close to a multiple of the digit base
            m.reduce(&big(&digits(r, m.n, w, kk)).low_bits(m.n))
        }
        _ => m.mul(&patt(r, m), &m.inv(&Big::small(kk))),
    }
}
/// summands
pub fn sum(r: &mut Rng, m: &Mod) -> (Big, Big) {
    let a = if r.chance(1, 2) { patt(r, m) } else { m.reduce(&Big::from_le(&r.bytes(72)).low_bits(m.n)) };
    let b = other(r, m, &a);
    (a, b)
}
/// what to add to `a`
pub fn other(r: &mut Rng, m: &Mod, a: &Big) -> Big {
    if r.chance(1, 2) {
        return m.sub(&patt(r, m), a);
    }
    // digits of the sum before any reduction
    let w = width(r, m);
    let mut t = digits(r, m.n + 1, w, m.c);
    t.resize(9, 0);
    if ge(&t, &a.0) {
        sub(&mut t, &a.0);
    }
    m.reduce(&big(&t).low_bits(m.n))
}

fn load(r: &mut Rng, m: &Mod, reg: i64, v: &Big, out: &mut Vec<Step>) {
    let mut s = Step { code: LOAD, data: v.to_le(m.nbytes), ..Step::default() };
    s.a[0] = reg;
    s.a[1] = r.range(0, 1);
    out.push(s);
}
/// a load, often through a subtraction that leaves the element's internal form negative
fn load_any(r: &mut Rng, m: &Mod, reg: i64, tmp: i64, v: &Big, out: &mut Vec<Step>) {
    let how = r.below(6);
    if how > 2 {
        return load(r, m, reg, v, out);
    }
    if how == 0 && tmp != reg {
        // zero minus v
        load(r, m, tmp, v, out);
    } else if tmp != reg {
        // v, as zero minus its negative
        load(r, m, tmp, &m.neg(v), out);
    } else {
        load(r, m, reg, &m.neg(v), out);
        let mut t = Step { code: UN, ..Step::default() };
        t.a = [reg, reg, s::NEG as i64, r.range(0, 1), 0, 0];
        out.push(t);
        return;
    }
    let mut t = Step { code: CONST, ..Step::default() };
    t.a = [reg, r.pick(&[0, 4]), 0, 0, 0, 0];
    out.push(t);
    let mut t = Step { code: BIN, ..Step::default() };
    t.a = [reg, reg, tmp, s::SUB as i64, r.range(0, 3), 0];
    out.push(t);
}
/// two loads, the first perhaps by way of the second's register
fn load2(r: &mut Rng, m: &Mod, x: i64, vx: &Big, y: i64, vy: &Big, out: &mut Vec<Step>) {
    if r.chance(1, 2) {
        load_any(r, m, x, y, vx, out);
        load(r, m, y, vy, out);
    } else {
        load_any(r, m, y, x, vy, out);
        load(r, m, x, vx, out);
    }
}

/// loads and one steered operation on them
pub fn steered(r: &mut Rng, m: &Mod, regs: i64) -> Vec<Step> {
    let d = r.range(0, regs - 1);
    let x = r.range(0, regs - 1);
    let mut y = r.range(0, regs - 1);
    if y == x {
        y = (x + 1) % regs;
    }
    let mut out = Vec::new();
    let mut st = Step::default();
    st.a[0] = d;
    st.a[1] = x;
    match r.below(9) {
        0..=2 => {
            let (a, b) = product(r, m);
            let (p, q) = if r.chance(1, 2) { (a, b) } else { (b, a) };
            load2(r, m, x, &p, y, &q, &mut out);
            st.code = BIN;
            st.a[2] = y;
            st.a[3] = s::MUL as i64;
            st.a[4] = r.range(0, 3);
        }
        3 | 4 => {
            let a = root(r, m);
            load_any(r, m, x, y, &a, &mut out);
            st.code = UN;
            st.a[2] = s::SQR as i64;
            st.a[3] = r.range(0, 1);
        }
        5 | 6 => {
            st.code = SMALL;
            st.a[2] = r.pick(&[0, 1, 2, 2, 2, 2]);
            st.a[3] = if r.chance(2, 3) { r.range(0, 5) } else { r.range(6, 13) };
            st.a[4] = imm(r);
            let k = imm_of(st.a[3], st.a[4]);
            let a = match st.a[2] {
                2 => small_factor(r, m, k),
                0 => m.sub(&patt(r, m), &m.signed(k)),
                _ => m.add(&patt(r, m), &m.signed(k)),
            };
            load_any(r, m, x, y, &a, &mut out);
        }
        _ => {
            let (a, b) = sum(r, m);
            st.code = BIN;
            st.a[2] = y;
            st.a[3] = r.range(0, 1);
            st.a[4] = r.range(0, 3);
            let b = if st.a[3] == 1 { m.neg(&b) } else { b };
            load2(r, m, x, &a, y, &b, &mut out);
        }
    }
    if regs < 2 && st.code == BIN {
        st.a[2] = st.a[1];
    }
    out.push(st);
    out
}
