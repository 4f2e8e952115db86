//! What the curve scenarios share: points in and out of the library, and their reference.

use crate::big::*;
use crate::fieldops::*;
use crate::plan::*;
use crate::rng::*;
use surface as s;
use surface::{Curve, Field, Pt, CURVES};

pub fn crv(i: i64) -> &'static dyn Curve {
    CURVES[(i as usize) % CURVES.len()]
}
pub fn ec(i: i64) -> &'static Ec {
    &curves()[(i as usize) % CURVES.len()]
}

/// Some point of the curve, as affine coordinates.
pub fn point(r: &mut Rng, e: &Ec) -> (Big, Big) {
    let m = e.m();
    let p = match r.below(10) {
        0 | 1 => e.affine(&e.base.0, &e.base.1),
        2 => {
            // small order
            match r.below(6) {
                0 => e.zero(),
                1 => e.affine(&ZERO, &m.neg(&Big::small(1))),
                2 => e.affine(&Big::small(1), &ZERO),
                3 => e.affine(&m.neg(&Big::small(1)), &ZERO),
                _ => match order8(e) {
                    Some(q) => {
                        let k = Big::small(1 + 2 * r.below(4));
                        e.mul(&q, &k)
                    }
                    None => e.affine(&Big::small(1), &ZERO),
                },
            }
        }
        3 => {
            let k = Big::small(r.below(12));
            e.mul(&e.affine(&e.base.0, &e.base.1), &k)
        }
        4 => {
            let k = Big::small(r.below(12));
            e.neg(&e.mul(&e.affine(&e.base.0, &e.base.1), &k))
        }
        _ => loop {
            let y = value(r, m);
            if let Some(q) = e.lift(&y, r.chance(1, 2)) {
                break q;
            }
        },
    };
    e.to_affine(&p)
}

/// The same from a small fixed choice of points, each made once: for runs that need points but
/// not the search for special ones.
pub fn some_point(r: &mut Rng, e: &'static Ec) -> (Big, Big) {
    const N: usize = 40;
    static C: std::sync::Mutex<Vec<Option<(Big, Big)>>> = std::sync::Mutex::new(Vec::new());
    let i = curves().iter().position(|x| x.name == e.name).unwrap() * N + r.idx(N);
    let mut c = C.lock().unwrap();
    if c.is_empty() {
        c.resize(curves().len() * N, None);
    }
    *c[i].get_or_insert_with(|| point(&mut Rng::new(0x706f_696e_7400 + i as u64), e))
}

/// What every run uses is made once, before the workers start.
pub fn prepare() {
    mods();
    curves();
    order8(&curves()[0]);
}

/// A point of order 8 if the curve has one: twice it is (1, 0).
fn order8(e: &Ec) -> Option<EcPt> {
    static C: std::sync::OnceLock<Vec<Option<EcPt>>> = std::sync::OnceLock::new();
    let i = curves().iter().position(|x| x.name == e.name).unwrap();
    C.get_or_init(|| {
        curves()
            .iter()
            .map(|e| {
                // 2(x, y) = (1, 0) needs y^2 = x^2; on the diagonal 2x^2 = 1 + d x^4
                let m = e.m();
                let four = Big::small(4);
                let disc = m.sub(&four, &m.mul(&four, &e.d));
                let s = m.sqrt(&disc)?;
                let den = m.inv(&m.mul(&Big::small(2), &e.d));
                for s in [s, m.neg(&s)] {
                    let x2 = m.mul(&m.add(&Big::small(2), &s), &den);
                    if let Some(x) = m.sqrt(&x2) {
                        if e.on_affine(&x, &x) {
                            return Some(e.affine(&x, &x));
                        }
                    }
                }
                None
            })
            .collect()
    })[i]
}

pub fn pack_point(m: &Mod, p: &(Big, Big)) -> Vec<u8> {
    let mut v = p.0.to_le(m.nbytes);
    v.extend(p.1.to_le(m.nbytes));
    v
}

/// Reads a point a plan carries; anything not on the curve becomes the identity (a shrunken plan).
pub fn unpack_point(e: &Ec, d: &[u8]) -> (Big, Big) {
    let nb = e.m().nbytes;
    if d.len() == 2 * nb {
        let (x, y) = (Big::from_le(&d[..nb]), Big::from_le(&d[nb..]));
        if !x.ge(&e.m().p) && !y.ge(&e.m().p) && e.on_affine(&x, &y) {
            return (x, y);
        }
    }
    (ZERO, Big::small(1))
}

/// The library's point with these affine coordinates, given to it in the chosen internal forms.
pub fn make(c: &dyn Curve, f: &dyn Field, m: &Mod, p: &(Big, Big), skx: i64, sky: i64, over: &Pt) -> Pt {
    let x = skew(f, &f.unpacked(&p.0.to_le(m.nbytes)), skx);
    let y = skew(f, &f.unpacked(&p.1.to_le(m.nbytes)), sky);
    let mut q = *over;
    c.init(&mut q, &x, &y);
    q
}

/// Affine coordinates through the library's own field: x = X / Z, y = Y / Z, packed.
pub fn affine_bytes(c: &dyn Curve, f: &dyn Field, p: &Pt, form: i64) -> Vec<u8> {
    let k = c.coords(p);
    let (mut x, mut y) = (k[0], k[1]);
    if form & 1 == 0 {
        let mut zi = k[2];
        f.un(s::INV, 0, &mut zi, &k[2]);
        f.bin(s::MUL, 0, &mut x, &k[0], &zi);
        f.bin(s::MUL, 2, &mut y, &k[1], &zi);
    } else {
        f.bin(s::DIV, 0, &mut x, &k[0], &k[2]);
        f.bin(s::DIV, 2, &mut y, &k[1], &k[2]);
    }
    let mut v = f.packed(&mut x);
    v.extend(f.packed(&mut y));
    v
}

/// Rebuilds a point from what affine_bytes wrote.
pub fn reload(c: &dyn Curve, f: &dyn Field, b: &[u8], sk: i64, over: &Pt) -> Pt {
    let nb = f.nbytes();
    let x = skew(f, &f.unpacked(&b[..nb]), sk);
    let y = skew(f, &f.unpacked(&b[nb..]), sk / SKEWS);
    let mut q = *over;
    c.init(&mut q, &x, &y);
    q
}

/// The library's point is exactly the reference point, with consistent extended coordinates.
pub fn verify(i: usize, e: &Ec, c: &dyn Curve, f: &dyn Field, p: &Pt, want: &EcPt, what: &str, st: &mut Stats) -> Result<(), Fail> {
    let m = e.m();
    let k = c.coords(p);
    let mut v = [ZERO; 4];
    for j in 0..4 {
        let b = call(i, "packing a coordinate", || bytes_of(f, &k[j]))?;
        st.log_bytes(&b);
        v[j] = Big::from_le(&b);
    }
    let [x, y, z, t] = v;
    let got = EcPt { x, y, z };
    let show = || {
        let w = e.to_affine(want);
        let g = if z.is_zero() { (ZERO, ZERO) } else { e.to_affine(&got) };
        format!("after {}: X {} Y {} Z {} T {}; affine ({}, {}) want ({}, {})", what, x.hex(), y.hex(), z.hex(), t.hex(), g.0.hex(), g.1.hex(), w.0.hex(), w.1.hex())
    };
    if z.is_zero() {
        return fail(i, format!("{} {}: zero denominator", c.name(), what), show());
    }
    if !e.same(&got, want) {
        return fail(i, format!("{} {}: wrong point", c.name(), what), show());
    }
    if m.mul(&t, &z) != m.mul(&x, &y) {
        return fail(i, format!("{} {}: inconsistent extended coordinates", c.name(), what), show());
    }
    Ok(())
}
