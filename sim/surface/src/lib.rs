//! Type-erased, non-generic access to the real library.
//!
//! Every generic piece of the library (curve code, `Rand`) is instantiated here with concrete
//! types, so that in the instrumented build this crate and `safecurves_rust` carry the
//! compiler-inserted yield points while the simulator itself does not.
extern crate rand;
extern crate safecurves_rust;

use rand::{Rand, Rng};
use safecurves_rust::curve::edwards::*;
use safecurves_rust::curve::point::Point;
use safecurves_rust::field::prime_field::*;
use safecurves_rust::normalize::*;
use safecurves_rust::pack::Pack;
use std::fmt;

/// A field element of any of the nine fields, as opaque bytes.
#[repr(C, align(16))]
#[derive(Copy, Clone)]
pub struct El(pub [u64; 24]);

impl El {
    pub const fn new() -> El {
        El([0; 24])
    }
}

/// A curve point of any of the five curves, as opaque bytes.
#[repr(C, align(16))]
#[derive(Copy, Clone)]
pub struct Pt(pub [u64; 96]);

impl Pt {
    pub const fn new() -> Pt {
        Pt([0; 96])
    }
}

#[inline(always)]
fn get<T: Copy>(e: &El) -> T {
    assert!(std::mem::size_of::<T>() <= std::mem::size_of::<El>());
    assert!(std::mem::align_of::<T>() <= std::mem::align_of::<El>());
    unsafe { std::ptr::read(e as *const El as *const T) }
}
#[inline(always)]
fn put<T: Copy>(e: &mut El, t: T) {
    assert!(std::mem::size_of::<T>() <= std::mem::size_of::<El>());
    unsafe { std::ptr::write(e as *mut El as *mut T, t) }
}
#[inline(always)]
fn as_mut<T: Copy>(e: &mut El) -> &mut T {
    assert!(std::mem::size_of::<T>() <= std::mem::size_of::<El>());
    assert!(std::mem::align_of::<T>() <= std::mem::align_of::<El>());
    unsafe { &mut *(e as *mut El as *mut T) }
}
#[inline(always)]
fn as_ref<T: Copy>(e: &El) -> &T {
    assert!(std::mem::size_of::<T>() <= std::mem::size_of::<El>());
    assert!(std::mem::align_of::<T>() <= std::mem::align_of::<El>());
    unsafe { &*(e as *const El as *const T) }
}
#[inline(always)]
fn pmut<T: Copy>(e: &mut Pt) -> &mut T {
    assert!(std::mem::size_of::<T>() <= std::mem::size_of::<Pt>());
    assert!(std::mem::align_of::<T>() <= std::mem::align_of::<Pt>());
    unsafe { &mut *(e as *mut Pt as *mut T) }
}
#[inline(always)]
fn pref<T: Copy>(e: &Pt) -> &T {
    assert!(std::mem::size_of::<T>() <= std::mem::size_of::<Pt>());
    assert!(std::mem::align_of::<T>() <= std::mem::align_of::<Pt>());
    unsafe { &*(e as *const Pt as *const T) }
}

/// The only entropy seam: the library sees nothing but 32-bit words from here.
pub trait Entropy {
    fn next_u32(&mut self) -> u32;
}

pub struct Src<'a>(pub &'a mut dyn Entropy);

impl<'a> Rng for Src<'a> {
    fn next_u32(&mut self) -> u32 {
        self.0.next_u32()
    }
}

pub const ADD: u8 = 0;
pub const SUB: u8 = 1;
pub const MUL: u8 = 2;
pub const DIV: u8 = 3;

pub const NEG: u8 = 0;
pub const SQR: u8 = 1;
pub const INV: u8 = 2;
pub const LEG: u8 = 3;
pub const SQRT: u8 = 4;

pub const BIN_FORMS: u8 = 4;
/// forms of a small-number operation, see `small`
pub const SMALL_FORMS: u8 = 14;

pub trait Field: Sync + Send {
    fn name(&self) -> &'static str;
    fn n(&self) -> usize;
    fn nbytes(&self) -> usize;
    fn size(&self) -> usize;
    /// 0 zero(), 1 one(), 2 m_one(), 3 modulus(), 4.. module constants ZERO, ONE, M_ONE, MODULUS
    fn konst(&self, k: u8) -> El;
    fn bin(&self, op: u8, form: u8, d: &mut El, a: &El, b: &El);
    fn un(&self, op: u8, form: u8, d: &mut El, a: &El);
    fn small(&self, op: u8, form: u8, d: &mut El, a: &El, imm: i32);
    fn normalize(&self, d: &mut El);
    fn normalize_eq(&self, a: &mut El, b: &mut El) -> bool;
    fn normalize_self_eq(&self, a: &mut El, b: &El) -> bool;
    fn bit(&self, a: &mut El, i: usize) -> bool;
    fn bit_normalized(&self, a: &El, i: usize) -> bool;
    fn fill(&self, a: &mut El, b: bool);
    fn filled(&self, b: bool) -> El;
    /// 0 normalize both, 1 normalize self, 2 normalized; or = bitwise or
    fn bitop(&self, or: bool, form: u8, d: &mut El, b: &mut El);
    fn pack(&self, a: &mut El, out: &mut [u8]);
    fn pack_normalized(&self, a: &El, out: &mut [u8]);
    fn packed(&self, a: &mut El) -> Vec<u8>;
    fn unpack(&self, a: &mut El, b: &[u8]);
    fn unpacked(&self, b: &[u8]) -> El;
    fn rand(&self, form: u8, src: &mut dyn Entropy) -> El;
    /// 0 {:x} 1 {:X} 2 {:?}; 3 and up: the same with flags, see FORMATS
    fn format(&self, form: u8, a: &El, out: &mut dyn fmt::Write) -> fmt::Result;
}

/// The format strings `Field::format` takes by number.
pub const FORMATS: [&str; 12] = [
    "{:x}", "{:X}", "{:?}", "{:#x}", "{:170x}", "{:#0180X}", "{:.5x}", "{:+X}", "{:*^160.200X}", "{:3x}", "{:#?}", "{:09.2x?}",
];

macro_rules! field {
    ($s:ident, $m:ident, $t:ident, $name:expr) => {
        pub struct $s;
        impl Field for $s {
            fn name(&self) -> &'static str {
                $name
            }
            fn n(&self) -> usize {
                <safecurves_rust::field::$m::$t as PrimeField>::nbits()
            }
            fn nbytes(&self) -> usize {
                <safecurves_rust::field::$m::$t as Pack>::nbytes() as usize
            }
            fn size(&self) -> usize {
                std::mem::size_of::<safecurves_rust::field::$m::$t>()
            }
            #[inline(never)]
            fn konst(&self, k: u8) -> El {
                use safecurves_rust::field::$m as m;
                type T = m::$t;
                let v = match k {
                    0 => T::zero(),
                    1 => T::one(),
                    2 => T::m_one(),
                    3 => T::modulus(),
                    4 => m::ZERO,
                    5 => m::ONE,
                    6 => m::M_ONE,
                    _ => m::MODULUS,
                };
                let mut e = El::new();
                put(&mut e, v);
                e
            }
            #[inline(never)]
            fn bin(&self, op: u8, form: u8, d: &mut El, a: &El, b: &El) {
                type T = safecurves_rust::field::$m::$t;
                // by-reference spellings read the caller's own memory, by-value ones copies
                let (p, q): (&T, &T) = (as_ref(a), as_ref(b));
                let (x, y): (T, T) = (*p, *q);
                let mut z = x;
                match (op, form) {
                    (ADD, 0) => z = p + q,
                    (ADD, 1) => z = x + y,
                    (ADD, 2) => z += q,
                    (ADD, _) => z += y,
                    (SUB, 0) => z = p - q,
                    (SUB, 1) => z = x - y,
                    (SUB, 2) => z -= q,
                    (SUB, _) => z -= y,
                    (MUL, 0) => z = p * q,
                    (MUL, 1) => z = x * y,
                    (MUL, 2) => z *= q,
                    (MUL, _) => z *= y,
                    (_, 0) => z = p / q,
                    (_, 1) => z = x / y,
                    (_, 2) => z /= q,
                    (_, _) => z /= y,
                }
                put(d, z);
            }
            #[inline(never)]
            fn un(&self, op: u8, form: u8, d: &mut El, a: &El) {
                type T = safecurves_rust::field::$m::$t;
                let p: &T = as_ref(a);
                let x: T = *p;
                let mut z = x;
                match (op, form & 1) {
                    (NEG, _) => z = -x,
                    (SQR, 0) => z = p.squared(),
                    (SQR, _) => z.square(),
                    (INV, 0) => z = p.inverted(),
                    (INV, _) => z.invert(),
                    (LEG, _) => z = p.legendre(),
                    _ => z = p.sqrt(),
                }
                put(d, z);
            }
            #[inline(never)]
            fn small(&self, op: u8, form: u8, d: &mut El, a: &El, imm: i32) {
                type T = safecurves_rust::field::$m::$t;
                let p: &T = as_ref(a);
                let x: T = *p;
                let mut z = x;
                let (h, q) = (imm as i16, imm as i8);
                match (op, form) {
                    (ADD, 0) => z = p.small_add(imm),
                    (ADD, 1) => z.small_add_assign(imm),
                    (ADD, 2) => z = p + imm,
                    (ADD, 3) => z = x + imm,
                    (ADD, 4) => z = imm + p,
                    (ADD, 5) => z += imm,
                    (ADD, 6) => z = p + h,
                    (ADD, 7) => z = x + h,
                    (ADD, 8) => z = h + p,
                    (ADD, 9) => z += h,
                    (ADD, 10) => z = p + q,
                    (ADD, 11) => z = x + q,
                    (ADD, 12) => z = q + p,
                    (ADD, _) => z += q,
                    (SUB, 0) => z = p.small_sub(imm),
                    (SUB, 1) => z.small_sub_assign(imm),
                    (SUB, 2) | (SUB, 4) => z = p - imm,
                    (SUB, 3) => z = x - imm,
                    (SUB, 5) => z -= imm,
                    (SUB, 6) | (SUB, 8) => z = p - h,
                    (SUB, 7) => z = x - h,
                    (SUB, 9) => z -= h,
                    (SUB, 10) | (SUB, 12) => z = p - q,
                    (SUB, 11) => z = x - q,
                    (SUB, _) => z -= q,
                    (_, 0) => z = p.small_mul(imm),
                    (_, 1) => z.small_mul_assign(imm),
                    (_, 2) => z = p * imm,
                    (_, 3) => z = x * imm,
                    (_, 4) => z = imm * p,
                    (_, 5) => z *= imm,
                    (_, 6) => z = p * h,
                    (_, 7) => z = x * h,
                    (_, 8) => z = h * p,
                    (_, 9) => z *= h,
                    (_, 10) => z = p * q,
                    (_, 11) => z = x * q,
                    (_, 12) => z = q * p,
                    (_, _) => z *= q,
                }
                put(d, z);
            }
            #[inline(never)]
            fn normalize(&self, d: &mut El) {
                as_mut::<safecurves_rust::field::$m::$t>(d).normalize()
            }
            #[inline(never)]
            fn normalize_eq(&self, a: &mut El, b: &mut El) -> bool {
                type T = safecurves_rust::field::$m::$t;
                as_mut::<T>(a).normalize_eq(as_mut::<T>(b))
            }
            #[inline(never)]
            fn normalize_self_eq(&self, a: &mut El, b: &El) -> bool {
                type T = safecurves_rust::field::$m::$t;
                as_mut::<T>(a).normalize_self_eq(as_ref::<T>(b))
            }
            #[inline(never)]
            fn bit(&self, a: &mut El, i: usize) -> bool {
                as_mut::<safecurves_rust::field::$m::$t>(a).bit(i)
            }
            #[inline(never)]
            fn bit_normalized(&self, a: &El, i: usize) -> bool {
                as_ref::<safecurves_rust::field::$m::$t>(a).bit_normalized(i)
            }
            #[inline(never)]
            fn fill(&self, a: &mut El, b: bool) {
                PrimeField::fill(as_mut::<safecurves_rust::field::$m::$t>(a), b)
            }
            #[inline(never)]
            fn filled(&self, b: bool) -> El {
                let mut e = El::new();
                put(&mut e, <safecurves_rust::field::$m::$t as PrimeField>::filled(b));
                e
            }
            #[inline(never)]
            fn bitop(&self, or: bool, form: u8, d: &mut El, b: &mut El) {
                type T = safecurves_rust::field::$m::$t;
                let x = as_mut::<T>(d);
                match (or, form) {
                    (false, 0) => x.normalize_bitand(as_mut::<T>(b)),
                    (false, 1) => x.normalize_self_bitand(as_ref::<T>(b)),
                    (false, _) => x.normalized_bitand(as_ref::<T>(b)),
                    (true, 0) => x.normalize_bitor(as_mut::<T>(b)),
                    (true, 1) => x.normalize_self_bitor(as_ref::<T>(b)),
                    (true, _) => x.normalized_bitor(as_ref::<T>(b)),
                }
            }
            #[inline(never)]
            fn pack(&self, a: &mut El, out: &mut [u8]) {
                as_mut::<safecurves_rust::field::$m::$t>(a).pack(out)
            }
            #[inline(never)]
            fn pack_normalized(&self, a: &El, out: &mut [u8]) {
                as_ref::<safecurves_rust::field::$m::$t>(a).pack_normalized(out)
            }
            #[inline(never)]
            fn packed(&self, a: &mut El) -> Vec<u8> {
                as_mut::<safecurves_rust::field::$m::$t>(a).packed().to_vec()
            }
            #[inline(never)]
            fn unpack(&self, a: &mut El, b: &[u8]) {
                as_mut::<safecurves_rust::field::$m::$t>(a).unpack(b)
            }
            #[inline(never)]
            fn unpacked(&self, b: &[u8]) -> El {
                let mut e = El::new();
                put(&mut e, <safecurves_rust::field::$m::$t as Pack>::unpacked(b));
                e
            }
            #[inline(never)]
            fn rand(&self, form: u8, src: &mut dyn Entropy) -> El {
                type T = safecurves_rust::field::$m::$t;
                let mut r = Src(src);
                let mut e = El::new();
                let v: T = if form & 1 == 0 { T::rand(&mut r) } else { r.gen() };
                put(&mut e, v);
                e
            }
            #[inline(never)]
            fn format(&self, form: u8, a: &El, out: &mut dyn fmt::Write) -> fmt::Result {
                let x = as_ref::<safecurves_rust::field::$m::$t>(a);
                match form {
                    0 => out.write_fmt(format_args!("{:x}", x)),
                    1 => out.write_fmt(format_args!("{:X}", x)),
                    3 => out.write_fmt(format_args!("{:#x}", x)),
                    4 => out.write_fmt(format_args!("{:170x}", x)),
                    5 => out.write_fmt(format_args!("{:#0180X}", x)),
                    6 => out.write_fmt(format_args!("{:.5x}", x)),
                    7 => out.write_fmt(format_args!("{:+X}", x)),
                    8 => out.write_fmt(format_args!("{:*^160.200X}", x)),
                    9 => out.write_fmt(format_args!("{:3x}", x)),
                    10 => out.write_fmt(format_args!("{:#?}", x)),
                    11 => out.write_fmt(format_args!("{:09.2x?}", x)),
                    _ => out.write_fmt(format_args!("{:?}", x)),
                }
            }
        }
    };
}

field!(F221, mod_e221_3, Mod_e221_3, "e221_3");
field!(F222, mod_e222_117, Mod_e222_117, "e222_117");
field!(F251, mod_e251_9, Mod_e251_9, "e251_9");
field!(F255, mod_e255_19, Mod_e255_19, "e255_19");
field!(F382, mod_e382_105, Mod_e382_105, "e382_105");
field!(F383, mod_e383_187, Mod_e383_187, "e383_187");
field!(F414, mod_e414_17, Mod_e414_17, "e414_17");
field!(F511, mod_e511_187, Mod_e511_187, "e511_187");
field!(F521, mod_e521_1, Mod_e521_1, "e521_1");

pub static FIELDS: [&'static dyn Field; 9] =
    [&F221, &F222, &F251, &F255, &F382, &F383, &F414, &F511, &F521];

pub trait Curve: Sync + Send {
    fn name(&self) -> &'static str;
    /// index into FIELDS
    fn field(&self) -> usize;
    fn zero(&self) -> Pt;
    fn init(&self, p: &mut Pt, x: &El, y: &El);
    fn base(&self) -> (El, El);
    fn order(&self) -> El;
    fn d(&self) -> El;
    fn add(&self, form: u8, d: &mut Pt, a: &Pt, b: &Pt);
    fn double(&self, form: u8, d: &mut Pt, a: &Pt);
    fn triple(&self, form: u8, d: &mut Pt, a: &Pt);
    fn scalar_mult(&self, p: &mut Pt, k: &mut El);
    fn scalar_mult_normalized(&self, p: &mut Pt, k: &El);
    fn coords(&self, p: &Pt) -> [El; 4];
}

macro_rules! curve {
    ($s:ident, $cm:ident, $c:ident, $fm:ident, $ft:ident, $name:expr, $fi:expr,
     $bx:ident, $by:ident, $ord:ident, $d:ident) => {
        curve!(@ $s, safecurves_rust::curve::$cm::$c, $name, $fi,
               (safecurves_rust::field::$fm::$bx, safecurves_rust::field::$fm::$by),
               safecurves_rust::field::$fm::$ord);
    };
    (@ $s:ident, $c:ty, $name:expr, $fi:expr, $base:expr, $ord:expr) => {
        pub struct $s;
        impl Curve for $s {
            fn name(&self) -> &'static str {
                $name
            }
            fn field(&self) -> usize {
                $fi
            }
            #[inline(never)]
            fn zero(&self) -> Pt {
                type P = EdwardsExtended<$c>;
                let mut p = Pt::new();
                *pmut::<P>(&mut p) = P::zero();
                p
            }
            #[inline(never)]
            fn init(&self, p: &mut Pt, x: &El, y: &El) {
                type P = EdwardsExtended<$c>;
                pmut::<P>(p).init(get(x), get(y))
            }
            fn base(&self) -> (El, El) {
                let (mut x, mut y) = (El::new(), El::new());
                let b = $base;
                put(&mut x, b.0);
                put(&mut y, b.1);
                (x, y)
            }
            fn order(&self) -> El {
                let mut x = El::new();
                put(&mut x, $ord);
                x
            }
            fn d(&self) -> El {
                let mut x = El::new();
                put(&mut x, <$c as EdwardsCurve>::d_val());
                x
            }
            #[inline(never)]
            fn add(&self, form: u8, d: &mut Pt, a: &Pt, b: &Pt) {
                type P = EdwardsExtended<$c>;
                let (p, q) = (pref::<P>(a), pref::<P>(b));
                let (x, y) = (*p, *q);
                let mut z = x;
                match form {
                    0 => z = p + q,
                    1 => z = x + y,
                    2 => z += q,
                    _ => z += y,
                }
                *pmut::<P>(d) = z;
            }
            #[inline(never)]
            fn double(&self, form: u8, d: &mut Pt, a: &Pt) {
                type P = EdwardsExtended<$c>;
                let x = *pref::<P>(a);
                let mut z = x;
                if form & 1 == 0 {
                    z = pref::<P>(a).doubled()
                } else {
                    z.double()
                }
                *pmut::<P>(d) = z;
            }
            #[inline(never)]
            fn triple(&self, form: u8, d: &mut Pt, a: &Pt) {
                type P = EdwardsExtended<$c>;
                let x = *pref::<P>(a);
                let mut z = x;
                if form & 1 == 0 {
                    z = pref::<P>(a).tripled()
                } else {
                    z.triple()
                }
                *pmut::<P>(d) = z;
            }
            #[inline(never)]
            fn scalar_mult(&self, p: &mut Pt, k: &mut El) {
                type P = EdwardsExtended<$c>;
                pmut::<P>(p).scalar_mult(as_mut(k))
            }
            #[inline(never)]
            fn scalar_mult_normalized(&self, p: &mut Pt, k: &El) {
                type P = EdwardsExtended<$c>;
                pmut::<P>(p).scalar_mult_normalized(as_ref(k))
            }
            fn coords(&self, p: &Pt) -> [El; 4] {
                type P = EdwardsExtended<$c>;
                let c = pref::<P>(p).sim_coords();
                let mut o = [El::new(); 4];
                for i in 0..4 {
                    put(&mut o[i], c[i]);
                }
                o
            }
        }
    };
}

curve!(C222, e_222, E222, mod_e222_117, Mod_e222_117, "E-222", 1, E222_BASE_X, E222_BASE_Y, E222_ORDER, E222_D);
curve!(C1174, curve1174, Curve1174, mod_e251_9, Mod_e251_9, "Curve1174", 2, CURVE1174_BASE_X, CURVE1174_BASE_Y, CURVE1174_ORDER, CURVE1174_D);
curve!(C382, e_382, E382, mod_e382_105, Mod_e382_105, "E-382", 4, E382_BASE_X, E382_BASE_Y, E382_ORDER, E382_D);
curve!(C41417, curve41417, Curve41417, mod_e414_17, Mod_e414_17, "Curve41417", 6, CURVE41417_BASE_X, CURVE41417_BASE_Y, CURVE41417_ORDER, CURVE41417_D);
curve!(C521, e_521, E521, mod_e521_1, Mod_e521_1, "E-521", 8, E521_BASE_X, E521_BASE_Y, E521_ORDER, E521_D);


/// Curves a user might define over the remaining fields: x^2 + y^2 = 1 + d x^2 y^2 with d a
/// non-square given as a small integer.  They have no published base point or order.
macro_rules! user_curve {
    ($s:ident, $u:ident, $fm:ident, $ft:ident, $name:expr, $fi:expr, $d:expr) => {
        #[derive(Copy, Clone)]
        pub struct $u;
        impl EdwardsCurve for $u {
            type Scalar = safecurves_rust::field::$fm::$ft;
            fn d_val() -> Self::Scalar {
                <safecurves_rust::field::$fm::$ft as PrimeField>::zero().small_add($d)
            }
        }
        curve!(@ $s, $u, $name, $fi,
               (safecurves_rust::field::$fm::ZERO, safecurves_rust::field::$fm::ONE),
               safecurves_rust::field::$fm::ZERO);
    };
}

user_curve!(U221, User221, mod_e221_3, Mod_e221_3, "user curve over 2^221-3", 0, D221);
user_curve!(U255, User255, mod_e255_19, Mod_e255_19, "user curve over 2^255-19", 3, D255);
user_curve!(U383, User383, mod_e383_187, Mod_e383_187, "user curve over 2^383-187", 5, D383);
user_curve!(U511, User511, mod_e511_187, Mod_e511_187, "user curve over 2^511-187", 7, D511);

pub const D221: i32 = 2;
pub const D255: i32 = -6;
pub const D383: i32 = -11;
pub const D511: i32 = 23004;

/// the five published curves, then the user-defined ones
pub static CURVES: [&'static dyn Curve; 9] = [&C222, &C1174, &C382, &C41417, &C521, &U221, &U255, &U383, &U511];
