//! Reference arithmetic: the integers modulo 2^n - c, plain and slow, sharing no code, constant
//! or representation with the library.

#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Big(pub [u64; 9]); // little-endian words

pub const ZERO: Big = Big([0; 9]);

impl Big {
    pub fn small(x: u64) -> Big {
        let mut r = ZERO;
        r.0[0] = x;
        r
    }
    pub fn is_zero(&self) -> bool {
        *self == ZERO
    }
    pub fn bit(&self, i: usize) -> bool {
        i < 576 && (self.0[i / 64] >> (i % 64)) & 1 == 1
    }
    pub fn set_bit(&mut self, i: usize, b: bool) {
        if b {
            self.0[i / 64] |= 1 << (i % 64)
        } else {
            self.0[i / 64] &= !(1 << (i % 64))
        }
    }
    pub fn pow2(k: usize) -> Big {
        let mut r = ZERO;
        r.set_bit(k, true);
        r
    }
    pub fn add(&self, o: &Big) -> Big {
        let mut r = ZERO;
        let mut c = 0u128;
        for i in 0..9 {
            c += self.0[i] as u128 + o.0[i] as u128;
            r.0[i] = c as u64;
            c >>= 64;
        }
        r
    }
    /// wrapping; callers compare first
    pub fn sub(&self, o: &Big) -> Big {
        let mut r = ZERO;
        let mut b = false;
        for i in 0..9 {
            let (x, b1) = self.0[i].overflowing_sub(o.0[i]);
            let (x, b2) = x.overflowing_sub(b as u64);
            r.0[i] = x;
            b = b1 | b2;
        }
        r
    }
    pub fn half(&self) -> Big {
        let mut r = ZERO;
        for i in 0..9 {
            r.0[i] = self.0[i] >> 1 | if i < 8 { self.0[i + 1] << 63 } else { 0 };
        }
        r
    }
    pub fn ge(&self, o: &Big) -> bool {
        for i in (0..9).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i] > o.0[i];
            }
        }
        true
    }
    pub fn low_bits(&self, n: usize) -> Big {
        let mut r = *self;
        for i in 0..9 {
            let lo = i * 64;
            if lo >= n {
                r.0[i] = 0;
            } else if n - lo < 64 {
                r.0[i] &= (1u64 << (n - lo)) - 1;
            }
        }
        r
    }
    pub fn and(&self, o: &Big) -> Big {
        let mut r = *self;
        for i in 0..9 {
            r.0[i] &= o.0[i];
        }
        r
    }
    pub fn or(&self, o: &Big) -> Big {
        let mut r = *self;
        for i in 0..9 {
            r.0[i] |= o.0[i];
        }
        r
    }
    pub fn from_le(b: &[u8]) -> Big {
        let mut r = ZERO;
        for (i, x) in b.iter().enumerate().take(72) {
            r.0[i / 8] |= (*x as u64) << (8 * (i % 8));
        }
        r
    }
    pub fn to_le(&self, n: usize) -> Vec<u8> {
        (0..n).map(|i| (self.0[i / 8] >> (8 * (i % 8))) as u8).collect()
    }
    pub fn bits(&self) -> usize {
        for i in (0..576).rev() {
            if self.bit(i) {
                return i + 1;
            }
        }
        0
    }
    pub fn hex(&self) -> String {
        let mut s = String::new();
        for b in self.to_le(72).iter().rev() {
            if s.is_empty() && *b == 0 {
                continue;
            }
            s.push_str(&format!("{:02x}", b));
        }
        if s.is_empty() {
            s.push('0');
        }
        s
    }
}

pub struct Mod {
    pub name: &'static str,
    pub n: usize,
    pub c: u64,
    pub nbytes: usize,
    /// digit width the value generator likes to build patterns at (a hint only)
    pub limb: usize,
    pub p: Big,
    words: usize,
}

impl Mod {
    fn new(name: &'static str, n: usize, c: u64, nbytes: usize, limb: usize) -> Mod {
        let p = Big::pow2(n).sub(&Big::small(c));
        Mod { name, n, c, nbytes, limb, p, words: (n + 63) / 64 }
    }
    pub fn reduce(&self, a: &Big) -> Big {
        let mut x = *a;
        loop {
            // hi * c + lo
            let mut hi = ZERO;
            let (ws, bs) = (self.n / 64, self.n % 64);
            for i in 0..9 {
                let s = i + ws;
                if s < 9 {
                    hi.0[i] = x.0[s] >> bs;
                    if bs != 0 && s + 1 < 9 {
                        hi.0[i] |= x.0[s + 1] << (64 - bs);
                    }
                }
            }
            if hi.is_zero() {
                break;
            }
            let mut t = ZERO;
            let mut c = 0u128;
            for i in 0..9 {
                c += hi.0[i] as u128 * self.c as u128;
                t.0[i] = c as u64;
                c >>= 64;
            }
            x = x.low_bits(self.n).add(&t);
        }
        if x.ge(&self.p) {
            x = x.sub(&self.p);
        }
        x
    }
    pub fn add(&self, a: &Big, b: &Big) -> Big {
        let x = a.add(b);
        if x.ge(&self.p) {
            x.sub(&self.p)
        } else {
            x
        }
    }
    pub fn neg(&self, a: &Big) -> Big {
        if a.is_zero() {
            ZERO
        } else {
            self.p.sub(a)
        }
    }
    pub fn sub(&self, a: &Big, b: &Big) -> Big {
        self.add(a, &self.neg(b))
    }
    pub fn mul(&self, a: &Big, b: &Big) -> Big {
        let w = self.words;
        let mut t = [0u64; 19];
        for i in 0..w {
            let mut c = 0u128;
            for j in 0..w {
                c += a.0[i] as u128 * b.0[j] as u128 + t[i + j] as u128;
                t[i + j] = c as u64;
                c >>= 64;
            }
            t[i + w] = c as u64;
        }
        // fold the high part: hi < 2^n, so hi*c + lo < 2^(n+9) fits 576 bits
        let (ws, bs) = (self.n / 64, self.n % 64);
        let top = (1u64 << bs) - 1;
        let mut r = ZERO;
        let mut c = 0u128;
        for i in 0..=ws {
            let s = i + ws;
            let hi = if bs == 0 { t[s] } else { t[s] >> bs | t[s + 1] << (64 - bs) };
            let lo = if i == ws { t[i] & top } else { t[i] };
            c += hi as u128 * self.c as u128 + lo as u128;
            r.0[i] = c as u64;
            c >>= 64;
        }
        if ws < 8 {
            r.0[ws + 1] = c as u64;
        }
        // what is left above 2^n is a few bits
        loop {
            let mut hi = r.0[ws] >> bs;
            if bs != 0 && ws < 8 {
                hi |= r.0[ws + 1] << (64 - bs);
                r.0[ws + 1] = 0;
            }
            if hi == 0 {
                break;
            }
            r.0[ws] &= top;
            let mut c = hi as u128 * self.c as u128;
            for x in r.0[..=ws].iter_mut() {
                c += *x as u128;
                *x = c as u64;
                c >>= 64;
            }
        }
        if r.ge(&self.p) {
            r = r.sub(&self.p);
        }
        r
    }
    pub fn sqr(&self, a: &Big) -> Big {
        self.mul(a, a)
    }
    pub fn pow(&self, a: &Big, e: &Big) -> Big {
        let mut t = [Big::small(1); 16];
        for i in 1..16 {
            t[i] = self.mul(&t[i - 1], a);
        }
        let mut r = Big::small(1);
        for i in (0..(e.bits() + 3) / 4).rev() {
            for _ in 0..4 {
                r = self.sqr(&r);
            }
            let d = (e.0[i / 16] >> (4 * (i % 16))) & 15;
            if d != 0 {
                r = self.mul(&r, &t[d as usize]);
            }
        }
        r
    }
    /// 0 for 0, as a^(p-2) would be
    pub fn inv(&self, a: &Big) -> Big {
        if a.is_zero() {
            return ZERO;
        }
        // binary extended Euclid: u = x a, v = y a (mod p)
        let half = |x: &Big| {
            let x = if x.0[0] & 1 == 1 { x.add(&self.p) } else { *x };
            x.half()
        };
        let (mut u, mut v, mut x, mut y) = (*a, self.p, Big::small(1), ZERO);
        while !u.is_zero() {
            while u.0[0] & 1 == 0 {
                u = u.half();
                x = half(&x);
            }
            while v.0[0] & 1 == 0 {
                v = v.half();
                y = half(&y);
            }
            if u.ge(&v) {
                u = u.sub(&v);
                x = self.sub(&x, &y);
            } else {
                v = v.sub(&u);
                y = self.sub(&y, &x);
            }
        }
        assert!(self.mul(a, &y) == Big::small(1), "HARNESS inverse");
        y
    }
    /// 1, p-1 or 0
    pub fn legendre(&self, a: &Big) -> Big {
        // (p-1)/2
        self.pow(a, &self.p.half())
    }
    pub fn is_qr(&self, a: &Big) -> bool {
        a.is_zero() || self.legendre(a) == Big::small(1)
    }
    pub fn signed(&self, k: i64) -> Big {
        let m = Big::small(k.unsigned_abs());
        if k < 0 {
            self.neg(&m)
        } else {
            m
        }
    }
    /// some square root, for p = 3 mod 4 or 5 mod 8
    pub fn sqrt(&self, a: &Big) -> Option<Big> {
        let r = if self.p.0[0] & 3 == 3 {
            let e = shr(&self.p.add(&Big::small(1)), 2);
            self.pow(a, &e)
        } else {
            let e = shr(&self.p.add(&Big::small(3)), 3);
            let r = self.pow(a, &e);
            if self.sqr(&r) == *a {
                r
            } else {
                let i = self.pow(&Big::small(2), &shr(&self.p.sub(&Big::small(1)), 2));
                self.mul(&r, &i)
            }
        };
        if self.sqr(&r) == *a {
            Some(r)
        } else {
            None
        }
    }
}

pub fn shr(a: &Big, k: usize) -> Big {
    let mut r = ZERO;
    for i in 0..576 - k {
        if a.bit(i + k) {
            r.set_bit(i, true);
        }
    }
    r
}

pub fn mods() -> &'static [Mod] {
    static M: std::sync::OnceLock<Vec<Mod>> = std::sync::OnceLock::new();
    M.get_or_init(|| {
        vec![
            Mod::new("e221_3", 221, 3, 28, 58),
            Mod::new("e222_117", 222, 117, 28, 58),
            Mod::new("e251_9", 251, 9, 32, 56),
            Mod::new("e255_19", 255, 19, 32, 56),
            Mod::new("e382_105", 382, 105, 48, 56),
            Mod::new("e383_187", 383, 187, 48, 56),
            Mod::new("e414_17", 414, 17, 52, 56),
            Mod::new("e511_187", 511, 187, 64, 54),
            Mod::new("e521_1", 521, 1, 66, 54),
        ]
    })
}

/// Reference Edwards curve x^2 + y^2 = 1 + d x^2 y^2 over a prime field with d a non-square, in
/// projective (X:Y:Z) coordinates with the complete addition law.
pub struct Ec {
    pub name: &'static str,
    pub fi: usize,
    pub d: Big,
    pub base: (Big, Big),
    pub order: Big,
    pub cofactor: u64,
}

#[derive(Copy, Clone, Debug, PartialEq)]
pub struct EcPt {
    pub x: Big,
    pub y: Big,
    pub z: Big,
}

impl Ec {
    pub fn m(&self) -> &'static Mod {
        &mods()[self.fi]
    }
    pub fn zero(&self) -> EcPt {
        EcPt { x: ZERO, y: Big::small(1), z: Big::small(1) }
    }
    pub fn affine(&self, x: &Big, y: &Big) -> EcPt {
        EcPt { x: *x, y: *y, z: Big::small(1) }
    }
    pub fn on_affine(&self, x: &Big, y: &Big) -> bool {
        let m = self.m();
        let (xx, yy) = (m.sqr(x), m.sqr(y));
        m.add(&xx, &yy) == m.add(&Big::small(1), &m.mul(&self.d, &m.mul(&xx, &yy)))
    }
    /// textbook projective law (Bernstein-Lange 2007)
    pub fn add(&self, p: &EcPt, q: &EcPt) -> EcPt {
        let m = self.m();
        let a = m.mul(&p.z, &q.z);
        let b = m.sqr(&a);
        let c = m.mul(&p.x, &q.x);
        let d = m.mul(&p.y, &q.y);
        let e = m.mul(&self.d, &m.mul(&c, &d));
        let f = m.sub(&b, &e);
        let g = m.add(&b, &e);
        let s = m.sub(&m.sub(&m.mul(&m.add(&p.x, &p.y), &m.add(&q.x, &q.y)), &c), &d);
        EcPt {
            x: m.mul(&m.mul(&a, &f), &s),
            y: m.mul(&m.mul(&a, &g), &m.sub(&d, &c)),
            z: m.mul(&f, &g),
        }
    }
    pub fn neg(&self, p: &EcPt) -> EcPt {
        EcPt { x: self.m().neg(&p.x), y: p.y, z: p.z }
    }
    pub fn mul(&self, p: &EcPt, k: &Big) -> EcPt {
        let mut t = [self.zero(); 16];
        for i in 1..16 {
            t[i] = self.add(&t[i - 1], p);
        }
        let mut r = self.zero();
        for i in (0..(k.bits() + 3) / 4).rev() {
            for _ in 0..4 {
                r = self.add(&r, &r);
            }
            r = self.add(&r, &t[((k.0[i / 16] >> (4 * (i % 16))) & 15) as usize]);
        }
        r
    }
    pub fn same(&self, p: &EcPt, q: &EcPt) -> bool {
        let m = self.m();
        m.mul(&p.x, &q.z) == m.mul(&q.x, &p.z) && m.mul(&p.y, &q.z) == m.mul(&q.y, &p.z)
    }
    pub fn to_affine(&self, p: &EcPt) -> (Big, Big) {
        let m = self.m();
        let i = m.inv(&p.z);
        (m.mul(&p.x, &i), m.mul(&p.y, &i))
    }
    /// the point with this y, if there is one: x^2 = (1 - y^2) / (1 - d y^2)
    pub fn lift(&self, y: &Big, odd: bool) -> Option<EcPt> {
        let m = self.m();
        let yy = m.sqr(y);
        let num = m.sub(&Big::small(1), &yy);
        let den = m.sub(&Big::small(1), &m.mul(&self.d, &yy));
        let x = m.sqrt(&m.mul(&num, &m.inv(&den)))?;
        let x = if x.bit(0) != odd { m.neg(&x) } else { x };
        Some(self.affine(&x, y))
    }
}

pub fn hexbig(s: &str) -> Big {
    let s: Vec<u8> = s.bytes().filter(|c| *c != b'_').collect();
    let mut b = Vec::new();
    let mut i = s.len();
    while i > 0 {
        let lo = i.saturating_sub(2);
        b.push(u8::from_str_radix(std::str::from_utf8(&s[lo..i]).unwrap(), 16).unwrap());
        i = lo;
    }
    Big::from_le(&b)
}
pub fn curves() -> &'static [Ec] {
    static C: std::sync::OnceLock<Vec<Ec>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let s = |fi: usize, k: i64| mods()[fi].signed(k);
        let mut v = vec![
            Ec { name: "E-222", fi: 1, d: s(1, 160102), cofactor: 4,
                base: (hexbig("19b12bb156a389e55c9768c303316d07c23adab3736eb2bc3eb54e51"),
                       hexbig("1c")),
                order: hexbig("ffffffffffffffffffffffffffff70cbc95e932f802f31423598cbf") },
            Ec { name: "Curve1174", fi: 2, d: s(2, -1174), cofactor: 4,
                base: (hexbig("37fbb0cea308c479343aee7c029a190c021d96a492ecd6516123f27bce29eda"),
                       hexbig("6b72f82d47fb7cc6656841169840e0c4fe2dee2af3f976ba4ccb1bf9b46360e")),
                order: hexbig("1fffffffffffffffffffffffffffffff77965c4dfd307348944d45fd166c971") },
            Ec { name: "E-382", fi: 4, d: s(4, -67254), cofactor: 4,
                base: (hexbig("196f8dd0eab20391e5f05be96e8d20ae68f840032b0b64352923bab85364841193517dbce8105398ebc0cc9470f79603"),
                       hexbig("11")),
                order: hexbig("fffffffffffffffffffffffffffffffffffffffffffffffd5fb21f21e95eee17c5e69281b102d2773e27e13fd3c9719") },
            Ec { name: "Curve41417", fi: 6, d: s(6, 3617), cofactor: 8,
                base: (hexbig("1a334905141443300218c0631c326e5fcd46369f44c03ec7f57ff35498a4ab4d6d6ba111301a73faa8537c64c4fd3812f3cbc595"),
                       hexbig("22")),
                order: hexbig("7ffffffffffffffffffffffffffffffffffffffffffffffffffeb3cc92414cf706022b36f1c0338ad63cf181b0e71a5e106af79") },
            Ec { name: "E-521", fi: 8, d: s(8, -376014), cofactor: 4,
                base: (hexbig("752cb45c48648b189df90cb2296b2878a3bfd9f42fc6c818ec8bf3c9c0c6203913f6ecc5ccc72434b1ae949d568fc99c6059d0fb13364838aa302a940a2f19ba6c"),
                       hexbig("c")),
                order: hexbig("7ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd15b6c64746fc85f736b8af5e7ec53f04fbd8c4569a8f1f4540ea2435f5180d6b") },
        ];
        // user-defined curves: no published base or order; the base is some point
        for (name, fi, d) in [
            ("user221", 0, surface::D221),
            ("user255", 3, surface::D255),
            ("user383", 5, surface::D383),
            ("user511", 7, surface::D511),
        ] {
            let mut c = Ec { name, fi, d: s(fi, d as i64), cofactor: 0, base: (ZERO, ZERO), order: ZERO };
            assert!(!c.m().is_qr(&c.d), "HARNESS d must be a non-square");
            let mut y = 2;
            while let None = c.lift(&Big::small(y), false) {
                y += 1;
            }
            let p = c.lift(&Big::small(y), false).unwrap();
            c.base = (p.x, p.y);
            v.push(c);
        }
        v
    })
}
