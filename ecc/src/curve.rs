//! secp256k1 and ECDSA from their definitions (SEC 1, SEC 2), independent of both back ends.
use num_bigint::BigUint;
use num_traits::{One, Zero};
use std::sync::OnceLock;

/// A field element, reduced modulo p = 2^256 - 0x1000003d1.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fe([u64; 4]);

const P: [u64; 4] = [0xffff_fffe_ffff_fc2f, u64::MAX, u64::MAX, u64::MAX];
const FOLD: u64 = 0x1_0000_03d1;

fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}

fn add_raw(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], bool) {
    let mut r = [0; 4];
    let mut c = false;
    for i in 0..4 {
        let (x, c1) = a[i].overflowing_add(b[i]);
        let (x, c2) = x.overflowing_add(c as u64);
        r[i] = x;
        c = c1 || c2;
    }
    (r, c)
}

fn sub_raw(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], bool) {
    let mut r = [0; 4];
    let mut c = false;
    for i in 0..4 {
        let (x, c1) = a[i].overflowing_sub(b[i]);
        let (x, c2) = x.overflowing_sub(c as u64);
        r[i] = x;
        c = c1 || c2;
    }
    (r, c)
}

impl Fe {
    pub const ZERO: Fe = Fe([0; 4]);
    pub const ONE: Fe = Fe([1, 0, 0, 0]);

    pub fn small(n: u64) -> Fe {
        Fe([n, 0, 0, 0])
    }
    /// None when not below p.
    pub fn from_be(b: &[u8; 32]) -> Option<Fe> {
        let mut r = [0u64; 4];
        for i in 0..4 {
            r[3 - i] = u64::from_be_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        }
        if geq(&r, &P) { None } else { Some(Fe(r)) }
    }
    pub fn be(&self) -> [u8; 32] {
        let mut b = [0; 32];
        for i in 0..4 {
            b[8 * i..8 * i + 8].copy_from_slice(&self.0[3 - i].to_be_bytes());
        }
        b
    }
    pub fn add(&self, o: &Fe) -> Fe {
        let (r, c) = add_raw(&self.0, &o.0);
        if c || geq(&r, &P) { Fe(sub_raw(&r, &P).0) } else { Fe(r) }
    }
    pub fn sub(&self, o: &Fe) -> Fe {
        let (r, c) = sub_raw(&self.0, &o.0);
        if c { Fe(add_raw(&r, &P).0) } else { Fe(r) }
    }
    pub fn neg(&self) -> Fe {
        Fe::ZERO.sub(self)
    }
    pub fn mul(&self, o: &Fe) -> Fe {
        let mut t = [0u64; 8];
        for i in 0..4 {
            let mut carry = 0u128;
            for j in 0..4 {
                let x = self.0[i] as u128 * o.0[j] as u128 + t[i + j] as u128 + carry;
                t[i + j] = x as u64;
                carry = x >> 64;
            }
            t[i + 4] = carry as u64;
        }
        // 2^256 = FOLD, twice.
        let mut r = [0u64; 4];
        let mut carry = 0u128;
        for i in 0..4 {
            let x = t[i] as u128 + t[i + 4] as u128 * FOLD as u128 + carry;
            r[i] = x as u64;
            carry = x >> 64;
        }
        let mut extra = carry;
        while extra > 0 {
            let mut x = extra * FOLD as u128;
            extra = 0;
            for v in r.iter_mut() {
                let y = *v as u128 + (x & u64::MAX as u128);
                *v = y as u64;
                x = (x >> 64) + (y >> 64);
            }
            extra += x;
        }
        if geq(&r, &P) { Fe(sub_raw(&r, &P).0) } else { Fe(r) }
    }
    pub fn square(&self) -> Fe {
        self.mul(self)
    }
    fn pow(&self, e: &BigUint) -> Fe {
        let mut r = Fe::ONE;
        for i in (0..e.bits()).rev() {
            r = r.square();
            if bit(e, i) {
                r = r.mul(self)
            }
        }
        r
    }
    pub fn inv(&self) -> Fe {
        self.pow(&(p() - 2u32))
    }
    pub fn sqrt(&self) -> Option<Fe> {
        let r = self.pow(&((p() + 1u32) / 4u32));
        if r.square() == *self { Some(r) } else { None }
    }
    pub fn odd(&self) -> bool {
        self.0[0] & 1 == 1
    }
}

fn bit(e: &BigUint, i: u64) -> bool {
    (e >> (i as usize)) & BigUint::one() == BigUint::one()
}

pub fn p() -> &'static BigUint {
    static V: OnceLock<BigUint> = OnceLock::new();
    V.get_or_init(|| (BigUint::one() << 256) - FOLD)
}
/// The order of the group.
pub fn n() -> &'static BigUint {
    static V: OnceLock<BigUint> = OnceLock::new();
    V.get_or_init(|| BigUint::parse_bytes(b"fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16).unwrap())
}
pub fn scalar_be(v: &BigUint) -> [u8; 32] {
    let b = v.to_bytes_be();
    let mut r = [0; 32];
    r[32 - b.len()..].copy_from_slice(&b);
    r
}
pub fn inv_n(v: &BigUint) -> BigUint {
    v.modpow(&(n() - 2u32), n())
}

/// A finite point, or None for the point at infinity.
pub type Point = Option<(Fe, Fe)>;

pub fn g() -> Point {
    static V: OnceLock<(Fe, Fe)> = OnceLock::new();
    Some(*V.get_or_init(|| {
        let f = |s: &str| Fe::from_be(&hex::decode(s).unwrap().try_into().unwrap()).unwrap();
        (f("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"), f("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"))
    }))
}

pub fn on_curve(x: &Fe, y: &Fe) -> bool {
    y.square() == x.square().mul(x).add(&Fe::small(7))
}

pub fn lift_x(x: &Fe, odd: bool) -> Point {
    let y = x.square().mul(x).add(&Fe::small(7)).sqrt()?;
    Some((*x, if y.odd() == odd { y } else { y.neg() }))
}

pub fn neg(a: &Point) -> Point {
    a.map(|(x, y)| (x, y.neg()))
}

/// Jacobian coordinates; z = 0 is infinity.
#[derive(Clone, Copy)]
struct Jac(Fe, Fe, Fe);

impl Jac {
    const INF: Jac = Jac(Fe::ONE, Fe::ONE, Fe::ZERO);
    fn double(&self) -> Jac {
        let Jac(x, y, z) = self;
        let yy = y.square();
        let s = x.mul(&yy).mul(&Fe::small(4));
        let m = x.square().mul(&Fe::small(3));
        let x3 = m.square().sub(&s).sub(&s);
        let y3 = m.mul(&s.sub(&x3)).sub(&yy.square().mul(&Fe::small(8)));
        Jac(x3, y3, y.mul(z).mul(&Fe::small(2)))
    }
    fn add(&self, o: &(Fe, Fe)) -> Jac {
        let Jac(x1, y1, z1) = self;
        if *z1 == Fe::ZERO {
            return Jac(o.0, o.1, Fe::ONE);
        }
        let zz = z1.square();
        let u2 = o.0.mul(&zz);
        let s2 = o.1.mul(&zz).mul(z1);
        let h = u2.sub(x1);
        let r = s2.sub(y1);
        if h == Fe::ZERO {
            return if r == Fe::ZERO { self.double() } else { Jac::INF };
        }
        let hh = h.square();
        let hhh = hh.mul(&h);
        let v = x1.mul(&hh);
        let x3 = r.square().sub(&hhh).sub(&v).sub(&v);
        let y3 = r.mul(&v.sub(&x3)).sub(&y1.mul(&hhh));
        Jac(x3, y3, z1.mul(&h))
    }
    fn affine(&self) -> Point {
        if self.2 == Fe::ZERO {
            return None;
        }
        let zi = self.2.inv();
        let zz = zi.square();
        Some((self.0.mul(&zz), self.1.mul(&zz).mul(&zi)))
    }
}

/// a*A + b*B
pub fn combine(a: &BigUint, pa: &Point, b: &BigUint, pb: &Point) -> Point {
    let mut r = Jac::INF;
    for i in (0..256).rev() {
        r = r.double();
        if let (true, Some(q)) = (bit(a, i), pa) {
            r = r.add(q)
        }
        if let (true, Some(q)) = (bit(b, i), pb) {
            r = r.add(q)
        }
    }
    r.affine()
}

pub fn mul(a: &BigUint, pa: &Point) -> Point {
    combine(a, pa, &BigUint::zero(), &None)
}

pub fn compress(a: &(Fe, Fe)) -> Vec<u8> {
    let mut v = vec![2 + a.1.odd() as u8];
    v.extend(a.0.be());
    v
}

pub fn uncompressed(a: &(Fe, Fe)) -> Vec<u8> {
    let mut v = vec![4];
    v.extend(a.0.be());
    v.extend(a.1.be());
    v
}

pub fn secret(key: &[u8]) -> Option<BigUint> {
    let v = BigUint::from_bytes_be(key);
    if key.len() == 32 && !v.is_zero() && v < *n() { Some(v) } else { None }
}

/// The compressed public key of a valid secret key.
pub fn public(key: &[u8]) -> Option<Vec<u8>> {
    Some(compress(&mul(&secret(key)?, &g()).unwrap()))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Key {
    Compressed(Fe, Fe),
    /// Uncompressed or hybrid.
    Long(Fe, Fe),
    Bad,
}

pub fn parse_key(k: &[u8]) -> Key {
    let fe = |b: &[u8]| Fe::from_be(b.try_into().unwrap());
    match (k.first(), k.len()) {
        (Some(b @ 2..=3), 33) => match fe(&k[1..]).and_then(|x| lift_x(&x, *b == 3)) {
            Some((x, y)) => Key::Compressed(x, y),
            None => Key::Bad,
        },
        (Some(b @ (4 | 6 | 7)), 65) => match (fe(&k[1..33]), fe(&k[33..])) {
            (Some(x), Some(y)) if on_curve(&x, &y) && (*b == 4 || y.odd() == (*b == 7)) => Key::Long(x, y),
            _ => Key::Bad,
        },
        _ => Key::Bad,
    }
}

/// ECDSA verification of any pair of numbers.
pub fn ecdsa(q: &Point, msg: &[u8], r: &BigUint, s: &BigUint) -> bool {
    if r.is_zero() || s.is_zero() || r >= n() || s >= n() {
        return false;
    }
    let z = BigUint::from_bytes_be(msg) % n();
    let si = inv_n(s);
    match combine(&(&z * &si % n()), &g(), &(r * &si % n()), q) {
        Some((x, _)) => BigUint::from_bytes_be(&x.be()) % n() == *r,
        None => false,
    }
}

pub fn is_low(s: &BigUint) -> bool {
    s * 2u32 < *n()
}

/// Strict DER: minimal lengths, minimal non-negative integers, nothing else.
pub fn parse_der(b: &[u8]) -> Option<(BigUint, BigUint)> {
    fn take<'a>(b: &'a [u8], tag: u8) -> Option<(&'a [u8], &'a [u8])> {
        if b.len() < 2 || b[0] != tag || b[1] >= 0x80 || b.len() < 2 + b[1] as usize {
            return None;
        }
        Some(b[2..].split_at(b[1] as usize))
    }
    fn int(b: &[u8]) -> Option<BigUint> {
        if b.is_empty() || b[0] >= 0x80 || (b.len() > 1 && b[0] == 0 && b[1] < 0x80) {
            return None;
        }
        Some(BigUint::from_bytes_be(b))
    }
    let (body, rest) = take(b, 0x30)?;
    let (r, body) = take(body, 2)?;
    let (s, body) = take(body, 2)?;
    if !rest.is_empty() || !body.is_empty() {
        return None;
    }
    Some((int(r)?, int(s)?))
}

pub fn der(r: &BigUint, s: &BigUint) -> Vec<u8> {
    let int = |v: &BigUint| {
        let mut b = v.to_bytes_be();
        if b[0] >= 0x80 {
            b.insert(0, 0)
        }
        [&[2, b.len() as u8][..], &b].concat()
    };
    let body = [int(r), int(s)].concat();
    [&[0x30, body.len() as u8][..], &body].concat()
}

/// The lax reading of signatures from before BIP66: lengths of any form, negative or padded
/// integers, anything after them. None when it finds no two integers.
pub fn parse_lax(b: &[u8]) -> Option<(BigUint, BigUint)> {
    let mut i = 0;
    if *b.first()? != 0x30 {
        return None;
    }
    i += 1;
    let l = *b.get(i)?;
    i += 1;
    if l & 0x80 != 0 {
        i += (l & 0x7f) as usize;
        if i > b.len() {
            return None;
        }
    }
    let mut ints = vec![];
    for _ in 0..2 {
        if *b.get(i)? != 2 {
            return None;
        }
        i += 1;
        let mut l = *b.get(i)? as usize;
        i += 1;
        if l & 0x80 != 0 {
            let k = l & 0x7f;
            if k > b.len() - i {
                return None;
            }
            let mut bytes = &b[i..i + k];
            i += k;
            while let Some((0, rest)) = bytes.split_first() {
                bytes = rest
            }
            if bytes.len() >= 4 {
                return None;
            }
            l = bytes.iter().fold(0, |l, b| l << 8 | *b as usize);
        }
        if l > b.len() - i {
            return None;
        }
        ints.push(BigUint::from_bytes_be(&b[i..i + l]));
        i += l;
    }
    let s = ints.pop()?;
    Some((ints.pop()?, s))
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn group() {
        let (x, y) = g().unwrap();
        assert!(on_curve(&x, &y));
        assert_eq!(mul(n(), &g()), None);
        assert_eq!(mul(&(n() - 1u32), &g()), neg(&g()));
        let two = mul(&BigUint::from(2u32), &g()).unwrap();
        assert_eq!(hex::encode(two.0.be()), "c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5");
    }
}
