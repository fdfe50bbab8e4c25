//! The curve alt_bn128: the part of `substrate-bn` this repository uses. Points of the second group
//! other than zero, and therefore pairings of them, are not supported (no point is "on the curve").
use std::ops::{Add, Mul};

use rug::{integer::Order, Integer};

const P: &str = "30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47";

fn modulus() -> Integer {
    let b: Vec<u8> = (0..32).map(|i| u8::from_str_radix(&P[2 * i..2 * i + 2], 16).unwrap()).collect();
    Integer::from_digits(&b, Order::MsfBe)
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum FieldError {
    InvalidSliceLength,
    NotMember,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum GroupError {
    NotOnCurve,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Fq(Integer);

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Fr(Integer);

impl Fq {
    pub fn zero() -> Fq {
        Fq(Integer::ZERO)
    }
    pub fn one() -> Fq {
        Fq(Integer::from(1u32))
    }
    pub fn is_zero(&self) -> bool {
        self.0 == Integer::ZERO
    }
    pub fn from_slice(s: &[u8]) -> Result<Fq, FieldError> {
        if s.len() != 32 {
            return Err(FieldError::InvalidSliceLength);
        }
        let v = Integer::from_digits(s, Order::MsfBe);
        if v >= modulus() {
            return Err(FieldError::NotMember);
        }
        Ok(Fq(v))
    }
    pub fn to_big_endian(&self, out: &mut [u8]) -> Result<(), FieldError> {
        if out.len() != 32 {
            return Err(FieldError::InvalidSliceLength);
        }
        let d: Vec<u8> = self.0.to_digits(Order::MsfBe);
        out.fill(0);
        out[32 - d.len()..].copy_from_slice(&d);
        Ok(())
    }
    fn add(&self, o: &Fq) -> Fq {
        Fq((self.0.clone() + o.0.clone()) % modulus())
    }
    fn sub(&self, o: &Fq) -> Fq {
        Fq((self.0.clone() + (modulus() - o.0.clone())) % modulus())
    }
    fn mul(&self, o: &Fq) -> Fq {
        Fq((self.0.clone() * o.0.clone()) % modulus())
    }
    fn inverse(&self) -> Fq {
        Fq(self.0.clone().pow_mod(&(modulus() - 2u32), &modulus()).unwrap())
    }
}

impl Fr {
    pub fn from_slice(s: &[u8]) -> Result<Fr, FieldError> {
        if s.len() != 32 {
            return Err(FieldError::InvalidSliceLength);
        }
        Ok(Fr(Integer::from_digits(s, Order::MsfBe)))
    }
}

pub trait Group: Sized {
    fn zero() -> Self;
    fn is_zero(&self) -> bool;
}

/// Projective (Jacobian) coordinates.
#[derive(Debug, Clone)]
pub struct G1 {
    x: Fq,
    y: Fq,
    z: Fq,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct AffineG1 {
    x: Fq,
    y: Fq,
}

impl AffineG1 {
    pub fn new(x: Fq, y: Fq) -> Result<AffineG1, GroupError> {
        let b = Fq(Integer::from(3u32));
        if y.mul(&y) != x.mul(&x).mul(&x).add(&b) {
            return Err(GroupError::NotOnCurve);
        }
        Ok(AffineG1 { x, y })
    }
    pub fn x(&self) -> Fq {
        self.x.clone()
    }
    pub fn y(&self) -> Fq {
        self.y.clone()
    }
    pub fn from_jacobian(p: G1) -> Option<AffineG1> {
        if p.is_zero() {
            return None;
        }
        let i = p.z.inverse();
        let i2 = i.mul(&i);
        Some(AffineG1 { x: p.x.mul(&i2), y: p.y.mul(&i2).mul(&i) })
    }
}

impl From<AffineG1> for G1 {
    fn from(a: AffineG1) -> G1 {
        G1 { x: a.x, y: a.y, z: Fq::one() }
    }
}

impl Group for G1 {
    fn zero() -> G1 {
        G1 { x: Fq::zero(), y: Fq::one(), z: Fq::zero() }
    }
    fn is_zero(&self) -> bool {
        self.z.is_zero()
    }
}

impl G1 {
    fn double(&self) -> G1 {
        if self.is_zero() || self.y.is_zero() {
            return G1::zero();
        }
        let a = self.x.mul(&self.x);
        let b = self.y.mul(&self.y);
        let c = b.mul(&b);
        let t = self.x.mul(&b);
        let d = t.add(&t).add(&t).add(&t);
        let e = a.add(&a).add(&a);
        let x = e.mul(&e).sub(&d).sub(&d);
        let c8 = {
            let c2 = c.add(&c);
            let c4 = c2.add(&c2);
            c4.add(&c4)
        };
        let y = e.mul(&d.sub(&x)).sub(&c8);
        let yz = self.y.mul(&self.z);
        G1 { x, y, z: yz.add(&yz) }
    }
}

impl Add for G1 {
    type Output = G1;
    fn add(self, o: G1) -> G1 {
        if self.is_zero() {
            return o;
        }
        if o.is_zero() {
            return self;
        }
        let z1 = self.z.mul(&self.z);
        let z2 = o.z.mul(&o.z);
        let u1 = self.x.mul(&z2);
        let u2 = o.x.mul(&z1);
        let s1 = self.y.mul(&z2).mul(&o.z);
        let s2 = o.y.mul(&z1).mul(&self.z);
        if u1 == u2 {
            return if s1 == s2 { self.double() } else { G1::zero() };
        }
        let h = u2.sub(&u1);
        let r = s2.sub(&s1);
        let h2 = h.mul(&h);
        let h3 = h2.mul(&h);
        let v = u1.mul(&h2);
        let x = r.mul(&r).sub(&h3).sub(&v).sub(&v);
        let y = r.mul(&v.sub(&x)).sub(&s1.mul(&h3));
        G1 { x, y, z: self.z.mul(&o.z).mul(&h) }
    }
}

impl Mul<Fr> for G1 {
    type Output = G1;
    fn mul(self, k: Fr) -> G1 {
        let d: Vec<u8> = k.0.to_digits(Order::MsfBe);
        let mut r = G1::zero();
        for byte in d {
            for i in (0..8).rev() {
                r = r.double();
                if byte >> i & 1 == 1 {
                    r = r + self.clone();
                }
            }
        }
        r
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Fq2(Fq, Fq);

impl Fq2 {
    pub fn new(a: Fq, b: Fq) -> Fq2 {
        Fq2(a, b)
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_zero() && self.1.is_zero()
    }
}

#[derive(Debug, Clone)]
pub struct G2;

#[derive(Debug, Clone)]
pub struct AffineG2;

impl AffineG2 {
    pub fn new(_: Fq2, _: Fq2) -> Result<AffineG2, GroupError> {
        Err(GroupError::NotOnCurve)
    }
}

impl From<AffineG2> for G2 {
    fn from(_: AffineG2) -> G2 {
        G2
    }
}

impl Group for G2 {
    fn zero() -> G2 {
        G2
    }
    fn is_zero(&self) -> bool {
        true
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Gt;

impl Gt {
    pub fn one() -> Gt {
        Gt
    }
}

pub fn pairing_batch(_: &[(G1, G2)]) -> Gt {
    Gt
}
