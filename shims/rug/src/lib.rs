//! Non-negative integers of any size: the part of `rug` (a binding of the C library GMP, which is
//! not available offline) this repository uses.
use std::cmp::Ordering;
use std::ops::{Add, BitAnd, Div, Mul, Rem, Sub};

pub mod integer {
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Order {
        Lsf,
        LsfLe,
        LsfBe,
        Msf,
        MsfLe,
        MsfBe,
    }
    pub use super::Integer;
}

pub mod ops {
    pub trait Pow<Rhs> {
        type Output;
        fn pow(self, rhs: Rhs) -> Self::Output;
    }
}

/// 32-bit limbs, least significant first, no zero limb at the end.
#[derive(Clone, Debug, PartialEq, Eq, Default, Hash)]
pub struct Integer {
    l: Vec<u32>,
}

impl Integer {
    pub const ZERO: Integer = Integer { l: Vec::new() };

    pub fn new() -> Integer {
        Integer::ZERO
    }

    fn norm(mut l: Vec<u32>) -> Integer {
        while l.last() == Some(&0) {
            l.pop();
        }
        Integer { l }
    }

    fn big(mut v: u128) -> Integer {
        let mut l = Vec::new();
        while v > 0 {
            l.push(v as u32);
            v >>= 32;
        }
        Integer { l }
    }

    pub fn from_digits(d: &[u8], o: integer::Order) -> Integer {
        let be: Vec<u8> = match o {
            integer::Order::Msf | integer::Order::MsfBe | integer::Order::MsfLe => d.iter().rev().copied().collect(),
            _ => d.to_vec(),
        };
        Integer::norm(be.chunks(4).map(|c| c.iter().rev().fold(0u32, |a, b| a << 8 | *b as u32)).collect())
    }

    pub fn to_digits<T: From<u8>>(&self, o: integer::Order) -> Vec<T> {
        let mut v: Vec<u8> = self.l.iter().flat_map(|x| x.to_le_bytes()).collect();
        while v.last() == Some(&0) {
            v.pop();
        }
        if matches!(o, integer::Order::Msf | integer::Order::MsfBe | integer::Order::MsfLe) {
            v.reverse();
        }
        v.into_iter().map(T::from).collect()
    }

    pub fn abs_ref(&self) -> &Integer {
        self
    }

    pub fn significant_bits(&self) -> u32 {
        match self.l.last() {
            None => 0,
            Some(t) => self.l.len() as u32 * 32 - t.leading_zeros(),
        }
    }

    fn bit(&self, i: u32) -> bool {
        self.l.get(i as usize / 32).map_or(false, |x| x >> (i % 32) & 1 == 1)
    }

    pub fn is_odd(&self) -> bool {
        self.bit(0)
    }

    fn mul_ref(&self, o: &Integer) -> Integer {
        let mut r = vec![0u32; self.l.len() + o.l.len() + 1];
        for (i, a) in self.l.iter().enumerate() {
            let mut c = 0u64;
            for (j, b) in o.l.iter().enumerate() {
                let t = r[i + j] as u64 + *a as u64 * *b as u64 + c;
                r[i + j] = t as u32;
                c = t >> 32;
            }
            let mut k = i + o.l.len();
            while c > 0 {
                let t = r[k] as u64 + c;
                r[k] = t as u32;
                c = t >> 32;
                k += 1;
            }
        }
        Integer::norm(r)
    }

    fn sub_ref(&self, o: &Integer) -> Integer {
        assert!(&*self >= o, "negative numbers are not supported here");
        let mut r = self.l.clone();
        let mut b = 0i64;
        for (i, x) in r.iter_mut().enumerate() {
            let t = *x as i64 - o.l.get(i).copied().unwrap_or(0) as i64 - b;
            *x = t as u32;
            b = (t < 0) as i64;
        }
        Integer::norm(r)
    }

    /// Schoolbook long division, bit by bit over limbs (Knuth's algorithm D).
    fn div_rem_ref(&self, d: &Integer) -> (Integer, Integer) {
        assert!(!d.l.is_empty(), "division by zero");
        if *self < *d {
            return (Integer::ZERO, self.clone());
        }
        if d.l.len() == 1 {
            let dv = d.l[0] as u64;
            let mut q = vec![0u32; self.l.len()];
            let mut r = 0u64;
            for i in (0..self.l.len()).rev() {
                let t = r << 32 | self.l[i] as u64;
                q[i] = (t / dv) as u32;
                r = t % dv;
            }
            return (Integer::norm(q), Integer::norm(vec![r as u32]));
        }
        let s = d.l.last().unwrap().leading_zeros();
        let shl = |v: &[u32]| -> Vec<u32> {
            let mut out = Vec::with_capacity(v.len() + 1);
            let mut c = 0u64;
            for x in v {
                let t = (*x as u64) << s | c;
                out.push(t as u32);
                c = t >> 32;
            }
            out.push(c as u32);
            out
        };
        let mut u = shl(&self.l);
        let mut v = shl(&d.l);
        v.pop();
        let n = v.len();
        let m = u.len() - n;
        let mut q = vec![0u32; m];
        for j in (0..m).rev() {
            let top = (u[j + n] as u64) << 32 | u[j + n - 1] as u64;
            let mut qh = top / v[n - 1] as u64;
            let mut rh = top % v[n - 1] as u64;
            while qh >> 32 != 0 || qh * v[n - 2] as u64 > (rh << 32 | u[j + n - 2] as u64) {
                qh -= 1;
                rh += v[n - 1] as u64;
                if rh >> 32 != 0 {
                    break;
                }
            }
            let mut b = 0i64;
            let mut c = 0u64;
            for i in 0..n {
                let p = qh * v[i] as u64 + c;
                c = p >> 32;
                let t = u[i + j] as i64 - b - (p as u32) as i64;
                u[i + j] = t as u32;
                b = (t < 0) as i64;
            }
            let t = u[j + n] as i64 - b - c as i64;
            u[j + n] = t as u32;
            if t < 0 {
                qh -= 1;
                let mut c = 0u64;
                for i in 0..n {
                    let t = u[i + j] as u64 + v[i] as u64 + c;
                    u[i + j] = t as u32;
                    c = t >> 32;
                }
                u[j + n] = (u[j + n] as u64 + c) as u32;
            }
            q[j] = qh as u32;
        }
        let mut r = Vec::with_capacity(n);
        for i in 0..n {
            let hi = if s == 0 { 0 } else { (u[i + 1] as u64) << (32 - s) };
            r.push(((u[i] >> s) as u64 | hi) as u32);
        }
        (Integer::norm(q), Integer::norm(r))
    }

    /// `self ^ e mod m`; an error carries the number back, as in `rug`.
    pub fn pow_mod(self, e: &Integer, m: &Integer) -> Result<Integer, Integer> {
        if m.l.is_empty() {
            return Err(self);
        }
        let mut r = Integer::from(1u32).div_rem_ref(m).1;
        let b = self.div_rem_ref(m).1;
        for i in (0..e.significant_bits()).rev() {
            r = r.mul_ref(&r).div_rem_ref(m).1;
            if e.bit(i) {
                r = r.mul_ref(&b).div_rem_ref(m).1;
            }
        }
        Ok(r)
    }
}

impl ops::Pow<u32> for Integer {
    type Output = Integer;
    fn pow(self, e: u32) -> Integer {
        (0..e).fold(Integer::from(1u32), |a, _| a.mul_ref(&self))
    }
}

impl Ord for Integer {
    fn cmp(&self, o: &Integer) -> Ordering {
        self.l.len().cmp(&o.l.len()).then_with(|| self.l.iter().rev().cmp(o.l.iter().rev()))
    }
}

impl PartialOrd for Integer {
    fn partial_cmp(&self, o: &Integer) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}

impl From<&Integer> for Integer {
    fn from(v: &Integer) -> Integer {
        v.clone()
    }
}

impl Add for Integer {
    type Output = Integer;
    fn add(self, o: Integer) -> Integer {
        let mut r = Vec::new();
        let mut c = 0u64;
        for i in 0..self.l.len().max(o.l.len()) {
            let t = self.l.get(i).copied().unwrap_or(0) as u64 + o.l.get(i).copied().unwrap_or(0) as u64 + c;
            r.push(t as u32);
            c = t >> 32;
        }
        r.push(c as u32);
        Integer::norm(r)
    }
}

impl Sub for Integer {
    type Output = Integer;
    fn sub(self, o: Integer) -> Integer {
        self.sub_ref(&o)
    }
}

impl Mul for Integer {
    type Output = Integer;
    fn mul(self, o: Integer) -> Integer {
        self.mul_ref(&o)
    }
}

impl Div for Integer {
    type Output = Integer;
    fn div(self, o: Integer) -> Integer {
        self.div_rem_ref(&o).0
    }
}

impl Rem for Integer {
    type Output = Integer;
    fn rem(self, o: Integer) -> Integer {
        self.div_rem_ref(&o).1
    }
}

impl BitAnd for Integer {
    type Output = Integer;
    fn bitand(self, o: Integer) -> Integer {
        Integer::norm(self.l.iter().zip(o.l.iter()).map(|(a, b)| a & b).collect())
    }
}

macro_rules! ints {
    ($($t:ty),*) => {$(
        impl From<$t> for Integer {
            fn from(v: $t) -> Integer {
                assert!((v as i128) >= 0, "negative numbers are not supported here");
                Integer::big(v as u128)
            }
        }
        impl Add<$t> for Integer { type Output = Integer; fn add(self, o: $t) -> Integer { self + Integer::from(o) } }
        impl Sub<$t> for Integer { type Output = Integer; fn sub(self, o: $t) -> Integer { self - Integer::from(o) } }
        impl Mul<$t> for Integer { type Output = Integer; fn mul(self, o: $t) -> Integer { self * Integer::from(o) } }
        impl Div<$t> for Integer { type Output = Integer; fn div(self, o: $t) -> Integer { self / Integer::from(o) } }
        impl Rem<$t> for Integer { type Output = Integer; fn rem(self, o: $t) -> Integer { self % Integer::from(o) } }
        impl Add<Integer> for $t { type Output = Integer; fn add(self, o: Integer) -> Integer { Integer::from(self) + o } }
        impl Sub<Integer> for $t { type Output = Integer; fn sub(self, o: Integer) -> Integer { Integer::from(self) - o } }
        impl Mul<Integer> for $t { type Output = Integer; fn mul(self, o: Integer) -> Integer { Integer::from(self) * o } }
        impl PartialEq<$t> for Integer { fn eq(&self, o: &$t) -> bool { *self == Integer::from(*o) } }
        impl PartialOrd<$t> for Integer { fn partial_cmp(&self, o: &$t) -> Option<Ordering> { self.partial_cmp(&Integer::from(*o)) } }
    )*};
}
ints!(i32, i64, u8, u16, u32, u64, usize);

macro_rules! casts {
    ($($t:ty),*) => {$(
        impl az::SaturatingCast<$t> for Integer {
            fn saturating_cast(self) -> $t {
                if self > Integer::from(<$t>::MAX) {
                    return <$t>::MAX;
                }
                self.l.iter().rev().fold(0u64, |a, x| a << 32 | *x as u64) as $t
            }
        }
    )*};
}
casts!(u32, u64, usize);
