//! Schoolbook unsigned arithmetic on big-endian byte strings (for reference values).

type N = Vec<u32>; // little-endian limbs, no trailing zeros

fn trim(mut v: N) -> N {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

pub fn from_be(b: &[u8]) -> N {
    let mut v = vec![];
    let mut i = b.len();
    while i > 0 {
        let lo = i.saturating_sub(4);
        v.push(b[lo..i].iter().fold(0u32, |a, x| (a << 8) | *x as u32));
        i = lo;
    }
    trim(v)
}

pub fn to_be(n: &N) -> Vec<u8> {
    let mut o: Vec<u8> = n.iter().rev().flat_map(|x| x.to_be_bytes()).collect();
    let z = o.iter().take_while(|x| **x == 0).count();
    o.drain(..z);
    o
}

pub fn cmp(a: &N, b: &N) -> std::cmp::Ordering {
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}

pub fn mul(a: &N, b: &N) -> N {
    let mut o = vec![0u32; a.len() + b.len()];
    for (i, x) in a.iter().enumerate() {
        let mut c = 0u64;
        for (j, y) in b.iter().enumerate() {
            let t = o[i + j] as u64 + *x as u64 * *y as u64 + c;
            o[i + j] = t as u32;
            c = t >> 32;
        }
        o[i + b.len()] = c as u32;
    }
    trim(o)
}

pub fn add(a: &N, b: &N) -> N {
    let mut o = vec![];
    let mut c = 0u64;
    for i in 0..a.len().max(b.len()) {
        let t = *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64 + c;
        o.push(t as u32);
        c = t >> 32;
    }
    o.push(c as u32);
    trim(o)
}

pub fn sub(a: &N, b: &N) -> N {
    let mut o = vec![];
    let mut br = 0i64;
    for i in 0..a.len() {
        let mut t = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - br;
        br = 0;
        if t < 0 {
            t += 1 << 32;
            br = 1;
        }
        o.push(t as u32);
    }
    trim(o)
}

/// a mod m, bit by bit.
pub fn rem(a: &N, m: &N) -> N {
    let mut r: N = vec![];
    for i in (0..a.len() * 32).rev() {
        // r = 2r + bit
        let mut c = (a[i / 32] >> (i % 32)) & 1;
        for x in r.iter_mut() {
            let n = *x >> 31;
            *x = (*x << 1) | c;
            c = n;
        }
        if c > 0 {
            r.push(c);
        }
        if cmp(&r, m) != std::cmp::Ordering::Less {
            r = sub(&r, m);
        }
    }
    r
}

/// base^exp mod m as a minimal big-endian string; m = 0 gives the empty string (zero).
pub fn modpow(base: &[u8], exp: &[u8], m: &[u8]) -> Vec<u8> {
    let m = from_be(m);
    if m.is_empty() || m == vec![1] {
        return vec![];
    }
    let b = rem(&from_be(base), &m);
    let mut r: N = vec![1];
    for byte in exp {
        for i in (0..8).rev() {
            r = rem(&mul(&r, &r), &m);
            if (byte >> i) & 1 == 1 {
                r = rem(&mul(&r, &b), &m);
            }
        }
    }
    to_be(&r)
}

pub mod bn {
    //! The curve y^2 = x^3 + 3 over the field of alt_bn128, in affine coordinates.
    use super::*;

    pub type Point = Option<([u8; 32], [u8; 32])>;

    pub fn p() -> Vec<u8> {
        crate::unhex("30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47").unwrap()
    }

    fn pad(b: Vec<u8>) -> [u8; 32] {
        let mut o = [0; 32];
        o[32 - b.len()..].copy_from_slice(&b);
        o
    }

    pub fn on_curve(x: &[u8; 32], y: &[u8; 32]) -> bool {
        let (p, x, y) = (from_be(&p()), from_be(x), from_be(y));
        let less = |a: &N| cmp(a, &p) == std::cmp::Ordering::Less;
        less(&x) && less(&y) && rem(&mul(&y, &y), &p) == rem(&add(&mul(&mul(&x, &x), &x), &vec![3]), &p)
    }

    pub fn sum(a: &Point, b: &Point) -> Point {
        let (Some((x1, y1)), Some((x2, y2))) = (a, b) else { return a.or(*b) };
        let p = from_be(&p());
        let minus = |a: &N, b: &N| rem(&sub(&add(a, &p), b), &p);
        let (x1, y1, x2, y2) = (from_be(x1), from_be(y1), from_be(x2), from_be(y2));
        let (num, den) = if x1 == x2 {
            if y1 != y2 || y1.is_empty() {
                return None;
            }
            (mul(&vec![3], &mul(&x1, &x1)), mul(&vec![2], &y1))
        } else {
            (minus(&y2, &y1), minus(&x2, &x1))
        };
        let inv = from_be(&modpow(&to_be(&den), &to_be(&sub(&p, &vec![2])), &to_be(&p)));
        let l = rem(&mul(&num, &inv), &p);
        let x = minus(&minus(&rem(&mul(&l, &l), &p), &x1), &x2);
        let y = minus(&rem(&mul(&l, &minus(&x1, &x)), &p), &y1);
        Some((pad(to_be(&x)), pad(to_be(&y))))
    }

    /// k times a point: in Jacobian coordinates, with one inversion at the end.
    pub fn times(a: &Point, k: &[u8]) -> Point {
        let Some((x, y)) = a else { return None };
        let p = from_be(&p());
        let (x, y) = (from_be(x), from_be(y));
        let m = |a: &N, b: &N| rem(&mul(a, b), &p);
        let minus = |a: &N, b: &N| rem(&sub(&add(a, &p), b), &p);
        let small = |k: u32, a: &N| rem(&mul(&vec![k as _], a), &p);
        // None is the zero
        let mut r: Option<(N, N, N)> = None;
        let double = |r: Option<(N, N, N)>| -> Option<(N, N, N)> {
            let (x, y, z) = r?;
            if y.is_empty() {
                return None;
            }
            let (a, b) = (m(&x, &x), m(&y, &y));
            let d = small(4, &m(&x, &b));
            let e = small(3, &a);
            let x3 = minus(&m(&e, &e), &small(2, &d));
            let y3 = minus(&m(&e, &minus(&d, &x3)), &small(8, &m(&b, &b)));
            Some((x3, y3, small(2, &m(&y, &z))))
        };
        for b in k {
            for i in (0..8).rev() {
                r = double(r);
                if b >> i & 1 == 0 {
                    continue;
                }
                r = match r {
                    None => Some((x.clone(), y.clone(), vec![1])),
                    Some((x1, y1, z1)) => {
                        let zz = m(&z1, &z1);
                        let h = minus(&m(&x, &zz), &x1);
                        let s = minus(&m(&y, &m(&z1, &zz)), &y1);
                        if h.is_empty() {
                            if s.is_empty() {
                                double(Some((x1, y1, z1)))
                            } else {
                                None
                            }
                        } else {
                            let hh = m(&h, &h);
                            let hhh = m(&hh, &h);
                            let v = m(&x1, &hh);
                            let x3 = minus(&minus(&m(&s, &s), &hhh), &small(2, &v));
                            let y3 = minus(&m(&s, &minus(&v, &x3)), &m(&y1, &hhh));
                            Some((x3, y3, m(&z1, &h)))
                        }
                    }
                };
            }
        }
        let (x, y, z) = r?;
        let inv = from_be(&modpow(&to_be(&z), &to_be(&sub(&p, &vec![2])), &to_be(&p)));
        let i2 = m(&inv, &inv);
        Some((pad(to_be(&m(&x, &i2))), pad(to_be(&m(&y, &m(&i2, &inv))))))
    }
}
