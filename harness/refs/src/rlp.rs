//! RLP from the Yellow Paper (appendix B).

pub fn be(n: u128) -> Vec<u8> {
    let b = n.to_be_bytes();
    let z = b.iter().take_while(|x| **x == 0).count();
    b[z..].to_vec()
}

fn head(out: &mut Vec<u8>, base: u8, len: usize) {
    if len < 56 {
        out.push(base + len as u8);
    } else {
        let l = be(len as u128);
        out.push(base + 55 + l.len() as u8);
        out.extend_from_slice(&l);
    }
}

pub fn bytes(b: &[u8]) -> Vec<u8> {
    if b.len() == 1 && b[0] < 0x80 {
        return b.to_vec();
    }
    let mut o = vec![];
    head(&mut o, 0x80, b.len());
    o.extend_from_slice(b);
    o
}

pub fn uint(n: u128) -> Vec<u8> {
    bytes(&be(n))
}

/// An integer given as big-endian bytes (leading zeros dropped).
pub fn uint_be(b: &[u8]) -> Vec<u8> {
    let z = b.iter().take_while(|x| **x == 0).count();
    bytes(&b[z..])
}

pub fn list(items: &[Vec<u8>]) -> Vec<u8> {
    let n: usize = items.iter().map(|x| x.len()).sum();
    let mut o = vec![];
    head(&mut o, 0xc0, n);
    for i in items {
        o.extend_from_slice(i);
    }
    o
}

/// A parsed item.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    S(Vec<u8>),
    L(Vec<Item>),
}

pub type R<T> = Result<T, String>;

impl Item {
    pub fn enc(&self) -> Vec<u8> {
        match self {
            Item::S(b) => bytes(b),
            Item::L(v) => list(&v.iter().map(|x| x.enc()).collect::<Vec<_>>()),
        }
    }

    pub fn list(&self) -> R<&Vec<Item>> {
        match self {
            Item::L(v) => Ok(v),
            _ => Err("not a list".into()),
        }
    }

    pub fn str(&self) -> R<&Vec<u8>> {
        match self {
            Item::S(v) => Ok(v),
            _ => Err("not a string".into()),
        }
    }
}

/// Strict (canonical) parser of one item; returns the rest.
pub fn parse(b: &[u8]) -> R<(Item, &[u8])> {
    let e = || "truncated".to_string();
    let f = *b.first().ok_or_else(e)?;
    let long = |n: usize| -> R<(usize, usize)> {
        let l = b.get(1..1 + n).ok_or_else(e)?;
        if l[0] == 0 {
            return Err("leading zero in length".into());
        }
        if n > 8 {
            return Err("length".into());
        }
        let v = l.iter().fold(0u64, |a, x| (a << 8) | *x as u64);
        if v < 56 {
            return Err("short length in long form".into());
        }
        Ok((1 + n, usize::try_from(v).map_err(|_| e())?))
    };
    let (off, len, is_list) = match f {
        0..=0x7f => return Ok((Item::S(vec![f]), &b[1..])),
        0x80..=0xb7 => (1, (f - 0x80) as usize, false),
        0xb8..=0xbf => {
            let (o, l) = long((f - 0xb7) as usize)?;
            (o, l, false)
        }
        0xc0..=0xf7 => (1, (f - 0xc0) as usize, true),
        _ => {
            let (o, l) = long((f - 0xf7) as usize)?;
            (o, l, true)
        }
    };
    let end = off.checked_add(len).ok_or_else(e)?;
    let body = b.get(off..end).ok_or_else(e)?;
    let rest = &b[end..];
    if !is_list {
        if len == 1 && body[0] < 0x80 {
            return Err("single byte in string form".into());
        }
        return Ok((Item::S(body.to_vec()), rest));
    }
    let mut v = vec![];
    let mut cur = body;
    while !cur.is_empty() {
        let (i, r) = parse(cur)?;
        v.push(i);
        cur = r;
    }
    Ok((Item::L(v), rest))
}
