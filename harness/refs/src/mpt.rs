//! Merkle-Patricia trie root, computed recursively from the definition (Yellow Paper, appendix D).
use crate::{keccak, rlp};

fn nibbles(k: &[u8]) -> Vec<u8> {
    k.iter().flat_map(|b| [b >> 4, b & 15]).collect()
}

fn hp(n: &[u8], leaf: bool) -> Vec<u8> {
    let mut o = vec![];
    let f = if leaf { 2u8 } else { 0 };
    let rest = if n.len() % 2 == 1 {
        o.push(((f + 1) << 4) | n[0]);
        &n[1..]
    } else {
        o.push(f << 4);
        n
    };
    for p in rest.chunks(2) {
        o.push((p[0] << 4) | p[1]);
    }
    o
}

/// RLP of the node holding these (nibble path, value) pairs; paths are distinct and sorted.
fn node(kv: &[(Vec<u8>, Vec<u8>)], out: &mut Vec<Vec<u8>>) -> Vec<u8> {
    if kv.is_empty() {
        return vec![0x80];
    }
    if kv.len() == 1 {
        return rlp::list(&[rlp::bytes(&hp(&kv[0].0, true)), rlp::bytes(&kv[0].1)]);
    }
    let (a, b) = (&kv[0].0, &kv[kv.len() - 1].0);
    let common = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
    if common > 0 {
        let sub: Vec<_> = kv.iter().map(|(k, v)| (k[common..].to_vec(), v.clone())).collect();
        let child = link(&sub, out);
        return rlp::list(&[rlp::bytes(&hp(&a[..common], false)), child]);
    }
    let mut items = vec![];
    for n in 0..16u8 {
        let sub: Vec<_> = kv.iter().filter(|(k, _)| k.first() == Some(&n)).map(|(k, v)| (k[1..].to_vec(), v.clone())).collect();
        items.push(if sub.is_empty() { vec![0x80] } else { link(&sub, out) });
    }
    let own = kv.iter().find(|(k, _)| k.is_empty()).map(|x| x.1.clone()).unwrap_or_default();
    items.push(rlp::bytes(&own));
    rlp::list(&items)
}

fn link(kv: &[(Vec<u8>, Vec<u8>)], out: &mut Vec<Vec<u8>>) -> Vec<u8> {
    let n = node(kv, out);
    if n.len() < 32 {
        n
    } else {
        let h = keccak(&n);
        out.push(n);
        rlp::bytes(&h)
    }
}

/// Root of the trie of these pairs (later duplicates win; values must not be empty).
pub fn root(kv: &[(Vec<u8>, Vec<u8>)]) -> [u8; 32] {
    nodes(kv).0
}

/// Root and every hashed node (in no particular order, the root node included).
pub fn nodes(kv: &[(Vec<u8>, Vec<u8>)]) -> ([u8; 32], Vec<Vec<u8>>) {
    let mut m = std::collections::BTreeMap::new();
    for (k, v) in kv {
        m.insert(nibbles(k), v.clone());
    }
    let v: Vec<_> = m.into_iter().collect();
    let mut out = vec![];
    let r = node(&v, &mut out);
    let h = keccak(&r);
    out.push(r);
    (h, out)
}

/// The nodes on the path of `key`, root first (a Merkle proof of presence or absence).
pub fn proof(kv: &[(Vec<u8>, Vec<u8>)], key: &[u8]) -> Vec<Vec<u8>> {
    let (root, all) = nodes(kv);
    let find = |h: &[u8]| all.iter().find(|n| keccak(n) == *h).cloned();
    let mut out = vec![];
    let path = nibbles(key);
    let mut pos = 0;
    let mut cur = find(&root).unwrap();
    out.push(cur.clone());
    loop {
        let Ok((item, _)) = rlp::parse(&cur) else { return out };
        let mut it = item;
        loop {
            let rlp::Item::L(v) = &it else { return out };
            let next = if v.len() == 17 {
                if pos == path.len() {
                    return out;
                }
                pos += 1;
                v[path[pos - 1] as usize].clone()
            } else {
                let rlp::Item::S(p) = &v[0] else { return out };
                let mut n = nibbles(p);
                let leaf = n[0] >= 2;
                n.drain(..if n[0] & 1 == 1 { 1 } else { 2 });
                if leaf || path.len() - pos < n.len() || path[pos..pos + n.len()] != n[..] {
                    return out;
                }
                pos += n.len();
                v[1].clone()
            };
            match &next {
                rlp::Item::S(h) if h.len() == 32 => {
                    let Some(n) = find(h) else { return out };
                    out.push(n.clone());
                    cur = n;
                    break;
                }
                rlp::Item::L(_) => it = next,
                _ => return out,
            }
        }
    }
}
