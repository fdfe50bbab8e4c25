//! BLAKE2b (RFC 7693), its compression function alone (EIP-152), and RIPEMD-160.

const IV: [u64; 8] = [
    0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];

const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

pub fn blake2b_f(rounds: u32, h: &mut [u64; 8], m: &[u64; 16], t: [u64; 2], last: bool) {
    let mut v = [0u64; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&IV);
    v[12] ^= t[0];
    v[13] ^= t[1];
    if last {
        v[14] = !v[14];
    }
    for r in 0..rounds as usize {
        let s = &SIGMA[r % 10];
        let mut mix = |a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
            v[d] = (v[d] ^ v[a]).rotate_right(32);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(24);
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
            v[d] = (v[d] ^ v[a]).rotate_right(16);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(63);
        };
        mix(0, 4, 8, 12, m[s[0]], m[s[1]]);
        mix(1, 5, 9, 13, m[s[2]], m[s[3]]);
        mix(2, 6, 10, 14, m[s[4]], m[s[5]]);
        mix(3, 7, 11, 15, m[s[6]], m[s[7]]);
        mix(0, 5, 10, 15, m[s[8]], m[s[9]]);
        mix(1, 6, 11, 12, m[s[10]], m[s[11]]);
        mix(2, 7, 8, 13, m[s[12]], m[s[13]]);
        mix(3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    for i in 0..8 {
        h[i] ^= v[i] ^ v[i + 8];
    }
}

/// BLAKE2b-256 with a personalisation.
pub fn blake2b(data: &[u8], person: &[u8; 16]) -> [u8; 32] {
    let mut h = IV;
    h[0] ^= 0x0101_0000 ^ 32;
    h[6] ^= u64::from_le_bytes(person[..8].try_into().unwrap());
    h[7] ^= u64::from_le_bytes(person[8..].try_into().unwrap());
    let n = if data.is_empty() { 1 } else { (data.len() + 127) / 128 };
    for i in 0..n {
        let mut b = [0u8; 128];
        let part = &data[i * 128..data.len().min((i + 1) * 128)];
        b[..part.len()].copy_from_slice(part);
        let mut m = [0u64; 16];
        for (k, w) in m.iter_mut().enumerate() {
            *w = u64::from_le_bytes(b[k * 8..k * 8 + 8].try_into().unwrap());
        }
        let t = if i + 1 == n { data.len() } else { (i + 1) * 128 };
        blake2b_f(12, &mut h, &m, [t as u64, 0], i + 1 == n);
    }
    let mut o = [0; 32];
    for i in 0..4 {
        o[i * 8..i * 8 + 8].copy_from_slice(&h[i].to_le_bytes());
    }
    o
}

pub fn ckb_blake2b(data: &[u8]) -> [u8; 32] {
    blake2b(data, b"ckb-default-hash")
}

pub fn ripemd160(data: &[u8]) -> [u8; 20] {
    const RL: [usize; 80] = [
        0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8, 3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12, 1, 9, 11, 10, 0, 8, 12, 4, 13,
        3, 7, 15, 14, 5, 6, 2, 4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13,
    ];
    const RR: [usize; 80] = [
        5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2, 15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13, 8, 6, 4, 1, 3, 11, 15, 0, 5,
        12, 2, 13, 9, 7, 10, 14, 12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11,
    ];
    const SL: [u32; 80] = [
        11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12, 11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5, 11, 12, 14, 15, 14, 15,
        9, 8, 9, 14, 5, 6, 8, 6, 5, 12, 9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6,
    ];
    const SR: [u32; 80] = [
        8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11, 9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5, 15, 5, 8, 11, 14, 14, 6,
        14, 6, 9, 12, 9, 12, 5, 15, 8, 8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11,
    ];
    const KL: [u32; 5] = [0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e];
    const KR: [u32; 5] = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0];
    fn f(j: usize, x: u32, y: u32, z: u32) -> u32 {
        match j / 16 {
            0 => x ^ y ^ z,
            1 => (x & y) | (!x & z),
            2 => (x | !y) ^ z,
            3 => (x & z) | (y & !z),
            _ => x ^ (y | !z),
        }
    }
    let mut h: [u32; 5] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    let mut p = data.to_vec();
    p.push(0x80);
    while p.len() % 64 != 56 {
        p.push(0);
    }
    p.extend_from_slice(&((data.len() as u64) * 8).to_le_bytes());
    for b in p.chunks(64) {
        let x: Vec<u32> = b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
        let (mut l, mut r) = (h, h);
        for j in 0..80 {
            let t = l[0].wrapping_add(f(j, l[1], l[2], l[3])).wrapping_add(x[RL[j]]).wrapping_add(KL[j / 16]).rotate_left(SL[j]).wrapping_add(l[4]);
            l = [l[4], t, l[1], l[2].rotate_left(10), l[3]];
            let t = r[0].wrapping_add(f(79 - j, r[1], r[2], r[3])).wrapping_add(x[RR[j]]).wrapping_add(KR[j / 16]).rotate_left(SR[j]).wrapping_add(r[4]);
            r = [r[4], t, r[1], r[2].rotate_left(10), r[3]];
        }
        let t = h[1].wrapping_add(l[2]).wrapping_add(r[3]);
        h[1] = h[2].wrapping_add(l[3]).wrapping_add(r[4]);
        h[2] = h[3].wrapping_add(l[4]).wrapping_add(r[0]);
        h[3] = h[4].wrapping_add(l[0]).wrapping_add(r[1]);
        h[4] = h[0].wrapping_add(l[1]).wrapping_add(r[2]);
        h[0] = t;
    }
    let mut o = [0; 20];
    for i in 0..5 {
        o[i * 4..i * 4 + 4].copy_from_slice(&h[i].to_le_bytes());
    }
    o
}

#[cfg(test)]
mod tests {
    #[test]
    fn known() {
        let h = |b: &[u8]| crate::hex(b);
        assert_eq!(h(&super::ripemd160(b"")), "9c1185a5c5e9fc54612808977ee8f548b2258d31");
        assert_eq!(h(&super::ripemd160(b"message digest")), "5d0689ef49d2fae572b881b123a85ffa21595f36");
        assert_eq!(h(&super::ckb_blake2b(b"")), "44f4c69744d5f8c55d642062949dcae49bc4e7ef43d388c5a12f42b5633d163e");
        assert_eq!(h(&super::blake2b(b"abc", &[0; 16])), "bddd813c634239723171ef3fee98579b94964e3bb1cb3e427262c8c068d52319");
    }
}

/// CKB's complete binary Merkle tree (RFC 6): all nodes, the root first.
pub fn cbmt(leaves: &[[u8; 32]]) -> Vec<[u8; 32]> {
    let n = leaves.len();
    let mut t = vec![[0u8; 32]; n - 1];
    t.extend(leaves);
    for i in (0..n - 1).rev() {
        t[i] = ckb_blake2b(&[t[2 * i + 1], t[2 * i + 2]].concat());
    }
    t
}

/// The proof of some leaves: their positions in the order of the leaves, and the missing nodes.
pub fn cbmt_proof(t: &[[u8; 32]], which: &[usize]) -> (Vec<u32>, Vec<[u8; 32]>) {
    let n = (t.len() + 1) / 2;
    let mut known: std::collections::BTreeSet<usize> = which.iter().map(|i| n - 1 + i).collect();
    let mut lemmas = vec![];
    // from the last position to the first: each level is finished before the next
    while let Some(i) = known.pop_last() {
        if i == 0 {
            break;
        }
        let sib = if i % 2 == 1 { i + 1 } else { i - 1 };
        if !known.remove(&sib) {
            lemmas.push(t[sib]);
        }
        known.insert((i - 1) / 2);
    }
    let mut idx: Vec<usize> = which.iter().map(|i| n - 1 + i).collect();
    idx.sort_by_key(|i| t[*i]);
    (idx.iter().map(|i| *i as u32).collect(), lemmas)
}
