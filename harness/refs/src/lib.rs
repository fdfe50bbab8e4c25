//! Reference implementations written from the specifications, sharing no code with axon:
//! Keccak-256, SHA-256, RLP, hex, Merkle-Patricia trie root, small big-integer arithmetic.
mod more;
pub use more::*;
pub mod big;
pub mod mpt;
pub mod rlp;

pub use rlp::{Item, R};

const RC: [u64; 24] = [
    0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b, 0x0000000080000001,
    0x8000000080008081, 0x8000000000008009, 0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a,
    0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080,
    0x000000000000800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
];

fn keccak_f(a: &mut [[u64; 5]; 5]) {
    for rc in RC {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x][y] ^= d;
            }
        }
        // rho and pi
        let (mut x, mut y) = (1usize, 0usize);
        let mut cur = a[x][y];
        for t in 0..24u32 {
            let (nx, ny) = (y, (2 * x + 3 * y) % 5);
            let tmp = a[nx][ny];
            a[nx][ny] = cur.rotate_left(((t + 1) * (t + 2) / 2) % 64);
            cur = tmp;
            x = nx;
            y = ny;
        }
        // chi
        for y in 0..5 {
            let row = [a[0][y], a[1][y], a[2][y], a[3][y], a[4][y]];
            for x in 0..5 {
                a[x][y] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5]);
            }
        }
        a[0][0] ^= rc;
    }
}

pub fn keccak(data: &[u8]) -> [u8; 32] {
    let rate = 136;
    let mut p = data.to_vec();
    p.push(1);
    while p.len() % rate != 0 {
        p.push(0);
    }
    let n = p.len();
    p[n - 1] |= 0x80;
    let mut a = [[0u64; 5]; 5];
    for blk in p.chunks(rate) {
        for (i, w) in blk.chunks(8).enumerate() {
            a[i % 5][i / 5] ^= u64::from_le_bytes(w.try_into().unwrap());
        }
        keccak_f(&mut a);
    }
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[i * 8..i * 8 + 8].copy_from_slice(&a[i % 5][i / 5].to_le_bytes());
    }
    out
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}

/// Strict hex: an even number of hex digits, no prefix.
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 2 != 0 {
        return None;
    }
    b.chunks(2)
        .map(|p| {
            let h = (p[0] as char).to_digit(16)?;
            let l = (p[1] as char).to_digit(16)?;
            Some((h * 16 + l) as u8)
        })
        .collect()
}

/// EIP-55 text of a 20-byte address.
pub fn eip55(addr: &[u8]) -> String {
    let h = hex(addr);
    let k = keccak(h.as_bytes());
    let mut s = String::from("0x");
    for (i, c) in h.chars().enumerate() {
        let n = if i % 2 == 0 { k[i / 2] >> 4 } else { k[i / 2] & 15 };
        s.push(if n > 7 { c.to_ascii_uppercase() } else { c });
    }
    s
}

pub fn sha256(data: &[u8]) -> [u8; 32] {
    const K: [u32; 64] = [
        0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3,
        0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
        0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13,
        0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
        0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208,
        0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
    ];
    let mut h: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
    let mut p = data.to_vec();
    let bits = (data.len() as u64) * 8;
    p.push(0x80);
    while p.len() % 64 != 56 {
        p.push(0);
    }
    p.extend_from_slice(&bits.to_be_bytes());
    for blk in p.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(blk[i * 4..i * 4 + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[i * 4..i * 4 + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn vectors() {
        assert_eq!(hex(&keccak(b"")), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");
        assert_eq!(hex(&keccak(b"abc")), "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45");
        assert_eq!(hex(&keccak(&[0xab; 200])).len(), 64);
        assert_eq!(hex(&sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
        assert_eq!(eip55(&unhex("5aaeb6053f3e94c9b9a09f33669435e7ef1beaed").unwrap()), "0x5aAeb6053F3E94C9b9A09f33669435E7Ef1BeAed");
        let kv = vec![(b"do".to_vec(), b"verb".to_vec()), (b"dog".to_vec(), b"puppy".to_vec()), (b"doge".to_vec(), b"coin".to_vec()), (b"horse".to_vec(), b"stallion".to_vec())];
        assert_eq!(hex(&mpt::root(&kv)), "5991bb8c6514148a29db676a14ac506cd2cd5775ace63c30a4fe457715e9ac84");
        assert_eq!(hex(&mpt::root(&[])), "56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421");
        assert_eq!(big::modpow(&[3], &[5], &[7]), vec![5]);
        assert_eq!(big::modpow(&[0xff; 40], &[0x01, 0x00, 0x01], &[0x01, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1]).len() <= 13, true);
    }
}
