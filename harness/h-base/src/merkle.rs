//! P09 trie Merkle roots and proofs, P10 static Merkle trees.
use crate::gens;
use common_merkle::{Merkle, TrieMerkle};
use pbt::{check, check_eq, fail, no_panic, Facet, Gen, Prop, Res};
use protocol::trie::{MemoryDB, PatriciaTrie, Trie};
use protocol::types::{Bytes, DBBytes, Hasher, HasherKeccak, H256};
use refs::{hex, keccak, mpt, rlp as R};
use std::sync::Arc;

/// Index keys as Ethereum's ordered tries use them.
fn key(i: usize) -> Vec<u8> {
    R::uint(i as u128)
}

fn values(g: &mut Gen) -> Vec<Vec<u8>> {
    let n = match g.below(8) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => g.usize(15, 18),
        4 => g.usize(126, 131),
        5 if g.chance(1, 4) => g.usize(254, 260),
        _ => g.usize(3, 24),
    };
    let same = g.below(4) == 0;
    let first = {
        let l = g.usize(1, 40);
        g.bytes_n(l)
    };
    (0..n)
        .map(|_| {
            if same {
                first.clone()
            } else {
                let l = g.usize(1, 40);
                g.bytes_n(l)
            }
        })
        .collect()
}

fn trie(g: &mut Gen) -> Res {
    let vs = values(g);
    let n = vs.len();
    if n > 1 {
        g.hit();
    }
    g.label(if n == 0 { "empty" } else if n <= 16 { "up to 16" } else if n <= 127 { "up to 127" } else { "more than 127" });
    g.note(|| format!("{} values {:?}", n, vs.iter().take(5).map(|v| hex(v)).collect::<Vec<_>>()));
    let kv: Vec<_> = vs.iter().enumerate().map(|(i, v)| (key(i), v.clone())).collect();
    let want = mpt::root(&kv);
    let bs: Vec<Bytes> = vs.iter().map(|v| Bytes::from(v.clone())).collect();
    let mut a = TrieMerkle::from_receipts(&bs);
    let ra = a.root_hash().map_err(|e| fail("trie-root", e.to_string()))?;
    check_eq!(hex(&ra.0), hex(&want), "trie-root", "receipts root of {} values", n);
    let db: Vec<DBBytes> = vs.iter().map(|v| DBBytes(Bytes::from(v.clone()))).collect();
    let mut t: TrieMerkle = db.iter().enumerate().collect();
    let rt = t.root_hash().map_err(|e| fail("trie-root", e.to_string()))?;
    check_eq!(hex(&rt.0), hex(&want), "trie-root", "root of {} indexed values", n);
    if n > 0 {
        // any order of insertion
        let mut order: Vec<usize> = (0..n).collect();
        g.shuffle(&mut order);
        let mut t: TrieMerkle = order.iter().map(|i| (*i, &db[*i])).collect();
        check_eq!(hex(&t.root_hash().unwrap().0), hex(&want), "trie-order", "root does not depend on the order of insertion");
        let i = g.below(n as u64) as usize;
        let p = t.get_proof_by_index(i).map_err(|e| fail("trie-proof", e.to_string()))?;
        let wantp = mpt::proof(&kv, &key(i));
        check_eq!(p.iter().map(|x| hex(x)).collect::<Vec<_>>(), wantp.iter().map(|x| hex(x)).collect::<Vec<_>>(), "trie-proof", "proof of index {} of {}", i, n);
        let v = |root: &[u8; 32], k: &[u8], p: Vec<Vec<u8>>| PatriciaTrie::new(Arc::new(MemoryDB::new(false)), Arc::new(HasherKeccak::new())).verify_proof(root, k, p);
        check_eq!(v(&want, &key(i), p.clone()).ok().flatten(), Some(vs[i].clone()), "trie-proof-verify", "value proved for index {}", i);
        // a proof whose nodes were changed proves nothing else
        let mut bad = p.clone();
        let j = g.below(bad.len() as u64) as usize;
        bad[j] = g.mutate(&bad[j]);
        if bad != p {
            let got = no_panic(|| v(&want, &key(i), bad.clone()).ok().flatten()).map_err(|e| fail("trie-proof-panic", e))?;
            if let Some(x) = got {
                check_eq!(x, vs[i].clone(), "trie-proof-forged", "a changed proof proves another value");
            }
        }
        // changing one value changes the root
        let mut o = bs.clone();
        let c = g.below(n as u64) as usize;
        o[c] = Bytes::from(g.mutate(&vs[c]));
        if o[c] != bs[c] && !o[c].is_empty() {
            check!(TrieMerkle::from_receipts(&o).root_hash().unwrap() != ra, "trie-collision", "two lists that differ at {} share a root", c);
        }
        let outside = t.get_proof_by_index(n + g.below(3) as usize).map_err(|e| fail("trie-proof", e.to_string()))?;
        if let Ok(Some(_)) = v(&want, &key(n), outside) {
            return Err(fail("trie-proof-verify", "a value is proved for an index that is not there"));
        }
    } else {
        check_eq!(hex(&want), hex(&protocol::types::RLP_NULL.0), "trie-empty", "root of nothing");
    }
    Ok(())
}

/// The complete binary tree over the leaves: node i has children 2i+1 and 2i+2, leaves come last.
fn tree(leaves: &[H256]) -> Vec<[u8; 32]> {
    if leaves.is_empty() {
        return vec![];
    }
    let n = 2 * leaves.len() - 1;
    let mut v = vec![[0u8; 32]; n];
    for (i, l) in leaves.iter().enumerate() {
        v[n - leaves.len() + i] = l.0;
    }
    for i in (0..leaves.len() - 1).rev() {
        v[i] = keccak(&[v[2 * i + 1], v[2 * i + 2]].concat());
    }
    v
}

fn fixed(g: &mut Gen) -> Res {
    let n = match g.below(4) {
        0 => g.usize(0, 3),
        1 => *g.pick(&[4usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65]),
        _ => g.usize(2, 40),
    };
    let leaves: Vec<H256> = (0..n).map(|_| if g.below(5) == 0 { H256::zero() } else { gens::h256(g) }).collect();
    if n > 1 {
        g.hit();
    }
    g.note(|| format!("{} leaves", n));
    let m = no_panic(|| Merkle::from_hashes(leaves.clone())).map_err(|p| fail("merkle-panic", p))?;
    let t = tree(&leaves);
    check_eq!(m.get_root_hash().map(|h| h.0), t.first().copied(), "merkle-root", "root of {} leaves", n);
    for i in 0..n + 2 {
        let p = no_panic(|| m.get_proof_by_input_index(i)).map_err(|p| fail("merkle-panic", p))?;
        if i >= n {
            check!(p.is_none() || (n == 0 && i == 0 && p.as_ref().unwrap().is_empty()), "merkle-proof", "there is a proof for leaf {} of {}", i, n);
            continue;
        }
        let p = p.ok_or_else(|| fail("merkle-proof", format!("no proof for leaf {} of {}", i, n)))?;
        let mut acc = leaves[i].0;
        for x in &p {
            acc = if x.is_right { keccak(&[acc, x.hash.0].concat()) } else { keccak(&[x.hash.0, acc].concat()) };
        }
        check_eq!(hex(&acc), hex(&t[0]), "merkle-proof", "root reached from leaf {} of {}", i, n);
        let mut depth = 0;
        let mut k = t.len() - n + i;
        while k > 0 {
            k = (k - 1) / 2;
            depth += 1;
        }
        check_eq!(p.len(), depth, "merkle-proof", "length of the proof of leaf {} of {}", i, n);
    }
    Ok(())
}

fn digests(g: &mut Gen) -> Res {
    let n = match g.below(4) {
        0 => g.usize(134, 138),
        1 => g.usize(270, 274),
        _ => g.len(600),
    };
    let x = g.bytes_n(n);
    g.hit();
    g.note(|| hex(&x));
    check_eq!(hex(&Hasher::digest(&x).0), hex(&keccak(&x)), "keccak", "digest of {} bytes", n);
    check_eq!(hex(&common_hasher::keccak256(&x)), hex(&keccak(&x)), "keccak", "keccak256 of {} bytes", n);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P09", rule: "two or more values", assume: vec!["refs::mpt is the Yellow Paper's trie"], facets: vec![Facet::new("trie", 4_000, trie), Facet::new("digest", 10_000, digests)] },
        Prop { id: "P10", rule: "two or more leaves", assume: vec!["refs::keccak is Keccak-256"], facets: vec![Facet::new("static", 8_000, fixed)] },
    ]
}
