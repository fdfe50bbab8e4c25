//! P23: the block store.
use std::collections::BTreeMap;
use std::sync::Arc;

use core_db::MemoryAdapter;
use core_storage::ImplStorage;
use pbt::{check, check_eq, fail, Facet, Gen, Prop, Res, Stop};
use protocol::traits::*;
use protocol::types::*;

use crate::gens;
use crate::util::*;

fn e(x: protocol::ProtocolError) -> Stop {
    fail("storage-error", x.to_string())
}

fn tx(g: &mut Gen) -> SignedTransaction {
    let k = [1 + g.below(3) as u8; 32];
    let mut u = gens::unsigned(g);
    if u.data().len() > 300 {
        u.set_data(Bytes::new());
    }
    let chain = gens::chain_id(g, u.is_legacy());
    sign(u, chain, &k)
}

/// Receipts and blocks as they come back from the store (optional exit values are normalised by
/// their encoding; that is another property).
fn receipt(g: &mut Gen, hash: H256) -> Receipt {
    let mut r = gens::receipt(g);
    r.tx_hash = hash;
    r
}

#[derive(Default, Clone)]
struct Model {
    blocks:   BTreeMap<u64, Block>,
    headers:  BTreeMap<u64, Header>,
    numbers:  BTreeMap<H256, u64>,
    latest:   Option<Block>,
    proof:    Option<Proof>,
    txs:      BTreeMap<u64, BTreeMap<H256, SignedTransaction>>,
    receipts: BTreeMap<u64, BTreeMap<H256, Receipt>>,
    codes:    BTreeMap<H256, Bytes>,
    accounts: BTreeMap<H256, H256>,
    fork:     Option<HardforkInfoInner>,
    /// every transaction made so far with the height it belongs to
    known:    Vec<(u64, SignedTransaction)>,
}

fn heights(g: &mut Gen) -> [u64; 4] {
    let b = *g.pick(&[0u64, 1, 254, 255, 256, 65535, u32::MAX as u64, u64::MAX - 4]);
    [b, b + 1, b + 2, b + 3]
}

fn block(g: &mut Gen, number: u64) -> Block {
    let mut h = gens::header(g);
    h.number = number;
    Block { header: h, tx_hashes: g.vec(3, gens::h256) }
}

fn read<S: Storage>(g: &mut Gen, s: &S, m: &Model, hs: &[u64]) -> Res {
    let c = Context::new;
    let h = *g.pick(hs);
    match g.below(13) {
        0 => check_eq!(block_on(s.get_block(c(), h)).map_err(e)?, m.blocks.get(&h).cloned(), "block", "block {}", h),
        1 => check_eq!(block_on(s.get_block_header(c(), h)).map_err(e)?, m.headers.get(&h).cloned(), "header", "header {}", h),
        2 => match (block_on(s.get_latest_block(c())), &m.latest) {
            (Ok(b), Some(w)) => check_eq!(b, *w, "latest", "latest block"),
            (Err(_), None) => {}
            (r, w) => return Err(fail("latest", format!("latest block: {:?} instead of {:?}", r, w))),
        },
        3 => match (block_on(s.get_latest_block_header(c())), &m.latest) {
            (Ok(b), Some(w)) => check_eq!(b, w.header, "latest", "latest header"),
            (Err(_), None) => {}
            (r, w) => return Err(fail("latest", format!("latest header: {:?} instead of {:?}", r, w))),
        },
        4 => {
            let known: Vec<_> = m.blocks.values().map(|b| b.hash()).collect();
            let hash = if known.is_empty() || g.below(4) == 0 { gens::h256(g) } else { *g.pick(&known) };
            let want = m.numbers.get(&hash).cloned();
            check_eq!(block_on(s.get_block_number_by_hash(c(), &hash)).map_err(e)?, want, "number-by-hash", "number of block {:?}", hash);
            check_eq!(block_on(s.get_block_by_hash(c(), &hash)).map_err(e)?, want.and_then(|n| m.blocks.get(&n).cloned()), "block-by-hash", "block {:?}", hash);
        }
        5 | 6 => {
            // many at once: known ones of this and other heights, unknown ones, repeated ones
            let mut hashes = vec![];
            for _ in 0..g.usize(0, 6) {
                let h = if m.known.is_empty() || g.below(5) == 0 { gens::h256(g) } else { g.pick(&m.known).1.transaction.hash };
                hashes.push(h);
            }
            if !hashes.is_empty() && g.below(4) == 0 {
                let x = *g.pick(&hashes);
                hashes.push(x);
            }
            let empty = BTreeMap::new();
            let want: Vec<_> = hashes.iter().map(|x| m.txs.get(&h).unwrap_or(&empty).get(x).cloned()).collect();
            g.label_if(want.iter().flatten().count() > 1, "several transactions read at once");
            check_eq!(block_on(s.get_transactions(c(), h, &hashes)).map_err(e)?, want, "transactions", "transactions of block {}", h);
            let empty = BTreeMap::new();
            let want: Vec<_> = hashes.iter().map(|x| m.receipts.get(&h).unwrap_or(&empty).get(x).cloned()).collect();
            check_eq!(block_on(s.get_receipts(c(), h, &hashes)).map_err(e)?, want, "receipts", "receipts of block {}", h);
        }
        7 | 8 => {
            let (h, hash) = if m.known.is_empty() || g.below(5) == 0 { (h, gens::h256(g)) } else { g.pick(&m.known).clone_hash() };
            let want = m.txs.get(&h).and_then(|t| t.get(&hash)).cloned();
            check_eq!(block_on(s.get_transaction_by_hash(c(), &hash)).map_err(e)?, want, "transaction", "transaction {:?}", hash);
            let want = m.receipts.get(&h).and_then(|t| t.get(&hash)).cloned();
            check_eq!(block_on(s.get_receipt_by_hash(c(), &hash)).map_err(e)?, want, "receipt", "receipt {:?}", hash);
        }
        9 => {
            let ks: Vec<_> = m.codes.keys().cloned().collect();
            let k = if ks.is_empty() || g.below(4) == 0 { gens::h256(g) } else { *g.pick(&ks) };
            if !m.accounts.contains_key(&k) {
                check_eq!(block_on(s.get_code_by_hash(c(), &k)).map_err(e)?, m.codes.get(&k).cloned(), "code", "code {:?}", k);
            }
        }
        10 => {
            let ks: Vec<_> = m.accounts.keys().cloned().collect();
            let k = if ks.is_empty() || g.below(4) == 0 { gens::h256(g) } else { *g.pick(&ks) };
            let want = m.accounts.get(&k).and_then(|x| m.codes.get(x)).cloned();
            if !m.codes.contains_key(&k) {
                check_eq!(block_on(s.get_code_by_address(c(), &k)).map_err(e)?, want, "code-of-account", "code of {:?}", k);
            }
        }
        11 => match (block_on(s.get_latest_proof(c())), &m.proof) {
            (Ok(b), Some(w)) => check_eq!(b, *w, "proof", "latest proof"),
            (Err(_), None) => {}
            (r, w) => return Err(fail("proof", format!("latest proof: {:?} instead of {:?}", r, w))),
        },
        _ => check_eq!(block_on(s.hardfork_proposal(c())).map_err(e)?, m.fork, "fork", "hard fork proposal"),
    }
    Ok(())
}

trait CloneHash {
    fn clone_hash(&self) -> (u64, H256);
}
impl CloneHash for (u64, SignedTransaction) {
    fn clone_hash(&self) -> (u64, H256) {
        (self.0, self.1.transaction.hash)
    }
}

fn write<S: Storage>(g: &mut Gen, s: &S, m: &mut Model, hs: &[u64]) -> Res {
    let c = Context::new;
    let h = *g.pick(hs);
    match g.weighted(&[5, 2, 2, 2, 5, 5, 2, 2, 1, 1]) {
        0 => {
            let b = block(g, h);
            g.note(|| format!("insert_block {}", h));
            block_on(s.insert_block(c(), b.clone())).map_err(e)?;
            forget_height(m, h);
            m.numbers.insert(b.hash(), h);
            m.headers.insert(h, b.header.clone());
            g.label_if(m.blocks.insert(h, b.clone()).is_some(), "block replaced");
            m.latest = Some(b);
        }
        1 => {
            let b = block(g, h);
            g.note(|| format!("set_block {}", h));
            block_on(s.set_block(c(), b.clone())).map_err(e)?;
            forget_height(m, h);
            m.numbers.insert(b.hash(), h);
            m.headers.insert(h, b.header.clone());
            m.blocks.insert(h, b);
        }
        2 => {
            g.note(|| format!("remove_block {}", h));
            block_on(s.remove_block(c(), h)).map_err(e)?;
            g.label_if(m.blocks.remove(&h).is_some(), "block removed");
        }
        3 => {
            let b = block(g, h);
            g.note(|| format!("set_latest_block {}", h));
            block_on(s.set_latest_block(c(), b.clone())).map_err(e)?;
            m.latest = Some(b);
        }
        4 => {
            let v = g.vec(5, tx);
            g.note(|| format!("insert_transactions {} {:?}", h, v.iter().map(|t| t.transaction.hash).collect::<Vec<_>>()));
            block_on(s.insert_transactions(c(), h, v.clone())).map_err(e)?;
            for t in v {
                if m.known.iter().any(|k| k.1.transaction.hash == t.transaction.hash && k.0 != h) {
                    return Err(Stop::Discard); // a transaction is in one block only
                }
                m.txs.entry(h).or_default().insert(t.transaction.hash, t.clone());
                m.known.push((h, t));
            }
        }
        5 => {
            // receipts of transactions of this height, stored or not yet
            let mut v = vec![];
            let here: Vec<_> = m.known.iter().filter(|k| k.0 == h).map(|k| k.1.clone()).collect();
            for t in here {
                if g.below(3) != 0 {
                    v.push(receipt(g, t.transaction.hash));
                }
            }
            g.note(|| format!("insert_receipts {} {:?}", h, v.iter().map(|t| t.tx_hash).collect::<Vec<_>>()));
            block_on(s.insert_receipts(c(), h, v.clone())).map_err(e)?;
            for r in v {
                g.label_if(m.receipts.entry(h).or_default().insert(r.tx_hash, r).is_some(), "receipt replaced");
            }
        }
        6 => {
            let (a, b, code) = (gens::h256(g), gens::h256(g), gens::bytes(g, 50));
            if a == b || m.codes.contains_key(&a) || m.accounts.contains_key(&b) || m.codes.get(&b).map_or(false, |c| *c != code) {
                return Ok(());
            }
            g.note(|| format!("insert_code {:?} {:?}", a, b));
            block_on(s.insert_code(c(), a, b, code.clone())).map_err(e)?;
            m.codes.insert(b, code);
            m.accounts.insert(a, b);
        }
        7 => {
            let p = gens::proof(g);
            block_on(s.update_latest_proof(c(), p.clone())).map_err(e)?;
            m.proof = Some(p);
        }
        8 => {
            let f = HardforkInfoInner { block_number: g.u64(), flags: gens::h256(g) };
            block_on(s.set_hardfork_proposal(c(), f.clone())).map_err(e)?;
            m.fork = Some(f);
        }
        _ => {
            block_on(s.remove_hardfork_proposal(c())).map_err(e)?;
            m.fork = None;
        }
    }
    Ok(())
}

/// The hash of a replaced block is not asked for any more.
fn forget_height(m: &mut Model, h: u64) {
    m.numbers.retain(|_, n| *n != h);
}

fn history<A: StorageAdapter>(g: &mut Gen, make: &mut dyn FnMut() -> A, reopens: bool) -> Res {
    let cache = g.usize(1, 6);
    let hs = heights(g);
    let mut m = Model::default();
    let mut s = ImplStorage::new(Arc::new(make()), cache);
    let (mut writes, mut reads) = (0, 0);
    for _ in 0..g.usize(1, 50) {
        match g.weighted(&[10, 16, if reopens { 1 } else { 0 }]) {
            0 => {
                write(g, &s, &mut m, &hs)?;
                writes += 1;
            }
            1 => {
                read(g, &s, &m, &hs)?;
                reads += 1;
            }
            _ => {
                g.note(|| "reopen".into());
                g.label("reopened");
                s = ImplStorage::new(Arc::new(make()), cache);
            }
        }
    }
    if writes > 3 && reads > 3 {
        g.hit();
    }
    Ok(())
}

fn memory(g: &mut Gen) -> Res {
    history(g, &mut MemoryAdapter::new, false)
}

fn rocks(g: &mut Gen) -> Res {
    let d = Dir::new();
    let p = d.db();
    history(g, &mut || open(&p), true)
}

/// A chain is stored block by block; from some write on nothing reaches the disk any more. What is
/// there afterwards is a chain up to a latest block of which everything can be read.
fn crash(g: &mut Gen) -> Res {
    let d = Dir::new();
    let p = d.db();
    let base = heights(g)[0];
    let s = ImplStorage::new(Arc::new(open(&p)), g.usize(1, 4));
    let n = g.usize(1, 4) as u64;
    rocksdb::sim::allow(&p, g.below(n * 10 + 1));
    let mut chain: Vec<(Block, Vec<SignedTransaction>, Vec<Receipt>, Proof)> = vec![];
    let mut reported: Option<u64> = None; // the last block whose storing was reported done
    let mut failed = false;
    for i in 0..n {
        let txs = g.vec(3, tx);
        let mut b = block(g, base + i);
        b.tx_hashes = txs.iter().map(|t| t.transaction.hash).collect();
        let rs: Vec<_> = txs.iter().map(|t| receipt(g, t.transaction.hash)).collect();
        let mut pr = gens::proof(g);
        pr.number = base + i;
        chain.push((b.clone(), txs.clone(), rs.clone(), pr.clone()));
        if failed {
            continue;
        }
        let c = Context::new;
        let r = block_on(async {
            s.insert_transactions(c(), base + i, txs).await?;
            s.insert_receipts(c(), base + i, rs).await?;
            s.insert_block(c(), b.clone()).await?;
            Ok::<_, protocol::ProtocolError>(())
        });
        match r {
            Ok(()) => reported = Some(i),
            Err(_) => {
                failed = true;
                g.label("writing failed");
                g.hit();
                // and reading in the same process does not see more than what is stored
                let fresh = ImplStorage::new(Arc::new(open(&p)), 1);
                let a = block_on(s.get_latest_block(c())).ok();
                check_eq!(a, block_on(fresh.get_latest_block(c())).ok(), "latest-after-failure", "latest block after a failed write, against what is stored");
            }
        }
    }
    drop(s);
    rocksdb::sim::allow(&p, u64::MAX);
    let s = ImplStorage::new(Arc::new(open(&p)), 4);
    let c = Context::new;
    let latest = match block_on(s.get_latest_block(c())) {
        Ok(b) => b,
        Err(_) => {
            check!(reported.is_none(), "lost-block", "no latest block, although block {:?} was reported stored", reported);
            return Ok(());
        }
    };
    let i = latest.header.number - base;
    check!(reported.map_or(true, |r| i >= r), "lost-block", "the latest block is {}, but block {:?} was reported stored", i, reported);
    check!(i < chain.len() as u64, "unknown-block", "the latest block is {} of {}", i, chain.len());
    check_eq!(latest, chain[i as usize].0, "latest", "latest block after a restart");
    for (b, txs, rs, _) in chain.iter().take(i as usize + 1) {
        let h = b.header.number;
        check_eq!(block_on(s.get_block(c(), h)).map_err(e)?, Some(b.clone()), "missing-block", "block {} after a restart with latest block {}", h, latest.header.number);
        check_eq!(block_on(s.get_block_header(c(), h)).map_err(e)?, Some(b.header.clone()), "missing-header", "header {}", h);
        check_eq!(block_on(s.get_block_by_hash(c(), &b.hash())).map_err(e)?, Some(b.clone()), "missing-hash", "block {} by hash", h);
        let got = block_on(s.get_transactions(c(), h, &b.tx_hashes)).map_err(e)?;
        check_eq!(got, txs.iter().cloned().map(Some).collect::<Vec<_>>(), "missing-transactions", "transactions of block {}", h);
        let got = block_on(s.get_receipts(c(), h, &b.tx_hashes)).map_err(e)?;
        check_eq!(got, rs.iter().cloned().map(Some).collect::<Vec<_>>(), "missing-receipts", "receipts of block {}", h);
        for (t, r) in txs.iter().zip(rs) {
            check_eq!(block_on(s.get_transaction_by_hash(c(), &t.transaction.hash)).map_err(e)?, Some(t.clone()), "missing-transaction", "transaction by hash");
            check_eq!(block_on(s.get_receipt_by_hash(c(), &t.transaction.hash)).map_err(e)?, Some(r.clone()), "missing-receipt", "receipt by hash");
        }
    }
    Ok(())
}

/// More than a thousand items read at once take another path.
fn many(g: &mut Gen) -> Res {
    let n = g.usize(996, 1010) + if g.bool() { 1000 } else { 0 };
    let s = ImplStorage::new(Arc::new(MemoryAdapter::new()), 8);
    let rt = protocol::tokio::runtime::Builder::new_current_thread().build().unwrap();
    let rs: Vec<_> = (0..n)
        .map(|i| {
            let mut r = Receipt { tx_hash: H256(refs::keccak(&i.to_be_bytes())), block_number: 5, block_hash: H256::zero(), tx_index: i as u32, state_root: H256::zero(), used_gas: U64::from(i), logs_bloom: Default::default(), logs: vec![], log_index: 0, code_address: None, sender: H160::zero(), ret: ExitReason::Succeed(ExitSucceed::Stopped), removed: false };
            if i % 3 == 0 {
                r.code_address = Some(r.tx_hash);
            }
            r
        })
        .collect();
    let mut hashes: Vec<_> = rs.iter().map(|r| r.tx_hash).collect();
    let mut want: Vec<_> = rs.iter().cloned().map(Some).collect();
    let at = g.usize(0, n - 1);
    hashes.insert(at, gens::h256(g));
    want.insert(at, None);
    rt.block_on(async {
        let c = Context::new;
        s.insert_receipts(c(), 5, rs).await.map_err(e)?;
        let got = s.get_receipts(c(), 5, &hashes).await.map_err(e)?;
        check!(got == want, "many-receipts", "{} receipts read at once: item {:?} is wrong", n, got.iter().zip(&want).position(|(a, b)| a != b));
        Ok(())
    })?;
    g.hit();
    Ok(())
}

/// The same for transactions.
fn many_txs(g: &mut Gen) -> Res {
    let n = 1001 + g.usize(0, 20);
    let s = ImplStorage::new(Arc::new(MemoryAdapter::new()), 8);
    let rt = protocol::tokio::runtime::Builder::new_current_thread().build().unwrap();
    let txs: Vec<_> = (0..n as u64).map(|i| sign(UnsignedTransaction::Legacy(LegacyTransaction { nonce: i.into(), gas_price: 1u64.into(), gas_limit: 1u64.into(), action: TransactionAction::Create, value: U256::zero(), data: Bytes::new() }), Some(1), &[1; 32])).collect();
    let mut hashes: Vec<_> = txs.iter().map(|r| r.transaction.hash).collect();
    let mut want: Vec<_> = txs.iter().cloned().map(Some).collect();
    let at = g.usize(0, n - 1);
    hashes.insert(at, gens::h256(g));
    want.insert(at, None);
    rt.block_on(async {
        let c = Context::new;
        s.insert_transactions(c(), 5, txs).await.map_err(e)?;
        let got = s.get_transactions(c(), 5, &hashes).await.map_err(e)?;
        check!(got == want, "many-transactions", "{} transactions read at once: item {:?} is wrong", n, got.iter().zip(&want).position(|(a, b)| a != b));
        Ok(())
    })?;
    g.hit();
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id:     "P23",
        rule:   "a history of more than three writes and more than three reads, a crash that loses a write, or a read of more than a thousand items",
        assume: vec!["RocksDB itself is replaced by an ordered map in memory with atomic batches (ckb-rocksdb is not available offline)", "a transaction is stored under one block number only, and the hash of a replaced block is not asked for"],
        facets: vec![
            Facet::new("memory", 4000, memory),
            Facet::new("rocks", 4000, rocks),
            Facet::new("crash", 2000, crash),
            Facet::new("many", 24, many).deep(200),
            Facet::new("many-txs", 2, many_txs).deep(40),
        ],
    }]
}
