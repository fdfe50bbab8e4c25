//! P32, P33, P34: the system contracts.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use ckb_traits::{CellDataProvider, ExtensionProvider, HeaderProvider};
use ckb_types::core::cell::{CellProvider, CellStatus};
use ckb_types::{packed, prelude::*};
use core_executor::system_contract::metadata::metadata_abi as mabi;
use core_executor::{system_contract, AxonExecutor, DataProvider, MetadataHandle, RocksTrieDB, HARDFORK_INFO};
use ethers::abi::{AbiEncode, Token};
use evm::backend::Backend;
use pbt::{check, check_eq, fail, Facet, Gen, Prop, Res, Stop};
use protocol::codec::ProtocolCodec;
use protocol::traits::{ExecutorReadOnlyAdapter, *};
use protocol::types::*;

use crate::exec::*;
use crate::gens;
use crate::util::*;

pub fn call(to: H160, sender: H160, value: U256, data: Vec<u8>, gas_limit: u64) -> SignedTransaction {
    forged(
        UnsignedTransaction::Legacy(LegacyTransaction { nonce: 0u64.into(), gas_price: 1u64.into(), gas_limit: gas_limit.into(), action: TransactionAction::Call(to), value, data: data.into() }),
        sender,
    )
}

// ---------------------------------------------------------------- P32: metadata

#[derive(Clone, Debug)]
struct Md {
    ends:  Vec<u64>,
    metas: Vec<Metadata>,
    cfg:   ConsensusConfig,
    info:  Option<CkbRelatedInfo>,
    forks: Vec<(u64, H256)>,
    /// flags in force for encoding, those of the last executed block
    flags: H256,
}

impl Md {
    fn epoch(&self, n: u64) -> Option<usize> {
        let mut start = 0;
        for (i, e) in self.ends.iter().enumerate() {
            if start < n && n <= *e {
                return Some(i);
            }
            start = *e;
        }
        None
    }

    fn set_cfg(&mut self, c: &ConsensusConfig) {
        self.cfg = c.clone();
        if !andromeda(&self.flags) {
            self.cfg.max_contract_limit = 0x6000;
        }
    }

    fn append(&mut self, m: &Metadata) -> bool {
        let last = self.ends.last().cloned().unwrap_or(0);
        if m.epoch != self.ends.len() as u64 || (m.epoch != 0 && m.version.start != last + 1) || m.version.end <= last {
            return false;
        }
        let mut m = m.clone();
        let who: BTreeSet<_> = m.verifier_list.iter().map(|v| v.address).collect();
        m.propose_counter = who.into_iter().map(|address| ProposeCount { address, count: 0 }).collect();
        self.ends.push(m.version.end);
        let c = m.consensus_config.clone();
        self.metas.push(m);
        self.set_cfg(&c);
        true
    }

    fn fork(&mut self, n: u64, mut flags: H256) {
        if let Some(l) = self.forks.last_mut() {
            flags |= l.1;
            if flags == l.1 || n < l.0 {
                return;
            }
            if n == l.0 {
                l.1 = flags;
                return;
            }
        }
        self.forks.push((n, flags));
    }

    fn fork_at(&self, n: u64) -> H256 {
        self.forks.iter().rev().find(|f| f.0 <= n).map(|f| f.1).unwrap_or_default()
    }

    fn get(&self, epoch: usize) -> Metadata {
        let mut m = self.metas[epoch].clone();
        m.consensus_config = self.cfg.clone();
        m
    }
}

fn andromeda(f: &H256) -> bool {
    // the flags are the little-endian bytes at the end of the hash
    f.0[24] & 1 == 1
}

fn config(g: &mut Gen) -> ConsensusConfig {
    ConsensusConfig {
        gas_limit: g.u64(), interval: g.u64(), propose_ratio: g.u64(), prevote_ratio: g.u64(), precommit_ratio: g.u64(), brake_ratio: g.u64(),
        tx_num_limit: g.u64(), max_tx_size: g.u64(), max_contract_limit: 0x6000 + g.below(100),
    }
}

fn who(i: u8) -> H160 {
    H160([0xa0 + i; 20])
}

fn verifiers(g: &mut Gen) -> Vec<ValidatorExtend> {
    let mut v = vec![];
    for _ in 0..g.usize(1, 4) {
        let i = g.below(5) as u8;
        v.push(ValidatorExtend { bls_pub_key: Hex::encode(g.bytes_n(48)), pub_key: Hex::encode(g.bytes_n(33)), address: who(i), propose_weight: g.u32() >> 3, vote_weight: 1 + g.below(5) as u32 });
    }
    v
}

fn meta(g: &mut Gen, m: &Md) -> Metadata {
    let last = m.ends.last().cloned().unwrap_or(0);
    let epoch = m.ends.len() as u64;
    let mut x = Metadata {
        version: MetadataVersion { start: last + 1, end: last + 1 + g.below(6) },
        epoch,
        verifier_list: verifiers(g),
        propose_counter: g.vec(2, |g| ProposeCount { address: who(g.below(5) as u8), count: g.below(9) }),
        consensus_config: config(g),
    };
    match g.below(8) {
        0 => x.epoch = *g.pick(&[0, epoch.saturating_sub(1), epoch + 1, u64::MAX]),
        1 => x.version.start = *g.pick(&[0, last, last + 2, 1]),
        2 => x.version.end = *g.pick(&[0, last, last.saturating_sub(1)]),
        _ => {}
    }
    x
}

fn read(g: &mut Gen, root: H256, m: &Md) -> Res {
    let h = MetadataHandle::new(root);
    let last = *m.ends.last().unwrap();
    for n in [0, 1, last, last + 1, m.ends[0], m.ends[0] + 1, g.below(last + 3)] {
        let want = if n == 0 { Some(m.get(0)) } else { m.epoch(n).map(|e| m.get(e)) };
        check_eq!(h.get_metadata_by_block_number(n).ok(), want, "by-number", "metadata of block {}", n);
        if let Some(w) = &want {
            for i in 0..6 {
                let is = w.verifier_list.iter().any(|v| v.address == who(i));
                check_eq!(h.is_validator(n, who(i)).ok(), Some(is), "is-validator", "validator {} of block {}", i, n);
            }
        }
        check_eq!(h.is_last_block_in_current_epoch(n).ok(), Some(n == 0 || m.ends.contains(&n)), "last-of-epoch", "block {}", n);
    }
    for e in 0..m.metas.len() as u64 + 2 {
        check_eq!(h.get_metadata_by_epoch(e).ok(), m.metas.get(e as usize).map(|_| m.get(e as usize)), "by-epoch", "metadata of epoch {}", e);
    }
    check_eq!(h.get_ckb_related_info().ok(), m.info, "ckb-info", "related info");
    check_eq!(h.get_consensus_config().ok(), Some(m.cfg.clone()), "config", "consensus configuration");
    let forks: Vec<_> = h.hardfork_infos().map_err(e)?.inner.into_iter().map(|f| (f.block_number, f.flags)).collect();
    check_eq!(forks, m.forks, "forks", "hard forks");
    Ok(())
}

fn metadata_machine(g: &mut Gen) -> Res {
    let first = if g.bool() { H256::from_low_u64_be(1u64.to_be()) } else { H256::zero() };
    let mut m = Md { ends: vec![], metas: vec![], cfg: config(g), info: None, forks: vec![], flags: first };
    let mut md = vec![];
    for _ in 0..2 {
        let mut x = meta(g, &m);
        x.epoch = m.ends.len() as u64;
        let last = m.ends.last().cloned().unwrap_or(0);
        x.version = MetadataVersion { start: last + 1, end: last + 1 + g.below(6) };
        md.push(x.clone());
        check!(m.append(&x), "model", "the model takes a valid epoch");
    }
    m.fork(0, first);
    let mut w = World::new(g, andromeda(&first), &md)?;
    HARDFORK_INFO.swap(Arc::new(first));
    let mut past = vec![(w.root, m.clone())];
    let _rt = runtime().enter();
    let mut number = 0;
    for _ in 0..g.usize(1, 10) {
        // blocks up to the end of the last epoch can exist
        number += 1;
        if m.epoch(number).is_none() {
            break;
        }
        if g.chance(1, 5) {
            let db = Arc::new(RocksTrieDB::new_metadata(shared_db(), *g.pick(&[1usize, 10])));
            system_contract::swap_metadata_db(db);
            w.restart(g);
            g.label("restarted");
        }
        let c = &mut w.env.ctx;
        c.block_number = number.into();
        let proposer = who(g.below(6) as u8);
        c.block_coinbase = proposer;
        c.origin = proposer;
        c.extra_data = vec![];
        let mut fork = None;
        if g.below(4) == 0 {
            let f = HardforkInfoInner { block_number: number + *g.pick(&[0u64, 1, 2, 5]), flags: H256::from_low_u64_be(g.below(8).to_be()) };
            c.extra_data.push(ExtraData { inner: f.encode().unwrap() });
            fork = Some((f.block_number, f.flags));
        } else if g.below(6) == 0 {
            c.extra_data.push(ExtraData { inner: g.bytes(5).into() });
            if let Ok(f) = HardforkInfoInner::decode(&c.extra_data[0].inner) {
                fork = Some((f.block_number, f.flags));
            }
        }
        let mut txs = vec![];
        let mut oks = vec![];
        let mut nonces: BTreeMap<H160, u64> = BTreeMap::new();
        for _ in 0..g.below(4) {
            let sender = who(g.below(7) as u8);
            let allowed = m.metas[m.epoch(number).unwrap()].verifier_list.iter().any(|v| v.address == sender);
            let (data, good) = match g.below(6) {
                0 | 1 => {
                    let x = meta(g, &m);
                    let good = allowed && m.append(&x);
                    g.label(if good { "epoch added" } else { "epoch refused" });
                    (mabi::AppendMetadataCall { metadata: x.into() }.encode(), good)
                }
                2 | 3 => {
                    let i = CkbRelatedInfo { metadata_type_id: gens::h256(g), checkpoint_type_id: gens::h256(g), xudt_args: gens::h256(g), stake_smt_type_id: gens::h256(g), delegate_smt_type_id: gens::h256(g), reward_smt_type_id: gens::h256(g) };
                    if allowed {
                        m.info = Some(i.clone());
                    }
                    (mabi::SetCkbRelatedInfoCall { info: i.into() }.encode(), allowed)
                }
                4 => {
                    let c = config(g);
                    if allowed {
                        m.set_cfg(&c);
                    }
                    (mabi::UpdateConsensusConfigCall { config: c.into() }.encode(), allowed)
                }
                _ => (g.bytes(40), false),
            };
            g.label_if(!allowed, "caller is no validator");
            if good {
                *nonces.entry(sender).or_default() += 1;
            }
            let limit = 1 + g.below(100_000);
            g.note(|| format!("block {} sender {:?} allowed {} good {} data {}", number, sender, allowed, good, refs::hex(&data[..data.len().min(4)])));
            txs.push(call(sys(1), sender, U256::zero(), data, limit));
            oks.push((good, limit));
        }
        let before: Vec<_> = {
            let a = w.adapter()?;
            (0..7).map(|i| a.get_account(&who(i)).nonce).collect()
        };
        let mut a = w.adapter()?;
        let resp = AxonExecutor.exec(&mut a, &txs, &[validator(who(9), 1)]);
        for (i, (r, (good, limit))) in resp.tx_resp.iter().zip(&oks).enumerate() {
            check_eq!(r.exit_reason.is_succeed(), *good, "accepted", "block {}: transaction {}", number, i);
            check_eq!(r.gas_used + r.remain_gas, *limit, "gas", "block {}: transaction {}", number, i);
            check!(r.logs.is_empty() && r.ret.is_empty() && r.code_address.is_none(), "response", "response of transaction {}", i);
        }
        for i in 0..7u8 {
            let n = a.get_account(&who(i)).nonce;
            check_eq!(n, before[i as usize] + nonces.get(&who(i)).cloned().unwrap_or(0), "nonce", "nonce of {:?}", who(i));
        }
        // the block's own effects
        if let Some((n, f)) = fork {
            m.fork(n, f);
        }
        m.flags = m.fork_at(number);
        let counted = txs.last().map_or(proposer, |t| t.sender);
        let ep = m.epoch(number).unwrap();
        if let Some(c) = m.metas[ep].propose_counter.iter_mut().find(|c| c.address == counted) {
            c.count += 1;
        }
        if counted != proposer && m.metas[ep].propose_counter.iter().any(|c| c.address == counted || c.address == proposer) {
            g.known(Err(fail("sender-counted-as-proposer", format!("block {} of {:?} is counted for {:?}, the sender of its last transaction", number, proposer, counted))))?;
        }
        check_eq!(**HARDFORK_INFO.load(), m.flags, "active-flags", "flags in force after block {}", number);
        w.root = resp.state_root;
        let a = w.adapter()?;
        let root = a.get_metadata_root();
        if oks.iter().any(|o| o.0) {
            g.hit();
        }
        read(g, root, &m)?;
        past.push((w.root, m.clone()));
    }
    for _ in 0..2 {
        let (root, m) = g.pick(&past).clone();
        w.root = root;
        let mr = w.adapter()?.get_metadata_root();
        read(g, mr, &m)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- P33: native tokens

fn native_machine(g: &mut Gen) -> Res {
    let (mut w, vs) = world(g, true)?;
    for _ in 0..g.usize(1, 3) {
        w.next_block(g)?;
        let mut st = w.state.clone();
        let mut txs = vec![];
        let mut outs = vec![];
        for _ in 0..g.usize(1, 6) {
            let keep = std::mem::replace(&mut w.state, st.clone());
            let tx = w.native_tx(g);
            w.state = keep;
            let o = model_native(&mut st, &tx);
            g.label(if o.exit.is_succeed() { "moved" } else { "refused" });
            if o.exit.is_succeed() && !tx.transaction.unsigned.value().is_zero() {
                g.hit();
            }
            outs.push(o);
            txs.push(tx);
        }
        let _rt = runtime().enter();
        let fees: U256 = outs.iter().fold(U256::zero(), |a, o| a + o.fee);
        let total: u32 = vs.iter().map(|v| v.vote_weight).sum();
        for v in &vs {
            let x = fees / total * v.vote_weight;
            if !x.is_zero() {
                st.entry(v.address).or_default().balance += x;
            }
        }
        let mut a = w.adapter()?;
        let before: Vec<_> = w.users.iter().map(|u| a.get_account(u).nonce).collect();
        let resp = AxonExecutor.exec(&mut a, &txs, &vs);
        for (i, (r, o)) in resp.tx_resp.iter().zip(&outs).enumerate() {
            check_eq!(r.exit_reason, o.exit, "exit", "transaction {}: {:?}", i, txs[i].transaction.unsigned);
            check_eq!(r.gas_used, o.used, "gas-used", "transaction {}", i);
            check_eq!(r.remain_gas, o.remain, "gas-left", "transaction {}", i);
            check!(r.ret.is_empty() && r.logs.is_empty() && r.code_address.is_none(), "response", "transaction {}", i);
        }
        w.state = st;
        w.sync_system(&a);
        w.compare(&a, &w.state, "after the block")?;
        check_eq!(resp.state_root, state_root(&w.state), "state-root", "root of the state");
        w.root = resp.state_root;
        // every transaction counts in its sender's nonce
        for (i, u) in w.users.iter().enumerate() {
            let sent = txs.iter().filter(|t| t.sender == *u).count();
            if a.get_account(u).nonce != before[i] + sent {
                g.known(Err(fail("sender-nonce", format!("{:?} sent {} transactions and its nonce went from {} to {}", u, sent, before[i], a.get_account(u).nonce))))?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P34: images of CKB

#[derive(Clone, Debug, PartialEq)]
pub struct Cell {
    pub output: packed::CellOutput,
    pub data:   Vec<u8>,
}

#[derive(Clone, Default)]
pub struct Ckb {
    pub cells:   BTreeMap<([u8; 32], u32), Cell>,
    pub headers: BTreeMap<[u8; 32], HeaderImage>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct HeaderImage {
    pub version: u32, pub compact_target: u32, pub timestamp: u64, pub number: u64, pub epoch: u64,
    pub hashes: [[u8; 32]; 5],
    pub nonce: u128,
    pub extension: Vec<u8>,
}

fn uint(n: u128) -> Token {
    Token::Uint(n.into())
}

fn b32(b: &[u8; 32]) -> Token {
    Token::FixedBytes(b.to_vec())
}

fn point(p: &([u8; 32], u32)) -> Token {
    Token::Tuple(vec![b32(&p.0), uint(p.1 as u128)])
}

pub fn data_of(sel: &str, args: &[Token]) -> Vec<u8> {
    let mut o = refs::keccak(sel.as_bytes())[..4].to_vec();
    o.extend_from_slice(&ethers::abi::encode(args));
    o
}

struct ScriptSpec {
    code_hash: [u8; 32],
    hash_type: u8,
    args:      Vec<u8>,
}

fn script(g: &mut Gen) -> ScriptSpec {
    ScriptSpec { code_hash: gens::h256(g).0, hash_type: *g.pick(&[0u8, 1, 2, 4, 255]), args: g.bytes(40) }
}

impl ScriptSpec {
    fn token(&self) -> Token {
        Token::Tuple(vec![b32(&self.code_hash), uint(self.hash_type as u128), Token::Bytes(self.args.clone())])
    }

    /// The molecule encoding of a script, written out.
    fn mol(&self) -> Vec<u8> {
        let mut args = (self.args.len() as u32).to_le_bytes().to_vec();
        args.extend_from_slice(&self.args);
        let off = [16u32, 48, 49];
        let total = 49 + args.len() as u32;
        let mut o = total.to_le_bytes().to_vec();
        for x in off {
            o.extend_from_slice(&x.to_le_bytes());
        }
        o.extend_from_slice(&self.code_hash);
        o.push(self.hash_type);
        o.extend_from_slice(&args);
        o
    }
}

fn cell(g: &mut Gen, p: &([u8; 32], u32)) -> (Token, Cell) {
    let lock = script(g);
    let most = if g.below(8) == 0 { 2 } else { 1 };
    let ty: Vec<ScriptSpec> = g.vec(most, script);
    let capacity = g.u64();
    let data = g.bytes(60);
    let t = Token::Tuple(vec![
        point(p),
        Token::Tuple(vec![uint(capacity as u128), lock.token(), Token::Array(ty.iter().map(|x| x.token()).collect())]),
        Token::Bytes(data.clone()),
    ]);
    let l = lock.mol();
    let ty = ty.first().map(|x| x.mol()).unwrap_or_default();
    let mut o = ((24 + l.len() + ty.len()) as u32).to_le_bytes().to_vec();
    for x in [16u32, 24, 24 + l.len() as u32] {
        o.extend_from_slice(&x.to_le_bytes());
    }
    o.extend_from_slice(&capacity.to_le_bytes());
    o.extend_from_slice(&l);
    o.extend_from_slice(&ty);
    (t, Cell { output: packed::CellOutput::from_slice(&o).unwrap(), data })
}

fn header(g: &mut Gen) -> HeaderImage {
    // CKB's epochs: a number of 24 bits, the index of the block in it and its length of 16 bits
    // each; CKB has no block with another one
    let length = g.range(1, 1800);
    let epoch = g.below(1 << 24) | g.below(length) << 24 | length << 40;
    HeaderImage {
        version: g.u32(), compact_target: g.u32().max(1), timestamp: g.u64(), number: g.u64(), epoch,
        hashes: [gens::h256(g).0, gens::h256(g).0, gens::h256(g).0, gens::h256(g).0, gens::h256(g).0],
        nonce: ((g.u64() as u128) << 64) | g.u64() as u128,
        extension: g.bytes(96),
    }
}

impl HeaderImage {
    fn token(&self, hash: &[u8; 32]) -> Token {
        let mut v = vec![uint(self.version as u128), uint(self.compact_target as u128), uint(self.timestamp as u128), uint(self.number as u128), uint(self.epoch as u128)];
        v.extend(self.hashes.iter().map(b32));
        v.push(uint(self.nonce));
        v.push(Token::Bytes(self.extension.clone()));
        v.push(b32(hash));
        Token::Tuple(v)
    }

    /// The molecule encoding of the header, a struct of fixed size.
    pub fn mol(&self) -> Vec<u8> {
        let mut o = self.version.to_le_bytes().to_vec();
        o.extend_from_slice(&self.compact_target.to_le_bytes());
        o.extend_from_slice(&self.timestamp.to_le_bytes());
        o.extend_from_slice(&self.number.to_le_bytes());
        o.extend_from_slice(&self.epoch.to_le_bytes());
        for h in &self.hashes {
            o.extend_from_slice(h);
        }
        o.extend_from_slice(&self.nonce.to_le_bytes());
        o
    }
}

pub fn points(g: &mut Gen) -> ([u8; 32], u32) {
    let mut h = [0u8; 32];
    h[0] = g.below(3) as u8;
    h[31] = g.below(2) as u8;
    (h, *g.pick(&[0u32, 1, 256, 1 << 24, u32::MAX]))
}

pub fn hash_of(g: &mut Gen) -> [u8; 32] {
    let mut h = [7u8; 32];
    h[0] = g.below(5) as u8;
    h
}

fn look(g: &mut Gen, w: &World, m: &Ckb) -> Res {
    let _rt = runtime().enter();
    let a = w.adapter()?;
    let key = *system_contract::HEADER_CELL_ROOT_KEY;
    let root = a.storage(sys(2), key);
    check_eq!(a.storage(sys(3), key), root, "two-roots", "the roots of the two contracts");
    let p = DataProvider::new(root);
    let mut at: Vec<_> = m.cells.keys().cloned().collect();
    at.push(points(g));
    at.push(points(g));
    for k in at {
        let op = packed::OutPoint::new(packed::Byte32::from_slice(&k.0).unwrap(), k.1);
        let got = match p.cell(&op, true) {
            CellStatus::Live(c) => {
                check_eq!(c.out_point, op, "cell", "out point of {:?}", k);
                check_eq!(c.data_bytes, c.mem_cell_data.as_ref().map_or(0, |d| d.len() as u64), "cell", "length of the data of {:?}", k);
                Some(Cell { output: c.cell_output, data: c.mem_cell_data.map(|x| x.to_vec()).unwrap_or_default() })
            }
            _ => None,
        };
        let want = m.cells.get(&k);
        check_eq!(got.as_ref(), want, "cell", "cell {:?}", k);
        check_eq!(p.get_cell_data(&op).map(|x| x.to_vec()), want.map(|c| c.data.clone()), "cell-data", "data of {:?}", k);
        let h = want.map(|c| if c.data.is_empty() { [0; 32] } else { ckb_hash(&c.data) });
        check_eq!(p.get_cell_data_hash(&op).map(|x| x.as_slice().to_vec()), h.map(|x| x.to_vec()), "cell-data-hash", "hash of the data of {:?}", k);
    }
    for i in 0..6u8 {
        let mut h = [7u8; 32];
        h[0] = i;
        let b = packed::Byte32::from_slice(&h).unwrap();
        let want = m.headers.get(&h);
        check_eq!(p.get_header(&b).map(|x| x.data().as_slice().to_vec()), want.map(|x| x.mol()), "header", "header {}", i);
        check_eq!(p.get_block_extension(&b).map(|x| x.raw_data().to_vec()), want.map(|x| x.extension.clone()), "extension", "extension of header {}", i);
        // the same through the precompile, as contracts see it
        let mut pre = [0u8; 20];
        pre[18] = 1;
        pre[19] = 2;
        let r = AxonExecutor.call(&a, 1_000_000, None, Some(H160(pre)), U256::zero(), h.to_vec(), false);
        match want {
            Some(x) => {
                check!(r.exit_reason.is_succeed(), "get-header", "asking for header {}: {:?}", i, r.exit_reason);
                let want = ethers::abi::encode(&[x.token(&h)]);
                check_eq!(refs::hex(&r.ret), refs::hex(&want), "get-header", "header {}", i);
            }
            None => check!(!r.exit_reason.is_succeed(), "get-header", "header {} does not exist: {:?}", i, r.ret),
        }
    }
    Ok(())
}

pub fn ckb_hash(b: &[u8]) -> [u8; 32] {
    refs::ckb_blake2b(b)
}

/// A call to one of the two contracts and whether it must be accepted; `m` is kept.
pub fn image_call(g: &mut Gen, m: &mut Ckb) -> (H160, Vec<u8>, bool) {
    match g.below(6) {
        0 | 1 => {
            let mut blocks = vec![];
            for _ in 0..g.usize(0, 2) {
                let outs: Vec<_> = g.vec(3, |g| {
                    let p = points(g);
                    let (t, c) = cell(g, &p);
                    (p, t, c)
                });
                let ins: Vec<_> = g.vec(3, points);
                for (p, _, c) in &outs {
                    m.cells.insert(*p, c.clone());
                }
                blocks.push(Token::Tuple(vec![uint(g.u64() as u128), Token::Array(ins.iter().map(point).collect()), Token::Array(outs.into_iter().map(|x| x.1).collect())]));
            }
            let s = "(bytes32,uint8,bytes)";
            let sig = format!("update((uint64,(bytes32,uint32)[],((bytes32,uint32),(uint64,{s},{s}[]),bytes)[])[])");
            g.label("cells added");
            (sys(3), data_of(&sig, &[Token::Array(blocks)]), true)
        }
        2 => {
            // taking back: outputs must exist
            let mut next = m.clone();
            let mut good = true;
            let mut blocks = vec![];
            for _ in 0..g.usize(1, 2) {
                let mut outs = vec![];
                for _ in 0..g.below(3) {
                    let known: Vec<_> = next.cells.keys().cloned().collect();
                    let p = if known.is_empty() || g.below(6) == 0 { points(g) } else { *g.pick(&known) };
                    if good {
                        good = next.cells.remove(&p).is_some();
                    }
                    outs.push(p);
                }
                let ins: Vec<_> = g.vec(2, points);
                blocks.push(Token::Tuple(vec![Token::Array(ins.iter().map(point).collect()), Token::Array(outs.iter().map(point).collect())]));
            }
            if good {
                *m = next;
            }
            g.label(if good { "cells taken back" } else { "unknown cell taken back" });
            (sys(3), data_of("rollback(((bytes32,uint32)[],(bytes32,uint32)[])[])", &[Token::Array(blocks)]), good)
        }
        3 => {
            let mut v = vec![];
            for _ in 0..g.usize(0, 3) {
                let h = hash_of(g);
                let x = header(g);
                v.push(x.token(&h));
                m.headers.insert(h, x);
            }
            g.label("headers added");
            (sys(2), data_of("update((uint32,uint32,uint64,uint64,uint64,bytes32,bytes32,bytes32,bytes32,bytes32,uint128,bytes,bytes32)[])", &[Token::Array(v)]), true)
        }
        4 => {
            let mut next = m.clone();
            let mut good = true;
            let mut v = vec![];
            for _ in 0..g.usize(0, 2) {
                let known: Vec<_> = next.headers.keys().cloned().collect();
                let h = if known.is_empty() || g.below(6) == 0 { hash_of(g) } else { *g.pick(&known) };
                if good {
                    good = next.headers.remove(&h).is_some();
                }
                v.push(b32(&h));
            }
            if good {
                *m = next;
            }
            g.label(if good { "headers taken back" } else { "unknown header taken back" });
            (sys(2), data_of("rollback(bytes32[])", &[Token::Array(v)]), good)
        }
        _ => (sys(2 + g.below(2) as u8), g.bytes(40), false),
    }
}

fn images(g: &mut Gen) -> Res {
    let (mut w, vs) = world(g, true)?;
    let mut m = Ckb::default();
    let mut past = vec![(w.root, m.clone())];
    for _ in 0..g.usize(1, 4) {
        w.next_block(g)?;
        w.env.ctx.extra_data = vec![];
        if g.chance(1, 5) {
            system_contract::swap_header_cell_db(Arc::new(RocksTrieDB::new_ckb_light_client(shared_db(), *g.pick(&[1usize, 200]))));
            w.restart(g);
            g.label("restarted");
        }
        let mut txs = vec![];
        let mut oks = vec![];
        for _ in 0..g.usize(1, 4) {
            let sender = *g.pick(&w.users);
            let (to, data, good) = image_call(g, &mut m);
            txs.push(call(to, sender, U256::zero(), data, 1 + g.below(1000)));
            oks.push(good);
        }
        let _rt = runtime().enter();
        let mut a = w.adapter()?;
        let before: Vec<_> = w.users.iter().map(|u| a.get_account(u).nonce).collect();
        let resp = AxonExecutor.exec(&mut a, &txs, &vs);
        for (i, (r, good)) in resp.tx_resp.iter().zip(&oks).enumerate() {
            check_eq!(r.exit_reason.is_succeed(), *good, "accepted", "transaction {}: {:?}", i, txs[i].transaction.unsigned);
        }
        for (i, u) in w.users.iter().enumerate() {
            let n = txs.iter().zip(&oks).filter(|(t, good)| t.sender == *u && **good).count();
            check_eq!(a.get_account(u).nonce, before[i] + n, "nonce", "nonce of {:?}", u);
        }
        w.root = resp.state_root;
        if !m.cells.is_empty() && !m.headers.is_empty() {
            g.hit();
        }
        look(g, &w, &m)?;
        past.push((w.root, m.clone()));
    }
    let (root, m) = g.pick(&past).clone();
    w.root = root;
    look(g, &w, &m)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P32", rule: "a history in which some call of the metadata contract is accepted", assume: vec![], facets: vec![Facet::new("metadata", 500, metadata_machine).deep(20_000).serial()] },
        Prop { id: "P33", rule: "a block in which native tokens are moved", assume: vec![], facets: vec![Facet::new("native", 2000, native_machine).deep(60_000)] },
        Prop { id: "P34", rule: "a history in which there are cells and headers", assume: vec![], facets: vec![Facet::new("images", 800, images).deep(20_000).serial()] },
    ]
}
