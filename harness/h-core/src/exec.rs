//! P30, P31: executing blocks and answering queries.
//!
//! The reference is a plain map of accounts; contract code runs on the `evm` crate over that map, so
//! what is compared is everything the node adds: the account trie and its storage tries, code
//! storage, block environment, nonces, fees, receipts and roots.
use std::collections::BTreeMap;
use std::sync::{Arc, OnceLock};

use core_db::MemoryAdapter;
use core_executor::{
    system_contract, AxonExecutor, AxonExecutorApplyAdapter, AxonExecutorReadOnlyAdapter, MetadataHandle, RocksTrieDB, HARDFORK_INFO,
};
use core_storage::ImplStorage;
use evm::backend::{Apply, Backend, Basic};
use evm::executor::stack::{MemoryStackState, PrecompileFailure, PrecompileFn, PrecompileOutput, StackExecutor, StackSubstateMetadata};
use evm::{Config, ExitError, ExitReason, ExitRevert, ExitSucceed};
use pbt::{check, check_eq, fail, Facet, Gen, Prop, Res, Stop};
use protocol::tokio;
use protocol::traits::{ExecutorAdapter, ExecutorReadOnlyAdapter, *};
use protocol::types::{Log, *};
use refs::rlp;

use crate::gens;
use crate::util::*;

pub fn runtime() -> &'static tokio::runtime::Runtime {
    static RT: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap())
}

#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct Acc {
    pub nonce:   U256,
    pub balance: U256,
    pub code:    Vec<u8>,
    pub storage: BTreeMap<H256, H256>,
}

pub type State = BTreeMap<H160, Acc>;

#[derive(Clone, Default)]
pub struct Env {
    pub ctx:    ExecutorContext,
    pub hashes: BTreeMap<u64, H256>,
}

struct Back<'a> {
    st:  &'a State,
    env: &'a Env,
}

impl<'a> Backend for Back<'a> {
    fn gas_price(&self) -> U256 {
        self.env.ctx.gas_price
    }

    fn origin(&self) -> H160 {
        self.env.ctx.origin
    }

    fn block_hash(&self, number: U256) -> H256 {
        let cur = self.env.ctx.block_number;
        if number >= cur || cur - number > U256::from(256) {
            return H256::zero();
        }
        self.env.hashes.get(&number.as_u64()).cloned().unwrap_or_default()
    }

    fn block_number(&self) -> U256 {
        self.env.ctx.block_number
    }

    fn block_coinbase(&self) -> H160 {
        self.env.ctx.block_coinbase
    }

    fn block_timestamp(&self) -> U256 {
        self.env.ctx.block_timestamp
    }

    fn block_difficulty(&self) -> U256 {
        U256::one()
    }

    fn block_gas_limit(&self) -> U256 {
        self.env.ctx.block_gas_limit.as_u64().into()
    }

    fn block_base_fee_per_gas(&self) -> U256 {
        self.env.ctx.block_base_fee_per_gas.as_u64().into()
    }

    fn chain_id(&self) -> U256 {
        self.env.ctx.chain_id
    }

    fn exists(&self, a: H160) -> bool {
        self.st.contains_key(&a)
    }

    fn basic(&self, a: H160) -> Basic {
        self.st.get(&a).map(|x| Basic { balance: x.balance, nonce: x.nonce }).unwrap_or_default()
    }

    fn code(&self, a: H160) -> Vec<u8> {
        self.st.get(&a).map(|x| x.code.clone()).unwrap_or_default()
    }

    fn storage(&self, a: H160, k: H256) -> H256 {
        self.st.get(&a).and_then(|x| x.storage.get(&k).cloned()).unwrap_or_default()
    }

    fn original_storage(&self, a: H160, k: H256) -> Option<H256> {
        Some(self.storage(a, k))
    }
}

fn lim(cost: u64, limit: Option<u64>) -> Result<(), PrecompileFailure> {
    match limit {
        Some(l) if cost > l => Err(PrecompileFailure::Error { exit_status: ExitError::OutOfGas }),
        _ => Ok(()),
    }
}

fn words(i: &[u8]) -> u64 {
    ((i.len() + 31) / 32) as u64
}

fn ok(output: Vec<u8>, gas: u64) -> Result<(PrecompileOutput, u64), PrecompileFailure> {
    Ok((PrecompileOutput { exit_status: ExitSucceed::Returned, output }, gas))
}

/// Reference precompiles: the ones generated contracts call.
pub fn precompiles() -> BTreeMap<H160, PrecompileFn> {
    let mut m: BTreeMap<H160, PrecompileFn> = BTreeMap::new();
    m.insert(H160::from_low_u64_be(2), |i, l, _, _| {
        let c = 60 + 12 * words(i);
        lim(c, l)?;
        ok(refs::sha256(i).to_vec(), c)
    });
    m.insert(H160::from_low_u64_be(4), |i, l, _, _| {
        let c = 15 + 3 * words(i);
        lim(c, l)?;
        ok(i.to_vec(), c)
    });
    m
}

/// Root of the account trie.
pub fn state_root(st: &State) -> H256 {
    let mut kv = vec![];
    for (a, x) in st {
        let b32 = |u: U256| {
            let mut b = [0; 32];
            u.to_big_endian(&mut b);
            b
        };
        let sroot = storage_root(x);
        let v = rlp::list(&[rlp::uint_be(&b32(x.nonce)), rlp::uint_be(&b32(x.balance)), rlp::bytes(&sroot), rlp::bytes(&refs::keccak(&x.code))]);
        kv.push((refs::keccak(&a.0).to_vec(), v));
    }
    H256(refs::mpt::root(&kv))
}

pub fn storage_root(x: &Acc) -> [u8; 32] {
    let s: Vec<_> = x.storage.iter().filter(|(_, v)| !v.is_zero()).map(|(k, v)| (refs::keccak(&k.0).to_vec(), rlp::uint_be(&v.0))).collect();
    refs::mpt::root(&s)
}

fn apply(st: &mut State, values: impl IntoIterator<Item = Apply<impl IntoIterator<Item = (H256, H256)>>>) {
    for v in values {
        match v {
            Apply::Modify { address, basic, code, storage, reset_storage } => {
                let a = st.entry(address).or_default();
                a.nonce = basic.nonce;
                a.balance = basic.balance;
                if let Some(c) = code {
                    a.code = c;
                }
                if reset_storage {
                    a.storage.clear();
                }
                for (k, v) in storage {
                    if v.is_zero() {
                        a.storage.remove(&k);
                    } else {
                        a.storage.insert(k, v);
                    }
                }
            }
            Apply::Delete { address } => {
                st.remove(&address);
            }
        }
    }
}

pub struct Out {
    pub exit:    ExitReason,
    pub ret:     Vec<u8>,
    pub used:    u64,
    pub remain:  u64,
    pub fee:     U256,
    pub logs:    Vec<Log>,
    pub code:    Option<H256>,
    pub refund:  bool,
    /// the sender could not pay for the gas limit in advance
    pub poor:    bool,
    /// what the sender paid for gas according to the state
    pub system:  bool,
}

pub fn native() -> H160 {
    sys(0)
}

pub fn sys(n: u8) -> H160 {
    let mut a = [0xff; 20];
    a[19] = n;
    H160(a)
}

/// Runs code on the reference state without keeping the changes unless told so.
#[allow(clippy::too_many_arguments)]
pub fn run(st: &State, env: &Env, cfg: &Config, from: H160, to: Option<H160>, value: U256, data: Vec<u8>, gas: u64, al: Vec<(H160, Vec<H256>)>) -> (ExitReason, Vec<u8>, u64, u64, Option<(State, Vec<Log>)>) {
    let back = Back { st, env };
    let pre = precompiles();
    let mut ex = StackExecutor::new_with_precompiles(MemoryStackState::new(StackSubstateMetadata::new(gas, cfg), &back), cfg, &pre);
    let (exit, ret) = match to {
        Some(to) => ex.transact_call(from, to, value, data, gas, al),
        None => ex.transact_create(from, value, data, gas, al),
    };
    let (remain, used) = (ex.gas(), ex.used_gas());
    let post = if exit.is_succeed() {
        let (values, logs) = ex.into_state().deconstruct();
        let values: Vec<_> = values.into_iter().collect();
        let mut st = st.clone();
        apply(&mut st, values);
        Some((st, logs.into_iter().collect()))
    } else {
        None
    };
    (exit, ret, used, remain, post)
}

fn model_evm(st: &mut State, env: &Env, cfg: &Config, tx: &SignedTransaction) -> Out {
    let u = &tx.transaction.unsigned;
    let price = U256::from(u.gas_price().as_u64());
    let limit = u.gas_limit().as_u64();
    let from = tx.sender;
    let nonce = st.get(&from).map(|x| x.nonce).unwrap_or_default();
    let a = st.entry(from).or_default();
    let poor = a.balance < price * limit;
    a.balance = a.balance.saturating_sub(price * limit);
    let to = match u.action() {
        TransactionAction::Call(a) => Some(*a),
        TransactionAction::Create => None,
    };
    let al = u.access_list().into_iter().map(|x| (x.address, x.storage_keys)).collect();
    let (exit, ret, used, remain, post) = run(st, env, cfg, from, to, *u.value(), u.data().to_vec(), limit, al);
    let mut logs = vec![];
    if let Some((s, l)) = post {
        *st = s;
        logs = l;
    }
    let a = st.entry(from).or_default();
    a.nonce = nonce + 1;
    a.balance = a.balance.checked_add(price * remain).unwrap_or(U256::MAX);
    let code = (to.is_none() && exit.is_succeed()).then(|| {
        let mut b = [0; 32];
        nonce.to_big_endian(&mut b);
        H256(refs::keccak(&rlp::list(&[rlp::bytes(&from.0), rlp::uint_be(&b)])))
    });
    Out { exit, ret, used, remain, fee: price * used, logs, code, refund: used + remain != limit, poor, system: false }
}

/// Moves native tokens between the layers.
pub fn model_native(st: &mut State, tx: &SignedTransaction) -> Out {
    let u = &tx.transaction.unsigned;
    let limit = u.gas_limit().as_u64();
    let no = Out { exit: ExitReason::Revert(ExitRevert::Reverted), ret: vec![], used: limit - 1, remain: 1, fee: U256::one(), logs: vec![], code: None, refund: false, poor: false, system: true };
    let d = u.data();
    if d.len() < 21 || d[0] > 1 {
        return no;
    }
    let a = H160::from_slice(&d[1..21]);
    let cur = st.get(&a).cloned().unwrap_or_default();
    let v = *u.value();
    let balance = if d[0] == 0 {
        cur.balance + v
    } else {
        if cur.balance < v {
            return no;
        }
        cur.balance - v
    };
    let acc = st.entry(a).or_default();
    acc.balance = balance;
    acc.nonce += U256::one();
    Out { exit: ExitReason::Succeed(ExitSucceed::Stopped), ret: vec![], used: 0, remain: limit, fee: U256::zero(), logs: vec![], code: None, refund: false, poor: false, system: true }
}

// ---------------------------------------------------------------- contract code

fn push(o: &mut Vec<u8>, b: &[u8]) {
    o.push(0x5f + b.len() as u8);
    o.extend_from_slice(b);
}

fn push_u(o: &mut Vec<u8>, v: u64) {
    let b = v.to_be_bytes();
    let z = b.iter().take_while(|x| **x == 0).count().min(7);
    push(o, &b[z..]);
}

fn value(g: &mut Gen, o: &mut Vec<u8>) {
    match g.below(6) {
        0 | 1 => push_u(o, g.below(4)),
        2 => push_u(o, g.u64()),
        3 => {
            let b = g.bytes_n(32);
            push(o, &b)
        }
        4 => {
            push_u(o, g.below(2) * 32);
            o.push(0x35)
        }
        _ => {
            push_u(o, g.below(4));
            o.push(0x54)
        }
    }
}

fn env_op(g: &mut Gen, o: &mut Vec<u8>, pool: &[H160]) {
    match g.below(20) {
        0 => o.push(0x30),
        1 => {
            push(o, &g.pick(pool).0);
            o.push(0x31)
        }
        2 => o.push(0x47),
        3 => o.push(0x32),
        4 => o.push(0x33),
        5 => o.push(0x34),
        6 => o.push(0x3a),
        7 => {
            push(o, &g.pick(pool).0);
            o.push(0x3b)
        }
        8 => {
            push(o, &g.pick(pool).0);
            o.push(0x3f)
        }
        9 | 10 => {
            // BLOCKHASH(NUMBER - n)
            push_u(o, *g.pick(&[0u64, 1, 2, 3, 5, 255, 256, 257, 258]));
            o.extend_from_slice(&[0x43, 0x03, 0x40])
        }
        11 => o.push(0x41),
        12 => o.push(0x42),
        13 => o.push(0x43),
        14 => o.push(0x44),
        15 => o.push(0x45),
        16 => o.push(0x46),
        17 => o.push(0x48),
        18 => o.push(0x3d),
        _ => o.push(0x5a),
    }
}

/// A few bytes of init code, at most 32.
fn tiny_init(g: &mut Gen) -> Vec<u8> {
    match g.below(6) {
        0 => vec![0x60, g.below(3) as u8, 0x60, g.below(3) as u8, 0x55, 0x00],
        1 | 2 => {
            // returns 8 bytes: SSTORE, then SELFDESTRUCT(CALLER) or STOP
            let end = if g.bool() { [0x33, 0xff] } else { [0x00, 0x00] };
            let mut o = vec![0x67, 0x60, g.below(3) as u8, 0x60, g.below(3) as u8, 0x55, end[0], end[1], 0x00];
            o.extend_from_slice(&[0x60, 0, 0x52, 0x60, 8, 0x60, 24, 0xf3]);
            o
        }
        3 => vec![0x33, 0xff],
        4 => vec![0x60, 0, 0x60, 0, 0xfd],
        // code starting with 0xEF
        _ => vec![0x60, 0xef, 0x60, 0, 0x53, 0x60, 1, 0x60, 0, 0xf3],
    }
}

fn stmt(g: &mut Gen, o: &mut Vec<u8>, pool: &[H160], depth: u32) {
    match g.weighted(&[6, 3, 4, 3, 6, 3, 1, 2, 3, 1, 1]) {
        0 => {
            value(g, o);
            push_u(o, g.below(4));
            o.push(0x55);
        }
        1 => {
            push_u(o, 1 + g.below(2));
            push_u(o, g.below(4));
            o.extend_from_slice(&[0x54, 0x01]);
            push_u(o, g.below(4));
            o.push(0x55);
        }
        2 => {
            env_op(g, o, pool);
            push_u(o, g.below(4));
            o.push(0x55);
        }
        3 => {
            let n = g.below(5) as u8;
            for _ in 0..n {
                value(g, o);
            }
            push_u(o, g.below(70));
            push_u(o, g.below(3));
            o.push(0xa0 + n);
        }
        4 => {
            let op = *g.pick(&[0xf1u8, 0xf1, 0xf1, 0xf2, 0xf4, 0xfa]);
            // a word of input
            value(g, o);
            o.extend_from_slice(&[0x60, 0, 0x52]);
            push_u(o, g.below(2) * 32);
            push_u(o, g.below(2) * 32);
            push_u(o, 32);
            push_u(o, 0);
            if op == 0xf1 || op == 0xf2 {
                push_u(o, if g.bool() { 0 } else { g.below(2000) });
            }
            push(o, &g.pick(pool).0);
            if g.below(3) == 0 {
                push_u(o, g.below(60_000))
            } else {
                o.push(0x5a)
            }
            o.push(op);
            if g.bool() {
                push_u(o, g.below(4));
                o.push(0x55);
            } else {
                o.push(0x50);
            }
        }
        5 => {
            let init = tiny_init(g);
            let mut w = init.clone();
            w.resize(32, 0);
            push(o, &w);
            o.extend_from_slice(&[0x60, 0, 0x52]);
            let two = g.bool();
            if two {
                push_u(o, g.below(2));
            }
            push_u(o, init.len() as u64);
            push_u(o, 0);
            push_u(o, if g.bool() { 0 } else { g.below(100) });
            o.push(if two { 0xf5 } else { 0xf0 });
            if g.bool() {
                push_u(o, g.below(4));
                o.push(0x55);
            } else {
                // calls what it made: outSize outOff inSize inOff value | addr
                o.extend_from_slice(&[0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x85, 0x5a, 0xf1, 0x50, 0x50]);
            }
        }
        6 => {
            push(o, &g.pick(pool).0);
            o.push(0xff);
        }
        7 => match g.below(5) {
            0 | 1 => {
                push_u(o, g.below(40));
                push_u(o, 0);
                o.push(0xfd);
            }
            2 | 3 => {
                push_u(o, g.below(40));
                push_u(o, 0);
                o.push(0xf3);
            }
            _ => o.push(*g.pick(&[0x00u8, 0xfe])),
        },
        8 if depth < 3 => {
            // if bit n of the first word of the call's data is clear, skip
            push_u(o, g.below(8));
            push_u(o, 0);
            o.extend_from_slice(&[0x35, 0x90, 0x1c, 0x60, 1, 0x16, 0x15, 0x61, 0, 0, 0x57]);
            let at = o.len() - 3;
            for _ in 0..g.usize(1, 3) {
                stmt(g, o, pool, depth + 1);
            }
            let here = o.len() as u16;
            o[at..at + 2].copy_from_slice(&here.to_be_bytes());
            o.push(0x5b);
        }
        9 => {
            // SHA3 of some memory
            push_u(o, g.below(64));
            push_u(o, 0);
            o.push(0x20);
            push_u(o, g.below(4));
            o.push(0x55);
        }
        _ => {
            let b = g.bytes(4);
            o.extend_from_slice(&b);
        }
    }
}

pub fn code(g: &mut Gen, pool: &[H160]) -> Vec<u8> {
    let mut o = vec![];
    for _ in 0..g.usize(0, 8) {
        stmt(g, &mut o, pool, 0);
    }
    o
}

/// Init code: some statements, then returns a body.
pub fn init_code(g: &mut Gen, pool: &[H160]) -> Vec<u8> {
    let mut o = vec![];
    for _ in 0..g.below(3) {
        stmt(g, &mut o, pool, 1);
    }
    let body = if g.chance(1, 25) { vec![0; 0x5ffe + g.usize(0, 4)] } else { code(g, pool) };
    // PUSH2 len PUSH2 off PUSH1 0 CODECOPY PUSH2 len PUSH1 0 RETURN
    let off = o.len() + 16;
    o.push(0x61);
    o.extend_from_slice(&(body.len() as u16).to_be_bytes());
    o.push(0x61);
    o.extend_from_slice(&(off as u16).to_be_bytes());
    o.extend_from_slice(&[0x60, 0, 0x39, 0x61]);
    o.extend_from_slice(&(body.len() as u16).to_be_bytes());
    o.extend_from_slice(&[0x60, 0, 0xf3, 0x00]);
    debug_assert_eq!(o.len(), off);
    o.extend_from_slice(&body);
    o
}

// ---------------------------------------------------------------- the node's side

pub struct World {
    pub storage: Arc<ImplStorage<MemoryAdapter>>,
    pub trie:    Arc<RocksTrieDB>,
    pub db:      Arc<rocksdb::DB>,
    pub state:   State,
    pub env:     Env,
    pub root:    H256,
    pub users:   Vec<H160>,
    pub pool:    Vec<H160>,
    pub limit:   usize,
    /// signs transactions for this chain, with nonces from here on
    pub signed:  Option<(u64, u64)>,
    _dir:        Dir,
}

pub type Adapter = AxonExecutorApplyAdapter<ImplStorage<MemoryAdapter>, RocksTrieDB>;
pub type Reader = AxonExecutorReadOnlyAdapter<ImplStorage<MemoryAdapter>, RocksTrieDB>;

pub fn e(x: protocol::ProtocolError) -> Stop {
    fail("node-error", x.to_string())
}

pub fn validator(address: H160, weight: u32) -> ValidatorExtend {
    ValidatorExtend { bls_pub_key: Hex::encode([7u8; 48]), pub_key: Hex::encode([2u8; 33]), address, propose_weight: 1, vote_weight: weight }
}

pub fn metadata(epoch: u64, start: u64, end: u64, verifier_list: Vec<ValidatorExtend>, limit: u64) -> Metadata {
    let consensus_config = ConsensusConfig { gas_limit: 30_000_000, interval: 3000, propose_ratio: 15, prevote_ratio: 10, precommit_ratio: 10, brake_ratio: 10, tx_num_limit: 20000, max_tx_size: 409_600, max_contract_limit: limit };
    Metadata { version: MetadataVersion { start, end }, epoch, verifier_list, propose_counter: vec![], consensus_config }
}

/// The tries of the system contracts live behind statics: all worlds share their data base (nodes are
/// found by hash), so that worlds can run next to each other.
pub fn shared_db() -> Arc<rocksdb::DB> {
    static DB: OnceLock<(Dir, Arc<rocksdb::DB>)> = OnceLock::new();
    Arc::clone(
        &DB.get_or_init(|| {
            let d = Dir::new();
            let db = open(&d.db()).inner_db();
            (d, db)
        })
        .1,
    )
}

pub const WEI: u64 = 1_000_000_000_000_000;

impl World {
    pub fn new(g: &mut Gen, andromeda: bool, md: &[Metadata]) -> Result<World, Stop> {
        let dir = Dir::new();
        let db = open(&dir.db()).inner_db();
        let trie = Arc::new(RocksTrieDB::new_evm(Arc::clone(&db), *g.pick(&[1usize, 2, 7, 50, 1000])));
        let storage = Arc::new(ImplStorage::new(Arc::new(MemoryAdapter::new()), *g.pick(&[1usize, 20])));
        let users: Vec<H160> = (1..=4u8).map(|i| address(&[i; 32])).collect();
        let mut env = Env::default();
        env.ctx.chain_id = g.u64().into();
        let flags = if andromeda { H256::from_low_u64_be(1u64.to_be()) } else { H256::zero() };
        let mut a = Adapter::new(Arc::clone(&trie), Arc::clone(&storage), env.ctx.clone()).map_err(e)?;
        // the executor's current roots, which belong to the thread, become those of a new state, as
        // in a new process
        HARDFORK_INFO.swap(Arc::new(flags));
        let _ = pbt::no_panic(|| AxonExecutor.call(&a, 0, None, Some(H160::zero()), U256::zero(), vec![], false));
        system_contract::init(shared_db(), &mut a, md, HardforkInfoInner { block_number: 0, flags }).map_err(e)?;
        let mut w = World { storage, trie, db, state: State::new(), env, root: H256::zero(), pool: users.clone(), users, limit: if andromeda { md[0].consensus_config.max_contract_limit as usize } else { 0x6000 }, signed: None, _dir: dir };
        for n in 1..4 {
            if n != 1 {
                w.state.insert(sys(n), Acc::default());
            }
        }
        w.state.insert(sys(1), Acc::default());
        for u in w.users.clone() {
            let mut acc = Acc { balance: U256::from(WEI) * g.below(5) * 1000, ..Default::default() };
            if g.chance(1, 3) {
                acc.nonce = g.u64().into();
            }
            if g.below(4) != 0 {
                acc.balance += U256::from(WEI) * 1000;
            }
            a.save_account(&u, &Account { nonce: acc.nonce, balance: acc.balance, storage_root: RLP_NULL, code_hash: NIL_DATA });
            w.state.insert(u, acc);
        }
        w.pool.push(H160::from_low_u64_be(2));
        w.pool.push(H160::from_low_u64_be(4));
        w.pool.push(H160([0xee; 20]));
        let own: Vec<H160> = (0..3u8).map(|i| H160([0xc0 + i; 20])).collect();
        w.pool.extend(own.iter());
        w.pool.extend(own.iter());
        for c in own {
            let body = code(g, &w.pool);
            let h = H256(refs::keccak(&body));
            block_on(w.storage.insert_code(Context::new(), c.into(), h, body.clone().into())).map_err(e)?;
            let acc = Acc { balance: g.below(5000).into(), nonce: U256::one(), code: body, storage: BTreeMap::new() };
            a.save_account(&c, &Account { nonce: acc.nonce, balance: acc.balance, storage_root: RLP_NULL, code_hash: h });
            w.state.insert(c, acc);
        }
        w.root = a.commit();
        w.sync_system(&a);
        Ok(w)
    }

    /// The roots of the system contracts' own tries are checked elsewhere; here they are taken over.
    pub fn sync_system<A: Backend>(&mut self, a: &A) {
        for (n, key) in [(1u8, *system_contract::METADATA_ROOT_KEY), (2, *system_contract::HEADER_CELL_ROOT_KEY), (3, *system_contract::HEADER_CELL_ROOT_KEY)] {
            let v = a.storage(sys(n), key);
            let s = &mut self.state.entry(sys(n)).or_default().storage;
            if v.is_zero() {
                s.remove(&key);
            } else {
                s.insert(key, v);
            }
        }
    }

    /// Forgets the trie's cache, as a restart does.
    pub fn restart(&mut self, g: &mut Gen) {
        self.trie = Arc::new(RocksTrieDB::new_evm(Arc::clone(&self.db), *g.pick(&[1usize, 2, 7, 50, 1000])));
    }

    pub fn config(&self) -> Config {
        let mut c = Config::london();
        c.create_contract_limit = Some(self.limit);
        c
    }

    pub fn adapter(&self) -> Result<Adapter, Stop> {
        Adapter::from_root(self.root, Arc::clone(&self.trie), Arc::clone(&self.storage), self.env.ctx.clone()).map_err(e)
    }

    pub fn next_block(&mut self, g: &mut Gen) -> Result<(), Stop> {
        let old = self.env.ctx.block_number.as_u64();
        let n = old + *g.pick(&[1u64, 1, 1, 2, 300]);
        // some blocks between the two are known
        let mut c = vec![n - 1];
        for d in [0u64, 2, 255, 256, 257] {
            if n > d && n - d >= old && n - d < n && d != 0 {
                c.push(n - d);
            }
        }
        for k in c {
            if k >= old && g.below(5) != 0 {
                let mut h = gens::header(g);
                h.number = k;
                let b = Block { header: h, tx_hashes: vec![] };
                self.env.hashes.insert(k, b.hash());
                block_on(self.storage.insert_block(Context::new(), b)).map_err(e)?;
            }
        }
        let c = &mut self.env.ctx;
        c.block_number = n.into();
        c.block_timestamp = g.u64().into();
        c.block_coinbase = *g.pick(&self.pool);
        c.origin = c.block_coinbase;
        c.gas_price = U256::one();
        c.block_gas_limit = g.u64().into();
        c.block_base_fee_per_gas = g.u64().into();
        Ok(())
    }

    pub fn tx(&mut self, g: &mut Gen, number: u32) -> SignedTransaction {
        let sender = *g.pick(&self.users);
        let create = g.below(4) == 0;
        let action = if create { TransactionAction::Create } else { TransactionAction::Call(*g.pick(&self.pool)) };
        let data = if create {
            init_code(g, &self.pool)
        } else {
            let mut d = g.bytes_n(32);
            if g.below(4) == 0 {
                d.truncate(g.usize(0, 32));
            }
            d
        };
        let gas_price: U64 = match g.below(4) {
            0 => 0u64.into(),
            1 => 1u64.into(),
            _ => (1 + g.below(1_000_000_000)).into(),
        };
        let gas_limit: U64 = match g.below(8) {
            0 => (20_990 + g.below(20)).into(),
            1 => (21_000 + g.below(40_000)).into(),
            _ => (60_000 + g.below(340_000)).into(),
        };
        let value = match g.below(6) {
            0 | 1 | 2 => U256::zero(),
            3 | 4 => g.below(3000).into(),
            _ => {
                let b = self.state.get(&sender).map(|x| x.balance).unwrap_or_default();
                b.saturating_sub(U256::from(gas_price.as_u64()) * gas_limit.as_u64()) + g.below(2)
            }
        };
        let (mut action, mut data, mut gas_limit) = (action, data, gas_limit);
        let logger = H160([0xd1; 20]);
        if self.pool.contains(&logger) && g.bool() {
            // a call that emits logs, with topics out of a few, or that stores a value
            action = TransactionAction::Call(if g.below(4) == 0 { H160([0xd2; 20]) } else { logger });
            data = vec![0; 64];
            data[31] = g.below(4) as u8;
            data[63] = g.below(4) as u8;
            let more = g.bytes(20);
            data.extend(more);
            gas_limit = gas_limit.max(60_000u64.into());
        }
        let nonce = match &mut self.signed {
            Some((_, n)) => {
                *n += 1;
                U64::from(*n)
            }
            None => U64::from(number),
        };
        let data = Bytes::from(data);
        let tip = if g.bool() { gas_price } else { g.below(1_000_000_000).into() };
        let unsigned = match g.below(3) {
            0 => UnsignedTransaction::Legacy(LegacyTransaction { nonce, gas_price, gas_limit, action, value, data }),
            1 => UnsignedTransaction::Eip2930(Eip2930Transaction { nonce, gas_price, gas_limit, action, value, data, access_list: self.access(g) }),
            _ => UnsignedTransaction::Eip1559(Eip1559Transaction { nonce, max_priority_fee_per_gas: tip, gas_price, gas_limit, action, value, data, access_list: self.access(g) }),
        };
        self.from(g, unsigned, sender)
    }

    pub fn from(&mut self, g: &mut Gen, unsigned: UnsignedTransaction, sender: H160) -> SignedTransaction {
        let Some((chain, _)) = self.signed else {
            return forged(unsigned, sender);
        };
        let i = self.users.iter().position(|u| *u == sender).unwrap();
        let legacy = matches!(unsigned, UnsignedTransaction::Legacy(_));
        sign(unsigned, if legacy && g.below(3) == 0 { None } else { Some(chain) }, &[1 + i as u8; 32])
    }

    fn access(&mut self, g: &mut Gen) -> AccessList {
        g.vec(2, |g| AccessListItem { address: *g.pick(&self.pool), storage_keys: g.vec(2, |g| H256::from_low_u64_be(g.below(4))) })
    }

    pub fn native_tx(&mut self, g: &mut Gen) -> SignedTransaction {
        let sender = *g.pick(&self.users);
        let to = *g.pick(&self.pool);
        let mut data = vec![*g.pick(&[0u8, 0, 1, 1, 1, 2, 255])];
        data.extend_from_slice(&to.0);
        if g.chance(1, 5) {
            data.truncate(g.usize(0, 21));
        } else if g.chance(1, 4) {
            data.extend_from_slice(&[1, 2]);
        }
        let b = self.state.get(&to).map(|x| x.balance).unwrap_or_default();
        let value = match g.below(5) {
            0 => b,
            1 => b + 1,
            2 => b.saturating_sub(U256::one()),
            _ => g.below(5000).into(),
        };
        let nonce = match &mut self.signed {
            Some((_, n)) => {
                *n += 1;
                U64::from(*n)
            }
            None => 0u64.into(),
        };
        let l = LegacyTransaction { nonce, gas_price: g.below(10).into(), gas_limit: (1 + g.below(100_000)).into(), action: TransactionAction::Call(native()), value, data: data.into() };
        self.from(g, UnsignedTransaction::Legacy(l), sender)
    }

    /// The account's state as the node has it.
    pub fn compare<A: Backend + ExecutorReadOnlyAdapter>(&self, a: &A, st: &State, what: &str) -> Res {
        for (addr, x) in st {
            let y = a.get_account(addr);
            check_eq!(y.nonce, x.nonce, "nonce", "{}: nonce of {:?}", what, addr);
            check_eq!(y.balance, x.balance, "balance", "{}: balance of {:?}", what, addr);
            check_eq!(y.code_hash, H256(refs::keccak(&x.code)), "code-hash", "{}: code hash of {:?}", what, addr);
            check_eq!(y.storage_root, H256(storage_root(x)), "storage-root", "{}: storage root of {:?}", what, addr);
            check_eq!(a.code(*addr), x.code, "code", "{}: code of {:?}", what, addr);
            check!(a.exists(*addr), "exists", "{}: {:?} does not exist", what, addr);
            check_eq!(a.basic(*addr), Basic { balance: x.balance, nonce: x.nonce }, "basic", "{}: {:?}", what, addr);
            for (k, v) in &x.storage {
                check_eq!(a.storage(*addr, *k), *v, "slot", "{}: slot {:?} of {:?}", what, k, addr);
            }
            for i in 0..4 {
                let k = H256::from_low_u64_be(i);
                check_eq!(a.storage(*addr, k), x.storage.get(&k).cloned().unwrap_or_default(), "slot", "{}: slot {} of {:?}", what, i, addr);
            }
        }
        for addr in &self.pool {
            if !st.contains_key(addr) {
                check!(!a.exists(*addr) && a.get_account(addr).balance.is_zero() && a.code(*addr).is_empty(), "ghost", "{}: {:?} exists", what, addr);
            }
        }
        Ok(())
    }
}

pub fn forged(unsigned: UnsignedTransaction, sender: H160) -> SignedTransaction {
    let mut t = UnverifiedTransaction { unsigned, chain_id: Some(5), signature: None, hash: H256::zero() };
    t.hash = H256(refs::keccak(&t.unsigned.encode(Some(5), None)));
    SignedTransaction { transaction: t, sender, public: None }
}

/// Executes one block on both sides and compares them.
pub fn step(g: &mut Gen, w: &mut World, validators: &[ValidatorExtend], paid: bool) -> Result<(Vec<SignedTransaction>, ExecResp), Stop> {
    let cfg = w.config();
    let n = g.usize(0, 5);
    let mut txs = vec![];
    let mut outs = vec![];
    let mut st = w.state.clone();
    let mut env = w.env.clone();
    let mut fees = U256::zero();
    for i in 0..n {
        // senders' balances and known contracts as they are at this point
        let (keep, tx) = {
            let keep = std::mem::replace(&mut w.state, st.clone());
            let tx = if g.chance(1, 8) { w.native_tx(g) } else { w.tx(g, i as u32) };
            (keep, tx)
        };
        w.state = keep;
        env.ctx.origin = tx.sender;
        env.ctx.gas_price = tx.transaction.unsigned.gas_price().as_u64().into();
        let before = st.get(&tx.sender).map(|x| x.balance).unwrap_or_default();
        let o = if tx.get_to() == Some(native()) { model_native(&mut st, &tx) } else { model_evm(&mut st, &env, &cfg, &tx) };
        let _ = before;
        fees = fees.checked_add(o.fee).unwrap_or(U256::MAX);
        for a in st.keys() {
            if !w.pool.contains(a) && w.pool.len() < 24 && a.0[0] != 0xff {
                w.pool.push(*a);
            }
        }
        g.label_if(o.exit.is_succeed() && !o.system, "transaction succeeded");
        g.label_if(o.exit.is_revert() && !o.system, "transaction reverted");
        g.label_if(o.exit.is_error(), "transaction failed");
        g.label_if(!o.logs.is_empty(), "logs emitted");
        g.label_if(o.code.is_some(), "contract created");
        g.label_if(o.refund, "gas refunded");
        g.label_if(o.system, "native token call");
        if o.exit.is_succeed() && st.values().any(|x| !x.code.is_empty()) {
            g.hit();
        }
        g.note(|| format!("{:?} -> {:?} used {}", tx.transaction.unsigned, o.exit, o.used));
        txs.push(tx);
        outs.push(o);
    }
    // fees
    if !fees.is_zero() {
        let total: u64 = validators.iter().map(|v| v.vote_weight as u64).sum();
        for v in validators {
            let amount = fees / total * v.vote_weight;
            if !amount.is_zero() {
                st.entry(v.address).or_default().balance += amount;
            }
        }
    }

    let _rt = runtime().enter();
    let mut a = w.adapter()?;
    let resp = AxonExecutor.exec(&mut a, &txs, validators);
    w.state = st;
    w.sync_system(&a);

    check_eq!(resp.tx_resp.len(), n, "responses", "number of responses");
    let mut receipts = vec![];
    for (i, (r, o)) in resp.tx_resp.iter().zip(&outs).enumerate() {
        check_eq!(r.exit_reason, o.exit, "exit", "transaction {}", i);
        check_eq!(r.ret, o.ret, "output", "output of transaction {}", i);
        check_eq!(r.gas_used, o.used, "gas-used", "gas used by transaction {}", i);
        check_eq!(r.remain_gas, o.remain, "gas-left", "gas left over by transaction {}", i);
        check_eq!(r.fee_cost, o.fee, "fee", "fee of transaction {}", i);
        check_eq!(r.logs, o.logs, "logs", "logs of transaction {}", i);
        check_eq!(r.code_address, o.code, "code-address", "address of the contract created by transaction {}", i);
        check!(!r.removed, "removed", "transaction {} is marked as removed", i);
        if let Some(c) = r.code_address {
            let c = H160::from(c);
            if !w.state.contains_key(&c) {
                g.label("created contract destroyed again");
            }
        }
        let bloom = bloom(&o.logs);
        receipts.push((rlp::uint(i as u128), txs[i].encode_receipt(r, bloom).to_vec()));
    }
    check_eq!(resp.gas_used, outs.iter().map(|o| o.used).sum::<u64>(), "block-gas", "gas used by the block");
    let rr = if receipts.is_empty() { RLP_NULL } else { H256(refs::mpt::root(&receipts)) };
    check_eq!(resp.receipt_root, rr, "receipt-root", "root of the receipts");
    w.compare(&a, &w.state, "after the block")?;
    check_eq!(resp.state_root, state_root(&w.state), "state-root", "root of the state");
    w.root = resp.state_root;

    // what a transaction costs its sender is the fee its receipt shows
    for (i, o) in outs.iter().enumerate() {
        if o.system || !paid {
            continue;
        }
        let price = U256::from(txs[i].transaction.unsigned.gas_price().as_u64());
        let limit = txs[i].transaction.unsigned.gas_limit().as_u64();
        if o.poor {
            g.known(Err(fail("gas-not-prepaid", format!("transaction {} ran although its sender could not pay for its gas limit in advance", i))))?;
        } else if !price.is_zero() && price * (limit - o.remain) != o.fee {
            g.known(Err(fail("refund-kept", format!("transaction {}: its sender paid for {} gas but the fee is for {}", i, limit - o.remain, o.used))))?;
        }
    }
    Ok((txs, resp))
}

pub fn bloom(logs: &[Log]) -> Bloom {
    let mut b = Bloom::default();
    let mut add = |x: &[u8]| {
        let h = refs::keccak(x);
        for i in 0..3 {
            let bit = (u16::from_be_bytes([h[2 * i], h[2 * i + 1]]) & 2047) as usize;
            b.0[255 - bit / 8] |= 1 << (bit % 8);
        }
    };
    for l in logs {
        add(&l.address.0);
        for t in &l.topics {
            add(&t.0);
        }
    }
    b
}

pub fn world(g: &mut Gen, andromeda: bool) -> Result<(World, Vec<ValidatorExtend>), Stop> {
    let n = g.usize(1, 4);
    let mut vs = vec![];
    for i in 0..n {
        let a = if g.below(3) == 0 { address(&[1 + i as u8; 32]) } else { H160([0xa0 + i as u8; 20]) };
        let w = *g.pick(&[0u32, 1, 1, 2, 3, 7]);
        vs.push(validator(a, if i == 0 { w.max(1) } else { w }));
    }
    let limit = if andromeda { *g.pick(&[8u64, 100, 0x6000, 0x6001]) } else { 0x6000 };
    let md = [metadata(0, 1, 10, vs.clone(), limit), metadata(1, 11, 1 << 40, vs.clone(), limit)];
    let w = World::new(g, andromeda, &md)?;
    Ok((w, vs))
}

fn blocks(g: &mut Gen, andromeda: bool) -> Res {
    let (mut w, vs) = world(g, andromeda)?;
    for _ in 0..g.usize(1, 4) {
        w.next_block(g)?;
        if g.chance(1, 4) {
            w.restart(g);
        }
        step(g, &mut w, &vs, true)?;
    }
    Ok(())
}

/// The same block on the same state gives the same response, whatever is cached; earlier states
/// stay readable; queries agree with the reference and change nothing.
fn queries(g: &mut Gen, andromeda: bool) -> Res {
    let (mut w, vs) = world(g, andromeda)?;
    let mut past = vec![];
    for _ in 0..g.usize(1, 3) {
        w.next_block(g)?;
        let root = w.root;
        let env = w.env.clone();
        let (txs, resp) = step(g, &mut w, &vs, false)?;
        if g.bool() {
            let _rt = runtime().enter();
            let trie = if g.bool() { Arc::clone(&w.trie) } else { Arc::new(RocksTrieDB::new_evm(Arc::clone(&w.db), *g.pick(&[1usize, 3, 1000]))) };
            let mut a = Adapter::from_root(root, trie, Arc::clone(&w.storage), env.ctx.clone()).map_err(e)?;
            let again = AxonExecutor.exec(&mut a, &txs, &vs);
            check_eq!(again, resp, "replay", "the same block executed again");
            g.label("block executed twice");
        }
        past.push((w.root, w.state.clone(), w.env.clone()));
    }
    for _ in 0..g.usize(1, 5) {
        let (root, st, env) = g.pick(&past).clone();
        let _rt = runtime().enter();
        if g.bool() {
            w.restart(g);
        }
        let mut env = env;
        env.ctx.gas_price = g.below(1000).into();
        let r = Reader::from_root(root, Arc::clone(&w.trie), Arc::clone(&w.storage), env.ctx.clone()).map_err(e)?;
        if g.below(3) == 0 {
            w.compare(&r, &st, "earlier state")?;
            g.label("earlier state read");
            continue;
        }
        let from = if g.below(4) == 0 { None } else { Some(*g.pick(&w.users)) };
        let create = g.below(4) == 0;
        let to = if create { None } else { Some(*g.pick(&w.pool)) };
        let data = if create { init_code(g, &w.pool) } else { g.bytes_n(32) };
        let value: U256 = if g.bool() { U256::zero() } else { g.below(3000).into() };
        let gas = *g.pick(&[21_000u64, 40_000, 100_000, 400_000]);
        let estimate = g.bool();
        let out = AxonExecutor.call(&r, gas, from, to, value, data.clone(), estimate);
        // queries size-limit contracts by the configuration in force
        let (exit, ret, used, remain, post) = run(&st, &env, &w.config(), from.unwrap_or_default(), to, value, data, gas, vec![]);
        g.label_if(post.is_some(), "query succeeded");
        if post.map_or(false, |p| p.0 != st) {
            g.hit();
        }
        check_eq!(out.exit_reason, exit, "call-exit", "query");
        check_eq!(out.ret, ret, "call-output", "query");
        check_eq!(out.remain_gas, remain, "call-gas-left", "query");
        check_eq!(out.gas_used, if estimate { used + used / 4 } else { used }, "call-gas", "query, estimating: {}", estimate);
        let r2 = Reader::from_root(root, Arc::clone(&w.trie), Arc::clone(&w.storage), env.ctx.clone()).map_err(e)?;
        w.compare(&r2, &st, "after a query")?;
        check!(MetadataHandle::new(r2.get_metadata_root()).get_consensus_config().is_ok(), "metadata-root", "the metadata root is not readable");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id:     "P30",
            rule:   "a block in which at least one transaction succeeds in a state with contract code",
            assume: vec!["contract code runs on the evm crate on both sides; the reference is a map of accounts with the independent trie of refs::mpt"],
            facets: vec![
                Facet::new("blocks", 1500, |g: &mut Gen| blocks(g, true)).deep(60_000),
                Facet::new("blocks-before-andromeda", 700, |g: &mut Gen| blocks(g, false)).deep(20_000),
            ],
        },
        Prop {
            id:     "P31",
            rule:   "a query or block whose execution changes the state it runs on",
            assume: vec![],
            facets: vec![
                Facet::new("queries", 1000, |g: &mut Gen| queries(g, true)).deep(40_000),
                Facet::new("queries-before-andromeda", 400, |g: &mut Gen| queries(g, false)).deep(10_000),
            ],
        },
    ]
}
