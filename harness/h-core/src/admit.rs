//! P26: which transactions are let into the pool, and what other nodes get to see of them. The
//! mempool's own adapter runs over a real state, storage and metadata; only the network is a stand-in.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

use common_crypto::Secp256k1Recoverable;
use core_interoperation::InteroperationImpl;
use core_db::MemoryAdapter;
use core_executor::{AxonExecutor, RocksTrieDB};
use core_mempool::{DefaultMemPoolAdapter, MemPoolImpl, MsgPullTxs, NewTxsHandler, PullTxsHandler};
use core_network::NetworkContext;
use core_storage::ImplStorage;
use ethers::abi::Token;
use pbt::{check, check_eq, fail, Facet, Gen, Prop, Res, Stop};
use protocol::traits::{Executor, ExecutorAdapter, *};
use protocol::types::*;
use protocol::{async_trait, tokio, ProtocolError, ProtocolErrorKind, ProtocolResult};

use crate::exec::{e, metadata, runtime, sys, validator, World};
use crate::gens;
use crate::sys::{call, data_of};
use crate::util::{address, sign};

const CHAIN: u64 = 2022;
const GWEI: u64 = 1_000_000_000;

fn refused(s: &str) -> ProtocolError {
    ProtocolError::new(ProtocolErrorKind::Network, Box::new(std::io::Error::new(std::io::ErrorKind::Other, s.to_string())))
}

#[derive(Default)]
struct Wire {
    /// where from, what
    gossip:  Vec<(Option<usize>, Vec<Hash>)>,
    reports: Vec<TrustFeedback>,
    asked:   Vec<Vec<Hash>>,
    answer:  Vec<SignedTransaction>,
    replies: Vec<Option<Vec<SignedTransaction>>>,
}

#[derive(Clone, Default)]
struct Net(Arc<Mutex<Wire>>);

#[async_trait]
impl Gossip for Net {
    async fn broadcast<M: MessageCodec>(&self, _: Context, _: &str, _: M, _: Priority) -> ProtocolResult<()> {
        panic!("broadcast")
    }

    async fn gossip<M: MessageCodec>(&self, _: Context, origin: Option<usize>, end: &str, mut msg: M, _: Priority) -> ProtocolResult<()> {
        assert_eq!(end, "/gossip/mempool/new_txs");
        let b = BatchSignedTxs::decode_msg(msg.encode_msg()?)?;
        self.0.lock().unwrap().gossip.push((origin, b.inner().iter().map(|t| t.transaction.hash).collect()));
        Ok(())
    }

    async fn multicast<'a, M: MessageCodec, P: AsRef<[Bytes]> + Send + 'a>(&self, _: Context, _: &str, _: P, _: M, _: Priority) -> ProtocolResult<()> {
        panic!("multicast")
    }
}

#[async_trait]
impl Rpc for Net {
    async fn call<M: MessageCodec, R: MessageCodec>(&self, _: Context, end: &str, mut msg: M, _: Priority) -> ProtocolResult<R> {
        assert_eq!(end, "/rpc_call/mempool/pull_txs");
        let m = MsgPullTxs::decode_msg(msg.encode_msg()?)?;
        let answer = {
            let mut w = self.0.lock().unwrap();
            w.asked.push(m.hashes);
            w.answer.clone()
        };
        R::decode_msg(BatchSignedTxs::new(answer).encode_msg()?)
    }

    async fn response<M: MessageCodec>(&self, _: Context, end: &str, ret: ProtocolResult<M>, _: Priority) -> ProtocolResult<()> {
        assert_eq!(end, "/rpc_resp/mempool/pull_txs");
        let r = match ret {
            Ok(mut m) => Some(BatchSignedTxs::decode_msg(m.encode_msg()?)?.inner()),
            Err(_) => None,
        };
        self.0.lock().unwrap().replies.push(r);
        Ok(())
    }
}

impl PeerTrust for Net {
    fn report(&self, _: Context, feedback: TrustFeedback) {
        self.0.lock().unwrap().reports.push(feedback);
    }
}

type Ad = DefaultMemPoolAdapter<Secp256k1Recoverable, Net, ImplStorage<MemoryAdapter>, RocksTrieDB, InteroperationImpl>;

struct Sim {
    w:          World,
    number:     u64,
    /// validators up to block 10, and up to block 20
    epochs:     [Vec<H160>; 2],
    max_size:   usize,
    cell:       (H256, u32),
    keys:       BTreeMap<H160, [u8; 32]>,
    serial:     u64,
    stored:     BTreeMap<Hash, SignedTransaction>,
    all:        Vec<Tx>,
    /// accepted and not yet told to others
    waiting:    Vec<(Option<usize>, Hash)>,
    sent:       Vec<(Option<usize>, Hash)>,
    batch:      usize,
}

#[derive(Clone, Debug)]
struct Tx {
    stx: SignedTransaction,
    /// what is wrong with the signature
    sig: Option<&'static str>,
}

fn short(h: &Hash) -> String {
    refs::hex(&h.0[..3])
}

fn price_of(u: &UnsignedTransaction) -> u64 {
    match u {
        UnsignedTransaction::Legacy(t) => t.gas_price.as_u64(),
        UnsignedTransaction::Eip2930(t) => t.gas_price.as_u64(),
        UnsignedTransaction::Eip1559(t) => t.gas_price.as_u64().max(t.max_priority_fee_per_gas.as_u64()),
    }
}

impl Sim {
    fn account(&self, a: &H160) -> (U256, U256) {
        self.w.state.get(a).map(|x| (x.nonce, x.balance)).unwrap_or_default()
    }

    /// Everything that is wrong with a transaction.
    fn flaws(&self, t: &Tx) -> Vec<&'static str> {
        let u = &t.stx.transaction.unsigned;
        let mut v = vec![];
        let mut system = false;
        if let TransactionAction::Call(to) = u.action() {
            if to.0[..19] == [0xff; 19] {
                system = true;
                if to.0[19] > 3 {
                    return vec!["reserved address"];
                }
            }
        }
        if system {
            let n = self.number + 1;
            let list = if n <= 10 { Some(0) } else if n <= 20 { Some(1) } else { None };
            if !list.map_or(false, |i| self.epochs[i as usize].contains(&t.stx.sender)) {
                v.push("not a validator");
            }
        } else {
            let (nonce, balance) = self.account(&t.stx.sender);
            if U256::from(u.nonce().as_u64()) < nonce {
                v.push("nonce");
            }
            let gas = U256::from(price_of(u)) * U256::from(u.gas_limit().as_u64());
            if gas.checked_add(*u.value()).map_or(true, |c| c > balance) && !(balance == U256::MAX) {
                v.push("balance");
            }
        }
        if t.stx.transaction.chain_id.map_or(false, |c| c != CHAIN) {
            v.push("chain");
        }
        if t.stx.transaction.unsigned.encode(t.stx.transaction.chain_id, t.stx.transaction.signature.clone()).len() > self.max_size {
            v.push("size");
        }
        let p = price_of(u);
        if p == 0 || p >= 500 * GWEI {
            v.push("price");
        }
        let gas = u.gas_limit().as_u64();
        if gas < 21_000 {
            v.push("little gas");
        }
        if gas > 30_000_000 {
            v.push("much gas");
        }
        if let Some(s) = t.sig {
            v.push(s);
        }
        if self.stored.contains_key(&t.stx.transaction.hash) {
            v.push("committed");
        }
        v
    }

    fn interop(&mut self, g: &mut Gen, unsigned: UnsignedTransaction, chain: Option<u64>, pk: &[u8]) -> Tx {
        let mut sig = None;
        let mut cell = self.cell;
        let mut s = pk.to_vec();
        s.push(9);
        match g.below(8) {
            0 => {
                s[0] ^= 1 << g.below(8);
                sig = Some("program says no");
            }
            1 => {
                cell.1 ^= 1;
                sig = Some("no such program");
            }
            2 => {
                cell.0 .0[g.below(32) as usize] ^= 1;
                sig = Some("no such program");
            }
            _ => {}
        }
        let mut r = vec![0u8];
        r.extend(rlp::encode(&CellDepWithPubKey { cell_dep: CellDep { tx_hash: cell.0, index: cell.1, dep_type: g.byte() & 1 }, pub_key: pk.to_vec().into() }));
        let u = UnverifiedTransaction { unsigned, chain_id: chain, signature: Some(SignatureComponents { r: r.into(), s: s.into(), standard_v: g.byte() & 1 }), hash: H256::zero() };
        let stx = SignedTransaction::from_unverified(u.calc_hash()).unwrap();
        Tx { stx, sig }
    }

    /// A transaction that is in order but for at most `bad` things.
    fn make(&mut self, g: &mut Gen, network: bool) -> Tx {
        self.serial += 1;
        let users: Vec<H160> = self.keys.keys().cloned().collect();
        let other = g.below(6) == 0;
        let pk = vec![7u8 + g.below(2) as u8; 33];
        let sender = if other { H160::from_slice(&refs::keccak(&pk)[12..]) } else { *g.pick(&users) };
        let (nonce, balance) = self.account(&sender);
        let nonce = nonce.low_u64();
        let bad: Vec<u64> = if g.below(3) == 0 { (0..g.usize(1, 2)).map(|_| g.below(10)).collect() } else { vec![] };
        let is = |k: u64| bad.contains(&k);
        let back = g.below(5);
        let nonce = if is(0) { *g.pick(&[nonce.wrapping_sub(1), 0, nonce.saturating_sub(back)]) } else { nonce.saturating_add(if g.bool() { 0 } else { g.below(30) }) };
        let mut price = if is(1) { *g.pick(&[0u64, 500 * GWEI, 500 * GWEI + 1, u64::MAX, 1 << 63]) } else { *g.pick(&[1u64, 2, GWEI, 100 * GWEI, 500 * GWEI - 1]) };
        let limit = if is(2) { *g.pick(&[0u64, 20_999, 30_000_001, u64::MAX, u32::MAX as u64, 1 << 63]) } else { *g.pick(&[21_000u64, 21_001, 100_000, 30_000_000]) };
        let left = balance.checked_sub(U256::from(price) * U256::from(limit));
        if left.is_none() && !is(1) {
            price = 1;
        }
        let left = balance.checked_sub(U256::from(price) * U256::from(limit)).unwrap_or_default();
        let value = if is(3) { *g.pick(&[left.saturating_add(U256::one()), U256::MAX, U256::MAX - left, U256::from(u64::MAX) << 64]) } else { *g.pick(&[U256::zero(), left, left / 2, U256::zero()]) };
        let mut data = self.serial.to_be_bytes().to_vec();
        let pad = g.below(40) as usize;
        data.resize(8 + pad, 1);
        let action = match g.below(12) {
            0 => TransactionAction::Create,
            1 | 2 => TransactionAction::Call(sys(*g.pick(&[0u8, 1, 2, 3]))),
            _ if is(4) => TransactionAction::Call(sys(*g.pick(&[4u8, 5, 127, 255]))),
            3 => {
                // nearly a system address
                let mut a = sys(g.below(4) as u8);
                a.0[g.below(19) as usize] ^= 1;
                TransactionAction::Call(a)
            }
            _ => TransactionAction::Call(H160([g.byte() & 3; 20])),
        };
        let (nonce, gas_limit) = (U64::from(nonce), U64::from(limit));
        let kind = g.below(3);
        let build = |price: u64, data: Vec<u8>, g: &mut Gen| -> UnsignedTransaction {
            let (action, data, gas_price) = (action.clone(), Bytes::from(data), U64::from(price));
            match kind {
                0 => UnsignedTransaction::Legacy(LegacyTransaction { nonce, gas_price, gas_limit, action, value, data }),
                1 => UnsignedTransaction::Eip2930(Eip2930Transaction { nonce, gas_price, gas_limit, action, value, data, access_list: vec![] }),
                _ => {
                    let less = U64::from(*g.pick(&[0u64, 1, price / 2, price]));
                    let (a, b) = if g.bool() { (gas_price, less.min(gas_price)) } else { (less.min(gas_price), gas_price) };
                    UnsignedTransaction::Eip1559(Eip1559Transaction { nonce, max_priority_fee_per_gas: a, gas_price: b, gas_limit, action, value, data, access_list: vec![] })
                }
            }
        };
        let chain = if is(5) { Some(*g.pick(&[0u64, 1, CHAIN - 1, CHAIN + 1, CHAIN + (1 << 32)])) } else if kind == 0 && g.below(4) == 0 { None } else { Some(CHAIN) };
        let mut unsigned = build(price, data.clone(), g);
        // near the limit of the size
        let want = if is(6) { Some(self.max_size + 1) } else if g.below(6) == 0 { Some(self.max_size) } else { None };
        if let Some(want) = want {
            let sig = SignatureComponents { r: vec![0x80; 32].into(), s: vec![0x80; 32].into(), standard_v: 0 };
            for _ in 0..4 {
                let now = unsigned.encode(chain, Some(sig.clone())).len();
                let n = (data.len() + want).saturating_sub(now).max(8);
                data.resize(n, 1);
                match &mut unsigned {
                    UnsignedTransaction::Legacy(t) => t.data = data.clone().into(),
                    UnsignedTransaction::Eip2930(t) => t.data = data.clone().into(),
                    UnsignedTransaction::Eip1559(t) => t.data = data.clone().into(),
                }
            }
        }
        if other {
            return self.interop(g, unsigned, chain, &pk);
        }
        let k = self.keys[&sender];
        let mut t = Tx { stx: sign(unsigned, chain, &k), sig: None };
        if is(7) && !network {
            // as no other node and no user can send it
            match g.below(4) {
                0 => {
                    t.stx.transaction.signature = None;
                    t.sig = Some("no signature");
                }
                1 => {
                    t.stx.public = None;
                    t.sig = Some("no public key");
                }
                2 => {
                    let o = [0x55u8; 32];
                    t.stx.public = sign(t.stx.transaction.unsigned.clone(), chain, &o).public;
                    t.sig = Some("public key of another");
                }
                _ => {
                    let s = t.stx.transaction.signature.as_mut().unwrap();
                    let p = if g.bool() { &mut s.r } else { &mut s.s };
                    let mut b = p.to_vec();
                    let i = g.below(b.len() as u64) as usize;
                    b[i] ^= 1 << g.below(8);
                    *p = b.into();
                    t.sig = Some("broken signature");
                }
            }
            t.stx.transaction.hash = H256(refs::keccak(&t.stx.transaction.unsigned.encode(chain, t.stx.transaction.signature.clone())));
        }
        t
    }

    /// A block with these transactions; the accounts are what the given changes make of them.
    fn block(&mut self, g: &mut Gen, txs: Vec<SignedTransaction>) -> Res {
        self.number += *g.pick(&[1u64, 1, 1, 2]);
        let mut a = self.w.adapter()?;
        for (addr, acc) in self.w.state.clone() {
            if addr.0[0] == 0xff || g.below(3) != 0 {
                continue;
            }
            let mut x = a.get_account(&addr);
            match g.below(4) {
                0 => x.nonce = x.nonce + *g.pick(&[1u64, 3]),
                1 => x.balance = x.balance / 2,
                2 => x.balance = x.balance.saturating_add(U256::from(g.u64())),
                _ => {
                    x.nonce = x.nonce + 1;
                    x.balance = U256::from(30_000_000u64) * GWEI * g.below(200);
                }
            }
            // nonces are 64 bits
            x.nonce = x.nonce.low_u64().into();
            a.save_account(&addr, &x);
            let s = self.w.state.get_mut(&addr).unwrap();
            let _ = acc;
            (s.nonce, s.balance) = (x.nonce, x.balance);
        }
        self.w.root = a.commit();
        for t in &txs {
            self.stored.insert(t.transaction.hash, t.clone());
        }
        futures::executor::block_on(self.w.storage.insert_transactions(Context::new(), self.number, txs)).map_err(e)?;
        self.head(g)
    }

    fn head(&mut self, g: &mut Gen) -> Res {
        let mut h = gens::header(g);
        h.number = self.number;
        h.state_root = self.w.root;
        futures::executor::block_on(self.w.storage.insert_block(Context::new(), Block { header: h, tx_hashes: vec![] })).map_err(e)
    }

    fn accepted(&mut self, origin: Option<usize>, h: Hash) {
        self.waiting.push((origin, h));
        if self.waiting.len() == self.batch {
            self.sent.append(&mut self.waiting);
        }
    }
}

async fn settle() {
    for _ in 0..8 {
        tokio::task::yield_now().await;
    }
}

/// A world with accounts, a program in an image cell, and the block before the first.
fn sim(g: &mut Gen) -> Result<Sim, Stop> {
    let users: Vec<[u8; 32]> = (1..=4u8).map(|i| [i; 32]).collect();
    let addrs: Vec<H160> = users.iter().map(address).collect();
    let list = |g: &mut Gen| -> Vec<H160> {
        let mut v = vec![H160([0xa0; 20])];
        for a in &addrs {
            if g.bool() {
                v.push(*a);
            }
        }
        v
    };
    let epochs = [list(g), list(g)];
    let of = |v: &Vec<H160>| v.iter().map(|a| validator(*a, 1)).collect::<Vec<_>>();
    let md = [metadata(0, 1, 10, of(&epochs[0]), 0x6000), metadata(1, 11, 20, of(&epochs[1]), 0x6000)];
    let mut w = World::new(g, true, &md)?;
    let cell = (gens::h256(g), g.u32());
    let elf = crate::vm::comparer().elf(0x10000);
    let script = Token::Tuple(vec![Token::FixedBytes(vec![1; 32]), Token::Uint(0.into()), Token::Bytes(vec![])]);
    let point = Token::Tuple(vec![Token::FixedBytes(cell.0 .0.to_vec()), Token::Uint(cell.1.into())]);
    let c = Token::Tuple(vec![point, Token::Tuple(vec![Token::Uint(1.into()), script, Token::Array(vec![])]), Token::Bytes(elf)]);
    let block = Token::Tuple(vec![Token::Uint(1.into()), Token::Array(vec![]), Token::Array(vec![c])]);
    let s = "(bytes32,uint8,bytes)";
    let sig = format!("update((uint64,(bytes32,uint32)[],((bytes32,uint32),(uint64,{s},{s}[]),bytes)[])[])");
    w.env.ctx.block_number = 1u64.into();
    w.env.ctx.extra_data = vec![];
    {
        let _rt = runtime().enter();
        let mut a = w.adapter()?;
        let tx = call(sys(3), w.users[0], U256::zero(), data_of(&sig, &[Token::Array(vec![block])]), 100_000);
        let r = AxonExecutor.exec(&mut a, &[tx], &of(&epochs[0]));
        check!(r.tx_resp[0].exit_reason.is_succeed(), "image", "a cell is refused: {:?}", r.tx_resp[0]);
        // the accounts the tests use
        let mut a = crate::exec::Adapter::from_root(r.state_root, Arc::clone(&w.trie), Arc::clone(&w.storage), w.env.ctx.clone()).map_err(e)?;
        let more: Vec<H160> = [7u8, 8].iter().map(|b| H160::from_slice(&refs::keccak(&[*b; 33])[12..])).collect();
        for addr in addrs.iter().chain(&more) {
            let mut x = a.get_account(addr);
            x.nonce = (*g.pick(&[0u64, 0, 1, 5, 1 << 32, u64::MAX - 1000])).into();
            x.balance = match g.below(5) {
                0 => U256::zero(),
                1 => U256::from(21_000),
                2 => U256::from(30_000_000u64) * (500 * GWEI - 1),
                3 => U256::MAX - 1,
                _ => U256::from(30_000_000u64) * GWEI * 1000,
            };
            a.save_account(addr, &x);
            let s = w.state.entry(*addr).or_default();
            (s.nonce, s.balance) = (x.nonce, x.balance);
        }
        w.root = a.commit();
        w.sync_system(&a);
    }
    let mut m = Sim {
        w,
        number: *g.pick(&[0u64, 1, 7, 8, 9, 10, 18, 19, 20, 21]),
        epochs,
        max_size: *g.pick(&[400usize, 1000, 20_000]),
        cell,
        keys: addrs.into_iter().zip(users).collect(),
        serial: 0,
        stored: BTreeMap::new(),
        all: vec![],
        waiting: vec![],
        sent: vec![],
        batch: g.usize(1, 6),
    };
    m.head(g)?;
    Ok(m)
}

fn histories(g: &mut Gen, steps: usize) -> Res {
    let mut m = sim(g)?;
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let net = Net::default();
    let pool = {
        let _in = rt.enter();
        let ad: Ad = DefaultMemPoolAdapter::new(net.clone(), Arc::clone(&m.w.storage), Arc::clone(&m.w.trie), CHAIN, m.max_size, m.batch, 200);
        Arc::new(rt.block_on(MemPoolImpl::new(10_000, 50, ad, vec![])))
    };
    let r = rt.block_on(run(g, &mut m, &net, &pool, steps));
    // the broadcaster goes before the pool
    drop(rt);
    drop(pool);
    r
}

async fn run(g: &mut Gen, m: &mut Sim, net: &Net, pool: &Arc<MemPoolImpl<Ad>>, steps: usize) -> Res {
    settle().await;
    for _ in 0..g.usize(3, steps) {
        match g.below(20) {
            0..=9 => {
                let again = !m.all.is_empty() && g.below(8) == 0;
                let t = if again { g.pick(&m.all).clone() } else { m.make(g, false) };
                let h = t.stx.transaction.hash;
                let there = pool.contains(Context::new(), &h).await;
                let flaws = m.flaws(&t);
                let r = pool.insert(Context::new(), t.stx.clone()).await;
                let now = pool.contains(Context::new(), &h).await;
                if there && flaws != ["reserved address"] {
                    check!(r.is_ok() && now, "again", "a transaction that is in the pool: {:?}", r);
                    g.label("already in the pool");
                } else if flaws.is_empty() {
                    check!(r.is_ok() && now, "refused", "{:?} of an account with {:?} after block {}: {:?}", t.stx, m.account(&t.stx.sender), m.number, r);
                    m.accepted(None, h);
                    g.label("accepted");
                } else {
                    check!(r.is_err() && !now, "let-in", "{:?} of an account with {:?} after block {}, although: {:?}; in the pool: {}", t.stx, m.account(&t.stx.sender), m.number, flaws, now);
                    g.label_if(flaws.len() == 1, flaws[0]);
                    g.hit();
                }
                check!(net.0.lock().unwrap().reports.is_empty(), "report", "another node is held responsible for a user's transaction");
                m.all.push(t);
            }
            10..=12 => {
                // from another node
                let n = g.usize(1, 4);
                let txs: Vec<Tx> = (0..n).map(|_| if !m.all.is_empty() && g.below(6) == 0 { g.pick(&m.all).clone() } else { m.make(g, true) }).filter(|t| t.stx.public.is_some() && t.stx.transaction.signature.is_some() && t.sig.map_or(true, |s| s.contains("program"))).collect();
                if txs.is_empty() {
                    continue;
                }
                let session = g.below(5) as usize;
                let ctx = Context::new().set_session_id(tentacle_session(session));
                let mut before = BTreeSet::new();
                for t in &txs {
                    if pool.contains(Context::new(), &t.stx.transaction.hash).await {
                        before.insert(t.stx.transaction.hash);
                    }
                }
                let mut msg = BatchSignedTxs::new(txs.iter().map(|t| t.stx.clone()).collect());
                let msg = BatchSignedTxs::decode_msg(msg.encode_msg().map_err(e)?).map_err(e)?;
                NewTxsHandler::new(Arc::clone(pool)).process(ctx, msg).await;
                let mut want = (0, 0, 0);
                let mut sure = true;
                let mut once = BTreeSet::new();
                for t in &txs {
                    let h = t.stx.transaction.hash;
                    let now = pool.contains(Context::new(), &h).await;
                    if before.contains(&h) {
                        check!(now, "again", "a transaction that was in the pool");
                        continue;
                    }
                    if !once.insert(h) {
                        sure = false;
                        continue;
                    }
                    let flaws = m.flaws(t);
                    check_eq!(now, flaws.is_empty(), if now { "let-in" } else { "refused" }, "from another node: {:?} of an account with {:?} after block {}, wrong: {:?}", t.stx, m.account(&t.stx.sender), m.number, flaws);
                    if now {
                        m.accepted(Some(session), h);
                        want.0 += 1;
                        g.label("accepted from another node");
                    } else {
                        g.hit();
                        match flaws[..] {
                            ["chain"] => want.2 += 1,
                            ["size"] | ["little gas"] | ["much gas"] => want.1 += 1,
                            [_] => {}
                            _ => sure = false,
                        }
                    }
                }
                let got = std::mem::take(&mut net.0.lock().unwrap().reports);
                let count = |f: fn(&TrustFeedback) -> bool| got.iter().filter(|x| f(x)).count();
                if sure {
                    check_eq!(
                        (count(|x| matches!(x, TrustFeedback::Good)), count(|x| matches!(x, TrustFeedback::Bad(_))), count(|x| matches!(x, TrustFeedback::Worse(_)))),
                        want,
                        "report",
                        "what is said about the other node, good, bad and worse: {:?}",
                        got
                    );
                }
                for t in txs {
                    m.all.push(t);
                }
            }
            13 | 14 => {
                // a proposal with transactions to be pulled
                let mut txs: Vec<Tx> = vec![];
                for _ in 0..g.usize(1, 4) {
                    let t = if !m.all.is_empty() && g.below(4) == 0 { g.pick(&m.all).clone() } else { m.make(g, true) };
                    if t.stx.public.is_some() && t.stx.transaction.signature.is_some() && t.sig.map_or(true, |s| s.contains("program")) && txs.iter().all(|o| o.stx != t.stx) {
                        txs.push(t);
                    }
                }
                let mut missing = vec![];
                for t in &txs {
                    if !pool.contains(Context::new(), &t.stx.transaction.hash).await {
                        missing.push(t.clone());
                    }
                }
                let hs: Vec<Hash> = txs.iter().map(|t| t.stx.transaction.hash).collect();
                {
                    let mut w = net.0.lock().unwrap();
                    w.asked.clear();
                    w.answer = missing.iter().map(|t| t.stx.clone()).collect();
                }
                let r = pool.ensure_order_txs(Context::new(), Some(m.number + 1), &hs).await;
                let asked = std::mem::take(&mut net.0.lock().unwrap().asked);
                let want: Vec<Vec<Hash>> = if missing.is_empty() { vec![] } else { vec![missing.iter().map(|t| t.stx.transaction.hash).collect()] };
                check_eq!(asked, want, "asked", "transactions pulled");
                let bad: Vec<_> = missing.iter().map(|t| m.flaws(t)).filter(|f| !f.is_empty()).collect();
                check_eq!(r.is_ok(), bad.is_empty(), if bad.is_empty() { "refused" } else { "let-in" }, "a proposal with {:?} after block {}, wrong: {:?}: {:?}", missing, m.number, bad, r);
                for t in &missing {
                    check_eq!(pool.contains(Context::new(), &t.stx.transaction.hash).await, bad.is_empty(), "ensured", "pool after a proposal");
                }
                g.label_if(!missing.is_empty() && bad.is_empty(), "proposal accepted");
                g.label_if(!bad.is_empty(), "proposal refused");
                net.0.lock().unwrap().reports.clear();
                m.all.extend(missing);
            }
            15 | 16 => {
                // a block
                let mut txs: Vec<SignedTransaction> = vec![];
                for t in &m.all {
                    if g.below(4) == 0 && t.stx.transaction.unsigned.nonce().as_u64() < u64::MAX - 100 && t.stx.public.is_some() && t.stx.transaction.signature.is_some() && !txs.contains(&t.stx) && t.sig.is_none() && !m.stored.contains_key(&t.stx.transaction.hash) {
                        txs.push(t.stx.clone());
                    }
                }
                let hs: Vec<Hash> = txs.iter().map(|t| t.transaction.hash).collect();
                m.block(g, txs)?;
                pool.flush(Context::new(), &hs, m.number).await.map_err(e)?;
                g.label("block");
            }
            17 => {
                m.max_size = *g.pick(&[400usize, 1000, 20_000]);
                pool.set_args(Context::new(), m.w.root, 30_000_000, m.max_size as u64);
            }
            18 => {
                // another node asks
                let mut hs: Vec<Hash> = vec![];
                let mut want = Some(vec![]);
                for _ in 0..g.usize(0, 4) {
                    let t = if m.all.is_empty() || g.below(10) == 0 { m.make(g, true) } else { g.pick(&m.all).clone() };
                    let h = t.stx.transaction.hash;
                    if hs.contains(&h) {
                        continue;
                    }
                    hs.push(h);
                    let there = pool.contains(Context::new(), &h).await || m.stored.contains_key(&h);
                    want = match want {
                        Some(mut v) if there => {
                            v.push(t.stx);
                            Some(v)
                        }
                        _ => None,
                    };
                }
                let ctx = Context::new().set_session_id(tentacle_session(1));
                PullTxsHandler::new(Arc::new(net.clone()), Arc::clone(pool)).process(ctx, MsgPullTxs { height: None, hashes: hs }).await;
                let got = std::mem::take(&mut net.0.lock().unwrap().replies);
                g.label_if(want.as_ref().map_or(false, |w| !w.is_empty()), "another node served");
                check_eq!(got, vec![want], "reply", "answer to another node that asks for transactions");
            }
            _ => {
                tokio::time::sleep(std::time::Duration::from_millis(401)).await;
                m.sent.append(&mut m.waiting);
            }
        }
        settle().await;
        told(m, net)?;
    }
    tokio::time::sleep(std::time::Duration::from_millis(401)).await;
    m.sent.append(&mut m.waiting);
    told(m, net)
}

/// Every accepted transaction is told to the others once, never back to where it came from.
fn told(m: &mut Sim, net: &Net) -> Res {
    let got = std::mem::take(&mut net.0.lock().unwrap().gossip);
    let mut want = std::mem::take(&mut m.sent);
    for (origin, hs) in &got {
        check!(!hs.is_empty(), "told", "an empty batch");
        for h in hs {
            match want.iter().position(|x| x == &(*origin, *h)) {
                Some(i) => {
                    want.remove(i);
                }
                None => return Err(fail("told", format!("{} from {:?} is told to the others, but is not to be", short(h), origin))),
            }
        }
    }
    check!(want.is_empty(), "told", "not told to the others: {:?}", want.iter().map(|(o, h)| (o, short(h))).collect::<Vec<_>>());
    Ok(())
}

fn tentacle_session(n: usize) -> core_network::SessionId {
    core_network::SessionId::new(n)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id:     "P26",
        rule:   "histories in which a transaction is refused",
        assume: vec!["the network is a stand-in that records what it is given"],
        facets: vec![Facet::new("histories", 1000, |g| histories(g, 60))],
    }]
}
