//! P39, P42, P43, P44: what the JSON-RPC service answers.
//!
//! The service is started by `run_jsonrpc_server` over the real adapter, storage, tries and executor;
//! the pool and the network are stand-ins, requests and answers are JSON. What it must answer comes
//! from the model of `exec` and from the blocks as they were committed.
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::task::{Context as Cx, Poll};
use std::time::Duration;

use ckb_types::{packed, prelude::*};
use common_config_parser::types::Config as NodeConfig;
use core_api::jsonrpc::run_jsonrpc_server;
use core_api::DefaultAPIAdapter;
use core_executor::AxonExecutor;
use core_consensus::{SyncStatus, SYNC_STATUS};
use jsonrpsee::server::{Connection, Methods};
use jsonrpsee::standin;
use pbt::{check, check_eq, fail, Facet, Gen, Prop, Res, Stop};
use protocol::codec::ProtocolCodec;
use protocol::constants::{BASE_FEE_PER_GAS, MAX_BLOCK_GAS_LIMIT, MAX_GAS_LIMIT, MAX_GAS_PRICE};
use protocol::lazy::CHAIN_ID;
use protocol::tokio::sync::mpsc;
use protocol::traits::*;
use protocol::types::*;
use protocol::{async_trait, ProtocolError, ProtocolErrorKind, ProtocolResult};
use refs::rlp;
use serde_json::{json, Value};

use crate::exec::{self, bloom, e, metadata, state_root, storage_root, step, validator, Env, State, World};
use crate::gens;
use crate::sys;
use crate::util::*;

const CHAIN: u64 = 2022;

// ---------------------------------------------------------------- stand-ins

#[derive(Default)]
struct PoolState {
    txs:      Vec<SignedTransaction>,
    inserted: Vec<SignedTransaction>,
    refuse:   Option<String>,
    counts:   HashMap<H160, (usize, Option<u64>)>,
}

#[derive(Default)]
struct Pool(Mutex<PoolState>);

#[async_trait]
impl MemPool for Pool {
    async fn insert(&self, _: Context, tx: SignedTransaction) -> ProtocolResult<()> {
        let mut p = self.0.lock().unwrap();
        if let Some(m) = &p.refuse {
            return Err(ProtocolError::new(ProtocolErrorKind::Mempool, Box::new(std::io::Error::new(std::io::ErrorKind::Other, m.clone()))));
        }
        p.inserted.push(tx);
        Ok(())
    }

    async fn contains(&self, _: Context, h: &Hash) -> bool {
        self.0.lock().unwrap().txs.iter().any(|t| t.transaction.hash == *h)
    }

    async fn package(&self, _: Context, _: U256, _: u64) -> ProtocolResult<PackedTxHashes> {
        panic!("package")
    }

    async fn flush(&self, _: Context, _: &[Hash], _: BlockNumber) -> ProtocolResult<()> {
        panic!("flush")
    }

    async fn get_full_txs(&self, _: Context, _: Option<u64>, _: &[Hash]) -> ProtocolResult<Vec<SignedTransaction>> {
        panic!("get_full_txs")
    }

    async fn ensure_order_txs(&self, _: Context, _: Option<u64>, _: &[Hash]) -> ProtocolResult<()> {
        panic!("ensure_order_txs")
    }

    async fn get_tx_count_by_address(&self, _: Context, a: H160) -> ProtocolResult<(usize, Option<BlockNumber>)> {
        Ok(self.0.lock().unwrap().counts.get(&a).cloned().unwrap_or((0, None)))
    }

    fn get_tx_from_mem(&self, _: Context, h: &Hash) -> Option<SignedTransaction> {
        self.0.lock().unwrap().txs.iter().find(|t| t.transaction.hash == *h).cloned()
    }

    fn set_args(&self, _: Context, _: MerkleRoot, _: u64, _: u64) {
        panic!("set_args")
    }
}

struct Net(usize);

impl Network for Net {
    fn tag(&self, _: Context, _: Bytes, _: PeerTag) -> ProtocolResult<()> {
        panic!("tag")
    }

    fn untag(&self, _: Context, _: Bytes, _: &PeerTag) -> ProtocolResult<()> {
        panic!("untag")
    }

    fn tag_consensus(&self, _: Context, _: Vec<Bytes>) -> ProtocolResult<()> {
        panic!("tag_consensus")
    }

    fn peer_count(&self, _: Context) -> ProtocolResult<usize> {
        Ok(self.0)
    }
}

// ---------------------------------------------------------------- a node with its service

/// A committed block and the state after it.
#[derive(Clone)]
struct Snap {
    block:    Block,
    proposal: Proposal,
    txs:      Vec<SignedTransaction>,
    resp:     Vec<TxResp>,
    state:    State,
    /// hashes of the blocks before
    env:      Env,
    hardfork: Option<HardforkInfoInner>,
}

struct Node {
    w:       World,
    vs:      Vec<ValidatorExtend>,
    md:      Vec<Metadata>,
    flags:   H256,
    snaps:   Vec<Snap>,
    http:    Methods,
    ws:      Methods,
    conn:    Connection,
    out:     mpsc::Receiver<String>,
    rt:      tokio::runtime::Runtime,
    pool:    Arc<Pool>,
    peers:   usize,
    version: String,
    cap:     u64,
    range:   u64,
    /// blocks may carry extra data
    extra:   bool,
}

type Said = Result<Value, (i32, String, Option<Value>)>;

fn drive<F: Future + ?Sized>(rt: &tokio::runtime::Runtime, mut fut: std::pin::Pin<Box<F>>) -> Result<F::Output, Stop> {
    let waker = futures::task::noop_waker();
    let mut cx = Cx::from_waker(&waker);
    for _ in 0..10_000 {
        let p = {
            let _e = rt.enter();
            pbt::no_panic(|| fut.as_mut().poll(&mut cx)).map_err(|p| fail("panic", p))?
        };
        match p {
            Poll::Ready(v) => return Ok(v),
            Poll::Pending => rt.block_on(async { tokio::time::sleep(Duration::from_millis(1)).await }),
        }
    }
    Err(fail("hangs", "a request was not answered within ten seconds"))
}

impl Node {
    fn new(g: &mut Gen, andromeda: bool) -> Result<Node, Stop> {
        CHAIN_ID.swap(Arc::new(CHAIN));
        let n = g.usize(1, 3);
        let vs: Vec<_> = (0..n).map(|i| validator(H160([0xa0 + i as u8; 20]), 1 + g.below(3) as u32)).collect();
        let end = 1 + g.below(4);
        let mut md = vec![metadata(0, 0, end, vs.clone(), 0x6000), metadata(1, end + 1, 1 << 40, vs.clone(), 0x6000)];
        md[1].verifier_list.reverse();
        let mut w = World::new(g, andromeda, &md)?;
        w.signed = Some((CHAIN, 0));
        // a contract that reverts with what it is given, one that logs it under given topics, one that
        // stores a value in a slot
        for (a, code) in [(0xd0u8, &[0x36u8, 0x60, 0, 0x60, 0, 0x37, 0x36, 0x60, 0, 0xfd][..]), (0xd1, &[0x36, 0x60, 0, 0x60, 0, 0x37, 0x60, 0x20, 0x35, 0x60, 0, 0x35, 0x36, 0x60, 0, 0xa2, 0x60, 0x20, 0x35, 0x36, 0x60, 0, 0xa1, 0x00][..]), (0xd2, &[0x60, 0x20, 0x35, 0x60, 0, 0x35, 0x55, 0x00][..])] {
            w.deploy(H160([a; 20]), code)?;
        }
        let flags = if andromeda { H256::from_low_u64_be(1u64.to_be()) } else { H256::zero() };
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        let pool = Arc::new(Pool::default());
        let peers = g.usize(0, 5);
        let cap = *g.pick(&[21_000u64, 50_000, 1_000_000, 50_000_000]);
        let range = *g.pick(&[0u64, 1, 2, 5, 1000]);
        let version = g.ascii(10);
        // the first block
        let mut proposal = Proposal { gas_limit: g.u64().into(), ..Default::default() };
        proposal.chain_id = CHAIN;
        proposal.base_fee_per_gas = BASE_FEE_PER_GAS.into();
        let block = Block::new(proposal.clone(), ExecResp { state_root: w.root, receipt_root: RLP_NULL, gas_used: 0, tx_resp: vec![] });
        check_eq!(w.root, state_root(&w.state), "state-root", "root of the first state");
        w.store(&block, vec![], vec![])?;
        let snap = Snap { block, proposal, txs: vec![], resp: vec![], state: w.state.clone(), env: w.env.clone(), hardfork: None };

        let toml = format!(
            r#"
            net_privkey_file = "net.key"
            bls_privkey_file = "bls.key"
            data_path = "./nowhere"
            [rpc]
            http_listening_address = "127.0.0.1:8000"
            ws_listening_address = "127.0.0.1:8010"
            maxconn = 25000
            max_payload_size = 10485760
            [web3]
            max_gas_cap = {cap}
            log_filter_max_block_range = {range}
            [network]
            listening_address = "/ip4/0.0.0.0/tcp/8001"
            rpc_timeout = 10
            [synchronization]
            sync_txs_chunk_size = 5000
            [mempool]
            timeout_gap = 20
            pool_size = 20000
            broadcast_txs_size = 200
            broadcast_txs_interval = 200
            [executor]
            triedb_cache_size = 200
            "#
        );
        let config: NodeConfig = common_config_parser::parse_reader(&mut toml.as_bytes()).map_err(|x| fail("config", x.to_string()))?;
        let adapter = Arc::new(DefaultAPIAdapter::new(Arc::clone(&pool), Arc::clone(&w.storage), Arc::clone(&w.trie), Arc::new(Net(peers))));
        let _ = standin::started();
        let handles = rt.block_on(run_jsonrpc_server(version.clone(), config, adapter)).map_err(e)?;
        check!(handles.0.is_some() && handles.1.is_some(), "not-started", "both services are asked for");
        let mut http = None;
        let mut ws = None;
        for s in standin::started() {
            if s.http && !s.ws {
                check_eq!(s.addr.port(), 8000u16, "port", "http port");
                http = Some(s);
            } else {
                check_eq!(s.addr.port(), 8010u16, "port", "web socket port");
                ws = Some(s);
            }
        }
        let (http, ws) = (http.unwrap(), ws.unwrap());
        let (tx, out) = mpsc::channel(10_000);
        let conn = Connection { out: tx, ids: ws.ids, subs: Default::default() };
        Ok(Node { w, vs, md, flags, snaps: vec![snap], http: http.methods, ws: ws.methods, conn, out, rt, pool, peers, version, cap, range, extra: false })
    }

    fn latest(&self) -> usize {
        self.snaps.len() - 1
    }

    /// Executes and stores one more block.
    fn commit(&mut self, g: &mut Gen) -> Res {
        let prev = self.snaps.last().unwrap().block.clone();
        let number = prev.header.number + 1;
        let mut p = gens::proposal(g);
        p.prev_hash = prev.hash();
        p.prev_state_root = prev.header.state_root;
        p.number = number;
        p.timestamp = prev.header.timestamp.saturating_add(1 + g.below(5000));
        p.proposer = *g.pick(&self.w.pool);
        p.chain_id = CHAIN;
        p.base_fee_per_gas = BASE_FEE_PER_GAS.into();
        p.proof.number = number - 1;
        p.proof.block_hash = prev.hash();
        p.extra_data = vec![];
        let mut hardfork = None;
        if self.extra && g.below(3) == 0 {
            let flags = if g.below(4) == 0 { H256::from_low_u64_be(3u64.to_be()) } else { H256::from_low_u64_be(1u64.to_be()) };
            let h = HardforkInfoInner { block_number: number + 1000 + g.below(5), flags };
            p.extra_data.push(ExtraData { inner: h.encode().unwrap() });
            if g.bool() {
                p.extra_data.push(ExtraData { inner: g.bytes(40).into() });
            }
            hardfork = Some(h);
        }
        self.w.env.ctx = p.clone().into();
        let vs = self.vs.clone();
        let env = self.w.env.clone();
        let (txs, resp) = step(g, &mut self.w, &vs, false)?;
        p.tx_hashes = txs.iter().map(|t| t.transaction.hash).collect();
        let block = Block::new(p.clone(), resp.clone());
        let (receipts, _) = block.generate_receipts_and_logs(&txs, &resp);
        self.w.store(&block, txs.clone(), receipts)?;
        self.snaps.push(Snap { block, proposal: p, txs, resp: resp.tx_resp, state: self.w.state.clone(), env, hardfork });
        Ok(())
    }

    fn ask_on(&mut self, ws: bool, method: &str, params: Value) -> Result<Said, Stop> {
        let text = params.to_string();
        let fut = if ws { self.ws.call(method, Some(&text), Some(self.conn.clone())) } else { self.http.call(method, Some(&text), None) };
        match drive(&self.rt, fut) {
            Ok(Ok(s)) => Ok(Ok(serde_json::from_str(&s).map_err(|x| fail("not-json", format!("{}: {} of {}", method, x, s)))?)),
            Ok(Err(x)) => Ok(Err((x.code(), x.message().to_string(), x.data().and_then(|d| serde_json::from_str(d.get()).ok())))),
            Err(Stop::Fail { sig, msg }) => Err(fail(&sig, format!("{} {}: {}", method, text, msg))),
            Err(s) => Err(s),
        }
    }

    fn ask(&mut self, g: &mut Gen, method: &str, params: Value) -> Result<Said, Stop> {
        let ws = g.below(4) == 0;
        let r = self.ask_on(ws, method, params.clone())?;
        g.note(|| format!("{} {} -> {:?}", method, params, r));
        Ok(r)
    }

    fn get(&mut self, g: &mut Gen, method: &str, params: Value) -> Result<Value, Stop> {
        self.ask(g, method, params.clone())?.map_err(|x| fail("refused", format!("{} {} is refused: {:?}", method, params, x)))
    }

    fn wait(&self, ms: u64) {
        self.rt.block_on(async { tokio::time::sleep(Duration::from_millis(ms)).await })
    }

    /// A block and one of the ways to name it.
    fn block_id(&self, g: &mut Gen) -> (usize, Value) {
        let n = g.usize(0, self.latest());
        let h = self.snaps[n].block.hash();
        match g.below(9) {
            0 => (self.latest(), json!("latest")),
            1 => (self.latest(), json!("pending")),
            2 => (0, json!("earliest")),
            3 | 4 | 5 => (n, json!(format!("{:#x}", n))),
            6 => (n, json!({ "blockNumber": format!("{:#x}", n) })),
            _ => (n, json!({ "blockHash": hash(&h) })),
        }
    }
}

impl World {
    /// Puts an account with this code into the state.
    pub fn deploy(&mut self, a: H160, code: &[u8]) -> Res {
        let h = H256(refs::keccak(code));
        block_on(self.storage.insert_code(Context::new(), a.into(), h, code.to_vec().into())).map_err(e)?;
        let _rt = exec::runtime().enter();
        let mut ad = self.adapter()?;
        let acc = exec::Acc { nonce: U256::one(), code: code.to_vec(), ..Default::default() };
        ad.save_account(&a, &Account { nonce: acc.nonce, balance: acc.balance, storage_root: RLP_NULL, code_hash: h });
        self.root = ad.commit();
        self.state.insert(a, acc);
        self.pool.push(a);
        Ok(())
    }

    /// Stores a block as the node does.
    pub fn store(&mut self, b: &Block, txs: Vec<SignedTransaction>, receipts: Vec<Receipt>) -> Res {
        let n = b.header.number;
        block_on(async {
            self.storage.insert_transactions(Context::new(), n, txs).await?;
            self.storage.insert_receipts(Context::new(), n, receipts).await?;
            self.storage.update_latest_proof(Context::new(), Proof { number: n, block_hash: b.hash(), ..Default::default() }).await?;
            self.storage.insert_block(Context::new(), b.clone()).await
        })
        .map_err(e)?;
        self.env.hashes.insert(n, b.hash());
        Ok(())
    }
}

// ---------------------------------------------------------------- JSON

fn q(v: impl Into<U256>) -> Value {
    json!(format!("{:#x}", v.into()))
}

fn hash(h: &H256) -> Value {
    json!(format!("{:?}", h))
}

fn addr(a: &H160) -> Value {
    json!(format!("{:?}", a))
}

fn hex(b: &[u8]) -> Value {
    json!(format!("0x{}", b.iter().map(|x| format!("{:02x}", x)).collect::<String>()))
}

fn unhex(v: &Value) -> Option<Vec<u8>> {
    let s = v.as_str()?.strip_prefix("0x")?;
    let s = if s.len() % 2 == 1 { format!("0{}", s) } else { s.to_string() };
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

/// The fields of `want` are as in `got`.
fn same(got: &Value, want: &Value, what: &str) -> Res {
    let (Some(g), Some(w)) = (got.as_object(), want.as_object()) else {
        check_eq!(got, want, "answer", "{}", what);
        return Ok(());
    };
    for (k, v) in w {
        let Some(x) = g.get(k) else {
            return Err(fail("field-missing", format!("{}: no {} in {}", what, k, got)));
        };
        match (x, v) {
            (Value::Array(a), Value::Array(b)) => {
                check_eq!(a.len(), b.len(), "field-length", "{}: number of {}", what, k);
                for (i, (x, v)) in a.iter().zip(b).enumerate() {
                    same(x, v, &format!("{}: {} {}", what, k, i))?;
                }
            }
            _ => {
                if x != v {
                    return Err(Stop::Fail { sig: format!("field-{}", k), msg: format!("{}: {} is {} instead of {}", what, k, x, v) });
                }
            }
        }
    }
    Ok(())
}

fn price(t: &SignedTransaction) -> U64 {
    match &t.transaction.unsigned {
        UnsignedTransaction::Legacy(x) => x.gas_price,
        UnsignedTransaction::Eip2930(x) => x.gas_price,
        UnsignedTransaction::Eip1559(x) => x.gas_price.max(x.max_priority_fee_per_gas),
    }
}

fn kind(t: &SignedTransaction) -> u64 {
    match &t.transaction.unsigned {
        UnsignedTransaction::Legacy(_) => 0,
        UnsignedTransaction::Eip2930(_) => 1,
        UnsignedTransaction::Eip1559(_) => 2,
    }
}

/// A transaction as JSON; `at` is its block and index.
fn tx_json(t: &SignedTransaction, at: Option<(&Block, usize)>) -> Value {
    let u = &t.transaction.unsigned;
    let al: Vec<Value> = u.access_list().iter().map(|i| json!({ "address": addr(&i.address), "storageKeys": i.storage_keys.iter().map(hash).collect::<Vec<_>>() })).collect();
    let mut v = json!({
        "type": q(kind(t)),
        "hash": hash(&t.transaction.hash),
        "nonce": q(u.nonce().as_u64()),
        "from": addr(&t.sender),
        "to": t.get_to().map(|a| addr(&a)),
        "value": q(*u.value()),
        "gas": q(u.gas_limit().as_u64()),
        "gasPrice": q(price(t).as_u64()),
        "input": hex(u.data()),
        "accessList": al,
        "chainId": t.transaction.chain_id.map(q),
        "publicKey": t.public.as_ref().map(|p| hex(p.as_bytes())),
        "blockNumber": at.map(|(b, _)| q(b.header.number)),
        "blockHash": at.map(|(b, _)| hash(&b.hash())),
        "transactionIndex": at.map(|(_, i)| q(i)),
    });
    if let UnsignedTransaction::Eip1559(x) = u {
        v["maxFeePerGas"] = q(x.gas_price.as_u64());
        v["maxPriorityFeePerGas"] = q(x.max_priority_fee_per_gas.as_u64());
    }
    v
}

/// The hash that a transaction's JSON describes.
fn tx_hash_of(v: &Value) -> Option<H256> {
    let int = |k: &str| unhex(&v[k]).map(|b| rlp::uint_be(&b));
    let to = if v["to"].is_null() { rlp::bytes(&[]) } else { rlp::bytes(&unhex(&v["to"])?) };
    let input = rlp::bytes(&unhex(&v["input"])?);
    let ty = unhex(&v["type"])?;
    if ty.last() == Some(&0) {
        let all = [int("nonce")?, int("gasPrice")?, int("gas")?, to, int("value")?, input, int("v")?, int("r")?, int("s")?];
        return Some(H256(refs::keccak(&rlp::list(&all))));
    }
    let mut al = vec![];
    for i in v["accessList"].as_array()? {
        let keys: Vec<_> = i["storageKeys"].as_array()?.iter().map(|k| rlp::bytes(&unhex(k).unwrap_or_default())).collect();
        al.push(rlp::list(&[rlp::bytes(&unhex(&i["address"])?), rlp::list(&keys)]));
    }
    // v is given as for a protected legacy transaction
    let chain = U256::from_big_endian(&unhex(&v["chainId"])?);
    let odd = U256::from_big_endian(&unhex(&v["v"])?).checked_sub(chain * 2 + 35)?;
    let mut all = vec![int("chainId")?, int("nonce")?];
    if ty.last() == Some(&1) {
        all.push(int("gasPrice")?);
    } else {
        all.push(int("maxPriorityFeePerGas")?);
        all.push(int("maxFeePerGas")?);
    }
    all.extend([int("gas")?, to, int("value")?, input, rlp::list(&al), rlp::uint(odd.as_u128()), int("r")?, int("s")?]);
    let mut raw = ty;
    raw.extend(rlp::list(&all));
    Some(H256(refs::keccak(&raw)))
}

fn check_tx(got: &Value, t: &SignedTransaction, at: Option<(&Block, usize)>, what: &str) -> Res {
    same(got, &tx_json(t, at), what)?;
    let sig = t.transaction.signature.clone().unwrap_or_default();
    if sig.r.len() == 32 && sig.s.len() == 32 {
        same(got, &json!({ "r": q(U256::from_big_endian(&sig.r)), "s": q(U256::from_big_endian(&sig.s)) }), what)?;
        check_eq!(tx_hash_of(got), Some(t.transaction.hash), "describes-another", "{}: the hash of the transaction that {} describes", what, got);
        let raw = unhex(&got["raw"]).map(|r| H256(refs::keccak(&r)));
        check_eq!(raw, Some(t.transaction.hash), "raw", "{}: hash of the raw transaction", what);
    } else {
        same(got, &json!({ "r": hex(&sig.r), "s": hex(&sig.s) }), what)?;
    }
    if kind(t) != 2 {
        check!(got.get("maxFeePerGas").is_none() && got.get("maxPriorityFeePerGas").is_none(), "fee-fields", "{}: fee fields of another type", what);
    }
    Ok(())
}

fn block_json(s: &Snap) -> Value {
    let h = &s.block.header;
    let extra: Vec<Vec<u8>> = h.extra_data.iter().map(|x| rlp::list(&[rlp::bytes(&x.inner)])).collect();
    json!({
        "hash": hash(&s.block.hash()),
        "parentHash": hash(&h.prev_hash),
        "sha3Uncles": hex(&refs::keccak(&[0xc0])),
        "author": addr(&h.proposer),
        "miner": addr(&h.proposer),
        "stateRoot": hash(&h.state_root),
        "transactionsRoot": hash(&h.transactions_root),
        "receiptsRoot": hash(&h.receipts_root),
        "number": q(h.number),
        "gasUsed": q(h.gas_used.as_u64()),
        "gasLimit": q(h.gas_limit.as_u64()),
        "extraData": hex(&rlp::list(&extra)),
        "logsBloom": hex(&h.log_bloom.0),
        "timestamp": q(h.timestamp),
        "baseFeePerGas": q(BASE_FEE_PER_GAS),
        "uncles": [],
    })
}

/// Position of the block's i-th transaction's first log.
fn first_log(s: &Snap, i: usize) -> usize {
    s.resp[..i].iter().map(|r| r.logs.len()).sum()
}

fn log_json(s: &Snap, i: usize, k: usize) -> Value {
    let l = &s.resp[i].logs[k];
    json!({
        "address": addr(&l.address),
        "topics": l.topics.iter().map(hash).collect::<Vec<_>>(),
        "data": hex(&l.data),
        "blockNumber": q(s.block.header.number),
        "blockHash": hash(&s.block.hash()),
        "transactionHash": hash(&s.txs[i].transaction.hash),
        "transactionIndex": q(i),
        "logIndex": q(first_log(s, i) + k),
        "removed": false,
    })
}

fn receipt_json(s: &Snap, i: usize) -> Value {
    let (t, r) = (&s.txs[i], &s.resp[i]);
    json!({
        "blockNumber": q(s.block.header.number),
        "blockHash": hash(&s.block.hash()),
        "contractAddress": r.code_address.map(|c| hex(&c.0[12..])),
        "cumulativeGasUsed": q(s.resp[..=i].iter().map(|r| r.gas_used).sum::<u64>()),
        "effectiveGasPrice": q(price(t).as_u64()),
        "from": addr(&t.sender),
        "gasUsed": q(r.gas_used),
        "logs": (0..r.logs.len()).map(|k| log_json(s, i, k)).collect::<Vec<_>>(),
        "logsBloom": hex(&bloom(&r.logs).0),
        "root": hash(&s.block.header.state_root),
        "status": q(r.exit_reason.is_succeed() as u64),
        "to": t.get_to().map(|a| addr(&a)),
        "transactionHash": hash(&t.transaction.hash),
        "transactionIndex": q(i),
        "type": q(kind(t)),
    })
}

// ---------------------------------------------------------------- P39

fn grow(g: &mut Gen, n: &mut Node, max: usize) -> Res {
    for _ in 0..g.usize(0, max) {
        n.commit(g)?;
    }
    if n.snaps.iter().any(|s| s.txs.len() > 1) {
        g.hit();
    }
    Ok(())
}

fn check_block(got: &Value, s: &Snap, rich: bool, what: &str) -> Res {
    same(got, &block_json(s), what)?;
    let txs = got["transactions"].as_array().cloned().unwrap_or_default();
    check_eq!(txs.len(), s.txs.len(), "transactions", "{}: number of transactions", what);
    for (i, (x, t)) in txs.iter().zip(&s.txs).enumerate() {
        let what = format!("{}, transaction {}", what, i);
        if rich {
            check_tx(x, t, Some((&s.block, i)), &what)?;
        } else {
            check_eq!(*x, hash(&t.transaction.hash), "tx-hash", "{}", what);
        }
    }
    Ok(())
}

/// A transaction that waits in the pool.
fn pending(g: &mut Gen, n: &mut Node) -> SignedTransaction {
    let t = if g.below(3) == 0 {
        let (sig, _) = gens::interop_sig(g);
        let mut t = exec::forged(gens::unsigned(g), *g.pick(&n.w.users));
        t.transaction.signature = Some(sig);
        t.transaction.hash = gens::h256(g);
        t
    } else {
        let i = 1 + g.below(4) as u8;
        sign(gens::unsigned(g), Some(CHAIN), &[i; 32])
    };
    n.pool.0.lock().unwrap().txs.push(t.clone());
    t
}

fn history(g: &mut Gen, andromeda: bool) -> Res {
    let mut n = Node::new(g, andromeda)?;
    n.extra = true;
    grow(g, &mut n, 4)?;
    let mut waiting = vec![];
    let mut proposed: Option<HardforkInfoInner> = None;
    for _ in 0..g.usize(4, 16) {
        let last = n.latest();
        match g.below(19) {
            0 | 1 => {
                let (b, id) = n.block_id(g);
                let rich = g.bool();
                let v = n.get(g, "eth_getBlockByNumber", json!([id, rich]))?;
                check_block(&v, &n.snaps[b].clone(), rich, &format!("block {} by number", id))?;
            }
            2 | 3 => {
                let b = g.usize(0, last);
                let rich = g.bool();
                let h = n.snaps[b].block.hash();
                let v = n.get(g, "eth_getBlockByHash", json!([hash(&h), rich]))?;
                check_block(&v, &n.snaps[b].clone(), rich, &format!("block {} by hash", b))?;
            }
            4 => {
                let (b, id) = n.block_id(g);
                let v = n.get(g, "eth_getBlockTransactionCountByNumber", json!([id]))?;
                check_eq!(v, q(n.snaps[b].txs.len()), "count", "transactions of block {}", id);
                let h = n.snaps[b].block.hash();
                let v = n.get(g, "eth_getBlockTransactionCountByHash", json!([hash(&h)]))?;
                check_eq!(v, q(n.snaps[b].txs.len()), "count", "transactions of block {}", b);
            }
            5 | 6 => {
                let (b, id) = n.block_id(g);
                let s = n.snaps[b].clone();
                let i = g.usize(0, s.txs.len());
                let v = if g.bool() {
                    n.get(g, "eth_getTransactionByBlockNumberAndIndex", json!([id, q(i)]))?
                } else {
                    n.get(g, "eth_getTransactionByBlockHashAndIndex", json!([hash(&s.block.hash()), q(i)]))?
                };
                match s.txs.get(i) {
                    Some(t) => check_tx(&v, t, Some((&s.block, i)), &format!("transaction {} of block {}", i, b))?,
                    None => check!(v.is_null(), "ghost", "transaction {} of block {} is {}", i, b, v),
                }
            }
            7 | 8 | 9 => {
                let b = g.usize(0, last);
                let s = n.snaps[b].clone();
                if s.txs.is_empty() {
                    continue;
                }
                let i = g.usize(0, s.txs.len() - 1);
                let h = s.txs[i].transaction.hash;
                let v = n.get(g, "eth_getTransactionByHash", json!([hash(&h)]))?;
                check_tx(&v, &s.txs[i], Some((&s.block, i)), &format!("transaction {} of block {} by hash", i, b))?;
                let v = n.get(g, "eth_getTransactionReceipt", json!([hash(&h)]))?;
                same(&v, &receipt_json(&s, i), &format!("receipt {} of block {}", i, b))?;
                g.label_if(!s.resp[i].logs.is_empty() && first_log(&s, i) > 0, "receipt with logs after others");
                g.label_if(s.resp[i].code_address.is_some(), "receipt of a creation");
            }
            10 => {
                let t = pending(g, &mut n);
                waiting.push(t);
            }
            11 if !waiting.is_empty() => {
                let t: SignedTransaction = g.pick(&waiting).clone();
                let v = n.get(g, "eth_getTransactionByHash", json!([hash(&t.transaction.hash)]))?;
                check_tx(&v, &t, None, "transaction in the pool")?;
                let v = n.get(g, "eth_getTransactionReceipt", json!([hash(&t.transaction.hash)]))?;
                check!(v.is_null(), "ghost", "a transaction in the pool has the receipt {}", v);
                g.label("transaction in the pool");
            }
            12 => {
                // what is not there
                let h = gens::h256(g);
                if waiting.iter().any(|t| t.transaction.hash == h) {
                    continue;
                }
                for (m, p) in [("eth_getBlockByHash", json!([hash(&h), true])), ("eth_getTransactionByHash", json!([hash(&h)])), ("eth_getTransactionReceipt", json!([hash(&h)])), ("eth_getTransactionByBlockHashAndIndex", json!([hash(&h), "0x0"])), ("axon_getBlockById", json!([{ "blockHash": hash(&h) }])), ("eth_getBlockByNumber", json!([{ "blockHash": hash(&h) }, true])), ("eth_getBlockByNumber", json!([q(last as u64 + 1 + g.below(9)), false]))] {
                    if let Ok(v) = n.ask(g, m, p.clone())? {
                        check!(v.is_null(), "ghost", "{} {} is {}", m, p, v);
                    }
                }
                let v = n.get(g, "eth_getBlockTransactionCountByHash", json!([hash(&h)]))?;
                check_eq!(v, q(0), "ghost", "transactions of an unknown block");
            }
            13 => {
                let v = n.get(g, "eth_blockNumber", json!([]))?;
                check_eq!(v, q(last), "height", "block number");
            }
            14 => {
                let b = g.usize(0, last);
                let s = n.snaps[b].clone();
                let id = match g.below(3) {
                    0 => json!({ "blockHash": hash(&s.block.hash()) }),
                    1 if b == last => json!("latest"),
                    _ => q(b),
                };
                let v = n.get(g, "axon_getBlockById", json!([id]))?;
                check_eq!(v, serde_json::to_value(&s.block).unwrap(), "axon-block", "block {} by id {}", b, id);
                check_eq!(v["header"]["number"], q(b), "axon-block", "number of block {}", b);
                let v = n.get(g, "axon_getProofById", json!([id]))?;
                check_eq!(v, serde_json::to_value(&s.proposal.proof).unwrap(), "axon-proof", "proof in block {}", b);
            }
            15 => {
                let b = g.usize(0, last);
                let s = n.snaps[b].clone();
                let v = n.get(g, "axon_getProposalByNumber", json!([q(b)]))?;
                check_eq!(v, serde_json::to_value(&s.proposal).unwrap(), "axon-proposal", "proposal of block {}", b);
            }
            16 => {
                let b = g.usize(0, last);
                let (b, v) = if g.bool() { (b, n.get(g, "axon_getMetadataByNumber", json!([q(b)]))?) } else { (last, n.get(g, "axon_getCurrentMetadata", json!([]))?) };
                let m = n.md.iter().find(|m| m.version.contains(b as u64)).unwrap();
                check_eq!(v["epoch"], q(m.epoch), "metadata", "epoch at {}", b);
                check_eq!(v["verifier_list"], serde_json::to_value(&m.verifier_list).unwrap(), "metadata", "validators at {}", b);
                check_eq!(v["version"], serde_json::to_value(&m.version).unwrap(), "metadata", "range of the epoch at {}", b);
            }
            17 => {
                // the flags in force and those decided for later
                let future = n.snaps.iter().filter_map(|s| s.hardfork.clone()).last().map(|h| h.flags).unwrap_or_default();
                let bit = |f: &H256| f.0[24] & 1 == 1;
                let want = if bit(&n.flags) {
                    json!({ "Andromeda": "enabled" })
                } else if bit(&future) {
                    g.label("hardfork determined");
                    json!({ "Andromeda": "determined" })
                } else if proposed.as_ref().map_or(false, |p| bit(&p.flags)) {
                    g.label("hardfork proposed");
                    json!({ "Andromeda": "proposed" })
                } else {
                    json!({})
                };
                let v = n.get(g, "axon_getHardforkInfo", json!([]))?;
                check_eq!(v, want, "hardforks", "hardforks at {}", last);
            }
            _ => {
                if g.bool() {
                    let h = HardforkInfoInner { block_number: g.u64(), flags: H256::from_low_u64_be(g.below(4).to_be()) };
                    block_on(n.w.storage.set_hardfork_proposal(Context::new(), h.clone())).map_err(e)?;
                    proposed = Some(h);
                } else {
                    n.commit(g)?;
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P39: what is known of CKB

fn ckb_header_json(h: &sys::HeaderImage) -> Value {
    json!({
        "version": q(h.version),
        "compact_target": q(h.compact_target),
        "timestamp": q(h.timestamp),
        "number": q(h.number),
        "epoch": q(h.epoch),
        "parent_hash": hex(&h.hashes[0]),
        "transactions_root": hex(&h.hashes[1]),
        "proposals_hash": hex(&h.hashes[2]),
        "extra_hash": hex(&h.hashes[3]),
        "dao": hex(&h.hashes[4]),
        "nonce": q(h.nonce),
        "hash": hex(&sys::ckb_hash(&h.mol())),
    })
}

/// A script as JSON; none if CKB has no such script.
fn script_json(s: &packed::Script) -> Option<Value> {
    let t = match s.hash_type().as_slice()[0] {
        0 => "data",
        1 => "type",
        2 => "data1",
        4 => "data2",
        _ => return None,
    };
    Some(json!({ "code_hash": hex(s.code_hash().as_slice()), "hash_type": t, "args": hex(&s.args().raw_data()) }))
}

fn light_client(g: &mut Gen) -> Res {
    let mut n = Node::new(g, true)?;
    let mut m = sys::Ckb::default();
    for _ in 0..g.usize(1, 4) {
        let mut txs = vec![];
        let mut good = 0;
        for k in 0..g.usize(1, 4) {
            let (to, data, ok) = sys::image_call(g, &mut m);
            let sender = *g.pick(&n.w.users);
            let u = UnsignedTransaction::Legacy(LegacyTransaction { nonce: (k as u64).into(), gas_price: U64::one(), gas_limit: (1 + g.below(1000)).into(), action: TransactionAction::Call(to), value: U256::zero(), data: data.into() });
            txs.push(n.w.from(g, u, sender));
            good += ok as usize;
        }
        let prev = n.snaps.last().unwrap().block.clone();
        let mut p = Proposal { prev_hash: prev.hash(), number: prev.header.number + 1, timestamp: prev.header.timestamp + 1, chain_id: CHAIN, tx_hashes: txs.iter().map(|t| t.transaction.hash).collect(), ..Default::default() };
        p.prev_state_root = n.w.root;
        let resp = {
            let _rt = exec::runtime().enter();
            n.w.env.ctx = p.clone().into();
            let mut a = n.w.adapter()?;
            AxonExecutor.exec(&mut a, &txs, &n.vs)
        };
        check_eq!(resp.tx_resp.iter().filter(|r| r.exit_reason.is_succeed()).count(), good, "accepted", "accepted calls");
        n.w.root = resp.state_root;
        let block = Block::new(p.clone(), resp.clone());
        let (receipts, _) = block.generate_receipts_and_logs(&txs, &resp);
        n.w.store(&block, txs.clone(), receipts)?;
        n.snaps.push(Snap { block, proposal: p, txs, resp: resp.tx_resp, state: State::new(), env: n.w.env.clone(), hardfork: None });

        for i in 0..6u8 {
            let mut h = [7u8; 32];
            h[0] = i;
            let v = n.get(g, "ckb_getBlockHeaderByHash", json!([hex(&h)]))?;
            check_eq!(v, m.headers.get(&h).map(ckb_header_json).unwrap_or_default(), "ckb-header", "header {}", i);
        }
        let mut at: Vec<_> = m.cells.keys().cloned().collect();
        at.push(sys::points(g));
        for k in at {
            let with = g.bool();
            let got = n.ask(g, "ckb_getLiveCell", json!([{ "tx_hash": hex(&k.0), "index": q(k.1) }, with]))?;
            let Some(c) = m.cells.get(&k) else {
                check_eq!(got, Ok(Value::Null), "ckb-ghost", "cell {:?}", k);
                continue;
            };
            let lock = script_json(&c.output.lock());
            let ty = c.output.type_().to_opt();
            if lock.is_none() || ty.as_ref().map_or(false, |t| script_json(t).is_none()) {
                g.label("cell CKB could not have");
                continue;
            }
            let cap = u64::from_le_bytes(c.output.capacity().as_slice().try_into().unwrap());
            let data = if with { json!({ "content": hex(&c.data), "hash": hex(&sys::ckb_hash(&c.data)) }) } else { Value::Null };
            let want = json!({ "output": { "capacity": q(cap), "lock": lock, "type": ty.and_then(|t| script_json(&t)) }, "data": data });
            check_eq!(got, Ok(want), "ckb-cell", "cell {:?}", k);
            g.hit();
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P42

/// Any account a test might ask for.
fn account(g: &mut Gen, n: &Node) -> H160 {
    match g.below(10) {
        8 | 9 => H160([0xd2; 20]),
        0 => H160([0x77; 20]),
        1 | 2 => *g.pick(&n.w.users),
        _ => *g.pick(&n.w.pool),
    }
}

fn code_data(g: &mut Gen, n: &Node) -> Vec<u8> {
    match g.below(4) {
        0 => vec![],
        1 => {
            // a revert with a message, or nearly
            let mut d = vec![8, 0xc3, 0x79, 0xa0];
            d.extend([0; 31]);
            d.push(32);
            let m = g.bytes(40);
            let len: U256 = match g.below(4) {
                0 => U256::from(m.len()) + g.below(3),
                1 => gens::u256(g),
                _ => m.len().into(),
            };
            let mut b = [0; 32];
            len.to_big_endian(&mut b);
            d.extend(b);
            d.extend(&m);
            d
        }
        2 => g.bytes(110),
        _ => {
            let mut d = n.w.pool[0].0.to_vec();
            d.extend(g.bytes_n(44));
            d
        }
    }
}

fn state_queries(g: &mut Gen) -> Res {
    let mut n = Node::new(g, true)?;
    grow(g, &mut n, 4)?;
    for _ in 0..g.usize(4, 14) {
        if g.chance(1, 8) {
            n.commit(g)?;
        }
        let (b, id) = n.block_id(g);
        let s = n.snaps[b].clone();
        let a = account(g, &n);
        let acc = s.state.get(&a).cloned();
        let what = format!("{:?} at {}", a, id);
        let mut p = vec![addr(&a)];
        let asked = !(b == n.latest() && g.below(4) == 0);
        if asked {
            p.push(id.clone());
        }
        if b != n.latest() && n.snaps.last().unwrap().state.get(&a) != acc.as_ref() {
            g.label("state that changed later");
        }
        let full = acc.clone().unwrap_or_default();
        match g.below(10) {
            0 => {
                let v = n.get(g, "eth_getBalance", json!(p))?;
                check_eq!(v, q(full.balance), "balance", "balance of {}", what);
            }
            1 => {
                if id == json!("pending") && asked {
                    let k = g.usize(0, 3);
                    let base = if g.bool() { None } else { Some(g.usize(0, n.latest())) };
                    n.pool.0.lock().unwrap().counts.insert(a, (k, base.map(|x| x as u64)));
                    let nonce = n.snaps[base.unwrap_or(n.latest())].state.get(&a).map(|x| x.nonce).unwrap_or_default();
                    let v = n.get(g, "eth_getTransactionCount", json!(p))?;
                    if let Some(want) = nonce.checked_add(k.into()) {
                        check_eq!(v, q(want), "nonce", "pending nonce of {}", what);
                    }
                    g.label("pending nonce");
                } else {
                    let v = n.get(g, "eth_getTransactionCount", json!(p))?;
                    check_eq!(v, q(full.nonce), "nonce", "nonce of {}", what);
                }
            }
            2 => {
                let v = n.get(g, "eth_getCode", json!(p))?;
                check_eq!(v, hex(&full.code), "code", "code of {}", what);
            }
            3 | 4 => {
                let k = slot(g, &full);
                let mut p = vec![addr(&a), q(k)];
                if asked {
                    p.push(id.clone());
                }
                let v = n.get(g, "eth_getStorageAt", json!(p))?;
                let want = full.storage.get(&to_hash(k)).cloned().unwrap_or_default();
                check_eq!(v, hex(&want.0), "slot", "slot {} of {}", k, what);
                g.label_if(!want.is_zero(), "slot with a value");
            }
            5 | 6 => {
                let keys: Vec<U256> = g.vec(3, |g| slot(g, &full));
                let v = n.get(g, "eth_getProof", json!([addr(&a), keys.iter().map(|k| q(*k)).collect::<Vec<_>>(), id]))?;
                check_proof(&v, &s.state, &a, &keys, &what)?;
                g.label_if(acc.is_none(), "proof of absence");
            }
            7 | 8 => call(g, &mut n, b, &id)?,
            _ => {
                // a block that is not there has no state
                let h = json!({ "blockHash": hash(&gens::h256(g)) });
                let (m, p) = match g.below(7) {
                    0 => ("eth_getBalance", json!([addr(&a), h])),
                    1 => ("eth_getTransactionCount", json!([addr(&a), h])),
                    2 => ("eth_getCode", json!([addr(&a), h])),
                    3 => ("eth_getStorageAt", json!([addr(&a), "0x0", h])),
                    4 => ("eth_getProof", json!([addr(&a), ["0x0"], h])),
                    5 => ("eth_call", json!([{ "from": addr(&a), "to": addr(&a) }, h])),
                    _ => ("eth_estimateGas", json!([{ "from": addr(&a), "to": addr(&a) }, h])),
                };
                let r = n.ask(g, m, p.clone())?;
                check!(r.is_err(), "unknown-block", "{} {} answers {:?}", m, p, r);
            }
        }
    }
    Ok(())
}

fn to_hash(k: U256) -> H256 {
    let mut b = [0; 32];
    k.to_big_endian(&mut b);
    H256(b)
}

fn slot(g: &mut Gen, a: &exec::Acc) -> U256 {
    let keys: Vec<H256> = a.storage.keys().cloned().collect();
    match g.below(4) {
        0 => g.below(5).into(),
        1 => gens::u256(g),
        _ if !keys.is_empty() => U256::from_big_endian(&g.pick(&keys).0),
        _ => g.below(4).into(),
    }
}

fn check_proof(v: &Value, st: &State, a: &H160, keys: &[U256], what: &str) -> Res {
    let b32 = |u: U256| to_hash(u).0;
    let kv: Vec<_> = st
        .iter()
        .map(|(a, x)| (refs::keccak(&a.0).to_vec(), rlp::list(&[rlp::uint_be(&b32(x.nonce)), rlp::uint_be(&b32(x.balance)), rlp::bytes(&storage_root(x)), rlp::bytes(&refs::keccak(&x.code))])))
        .collect();
    let proof = |kv: &[(Vec<u8>, Vec<u8>)], k: &[u8]| -> Value { json!(refs::mpt::proof(kv, &refs::keccak(k)).iter().map(|n| hex(n)).collect::<Vec<_>>()) };
    check_eq!(v["accountProof"], proof(&kv, &a.0), "account-proof", "proof of {}", what);
    let x = st.get(a);
    let mut want = json!({ "address": addr(a), "balance": q(0), "nonce": q(0) });
    if let Some(x) = x {
        want = json!({ "address": addr(a), "balance": q(x.balance), "nonce": q(x.nonce), "codeHash": hex(&refs::keccak(&x.code)), "storageHash": hex(&storage_root(x)) });
    }
    same(v, &want, &format!("proof of {}", what))?;
    let got = v["storageProof"].as_array().cloned().unwrap_or_default();
    check_eq!(got.len(), keys.len(), "storage-proof", "number of storage proofs of {}", what);
    let empty = exec::Acc::default();
    let st = x.unwrap_or(&empty);
    let kv: Vec<_> = st.storage.iter().filter(|(_, v)| !v.is_zero()).map(|(k, v)| (refs::keccak(&k.0).to_vec(), rlp::uint_be(&v.0))).collect();
    for (p, k) in got.iter().zip(keys) {
        let val = st.storage.get(&to_hash(*k)).cloned().unwrap_or_default();
        same(p, &json!({ "key": q(*k), "value": q(U256::from_big_endian(&val.0)) }), &format!("slot {} of {}", k, what))?;
        if x.is_some() && !kv.is_empty() {
            check_eq!(p["proof"], proof(&kv, &to_hash(*k).0), "slot-proof", "proof of slot {} of {}", k, what);
        }
    }
    Ok(())
}

fn call(g: &mut Gen, n: &mut Node, b: usize, id: &Value) -> Res {
    let s = n.snaps[b].clone();
    let from = if g.below(4) == 0 { None } else { Some(*g.pick(&n.w.users)) };
    let create = from.is_some() && g.below(5) == 0;
    let to = if create { None } else if g.below(4) == 0 { Some(H160([0xd0; 20])) } else { Some(*g.pick(&n.w.pool)) };
    let data = if create { exec::init_code(g, &n.w.pool) } else { code_data(g, n) };
    let value: U256 = if g.bool() { U256::zero() } else { g.below(3000).into() };
    let gas: Option<u64> = if g.bool() { None } else { Some(*g.pick(&[20_999u64, 21_000, 40_000, 100_000, 400_000, MAX_GAS_LIMIT, MAX_GAS_LIMIT + 1])) };
    let gas_price: Option<u64> = match g.below(4) {
        0 => Some(g.below(1000)),
        1 => Some(MAX_GAS_PRICE.as_u64() + g.below(2)),
        _ => None,
    };
    let estimate = g.bool();
    let mut req = json!({});
    if let Some(f) = from {
        req["from"] = addr(&f);
    }
    if let Some(t) = to {
        req["to"] = addr(&t);
    }
    if let Some(x) = gas {
        req["gas"] = q(x);
    }
    if let Some(x) = gas_price {
        req["gasPrice"] = q(x);
    }
    if !value.is_zero() || g.bool() {
        req["value"] = q(value);
    }
    if !data.is_empty() || g.bool() {
        req["data"] = hex(&data);
    }
    let method = if estimate { "eth_estimateGas" } else { "eth_call" };
    let got = n.ask(g, method, json!([req, id]))?;
    let bad = gas.map_or(false, |x| x > MAX_GAS_LIMIT || estimate && x < 21_000) || gas_price.map_or(false, |p| p > MAX_GAS_PRICE.as_u64());
    if bad {
        check!(got.is_err(), "beyond-limits", "{} {} answers {:?}", method, req, got);
        return Ok(());
    }
    let mut env = s.env.clone();
    env.ctx = ExecutorContext::from(&s.block.header);
    env.ctx.origin = from.unwrap_or_default();
    env.ctx.gas_price = gas_price.unwrap_or(1).into();
    if let Some(x) = gas {
        env.ctx.block_gas_limit = x.into();
    }
    let (exit, ret, used, _, post) = exec::run(&s.state, &env, &n.w.config(), from.unwrap_or_default(), to, value, data, gas.unwrap_or(MAX_BLOCK_GAS_LIMIT), vec![]);
    if post.map_or(false, |p| p.0 != s.state) {
        g.label("call that would change the state");
    }
    let what = format!("{} {} at {}", method, req, id);
    match (&exit, got) {
        (ExitReason::Succeed(_), Ok(v)) if estimate => check_eq!(v, q(used + used / 4), "estimate", "{}", what),
        (ExitReason::Succeed(_), Ok(v)) => check_eq!(v, hex(&ret), "output", "{}", what),
        (ExitReason::Revert(_), Err((_, m, d))) => {
            g.label("call reverted");
            check_eq!(d, Some(hex(&ret)), "revert-data", "{}", what);
            // solidity's Error(string)
            if ret.len() >= 68 {
                let len = U256::from_big_endian(&ret[36..68]);
                if len <= U256::from(ret.len() - 68) {
                    let t: String = ret[68..68 + len.as_usize()].iter().map(|c| *c as char).collect();
                    check!(m.ends_with(&t), "revert-message", "{}: the message is {:?} and the reason {:?}", what, m, t);
                    g.label("revert with a message");
                }
            }
        }
        (ExitReason::Error(_) | ExitReason::Fatal(_), Err(_)) => g.label("call failed"),
        (x, got) => return Err(fail("call-exit", format!("{}: answers {:?} where execution ends with {:?}", what, got, x))),
    }
    Ok(())
}

// ---------------------------------------------------------------- P43

#[derive(Clone, Debug)]
struct Want {
    address: Option<Vec<H160>>,
    /// one entry for each position: None is anything
    topics:  Vec<Option<Vec<Option<H256>>>>,
}

impl Want {
    fn new(g: &mut Gen, n: &Node) -> Want {
        let all: Vec<&Log> = n.snaps.iter().flat_map(|s| s.resp.iter().flat_map(|r| &r.logs)).collect();
        let mut w = Want { address: None, topics: vec![] };
        let like: Option<Log> = if all.is_empty() { None } else { Some((*g.pick(&all)).clone()) };
        let a = |g: &mut Gen| match &like {
            Some(l) if g.below(4) != 0 => l.address,
            _ => *g.pick(&n.w.pool),
        };
        if g.bool() {
            let x: Vec<H160> = (0..g.usize(0, 3)).map(|_| a(g)).collect();
            w.address = Some(x);
        }
        for i in 0..g.usize(0, 4) {
            let t = |g: &mut Gen| match like.as_ref().and_then(|l| l.topics.get(i)) {
                Some(t) if g.below(4) != 0 => *t,
                _ => H256::from_low_u64_be(g.below(4)),
            };
            w.topics.push(match g.below(3) {
                0 => None,
                1 => Some(vec![Some(t(g))]),
                _ => Some((0..g.usize(1, 3)).map(|_| if g.chance(1, 8) { None } else { Some(t(g)) }).collect()),
            });
        }
        w
    }

    fn fits(&self, l: &Log) -> bool {
        let a = self.address.as_ref().map_or(true, |a| a.is_empty() || a.contains(&l.address));
        a && l.topics.len() >= self.topics.len()
            && self.topics.iter().zip(&l.topics).all(|(w, t)| match w {
                None => true,
                Some(v) => v.iter().any(|x| x.map_or(true, |x| x == *t)),
            })
    }

    fn json(&self, g: &mut Gen) -> Value {
        let mut v = json!({});
        match &self.address {
            None if g.bool() => v["address"] = Value::Null,
            None => (),
            Some(a) if a.len() == 1 && g.bool() => v["address"] = addr(&a[0]),
            Some(a) => v["address"] = json!(a.iter().map(addr).collect::<Vec<_>>()),
        }
        if !self.topics.is_empty() || g.bool() {
            let t: Vec<Value> = self
                .topics
                .iter()
                .map(|t| match t {
                    None => Value::Null,
                    Some(t) if t.len() == 1 && t[0].is_some() && g.bool() => hash(&t[0].unwrap()),
                    Some(t) => json!(t.iter().map(|x| x.as_ref().map(hash)).collect::<Vec<_>>()),
                })
                .collect();
            v["topics"] = json!(t);
        }
        v
    }

    /// The block's matching logs, as JSON.
    fn logs(&self, s: &Snap) -> Vec<Value> {
        let mut out = vec![];
        for (i, r) in s.resp.iter().enumerate() {
            for (k, l) in r.logs.iter().enumerate() {
                if self.fits(l) {
                    out.push(log_json(s, i, k));
                }
            }
        }
        out
    }
}

fn check_logs(g: &mut Gen, got: &Value, want: &[Value], what: &str) -> Res {
    let Some(got) = got.as_array() else {
        return Err(fail("not-logs", format!("{}: {}", what, got)));
    };
    check_eq!(got.len(), want.len(), "logs", "{}: number of logs; {:?} instead of {:?}", what, got, want);
    for (i, (x, w)) in got.iter().zip(want).enumerate() {
        same(x, w, &format!("{}: log {}", what, i))?;
    }
    if !want.is_empty() {
        g.hit();
    }
    Ok(())
}

fn get_logs(g: &mut Gen) -> Res {
    let mut n = Node::new(g, true)?;
    for _ in 0..g.usize(1, 5) {
        n.commit(g)?;
    }
    let last = n.latest();
    for _ in 0..g.usize(2, 8) {
        let w = Want::new(g, &n);
        let mut f = w.json(g);
        if g.below(3) == 0 {
            let b = g.usize(0, last);
            f["blockHash"] = hash(&n.snaps[b].block.hash());
            let v = n.get(g, "eth_getLogs", json!([f]))?;
            check_logs(g, &v, &w.logs(&n.snaps[b].clone()), &format!("logs {}", f))?;
            continue;
        }
        let end = |g: &mut Gen| -> (Option<Value>, u64) {
            match g.below(7) {
                0 => (None, last as u64),
                1 => (Some(json!("latest")), last as u64),
                2 => (Some(json!("earliest")), 0),
                3 => (Some(json!("pending")), last as u64),
                _ => {
                    let x = g.below(last as u64 + 2);
                    (Some(q(x)), x)
                }
            }
        };
        let (a, from) = end(g);
        let (z, to) = end(g);
        if let Some(a) = a {
            f["fromBlock"] = a;
        }
        if let Some(z) = z {
            f["toBlock"] = z;
        }
        let to = to.min(last as u64);
        let got = n.ask(g, "eth_getLogs", json!([f]))?;
        if from > last as u64 || to.saturating_sub(from) > n.range {
            check!(got.is_err(), "range", "logs {} are given although the range is not allowed: {:?}", f, got);
            g.label("range not allowed");
            continue;
        }
        let want: Vec<Value> = (from..=to).flat_map(|b| w.logs(&n.snaps[b as usize])).collect();
        match got {
            Ok(v) => check_logs(g, &v, &want, &format!("logs {}", f))?,
            Err(x) => return Err(fail("refused", format!("logs {} are refused: {:?}", f, x))),
        }
    }
    let h = gens::h256(g);
    let r = n.ask(g, "eth_getLogs", json!([{ "blockHash": hash(&h) }]))?;
    check!(r.is_err(), "unknown-block", "logs of an unknown block: {:?}", r);
    Ok(())
}

enum Filter {
    Blocks { seen: usize },
    Logs { w: Want, next: u64, to: Option<u64> },
}

fn filters(g: &mut Gen) -> Res {
    let mut n = Node::new(g, true)?;
    grow(g, &mut n, 2)?;
    let mut live: BTreeMap<String, Filter> = BTreeMap::new();
    let mut gone: Vec<String> = vec!["0x0".into(), "0x7".into(), format!("{:#x}", U256::MAX)];
    for _ in 0..g.usize(4, 20) {
        let last = n.latest();
        let ids: Vec<String> = live.keys().cloned().collect();
        match g.below(12) {
            0 | 1 | 2 | 3 => n.commit(g)?,
            4 => {
                let v = n.get(g, "eth_newBlockFilter", json!([]))?;
                let id = v.as_str().unwrap_or_default().to_string();
                check!(live.insert(id, Filter::Blocks { seen: last }).is_none(), "id-twice", "a filter's id is given twice");
            }
            5 | 6 => {
                let w = Want::new(g, &n);
                let mut f = w.json(g);
                let mut next = last as u64 + 1;
                match g.below(5) {
                    0 => f["fromBlock"] = json!("latest"),
                    1 | 2 => {
                        let x = g.below(last as u64 + 4);
                        f["fromBlock"] = q(x);
                        if x >= last as u64 {
                            next = x;
                        }
                    }
                    3 => f["fromBlock"] = json!("earliest"),
                    _ => (),
                }
                let mut to = None;
                match g.below(5) {
                    0 => f["toBlock"] = json!("latest"),
                    1 => f["toBlock"] = json!("pending"),
                    2 => {
                        let x = 1 + g.below(last as u64 + 4);
                        f["toBlock"] = q(x);
                        to = Some(x);
                    }
                    _ => (),
                }
                let v = n.get(g, "eth_newFilter", json!([f]))?;
                let id = v.as_str().unwrap_or_default().to_string();
                check!(live.insert(id, Filter::Logs { w, next, to }).is_none(), "id-twice", "a filter's id is given twice");
            }
            7 | 8 | 9 if !ids.is_empty() => {
                let id = g.pick(&ids).clone();
                let m = if g.below(5) == 0 { "eth_getFilterLogs" } else { "eth_getFilterChanges" };
                let got = n.ask(g, m, json!([id]))?;
                let mut drop = false;
                match live.get_mut(&id).unwrap() {
                    Filter::Blocks { seen } => {
                        let want: Vec<Value> = n.snaps[*seen + 1..].iter().map(|s| hash(&s.block.hash())).collect();
                        check_eq!(got, Ok(json!(want)), "new-blocks", "blocks since {}", seen);
                        g.label_if(want.len() > 1, "several new blocks");
                        *seen = last;
                    }
                    Filter::Logs { w, next, to } => {
                        let end = to.unwrap_or(u64::MAX).min(last as u64);
                        if *next > last as u64 {
                            check_eq!(got, Ok(json!([])), "too-early", "logs from {} at {}", next, last);
                        } else if end.saturating_sub(*next) > n.range {
                            check!(got.is_err(), "range", "a filter over {} blocks answers {:?}", end - *next + 1, got);
                            drop = true;
                        } else {
                            let want: Vec<Value> = (*next..=end).flat_map(|b| w.logs(&n.snaps[b as usize])).collect();
                            match got {
                                Ok(v) => check_logs(g, &v, &want, &format!("changes of the filter {:?} from {}", w, next))?,
                                Err(x) => return Err(fail("refused", format!("a filter is refused: {:?}", x))),
                            }
                            *next = end + 1;
                            // past its end a filter gives nothing
                            if to.map_or(false, |t| end >= t) {
                                *next = u64::MAX;
                            }
                        }
                    }
                }
                if drop {
                    live.remove(&id);
                    gone.push(id);
                }
            }
            10 if !ids.is_empty() => {
                let id = g.pick(&ids).clone();
                let v = n.get(g, "eth_uninstallFilter", json!([id]))?;
                check_eq!(v, json!(true), "uninstall", "removing a filter");
                live.remove(&id);
                gone.push(id);
            }
            _ => {
                let id = g.pick(&gone).clone();
                let r = n.ask(g, "eth_getFilterChanges", json!([id]))?;
                check!(r.is_err(), "unknown-filter", "the unknown filter {} answers {:?}", id, r);
                let v = n.get(g, "eth_uninstallFilter", json!([id]))?;
                check_eq!(v, json!(false), "uninstall", "removing an unknown filter");
                g.label_if(!live.is_empty(), "unknown filter among others");
            }
        }
    }
    Ok(())
}

enum Sub {
    Heads,
    Logs(Want),
    Sync,
}

fn head_json(s: &Snap) -> Value {
    let mut v = block_json(s);
    let o = v.as_object_mut().unwrap();
    for k in ["hash", "author", "baseFeePerGas", "uncles"] {
        o.remove(k);
    }
    v
}

fn subscriptions(g: &mut Gen) -> Res {
    *SYNC_STATUS.write() = SyncStatus::False;
    let mut n = Node::new(g, true)?;
    let mut seen = 0;
    let mut subs: BTreeMap<String, Sub> = BTreeMap::new();
    // the first tick is immediate
    n.wait(10);
    if g.bool() {
        grow(g, &mut n, 2)?;
        n.wait(3010);
        seen = n.latest();
    }
    for _ in 0..g.usize(1, 5) {
        for _ in 0..g.usize(0, 2) {
            let (p, s) = match g.below(4) {
                0 => (json!(["newHeads"]), Sub::Heads),
                1 => (json!(["syncing"]), Sub::Sync),
                _ => {
                    let w = Want::new(g, &n);
                    (json!(["logs", w.json(g)]), Sub::Logs(w))
                }
            };
            match n.ask_on(true, "eth_subscribe", p.clone())? {
                Ok(Value::String(id)) => check!(subs.insert(id, s).is_none(), "id-twice", "a subscription's id is given twice"),
                r => return Err(fail("subscribe", format!("eth_subscribe {} answers {:?}", p, r))),
            }
            // it is registered
            n.wait(10);
        }
        if !subs.is_empty() && g.below(4) == 0 {
            let ids: Vec<String> = subs.keys().cloned().collect();
            let id = g.pick(&ids).clone();
            let r = n.ask_on(true, "eth_unsubscribe", json!([id]))?;
            check_eq!(r, Ok(json!(true)), "unsubscribe", "giving up a subscription");
            subs.remove(&id);
            g.label("unsubscribed");
        }
        for _ in 0..g.below(4) {
            n.commit(g)?;
        }
        n.wait(3010);
        let mut got: BTreeMap<String, Vec<Value>> = BTreeMap::new();
        while let Ok(m) = n.out.try_recv() {
            g.note(|| m.clone());
            let v: Value = serde_json::from_str(&m).map_err(|x| fail("not-json", x.to_string()))?;
            check_eq!(v["method"], json!("eth_subscription"), "notification", "method of {}", v);
            let id = v["params"]["subscription"].as_str().unwrap_or_default().to_string();
            got.entry(id).or_default().push(v["params"]["result"].clone());
        }
        let new = n.snaps[seen + 1..].to_vec();
        seen = n.latest();
        for (id, s) in &subs {
            let got = got.remove(id).unwrap_or_default();
            match s {
                Sub::Heads => {
                    check_eq!(got.len(), new.len(), "heads", "number of new heads: {:?}", got);
                    for (x, s) in got.iter().zip(&new) {
                        same(x, &head_json(s), "new head")?;
                    }
                    if !new.is_empty() {
                        g.label("new heads");
                        g.hit();
                    }
                }
                Sub::Logs(w) => {
                    let want: Vec<Value> = new.iter().flat_map(|s| w.logs(s)).collect();
                    g.label_if(!want.is_empty(), "logs sent");
                    check_logs(g, &json!(got), &want, &format!("logs for {:?}", w))?;
                }
                Sub::Sync => {
                    check!(got.iter().all(|x| *x == json!(false)), "sync", "synchronization: {:?}", got);
                    check_eq!(got.is_empty(), new.is_empty(), "sync", "a notification of the synchronization");
                }
            }
        }
        check!(got.is_empty(), "not-subscribed", "notifications without a subscription: {:?}", got);
    }
    Ok(())
}

// ---------------------------------------------------------------- P44

fn send_raw(g: &mut Gen) -> Res {
    let mut n = Node::new(g, true)?;
    for _ in 0..g.usize(1, 6) {
        let mut u = gens::unsigned(g);
        let p: U64 = match g.below(6) {
            0 => U64::zero(),
            1 => MAX_GAS_PRICE + 1,
            2 => MAX_GAS_PRICE,
            3 => g.u64().into(),
            _ => (1 + g.below(1000)).into(),
        };
        let tip: U64 = if g.below(3) == 0 { p.saturating_add(g.below(2).into()) } else { p.min(g.below(5).into()) };
        let limit: U64 = match g.below(6) {
            0 => 20_999u64.into(),
            1 => n.cap.into(),
            2 => U64::from(n.cap) + 1,
            3 => g.u64().into(),
            _ => 21_000u64.into(),
        };
        match &mut u {
            UnsignedTransaction::Legacy(t) => (t.gas_price, t.gas_limit) = (p, limit),
            UnsignedTransaction::Eip2930(t) => (t.gas_price, t.gas_limit) = (p, limit),
            UnsignedTransaction::Eip1559(t) => (t.gas_price, t.gas_limit, t.max_priority_fee_per_gas) = (p, limit, tip),
        }
        let p = match &u {
            UnsignedTransaction::Eip1559(_) => p.max(tip),
            _ => p,
        };
        let legacy = matches!(u, UnsignedTransaction::Legacy(_));
        let i = 1 + g.below(4) as u8;
        let tx = sign(u, if legacy && g.below(3) == 0 { None } else { Some(CHAIN) }, &[i; 32]);
        let mut raw = tx.transaction.encode().map_err(e)?.to_vec();
        let mut spoilt = false;
        match g.below(8) {
            0 => {
                // no signature a key made
                let mut t = tx.transaction.clone();
                let mut s = t.signature.clone().unwrap();
                s.r = Bytes::from(vec![0xff; 32]);
                t.signature = Some(s);
                raw = t.encode().map_err(e)?.to_vec();
                spoilt = true;
            }
            1 => {
                raw.truncate(g.usize(0, raw.len() - 1));
                spoilt = true;
            }
            _ => (),
        }
        let refuse = g.below(6) == 0;
        n.pool.0.lock().unwrap().refuse = if refuse { Some("full".into()) } else { None };
        let got = n.ask(g, "eth_sendRawTransaction", json!([hex(&raw)]))?;
        let came = std::mem::take(&mut n.pool.0.lock().unwrap().inserted);
        let ok = !spoilt && !p.is_zero() && p <= MAX_GAS_PRICE && limit >= 21_000u64.into() && limit <= n.cap.into();
        if ok && !refuse {
            check_eq!(got, Ok(hash(&tx.transaction.hash)), "accepted", "a transaction within the limits");
            check_eq!(came, vec![tx.clone()], "handed-on", "what the pool is given");
            check_eq!(came[0].sender, n.w.users[i as usize - 1], "sender", "sender of the transaction");
            g.hit();
        } else {
            check!(got.is_err(), "not-refused", "price {}, limit {}, cap {}, spoilt {}, pool full {}: {:?}", p, limit, n.cap, spoilt, refuse, got);
            check!(came.is_empty(), "handed-on-anyway", "the pool is given a refused transaction");
            g.label_if(ok, "refused by the pool");
        }
    }
    Ok(())
}

fn fee_history(g: &mut Gen) -> Res {
    let mut n = Node::new(g, true)?;
    grow(g, &mut n, 5)?;
    let last = n.latest();
    for _ in 0..g.usize(1, 5) {
        let count = *g.pick(&[0u64, 1, 1, 2, 3, 5, 1024, 2000]);
        let (newest, id) = match g.below(6) {
            0 => (last, json!("latest")),
            1 => (last, json!("pending")),
            2 => (0, json!("earliest")),
            _ => {
                let x = g.usize(0, last);
                (x, q(x))
            }
        };
        let mut ps: Option<Vec<f64>> = None;
        let mut bad = false;
        let mut p = vec![if g.bool() { json!(count) } else { q(count) }, id.clone()];
        if g.bool() {
            let v: Vec<f64> = (0..g.usize(0, 3)).map(|_| *g.pick(&[-1.0, 0.0, 0.5, 10.0, 50.0, 100.0, 100.5, 1e300])).collect();
            bad = v.windows(2).any(|w| w[0] >= w[1]) || v.iter().any(|x| !(0.0..=100.0).contains(x));
            p.push(json!(v));
            ps = Some(v);
        }
        let got = n.ask(g, "eth_feeHistory", json!(p))?;
        if bad {
            check!(got.is_err(), "percentiles", "the percentiles {:?} are taken: {:?}", ps, got);
            continue;
        }
        let v = got.map_err(|x| fail("refused", format!("fee history {:?} is refused: {:?}", p, x)))?;
        let what = format!("fee history {:?} of {} blocks", p, last + 1);
        if count == 0 {
            check_eq!(v["oldestBlock"], q(0), "oldest", "{}", what);
            continue;
        }
        let oldest = (newest + 1).saturating_sub(count.min(1024) as usize);
        check_eq!(v["oldestBlock"], q(oldest), "oldest", "{}", what);
        let blocks = &n.snaps[oldest..=newest];
        check_eq!(v["baseFeePerGas"], json!(vec![q(BASE_FEE_PER_GAS); blocks.len() + 1]), "base-fees", "{}", what);
        let r = v["gasUsedRatio"].as_array().cloned().unwrap_or_default();
        check_eq!(r.len(), blocks.len(), "ratios", "{}: number of ratios", what);
        for (x, s) in r.iter().zip(blocks) {
            let h = &s.block.header;
            let want = if h.gas_limit.is_zero() { 0.0 } else { h.gas_used.as_u64() as f64 / h.gas_limit.as_u64() as f64 };
            let x = x.as_f64().unwrap_or(-1.0);
            check!((x - want).abs() <= want.abs() * 1e-9, "ratio", "{}: ratio {} of block {} instead of {}", what, x, h.number, want);
        }
        if let Some(ps) = ps.filter(|p| !p.is_empty()) {
            let r = v["reward"].as_array().cloned().unwrap_or_default();
            check_eq!(r.len(), blocks.len(), "rewards", "{}: number of rewards", what);
            for x in &r {
                check_eq!(x.as_array().map(|x| x.len()), Some(ps.len()), "rewards", "{}: rewards of a block", what);
            }
        } else {
            check!(v.get("reward").is_none(), "rewards", "{}: rewards nobody asked for", what);
        }
        if blocks.len() > 1 {
            g.hit();
        }
    }
    Ok(())
}

/// Any request gets an answer, and the service goes on.
fn any_request(g: &mut Gen) -> Res {
    let mut n = Node::new(g, true)?;
    grow(g, &mut n, 2)?;
    let f = n.get(g, "eth_newBlockFilter", json!([]))?;
    let names: Vec<&'static str> = {
        let mut v: Vec<_> = n.http.method_names().collect();
        v.sort();
        v
    };
    for _ in 0..g.usize(3, 20) {
        let m = *g.pick(&names);
        if m == "axon_pprof" || m.contains("pprof") {
            continue;
        }
        let p: Vec<Value> = (0..g.usize(0, 4)).map(|_| any_json(g, &n, 0)).collect();
        let _ = n.ask(g, m, json!(p))?;
    }
    g.hit();
    n.commit(g)?;
    let v = n.get(g, "eth_getFilterChanges", json!([f]))?;
    check_eq!(v, json!([hash(&n.snaps.last().unwrap().block.hash())]), "filters-gone", "new blocks");
    let v = n.get(g, "eth_blockNumber", json!([]))?;
    check_eq!(v, q(n.latest()), "height", "block number");
    Ok(())
}

fn any_json(g: &mut Gen, n: &Node, depth: u32) -> Value {
    match g.below(if depth > 1 { 12 } else { 15 }) {
        0 => q(g.below(10)),
        1 => q(gens::u256(g)),
        2 => q(g.u64()),
        3 => hash(&n.snaps[g.usize(0, n.latest())].block.hash()),
        4 => {
            let s = &n.snaps[g.usize(0, n.latest())];
            s.txs.first().map(|t| hash(&t.transaction.hash)).unwrap_or(Value::Null)
        }
        5 => addr(&account(g, n)),
        6 => addr(&exec::sys(g.below(5) as u8)),
        7 => json!(*g.pick(&["latest", "pending", "earliest", "", "0x", "x"])),
        8 => json!(g.bool()),
        9 => Value::Null,
        10 => hex(&g.bytes(70)),
        11 => json!(g.u64()),
        12 => json!((0..g.usize(0, 3)).map(|_| any_json(g, n, depth + 1)).collect::<Vec<_>>()),
        13 => n.block_id(g).1,
        _ => {
            let mut v = json!({});
            for _ in 0..g.usize(0, 4) {
                let k = *g.pick(&["from", "to", "gas", "gasPrice", "value", "data", "fromBlock", "toBlock", "address", "topics", "blockHash", "blockNumber", "maxFeePerGas", "nonce", "tx_hash", "index", "chainId"]);
                v[k] = any_json(g, n, depth + 1);
            }
            v
        }
    }
}

fn about(g: &mut Gen) -> Res {
    let mut n = Node::new(g, true)?;
    let v = n.get(g, "eth_chainId", json!([]))?;
    check_eq!(v, q(CHAIN), "chain", "chain");
    let v = n.get(g, "net_version", json!([]))?;
    check_eq!(v, json!(CHAIN.to_string()), "chain", "network");
    let v = n.get(g, "web3_clientVersion", json!([]))?;
    check_eq!(v, json!(n.version), "version", "version");
    let v = n.get(g, "net_peerCount", json!([]))?;
    check_eq!(v, q(n.peers), "peers", "peers");
    let d = g.bytes(100);
    let v = n.get(g, "web3_sha3", json!([hex(&d)]))?;
    check_eq!(v, hex(&refs::keccak(&d)), "sha3", "hash of {:?}", d);
    let (a, b, c) = (g.u64(), g.u64(), g.u64());
    let doing = g.bool();
    *SYNC_STATUS.write() = if doing { SyncStatus::Syncing { start: a.into(), current: b.into(), highest: c.into() } } else { SyncStatus::False };
    let v = n.ask(g, "eth_syncing", json!([]))?;
    *SYNC_STATUS.write() = SyncStatus::False;
    if doing {
        g.hit();
        same(&v.unwrap_or_default(), &json!({ "startingBlock": q(a), "currentBlock": q(b), "highestBlock": q(c) }), "synchronization")?;
    } else {
        check_eq!(v, Ok(json!(false)), "syncing", "synchronization");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id:     "P39",
            rule:   "a chain with a block of more than one transaction",
            assume: vec!["the transport (jsonrpsee's server) is a stand-in that hands over JSON; its macros and types are the real ones", "blocks are stored as engine and synchronization store them, which P29 and P41 check"],
            facets: vec![
                Facet::new("history", 1200, |g: &mut Gen| history(g, true)).deep(60_000),
                Facet::new("history-before-andromeda", 400, |g: &mut Gen| history(g, false)).deep(10_000),
                Facet::new("ckb", 600, light_client).deep(10_000),
            ],
        },
        Prop { id: "P42", rule: "a chain with a block of more than one transaction", assume: vec![], facets: vec![Facet::new("state", 1500, state_queries).deep(60_000)] },
        Prop {
            id:     "P43",
            rule:   "logs that match, or new blocks of which a filter or subscriber is told",
            assume: vec!["the pauses between two polls of a filter stay under the 40 seconds after which it expires"],
            facets: vec![Facet::new("get-logs", 800, get_logs).deep(30_000), Facet::new("filters", 600, filters).deep(30_000), Facet::new("subscriptions", 600, subscriptions).deep(30_000).serial()],
        },
        Prop {
            id:     "P44",
            rule:   "an accepted transaction; a fee history over more than one block; requests with parameters of any shape",
            assume: vec![],
            facets: vec![
                Facet::new("send-raw-transaction", 800, send_raw).deep(30_000),
                Facet::new("fee-history", 500, fee_history).deep(20_000),
                Facet::new("any-request", 500, any_request).deep(30_000),
                Facet::new("about", 200, about).deep(2_000).serial(),
            ],
        },
    ]
}
