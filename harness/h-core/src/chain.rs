//! P29, P40, P41: nodes that follow one chain: proposals, commits, restarts, crashes, synchronization.
//!
//! Each node is the real consensus engine, synchronization, adapter, storage, tries and executor; the
//! pool and the network are stand-ins, and the data base can stop writing at any step. What the chain
//! must be is kept by a replica that only executes the agreed proposals.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::sync::{Arc, Mutex, OnceLock};

use common_crypto::{BlsPrivateKey, BlsPublicKey, PrivateKey as _, PublicKey as _, Secp256k1PrivateKey, Signature as _, ToBlsPublicKey, ToPublicKey};
use common_merkle::TrieMerkle;
use core_consensus::engine::{generate_new_crypto_map, ConsensusEngine};
use core_consensus::message::{PullBlockRpcHandler, PullProofRpcHandler, PullTxsRequest, PullTxsRpcHandler};
use core_consensus::status::{CurrentStatus, StatusAgent};
use core_consensus::stop_signal::StopSignal;
use core_consensus::util::OverlordCrypto;
use core_consensus::{ConsensusWal, OverlordConsensusAdapter, OverlordSynchronization, SignedTxsWAL};
use core_db::MemoryAdapter;
use core_executor::{system_contract, AxonExecutor, AxonExecutorApplyAdapter, AxonExecutorReadOnlyAdapter, MetadataHandle, RocksTrieDB, HARDFORK_INFO};
use core_network::{PeerId, PeerIdExt};
use core_storage::ImplStorage;
use overlord::types::{AggregatedSignature, Commit, Node as Authority, Status, Vote, VoteType};
use overlord::{Consensus as Engine, Crypto, DurationConfig, Overlord};
use pbt::{check, check_eq, fail, Facet, Gen, Prop, Res, Stop};
use protocol::codec::ProtocolCodec;
use protocol::constants::endpoints::*;
use protocol::constants::{BASE_FEE_PER_GAS, MAX_BLOCK_GAS_LIMIT};
use protocol::lazy::CHAIN_ID;
use protocol::tokio::sync::Mutex as AsyncMutex;
use protocol::traits::*;
use protocol::types::*;
use protocol::{async_trait, ProtocolError, ProtocolErrorKind, ProtocolResult};

use crate::exec::{e, native, runtime, shared_db, sys};
use core_executor::system_contract::metadata::metadata_abi as mabi;
use ethers::abi::AbiEncode;
use crate::util::*;

const CHAIN: u64 = 2022;
/// Where the tests' hard forks come into force: never.
const FAR: u64 = 1_000_000;

fn refused(s: &str) -> ProtocolError {
    ProtocolError::new(ProtocolErrorKind::Network, Box::new(std::io::Error::new(std::io::ErrorKind::Other, s.to_string())))
}

// ---------------------------------------------------------------- stand-ins

/// A data base that stops writing after some number of writes, as when the process dies.
struct Disk {
    db:   Arc<MemoryAdapter>,
    left: Arc<AtomicI64>,
}

impl Disk {
    fn dead(&self) -> bool {
        self.left.fetch_sub(1, SeqCst) <= 0
    }
}

impl StorageAdapter for Disk {
    fn insert<S: StorageSchema>(&self, key: S::Key, val: S::Value) -> ProtocolResult<()> {
        if self.dead() {
            return Ok(());
        }
        self.db.insert::<S>(key, val)
    }

    fn get<S: StorageSchema>(&self, key: S::Key) -> ProtocolResult<Option<S::Value>> {
        self.db.get::<S>(key)
    }

    fn get_batch<S: StorageSchema>(&self, keys: Vec<S::Key>) -> ProtocolResult<Vec<Option<S::Value>>> {
        self.db.get_batch::<S>(keys)
    }

    fn remove<S: StorageSchema>(&self, key: S::Key) -> ProtocolResult<()> {
        if self.dead() {
            return Ok(());
        }
        self.db.remove::<S>(key)
    }

    fn contains<S: StorageSchema>(&self, key: S::Key) -> ProtocolResult<bool> {
        self.db.contains::<S>(key)
    }

    fn batch_modify<S: StorageSchema>(&self, keys: Vec<S::Key>, vals: Vec<StorageBatchModify<S>>) -> ProtocolResult<()> {
        if self.dead() {
            return Ok(());
        }
        self.db.batch_modify::<S>(keys, vals)
    }

    fn prepare_iter<'a, 'b: 'a, S: StorageSchema + 'static, P: AsRef<[u8]> + 'a>(&'b self, prefix: &'a P) -> ProtocolResult<Box<dyn IntoIteratorByRef<S> + 'a>> {
        self.db.prepare_iter::<S, P>(prefix)
    }
}

type Store = ImplStorage<Disk>;

#[derive(Default)]
struct PoolIn {
    txs:      BTreeMap<Hash, SignedTransaction>,
    /// what can be had from other nodes
    far:      BTreeMap<Hash, SignedTransaction>,
    plan:     Vec<Hash>,
    scripts:  u32,
    packaged: Vec<(U256, u64)>,
    flushed:  Vec<(Vec<Hash>, u64)>,
    args:     Vec<(H256, u64, u64)>,
}

#[derive(Default)]
struct Pool(Mutex<PoolIn>);

#[async_trait]
impl MemPool for Pool {
    async fn insert(&self, _: Context, _: SignedTransaction) -> ProtocolResult<()> {
        panic!("insert")
    }

    async fn contains(&self, _: Context, _: &Hash) -> bool {
        panic!("contains")
    }

    async fn package(&self, _: Context, gas: U256, num: u64) -> ProtocolResult<PackedTxHashes> {
        let mut p = self.0.lock().unwrap();
        p.packaged.push((gas, num));
        Ok(PackedTxHashes { hashes: p.plan.clone(), call_system_script_count: p.scripts })
    }

    async fn flush(&self, _: Context, hashes: &[Hash], number: BlockNumber) -> ProtocolResult<()> {
        let mut p = self.0.lock().unwrap();
        for h in hashes {
            p.txs.remove(h);
        }
        p.flushed.push((hashes.to_vec(), number));
        Ok(())
    }

    async fn get_full_txs(&self, _: Context, _: Option<u64>, hashes: &[Hash]) -> ProtocolResult<Vec<SignedTransaction>> {
        let p = self.0.lock().unwrap();
        hashes.iter().map(|h| p.txs.get(h).cloned().ok_or_else(|| refused("unknown transaction"))).collect()
    }

    async fn ensure_order_txs(&self, _: Context, _: Option<u64>, hashes: &[Hash]) -> ProtocolResult<()> {
        let mut p = self.0.lock().unwrap();
        if hashes.iter().collect::<BTreeSet<_>>().len() != hashes.len() {
            return Err(refused("duplicate"));
        }
        for h in hashes {
            if !p.txs.contains_key(h) {
                let t = p.far.get(h).cloned().ok_or_else(|| refused("not to be had"))?;
                p.txs.insert(*h, t);
            }
        }
        Ok(())
    }

    async fn get_tx_count_by_address(&self, _: Context, _: H160) -> ProtocolResult<(usize, Option<BlockNumber>)> {
        panic!("count")
    }

    fn get_tx_from_mem(&self, _: Context, h: &Hash) -> Option<SignedTransaction> {
        self.0.lock().unwrap().txs.get(h).cloned()
    }

    fn set_args(&self, _: Context, root: MerkleRoot, gas: u64, size: u64) {
        self.0.lock().unwrap().args.push((root, gas, size));
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum What {
    Block,
    Proof,
    Txs,
}

/// A wrong answer to one request.
#[derive(Clone, Debug)]
struct Lie {
    what:   What,
    number: u64,
    kind:   u64,
    arg:    u64,
    other:  Vec<Bytes>,
}

#[derive(Default)]
struct Wire {
    server:   usize,
    lie:      Option<Lie>,
    told:     bool,
    /// endpoint, message, to whom
    sent:     Vec<(String, Vec<u8>, Option<Vec<Bytes>>)>,
    tagged:   Vec<Vec<Bytes>>,
}

#[derive(Clone)]
struct Net {
    wire:  Arc<Mutex<Wire>>,
    peers: Arc<Mutex<Vec<Arc<Store>>>>,
}

/// Takes the answer of a request's handler.
#[derive(Default)]
struct Reply(Mutex<Option<(String, Result<Bytes, String>)>>);

#[async_trait]
impl Rpc for Reply {
    async fn call<M: MessageCodec, R: MessageCodec>(&self, _: Context, _: &str, _: M, _: Priority) -> ProtocolResult<R> {
        panic!("call")
    }

    async fn response<M: MessageCodec>(&self, _: Context, end: &str, ret: ProtocolResult<M>, _: Priority) -> ProtocolResult<()> {
        let r = match ret {
            Ok(mut m) => Ok(m.encode_msg()?),
            Err(x) => Err(x.to_string()),
        };
        let mut s = self.0.lock().unwrap();
        assert!(s.is_none(), "two answers");
        *s = Some((end.to_string(), r));
        Ok(())
    }
}

/// What a node answers to a request.
async fn serve(storage: &Arc<Store>, end: &str, msg: Bytes) -> Result<Bytes, String> {
    let r = Arc::new(Reply::default());
    let c = Context::new();
    let want = match end {
        RPC_SYNC_PULL_BLOCK => {
            PullBlockRpcHandler::new(Arc::clone(&r), Arc::clone(storage)).process(c, BlockNumber::decode_msg(msg).unwrap()).await;
            RPC_RESP_SYNC_PULL_BLOCK
        }
        RPC_SYNC_PULL_PROOF => {
            PullProofRpcHandler::new(Arc::clone(&r), Arc::clone(storage)).process(c, BlockNumber::decode_msg(msg).unwrap()).await;
            RPC_RESP_SYNC_PULL_PROOF
        }
        RPC_SYNC_PULL_TXS => {
            PullTxsRpcHandler::new(Arc::clone(&r), Arc::clone(storage)).process(c, PullTxsRequest::decode_msg(msg).unwrap()).await;
            RPC_RESP_SYNC_PULL_TXS
        }
        _ => panic!("request to {end}"),
    };
    let (at, res) = r.0.lock().unwrap().take().expect("no answer");
    assert_eq!(at, want);
    res
}

fn flip(h: &Hash, arg: u64) -> Hash {
    let mut h = *h;
    h.0[(arg % 32) as usize] ^= 1 << (arg / 32 % 8);
    h
}

/// Changes an answer so that it is wrong.
fn tamper(l: &Lie, bytes: Bytes) -> Result<Bytes, String> {
    if l.kind == 0 {
        return Err("no answer".to_string());
    }
    match l.what {
        What::Block => {
            let mut b = Block::decode(&bytes).unwrap();
            if l.kind == 1 && !l.other.is_empty() {
                return Ok(l.other[(l.arg % l.other.len() as u64) as usize].clone());
            }
            let h = &mut b.header;
            match l.kind {
                2 => h.prev_hash = flip(&h.prev_hash, l.arg),
                3 => h.proposer.0[(l.arg % 20) as usize] ^= 1,
                4 => h.state_root = flip(&h.state_root, l.arg),
                5 => h.transactions_root = flip(&h.transactions_root, l.arg),
                6 => h.signed_txs_hash = flip(&h.signed_txs_hash, l.arg),
                7 => h.receipts_root = flip(&h.receipts_root, l.arg),
                8 => h.log_bloom.0[(l.arg % 256) as usize] ^= 1 << (l.arg / 256 % 8),
                9 => h.timestamp = h.timestamp.wrapping_add(l.arg % 7).wrapping_sub(8),
                10 => h.number ^= 1 << (l.arg % 8),
                11 => h.gas_used = (h.gas_used.low_u64() ^ (1 << (l.arg % 32))).into(),
                12 => h.gas_limit = (h.gas_limit.low_u64() ^ (1 << (l.arg % 32))).into(),
                13 => h.extra_data.push(ExtraData { inner: Bytes::from_static(b"more") }),
                14 => h.base_fee_per_gas = (h.base_fee_per_gas.low_u64() ^ (1 << (l.arg % 60))).into(),
                15 => h.proof.round ^= 1 << (l.arg % 8),
                16 => h.proof.signature = Bytes::from(vec![l.arg as u8; 96]),
                17 => h.call_system_script_count ^= 1 << (l.arg % 8),
                18 => h.chain_id ^= 1 << (l.arg % 60),
                19 => b.tx_hashes.push(flip(&Hash::zero(), l.arg)),
                20 if !b.tx_hashes.is_empty() => {
                    let n = b.tx_hashes.len();
                    b.tx_hashes.remove(l.arg as usize % n);
                }
                21 if b.tx_hashes.len() > 1 => {
                    let n = b.tx_hashes.len();
                    b.tx_hashes.swap(l.arg as usize % n, (l.arg as usize + 1) % n);
                }
                22 if !b.tx_hashes.is_empty() => {
                    let n = b.tx_hashes.len();
                    let t = b.tx_hashes[l.arg as usize % n];
                    b.tx_hashes.push(t);
                }
                23 => h.proof.number ^= 1,
                24 => h.proof.block_hash = flip(&h.proof.block_hash, l.arg),
                25 => h.version = BlockVersion::V0,
                _ => h.proof.bitmap = Bytes::new(),
            }
            Ok(b.encode().unwrap())
        }
        What::Proof => {
            let mut p = Proof::decode(&bytes).unwrap();
            match l.kind % 8 {
                1 if !l.other.is_empty() => return Ok(l.other[(l.arg % l.other.len() as u64) as usize].clone()),
                2 => p.round ^= 1 << (l.arg % 8),
                3 => p.block_hash = flip(&p.block_hash, l.arg),
                4 => p.signature = Bytes::from(vec![l.arg as u8; 96]),
                5 => {
                    let mut b = p.bitmap.to_vec();
                    b[0] ^= 0x80;
                    p.bitmap = b.into();
                }
                6 => p.number ^= 1 << (l.arg % 8),
                7 => {
                    let mut s = p.signature.to_vec();
                    let n = s.len();
                    s[l.arg as usize % n] ^= 1;
                    p.signature = s.into();
                }
                _ => p.bitmap = Bytes::new(),
            }
            Ok(p.encode().unwrap())
        }
        What::Txs => {
            let mut t = BatchSignedTxs::decode_msg(bytes).unwrap().inner();
            let n = t.len() as u64;
            match l.kind % 7 {
                1 if n > 0 => {
                    t.remove((l.arg % n) as usize);
                }
                2 if n > 0 => {
                    let x = t[(l.arg % n) as usize].clone();
                    t.push(x);
                }
                3 if !l.other.is_empty() => {
                    let x = BatchSignedTxs::decode_msg(l.other[(l.arg % l.other.len() as u64) as usize].clone()).unwrap().inner();
                    if l.arg % 2 == 0 && n > 0 {
                        t.pop();
                    }
                    t.extend(x);
                }
                4 if n > 0 => t[(l.arg % n) as usize].sender.0[3] ^= 1,
                5 if n > 0 => t[(l.arg % n) as usize].transaction.hash.0[3] ^= 1,
                6 if n > 0 => {
                    // an answer of nothing (the order of the right ones does not matter)
                    t.clear();
                }
                _ => return Ok(Bytes::from_static(b"\xc5garba")),
            }
            BatchSignedTxs::new(t).encode_msg().map_err(|x| x.to_string())
        }
    }
}

#[async_trait]
impl Rpc for Net {
    async fn call<M: MessageCodec, R: MessageCodec>(&self, _: Context, end: &str, mut msg: M, _: Priority) -> ProtocolResult<R> {
        let msg = msg.encode_msg()?;
        let (server, lie) = {
            let w = self.wire.lock().unwrap();
            (Arc::clone(&self.peers.lock().unwrap()[w.server]), w.lie.clone())
        };
        let mut res = serve(&server, end, msg.clone()).await;
        if let (Some(l), Ok(b)) = (lie, &res) {
            let (what, number) = match end {
                RPC_SYNC_PULL_BLOCK => (What::Block, BlockNumber::decode_msg(msg)?),
                RPC_SYNC_PULL_PROOF => (What::Proof, BlockNumber::decode_msg(msg)?),
                _ => (What::Txs, PullTxsRequest::decode_msg(msg)?.height),
            };
            if l.what == what && l.number == number {
                let new = tamper(&l, b.clone());
                if new.as_ref() != Ok(b) {
                    self.wire.lock().unwrap().told = true;
                }
                res = new;
            }
        }
        match res {
            Ok(b) => R::decode_msg(b),
            Err(x) => Err(refused(&x)),
        }
    }

    async fn response<M: MessageCodec>(&self, _: Context, _: &str, _: ProtocolResult<M>, _: Priority) -> ProtocolResult<()> {
        panic!("response")
    }
}

#[async_trait]
impl Gossip for Net {
    async fn broadcast<M: MessageCodec>(&self, _: Context, end: &str, mut msg: M, _: Priority) -> ProtocolResult<()> {
        self.wire.lock().unwrap().sent.push((end.to_string(), msg.encode_msg()?.to_vec(), None));
        Ok(())
    }

    async fn gossip<M: MessageCodec>(&self, _: Context, _: Option<usize>, _: &str, _: M, _: Priority) -> ProtocolResult<()> {
        panic!("gossip")
    }

    async fn multicast<'a, M: MessageCodec, P: AsRef<[Bytes]> + Send + 'a>(&self, _: Context, end: &str, peers: P, mut msg: M, _: Priority) -> ProtocolResult<()> {
        self.wire.lock().unwrap().sent.push((end.to_string(), msg.encode_msg()?.to_vec(), Some(peers.as_ref().to_vec())));
        Ok(())
    }
}

impl PeerTrust for Net {
    fn report(&self, _: Context, _: TrustFeedback) {}
}

impl Network for Net {
    fn tag(&self, _: Context, _: Bytes, _: PeerTag) -> ProtocolResult<()> {
        panic!("tag")
    }

    fn untag(&self, _: Context, _: Bytes, _: &PeerTag) -> ProtocolResult<()> {
        panic!("untag")
    }

    fn tag_consensus(&self, _: Context, ids: Vec<Bytes>) -> ProtocolResult<()> {
        self.wire.lock().unwrap().tagged.push(ids);
        Ok(())
    }

    fn peer_count(&self, _: Context) -> ProtocolResult<usize> {
        panic!("count")
    }
}

// ---------------------------------------------------------------- validators

struct Val {
    sk:   [u8; 32],
    pk:   Bytes,
    addr: H160,
    bls:  BlsPrivateKey,
    bpk:  BlsPublicKey,
}

fn vals() -> &'static [Val] {
    static V: OnceLock<Vec<Val>> = OnceLock::new();
    V.get_or_init(|| {
        (0..6u8)
            .map(|i| {
                let sk = [0x41 + i; 32];
                let pk = Secp256k1PrivateKey::try_from(sk.as_slice()).unwrap().pub_key().to_bytes();
                let bls = BlsPrivateKey::try_from([0x21 + i; 32].as_slice()).unwrap();
                let bpk = bls.pub_key(&String::new());
                Val { sk, pk, addr: address(&sk), bls, bpk }
            })
            .collect()
    })
}

fn notary() -> &'static OverlordCrypto {
    static N: OnceLock<OverlordCrypto> = OnceLock::new();
    N.get_or_init(|| {
        let m = vals().iter().map(|v| (v.pk.clone(), v.bpk.clone())).collect();
        OverlordCrypto::new(vals()[0].bls.clone(), m, String::new())
    })
}

// ---------------------------------------------------------------- nodes

type Ad = OverlordConsensusAdapter<Pool, Net, Store, RocksTrieDB>;
type Eng = ConsensusEngine<Ad>;

/// What is lost when the process ends.
struct Live {
    storage:   Arc<Store>,
    trie:      Arc<RocksTrieDB>,
    status:    StatusAgent,
    crypto:    Arc<OverlordCrypto>,
    pool:      Arc<Pool>,
    engine:    Arc<Eng>,
    sync:      OverlordSynchronization<Ad>,
    adapter:   Arc<Ad>,
    info:      NodeInfo,
    _overlord: Overlord<Proposal, Eng, OverlordCrypto, Eng>,
    _stop:     protocol::tokio::sync::oneshot::Receiver<()>,
}

struct Node {
    me:    usize,
    dir:   Dir,
    db:    Arc<rocksdb::DB>,
    disk:  Arc<MemoryAdapter>,
    left:  Arc<AtomicI64>,
    net:   Net,
    /// the last block it has
    at:    u64,
    hf:    Option<HardforkInfoInner>,
    live:  Live,
}

/// The chain as it was agreed.
#[derive(Default)]
struct Chain {
    blocks:   Vec<Block>,
    receipts: Vec<Vec<Receipt>>,
    txs:      Vec<Vec<SignedTransaction>>,
    proofs:   Vec<Proof>,
    cfg:      Vec<ConsensusConfig>,
    forks:    Vec<HardforkInfoInner>,
}

struct Sim {
    epochs:  Vec<Metadata>,
    chain:   Chain,
    replica: (Arc<ImplStorage<MemoryAdapter>>, Arc<RocksTrieDB>),
    nodes:   Vec<Node>,
    peers:   Arc<Mutex<Vec<Arc<Store>>>>,
    users:   Vec<[u8; 32]>,
    nonce:   u64,
    made:    Vec<H160>,
    _dir:    Dir,
}

fn disk_of(db: &Arc<MemoryAdapter>, left: &Arc<AtomicI64>) -> Arc<Disk> {
    left.store(i64::MAX, SeqCst);
    Arc::new(Disk { db: Arc::clone(db), left: Arc::clone(left) })
}

impl Sim {
    fn meta(&self, number: u64) -> &Metadata {
        self.epochs.iter().find(|m| number <= m.version.end).expect("an epoch")
    }

    fn top(&self) -> u64 {
        self.chain.blocks.len() as u64 - 1
    }

    fn limits(&self, at: u64) -> &ConsensusConfig {
        &self.chain.cfg[at as usize]
    }

    /// Starts a node, as core/run does.
    fn start(&self, g: &mut Gen, me: usize, dir: &Dir, db: &Arc<rocksdb::DB>, disk: &Arc<MemoryAdapter>, left: &Arc<AtomicI64>, net: &Net, hf: &Option<HardforkInfoInner>) -> Result<Live, Stop> {
        let trie = Arc::new(RocksTrieDB::new_evm(Arc::clone(db), *g.pick(&[1usize, 7, 1000])));
        let storage = Arc::new(ImplStorage::new(disk_of(disk, left), *g.pick(&[1usize, 3, 20])));
        let block = block_on(storage.get_latest_block(Context::new())).map_err(e)?;
        let root = AxonExecutorReadOnlyAdapter::from_root(block.header.state_root, Arc::clone(&trie), Arc::clone(&storage), Proposal::new_without_state_root(&block.header).into()).map_err(e)?.get_metadata_root();
        let meta = MetadataHandle::new(root).get_metadata_by_block_number(block.header.number + 1).map_err(e)?;
        let crypto = Arc::new(OverlordCrypto::new(vals()[me].bls.clone(), generate_new_crypto_map(meta.clone()).map_err(e)?, String::new()));
        let status = StatusAgent::new(CurrentStatus {
            prev_hash:       block.hash(),
            last_number:     block.header.number,
            last_state_root: block.header.state_root,
            tx_num_limit:    meta.consensus_config.tx_num_limit,
            max_tx_size:     meta.consensus_config.max_tx_size.into(),
            proof:           block_on(storage.get_latest_proof(Context::new())).map_err(e)?,
        });
        let pool = Arc::new(Pool::default());
        let adapter = Arc::new(OverlordConsensusAdapter::new(Arc::new(net.clone()), Arc::clone(&pool), Arc::clone(&storage), Arc::clone(&trie), Arc::clone(&crypto)).map_err(e)?);
        let lock = Arc::new(AsyncMutex::new(()));
        let (tx, stop) = protocol::tokio::sync::oneshot::channel();
        let key = Secp256k1PrivateKey::try_from(vals()[me].sk.as_slice()).unwrap().pub_key();
        let info = NodeInfo::new(CHAIN, key, hf.clone());
        let engine = Arc::new(ConsensusEngine::new(
            status.clone(),
            info.clone(),
            Arc::new(SignedTxsWAL::new(dir.0.join("txs"))),
            Arc::clone(&adapter),
            Arc::clone(&crypto),
            Arc::clone(&lock),
            Arc::new(ConsensusWal::new(dir.0.join("wal"))),
            StopSignal::new(tx),
        ));
        let overlord = Overlord::new(vals()[me].pk.clone(), Arc::clone(&engine), Arc::clone(&crypto), Arc::clone(&engine));
        adapter.set_overlord_handler(overlord.get_handler());
        let sync = OverlordSynchronization::new(*g.pick(&[1usize, 2, 5000]), Arc::clone(&adapter), status.clone(), lock);
        let mut p = self.peers.lock().unwrap();
        while p.len() <= me {
            p.push(Arc::clone(&storage));
        }
        p[me] = Arc::clone(&storage);
        Ok(Live { storage, trie, status, crypto, pool, engine, sync, adapter, info, _overlord: overlord, _stop: stop })
    }

    fn restart(&mut self, g: &mut Gen, i: usize) -> Res {
        let n = &self.nodes[i];
        let live = self.start(g, i, &n.dir, &n.db, &n.disk, &n.left, &n.net, &n.hf)?;
        *live.info.hardfork_proposals.write().unwrap() = block_on(live.storage.hardfork_proposal(Context::new())).map_err(e)?;
        self.nodes[i].live = live;
        Ok(())
    }

    /// The block a proposal becomes, and its receipts.
    fn run(&self, p: &Proposal, txs: &[SignedTransaction]) -> Result<(Block, Vec<Receipt>), Stop> {
        let root = self.chain.blocks.last().unwrap().header.state_root;
        let mut b = AxonExecutorApplyAdapter::from_root(root, Arc::clone(&self.replica.1), Arc::clone(&self.replica.0), p.clone().into()).map_err(e)?;
        let resp = runtime().block_on(async { AxonExecutor.exec(&mut b, txs, &self.meta(p.number).verifier_list) });
        let block = Block::new(p.clone(), resp.clone());
        let (receipts, _) = block.generate_receipts_and_logs(txs, &resp);
        Ok((block, receipts))
    }

    fn authority(&self, number: u64) -> Vec<Authority> {
        let mut v: Vec<_> = self
            .meta(number)
            .verifier_list
            .iter()
            .map(|v| Authority { address: v.pub_key.as_bytes(), propose_weight: v.propose_weight, vote_weight: v.vote_weight })
            .collect();
        v.sort_by(|a, b| a.address.cmp(&b.address));
        v
    }

    /// Signs with these validators (indices in the sorted list of that height).
    fn prove(&self, number: u64, round: u64, hash: &Hash, who: &[usize]) -> Proof {
        let nodes = self.authority(number);
        let vote = Vote { height: number, round, vote_type: VoteType::Precommit, block_hash: Bytes::from(hash.0.to_vec()) };
        let digest = common_crypto::HashValue::from_bytes_unchecked(refs::keccak(&rlp::encode(&vote)));
        let mut bits = vec![0u8; (nodes.len() + 7) / 8];
        let mut sigs = vec![];
        let mut voters = vec![];
        for i in who {
            bits[i / 8] |= 0x80 >> (i % 8);
            let v = vals().iter().find(|v| v.pk == nodes[*i].address).unwrap();
            sigs.push(v.bls.sign_message(&digest).to_bytes());
            voters.push(v.pk.clone());
        }
        let signature = if sigs.is_empty() { Bytes::from(vec![0xc0; 96]) } else { notary().aggregate_signatures(sigs, voters).unwrap() };
        Proof { number, round, block_hash: *hash, signature, bitmap: bits.into() }
    }

    /// Some validators of more than two thirds of the weight, or of no more than that.
    fn voters(&self, g: &mut Gen, number: u64, enough: bool) -> Option<Vec<usize>> {
        let nodes = self.authority(number);
        let total: u64 = nodes.iter().map(|n| n.vote_weight as u64).sum();
        let mut order: Vec<usize> = (0..nodes.len()).collect();
        g.shuffle(&mut order);
        let w = |s: &[usize]| s.iter().map(|i| nodes[*i].vote_weight as u64).sum::<u64>();
        let mut s = vec![];
        for i in order {
            if enough && 3 * w(&s) > 2 * total && g.bool() {
                break;
            }
            s.push(i);
            if !enough && 3 * w(&s) > 2 * total {
                s.pop();
                if g.bool() {
                    break;
                }
            }
        }
        s.sort_unstable();
        (enough == (3 * w(&s) > 2 * total)).then_some(s)
    }

    fn tx(&mut self, g: &mut Gen) -> SignedTransaction {
        self.nonce += 1;
        let k = g.below(8);
        // a contract that keeps what it is given and what it sees of the chain, and logs it
        let code: &[u8] = &[0x60, 0x01, 0x43, 0x03, 0x40, 0x60, 0x00, 0x55, 0x42, 0x60, 0x01, 0x55, 0x41, 0x60, 0x02, 0x55, 0x60, 0x00, 0x35, 0x60, 0x03, 0x54, 0x01, 0x60, 0x03, 0x55, 0x45, 0x60, 0x00, 0x52, 0x60, 0x20, 0x60, 0x00, 0xa0];
        let mut key = *g.pick(&self.users);
        let (action, value, data) = match k {
            0 | 1 => (TransactionAction::Call(address(g.pick(&self.users))), g.below(1000), vec![]),
            2 => {
                let mut init = vec![0x60, code.len() as u8, 0x80, 0x60, 0x0b, 0x60, 0x00, 0x39, 0x60, 0x00, 0xf3];
                init.extend_from_slice(code);
                (TransactionAction::Create, 0, init)
            }
            3 | 4 if !self.made.is_empty() => (TransactionAction::Call(*g.pick(&self.made)), 0, g.entropy(32)),
            5 => {
                key = vals()[g.usize(0, 5)].sk;
                let mut c = self.chain.cfg.last().unwrap().clone();
                c.tx_num_limit = 1 + g.below(100);
                c.max_tx_size = 1000 + g.below(100);
                (TransactionAction::Call(sys(1)), 0, mabi::UpdateConsensusConfigCall { config: c.into() }.encode())
            }
            6 => (TransactionAction::Call(native()), g.below(10), {
                let mut d = vec![g.below(2) as u8];
                d.extend_from_slice(&address(g.pick(&self.users)).0);
                d
            }),
            _ => (TransactionAction::Create, 0, vec![0x60, 0x00, 0x60, 0x00, 0xfd]),
        };
        let u = UnsignedTransaction::Legacy(LegacyTransaction { nonce: self.nonce.into(), gas_price: 1u64.into(), gas_limit: 400_000u64.into(), action, value: value.into(), data: data.into() });
        sign(u, Some(CHAIN), &key)
    }

    /// The node has exactly the chain up to where it is.
    fn look(&self, i: usize) -> Res {
        let n = &self.nodes[i];
        let l = &n.live;
        let c = &self.chain;
        let st = &l.storage;
        let cx = Context::new;
        let at = n.at as usize;
        check_eq!(block_on(st.get_latest_block(cx())).map_err(e)?, c.blocks[at], "latest-block", "node {} at {}: latest block", i, at);
        check_eq!(block_on(st.get_latest_block_header(cx())).map_err(e)?, c.blocks[at].header, "latest-header", "node {} at {}: latest header", i, at);
        check_eq!(block_on(st.get_latest_proof(cx())).map_err(e)?, c.proofs[at], "latest-proof", "node {} at {}: latest proof", i, at);
        for k in 0..=at {
            let b = &c.blocks[k];
            check_eq!(block_on(st.get_block(cx(), k as u64)).map_err(e)?, Some(b.clone()), "block", "node {} at {}: block {}", i, at, k);
            check_eq!(block_on(st.get_block_by_hash(cx(), &b.hash())).map_err(e)?, Some(b.clone()), "block-by-hash", "node {} at {}: block {}", i, at, k);
            let t = block_on(st.get_transactions(cx(), k as u64, &b.tx_hashes)).map_err(e)?;
            check_eq!(t, c.txs[k].iter().cloned().map(Some).collect::<Vec<_>>(), "transactions", "node {} at {}: transactions of block {}", i, at, k);
            let r = block_on(st.get_receipts(cx(), k as u64, &b.tx_hashes)).map_err(e)?;
            check_eq!(r, c.receipts[k].iter().cloned().map(Some).collect::<Vec<_>>(), "receipts", "node {} at {}: receipts of block {}", i, at, k);
        }
        check!(block_on(st.get_block(cx(), at as u64 + 1)).map_err(e)?.is_none(), "block-ahead", "node {} at {} has a block {}", i, at, at + 1);
        let s = l.status.inner();
        let limits = self.limits(n.at);
        check_eq!(s.prev_hash, c.blocks[at].hash(), "status", "node {} at {}: last block's hash", i, at);
        check_eq!(s.last_number, n.at, "status", "node {} at {}: last number", i, at);
        check_eq!(s.last_state_root, c.blocks[at].header.state_root, "status", "node {} at {}: state root", i, at);
        check_eq!(s.proof, c.proofs[at], "status", "node {} at {}: proof", i, at);
        check_eq!((s.tx_num_limit, s.max_tx_size), (limits.tx_num_limit, limits.max_tx_size.into()), "limits", "node {} at {}: number of transactions and their size", i, at);
        // it knows the validators of the next block
        let m = self.meta(n.at + 1);
        let hash = Bytes::from(vec![at as u8 + 1; 32]);
        let hv = common_crypto::HashValue::try_from(hash.as_ref()).unwrap();
        for v in vals() {
            let sig = v.bls.sign_message(&hv).to_bytes();
            let is = m.verifier_list.iter().any(|x| x.pub_key.as_bytes() == v.pk);
            let ok = l.crypto.verify_signature(sig, hash.clone(), v.pk.clone()).is_ok();
            check_eq!(ok, is, "validators-known", "node {} at {}: takes the vote of validator {}", i, at, v.addr);
        }
        Ok(())
    }

    /// The same for the answers it gives to others.
    fn served(&self, g: &mut Gen, i: usize) -> Res {
        let n = &self.nodes[i];
        let c = &self.chain;
        let ask = |end: &str, mut m: Bytes| {
            let m = std::mem::take(&mut m);
            block_on(serve(&n.live.storage, end, m))
        };
        let k = g.below(n.at + 3);
        let num = BlockNumber::from(k).encode_msg().unwrap();
        let has = k <= n.at;
        let b = ask(RPC_SYNC_PULL_BLOCK, num.clone());
        check_eq!(b.ok().map(|b| Block::decode(b).unwrap()), has.then(|| c.blocks[k as usize].clone()), "pull-block", "node {} at {} is asked for block {}", i, n.at, k);
        if k > 0 {
            let p = ask(RPC_SYNC_PULL_PROOF, num);
            check_eq!(p.ok().map(|b| Proof::decode(b).unwrap()), has.then(|| c.proofs[k as usize].clone()), "pull-proof", "node {} at {} is asked for the proof of block {}", i, n.at, k);
        }
        if has {
            let mut hs = c.blocks[k as usize].tx_hashes.clone();
            let mut want = c.txs[k as usize].clone();
            if g.bool() && !hs.is_empty() {
                let at = g.usize(0, hs.len() - 1);
                hs.remove(at);
                want.remove(at);
            }
            if g.chance(1, 4) {
                hs.push(flip(&Hash::zero(), g.u64()));
            }
            let m = PullTxsRequest::new(k, hs).encode_msg().unwrap();
            let t = ask(RPC_SYNC_PULL_TXS, m).map(|b| BatchSignedTxs::decode_msg(b).unwrap().inner());
            check_eq!(t, Ok(want), "pull-txs", "node {} at {} is asked for transactions of block {}", i, n.at, k);
        }
        Ok(())
    }
}

fn sim(g: &mut Gen, spread: bool) -> Result<Sim, Stop> {
    CHAIN_ID.swap(Arc::new(CHAIN));
    let flags = H256::from_low_u64_be(1u64.to_be());
    HARDFORK_INFO.swap(Arc::new(flags));
    let count = if spread { g.usize(2, 4) } else { g.usize(1, 3) };
    let mut epochs: Vec<Metadata> = vec![];
    let mut last = 0;
    for i in 0..6u64 {
        let end = last + g.usize(1, 5) as u64 + if i == 5 { 20 } else { 0 };
        let mut v: Vec<usize> = (0..6).collect();
        g.shuffle(&mut v);
        v.truncate(g.usize(1, 6));
        let verifier_list = v
            .into_iter()
            .map(|k| ValidatorExtend {
                bls_pub_key:    Hex::encode(vals()[k].bpk.to_bytes()),
                pub_key:        Hex::encode(&vals()[k].pk),
                address:        vals()[k].addr,
                propose_weight: 1 + g.below(3) as u32,
                // overlord adds them up in 32 bits
                vote_weight:    *g.pick(&[1u32, 1, 1, 2, 3, 5, 7, 700_000_000]),
            })
            .collect();
        let consensus_config = ConsensusConfig { gas_limit: 30_000_000, interval: g.below(2), propose_ratio: 15 + i, prevote_ratio: 10 + i, precommit_ratio: 20 + i, brake_ratio: 30 + i, tx_num_limit: 20 + g.below(9), max_tx_size: 409_600, max_contract_limit: 0x6000 };
        epochs.push(Metadata { version: MetadataVersion { start: last + 1, end }, epoch: i, verifier_list, propose_counter: vec![], consensus_config });
        last = end;
    }
    let users: Vec<[u8; 32]> = (1..=3u8).map(|i| [i; 32]).collect();
    let dir = Dir::new();
    let rdb = open(&dir.db()).inner_db();
    let rtrie = Arc::new(RocksTrieDB::new_evm(rdb, 1000));
    let rstore = Arc::new(ImplStorage::new(Arc::new(MemoryAdapter::new()), 20));
    let peers = Arc::new(Mutex::new(vec![]));
    let genesis = genesis(&epochs, &users, Arc::clone(&rtrie), Arc::clone(&rstore), flags)?;
    let cfg = config_at(&rtrie, &rstore, &genesis.0, 1)?;
    let mut s = Sim {
        epochs,
        chain: Chain { blocks: vec![genesis.0], receipts: vec![vec![]], txs: vec![vec![]], proofs: vec![Proof::default()], cfg: vec![cfg], forks: vec![] },
        replica: (rstore, rtrie),
        nodes: vec![],
        peers: Arc::clone(&peers),
        users,
        nonce: 0,
        made: vec![],
        _dir: dir,
    };
    let fork = HardforkInfoInner { block_number: FAR, flags: H256::from_low_u64_be(3u64.to_be()) };
    let forking = g.chance(1, 4);
    for me in 0..count {
        let dir = Dir::new();
        let db = open(&dir.db()).inner_db();
        let disk = Arc::new(MemoryAdapter::new());
        let left = Arc::new(AtomicI64::new(i64::MAX));
        {
            let trie = Arc::new(RocksTrieDB::new_evm(Arc::clone(&db), 100));
            let st = Arc::new(ImplStorage::new(Arc::clone(&disk), 20));
            let (b, _) = self::genesis(&s.epochs, &s.users, trie, Arc::clone(&st), flags)?;
            check_eq!(b, s.chain.blocks[0], "genesis", "genesis of node {}", me);
        }
        let net = Net { wire: Arc::default(), peers: Arc::clone(&peers) };
        let hf = (forking && g.below(3) != 0).then(|| fork.clone());
        if let Some(f) = &hf {
            let st = ImplStorage::new(Arc::clone(&disk), 20);
            block_on(st.set_hardfork_proposal(Context::new(), f.clone())).map_err(e)?;
        }
        let live = s.start(g, me, &dir, &db, &disk, &left, &net, &hf)?;
        s.nodes.push(Node { me, dir, db, disk, left, net, at: 0, hf, live });
    }
    Ok(s)
}

fn config_at<D: StorageAdapter>(trie: &Arc<RocksTrieDB>, st: &Arc<ImplStorage<D>>, b: &Block, number: u64) -> Result<ConsensusConfig, Stop> {
    let root = AxonExecutorReadOnlyAdapter::from_root(b.header.state_root, Arc::clone(trie), Arc::clone(st), Proposal::new_without_state_root(&b.header).into()).map_err(e)?.get_metadata_root();
    Ok(MetadataHandle::new(root).get_metadata_by_block_number(number).map_err(e)?.consensus_config)
}

/// As core/run makes it.
fn genesis(md: &[Metadata], users: &[[u8; 32]], trie: Arc<RocksTrieDB>, st: Arc<ImplStorage<MemoryAdapter>>, flags: H256) -> Result<(Block, ExecResp), Stop> {
    let mut b = Block::default();
    b.header.chain_id = CHAIN;
    b.header.timestamp = 7;
    b.header.base_fee_per_gas = BASE_FEE_PER_GAS.into();
    b.header.gas_limit = MAX_BLOCK_GAS_LIMIT.into();
    let mut a = AxonExecutorApplyAdapter::new(trie, Arc::clone(&st), Proposal::new_without_state_root(&b.header).into()).map_err(e)?;
    // the executor's current roots, which belong to the thread, become those of a new state
    let _ = pbt::no_panic(|| AxonExecutor.call(&a, 0, None, Some(H160::zero()), U256::zero(), vec![], false));
    for u in users.iter().chain(vals().iter().map(|v| &v.sk)) {
        a.save_account(&address(u), &Account { nonce: U256::zero(), balance: U256::exp10(24), storage_root: RLP_NULL, code_hash: NIL_DATA });
    }
    system_contract::init(shared_db(), &mut a, &md[..2], HardforkInfoInner { block_number: 0, flags }).map_err(e)?;
    let more: Vec<SignedTransaction> = md[2..]
        .iter()
        .enumerate()
        .map(|(i, m)| {
            let data = mabi::AppendMetadataCall { metadata: m.clone().into() }.encode();
            let u = UnsignedTransaction::Legacy(LegacyTransaction { nonce: i.into(), gas_price: 1u64.into(), gas_limit: 400_000u64.into(), action: TransactionAction::Call(sys(1)), value: U256::zero(), data: data.into() });
            sign(u, Some(CHAIN), &vals()[0].sk)
        })
        .collect();
    let resp = AxonExecutor.exec(&mut a, &more, &[]);
    check!(resp.tx_resp.iter().all(|r| r.exit_reason.is_succeed()), "genesis-epochs", "genesis: {:?}", resp.tx_resp);
    b.header.state_root = resp.state_root;
    b.header.receipts_root = resp.receipt_root;
    block_on(st.insert_block(Context::new(), b.clone())).map_err(e)?;
    block_on(st.update_latest_proof(Context::new(), Proof::default())).map_err(e)?;
    Ok((b, resp))
}

fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs()
}

fn boxed(x: Box<dyn std::error::Error + Send>) -> Stop {
    fail("node-error", x.to_string())
}

/// A leader that has the whole chain makes the next proposal.
fn propose(g: &mut Gen, s: &mut Sim, leader: usize) -> Result<(Proposal, Bytes, Vec<SignedTransaction>), Stop> {
    let h = s.top() + 1;
    let mut txs = vec![];
    for _ in 0..*g.pick(&[0usize, 1, 2, 4]) {
        txs.push(s.tx(g));
    }
    let scripts = g.below(5) as u32;
    let n = &s.nodes[leader];
    {
        let mut p = n.live.pool.0.lock().unwrap();
        p.plan = txs.iter().map(|t| t.transaction.hash).collect();
        p.scripts = scripts;
        for t in &txs {
            p.txs.insert(t.transaction.hash, t.clone());
        }
        p.packaged.clear();
    }
    let before = now();
    let (p, hash) = runtime().block_on(n.live.engine.get_block(Context::new(), h)).map_err(boxed)?;
    let limits = s.limits(h - 1);
    let asked = n.live.pool.0.lock().unwrap().packaged.clone();
    check_eq!(asked, vec![(U256::from(MAX_BLOCK_GAS_LIMIT), limits.tx_num_limit)], "packaged", "proposal {}: what the pool was asked for", h);
    let prev = s.chain.blocks.last().unwrap();
    let hashes: Vec<Hash> = txs.iter().map(|t| t.transaction.hash).collect();
    let want = Proposal {
        version:                  BlockVersion::V0,
        prev_hash:                prev.hash(),
        proposer:                 vals()[leader].addr,
        prev_state_root:          prev.header.state_root,
        transactions_root:        if hashes.is_empty() { RLP_NULL } else { TrieMerkle::from_iter(hashes.iter().enumerate()).root_hash().unwrap() },
        signed_txs_hash:          if txs.is_empty() { RLP_EMPTY_LIST } else { H256(refs::keccak(&rlp::encode_list(&txs))) },
        timestamp:                p.timestamp,
        number:                   h,
        gas_limit:                MAX_BLOCK_GAS_LIMIT.into(),
        extra_data:               n.live_fork(&s.chain).map(|f| ExtraData { inner: f.encode().unwrap() }).into_iter().collect(),
        base_fee_per_gas:         BASE_FEE_PER_GAS.into(),
        proof:                    s.chain.proofs.last().unwrap().clone(),
        chain_id:                 CHAIN,
        call_system_script_count: scripts,
        tx_hashes:                hashes,
    };
    let mut want = want;
    if h == 1 {
        want.proof = Proof::default();
    }
    check_eq!(p, want, "proposal", "proposal {} of node {}", h, leader);
    check!(p.timestamp >= before && p.timestamp <= now(), "proposal-time", "proposal {}: time {}", h, p.timestamp);
    check_eq!(hash.as_ref(), &refs::keccak(&p.encode().unwrap())[..], "proposal-hash", "proposal {}: hash", h);
    Ok((p, hash, txs))
}

impl Node {
    /// The hard fork the node proposes.
    fn live_fork(&self, c: &Chain) -> Option<HardforkInfoInner> {
        self.hf.clone().filter(|f| !self.seen(c).any(|x| x.flags & f.flags == f.flags))
    }

    fn seen<'a>(&self, c: &'a Chain) -> impl Iterator<Item = &'a HardforkInfoInner> {
        c.forks.iter()
    }
}

/// Hands the transactions to a node, so that it has all of them, or can pull some.
fn give(g: &mut Gen, n: &Node, txs: &[SignedTransaction]) {
    let mut p = n.live.pool.0.lock().unwrap();
    for t in txs {
        if g.below(3) != 0 {
            p.txs.insert(t.transaction.hash, t.clone());
        } else {
            p.far.insert(t.transaction.hash, t.clone());
        }
    }
}

fn status_of(s: &Sim, number: u64) -> Status {
    let c = s.limits(number - 1);
    Status {
        height:         number,
        interval:       Some(c.interval),
        timer_config:   Some(DurationConfig { propose_ratio: c.propose_ratio, prevote_ratio: c.prevote_ratio, precommit_ratio: c.precommit_ratio, brake_ratio: c.brake_ratio }),
        authority_list: s.authority(number),
    }
}

fn same_status(a: &Status, b: &Status) -> bool {
    a.height == b.height
        && a.interval == b.interval
        && a.authority_list == b.authority_list
        && match (&a.timer_config, &b.timer_config) {
            (Some(x), Some(y)) => (x.propose_ratio, x.prevote_ratio, x.precommit_ratio, x.brake_ratio) == (y.propose_ratio, y.prevote_ratio, y.precommit_ratio, y.brake_ratio),
            (None, None) => true,
            _ => false,
        }
}

fn commit_of(p: &Proposal, proof: &Proof) -> Commit<Proposal> {
    Commit {
        height:  p.number,
        content: p.clone(),
        proof:   overlord::types::Proof {
            height:     proof.number,
            round:      proof.round,
            block_hash: Bytes::from(proof.block_hash.0.to_vec()),
            signature:  AggregatedSignature { signature: proof.signature.clone(), address_bitmap: proof.bitmap.clone() },
        },
    }
}

impl Sim {
    /// The proposal is agreed on: what the chain becomes.
    fn agree(&mut self, g: &mut Gen, p: &Proposal, txs: &[SignedTransaction]) -> Result<Commit<Proposal>, Stop> {
        let (block, receipts) = self.run(p, txs)?;
        let who = self.voters(g, p.number, true).unwrap();
        let proof = self.prove(p.number, g.below(3), &H256(refs::keccak(&p.encode().unwrap())), &who);
        for (t, r) in txs.iter().zip(&receipts) {
            if let (TransactionAction::Create, Some(a)) = (t.transaction.unsigned.action(), r.code_address) {
                if !r.logs.is_empty() || self.made.len() < 3 {
                    self.made.push(a.into());
                }
            }
        }
        if let Some(x) = p.extra_data.first() {
            self.chain.forks.push(HardforkInfoInner::decode(&x.inner).unwrap());
        }
        block_on(self.replica.0.insert_block(Context::new(), block.clone())).map_err(e)?;
        let cfg = config_at(&self.replica.1, &self.replica.0, &block, p.number + 1)?;
        self.chain.blocks.push(block);
        self.chain.receipts.push(receipts);
        self.chain.txs.push(txs.to_vec());
        self.chain.cfg.push(cfg);
        self.chain.proofs.push(proof.clone());
        Ok(commit_of(p, &proof))
    }

    /// A node that has all but the last block commits it.
    fn commit(&mut self, g: &mut Gen, i: usize, c: &Commit<Proposal>) -> Res {
        let h = c.height;
        let n = &self.nodes[i];
        n.net.wire.lock().unwrap().sent.clear();
        n.net.wire.lock().unwrap().tagged.clear();
        let st = runtime().block_on(n.live.engine.commit(Context::new(), h, c.clone())).map_err(boxed)?;
        self.nodes[i].at = h;
        let want = status_of(self, h + 1);
        check!(same_status(&st, &want), "commit-status", "node {} commits {}: {:?} instead of {:?}", i, h, st, want);
        let n = &self.nodes[i];
        {
            let p = n.live.pool.0.lock().unwrap();
            check_eq!(p.flushed.last().cloned(), Some((c.content.tx_hashes.clone(), h)), "flushed", "node {} commits {}: what the pool is told", i, h);
            let b = &self.chain.blocks[h as usize];
            check_eq!(p.args.last().cloned(), Some((b.header.state_root, MAX_BLOCK_GAS_LIMIT, self.limits(h).max_tx_size)), "pool-limits", "node {} commits {}: the pool's limits", i, h);
        }
        {
            let w = n.net.wire.lock().unwrap();
            check_eq!(w.sent, vec![(BROADCAST_HEIGHT.to_string(), BlockNumber::from(h).encode_msg().unwrap().to_vec(), None)], "broadcast", "node {} commits {}: what it tells others", i, h);
        }
        self.tagged(g, i, h, h)?;
        let n = &mut self.nodes[i];
        let forks = &self.chain.forks;
        if n.hf.as_ref().map_or(false, |f| forks.last().map_or(false, |x| x.flags & f.flags == f.flags)) {
            n.hf = None;
            g.label("fork-proposal-done");
        }
        Ok(())
    }

    /// Whom the network was told to keep, after going from block `from` on to block `to`.
    fn tagged(&self, g: &mut Gen, i: usize, from: u64, to: u64) -> Res {
        let w = self.nodes[i].net.wire.lock().unwrap();
        if let Some(m) = self.epochs.iter().rev().find(|m| m.version.end >= from && m.version.end <= to) {
            let next = self.meta(m.version.end + 1);
            let ids: BTreeSet<Bytes> = next.verifier_list.iter().map(|v| PeerId::from_pubkey_bytes(v.pub_key.as_bytes()).unwrap().into_bytes_ext()).collect();
            check_eq!(w.tagged.last().map(|t| t.iter().cloned().collect::<BTreeSet<_>>()), Some(ids), "tagged", "node {} at {}: validators the network is told", i, to);
            g.label("epoch-ends");
        }
        Ok(())
    }

    /// All nodes that follow agree on one more block; returns what was agreed and who has it to commit.
    fn next(&mut self, g: &mut Gen, wrong: usize) -> Result<Option<(Commit<Proposal>, Vec<usize>)>, Stop> {
        let top = self.top();
        let up: Vec<usize> = (0..self.nodes.len()).filter(|i| self.nodes[*i].at == top && !self.torn(*i)).collect();
        if up.is_empty() {
            return Ok(None);
        }
        let leader = *g.pick(&up);
        let (p, hash, txs) = propose(g, self, leader)?;
        g.label_if(txs.len() > 1, "several-transactions");
        let sent = Proposal::decode(p.encode().unwrap()).map_err(e)?;
        check_eq!(sent, p, "proposal-wire", "proposal {} as it is sent", p.number);
        let mut have = vec![];
        for i in 0..self.nodes.len() {
            let n = &self.nodes[i];
            if n.at != top || self.torn(i) {
                continue;
            }
            if i != leader {
                give(g, n, &txs);
            }
            for _ in 0..wrong {
                if i != leader {
                    self.refuse(g, i, &p, &txs)?;
                }
            }
            let n = &self.nodes[i];
            let r = runtime().block_on(n.live.engine.check_block(Context::new(), p.number, hash.clone(), sent.clone()));
            let ok = match p.extra_data.first() {
                Some(x) => n.live.info.hardfork_proposals.read().unwrap().as_ref().map_or(false, |f| f.encode().unwrap() == x.inner),
                None => true,
            };
            check_eq!(r.is_ok(), ok, "checked", "node {} checks proposal {} of node {}: {:?}", i, p.number, leader, r.err().map(|x| x.to_string()));
            g.label_if(!ok, "fork-not-wanted");
            if ok {
                have.push(i);
            }
        }
        for i in 0..self.nodes.len() {
            if self.nodes[i].at == top {
                self.look(i)?;
            }
        }
        let c = self.agree(g, &p, &txs)?;
        g.note(|| format!("block {} of node {} with {} transactions, taken by {:?}", p.number, leader, txs.len(), have));
        Ok(Some((c, have)))
    }

    /// The proof of the block after its last one was saved and the block was not.
    fn torn(&self, i: usize) -> bool {
        self.nodes[i].live.status.inner().proof.number > self.nodes[i].at
    }

    /// A node is given a proposal with one thing wrong.
    fn refuse(&self, g: &mut Gen, i: usize, good: &Proposal, txs: &[SignedTransaction]) -> Res {
        let mut p = good.clone();
        let h = p.number;
        let prev = self.chain.blocks.last().unwrap();
        let arg = g.u64();
        let mut list = txs.to_vec();
        let (mut roots, mut digest) = (false, false);
        let what = match g.below(22) {
            0 => {
                p.prev_hash = flip(&p.prev_hash, arg);
                "prev-hash"
            }
            1 => {
                p.prev_state_root = if g.bool() || h < 2 { flip(&p.prev_state_root, arg) } else { self.chain.blocks[h as usize - 2].header.state_root };
                if p.prev_state_root == good.prev_state_root {
                    return Ok(());
                }
                "prev-state-root"
            }
            2 => {
                p.transactions_root = flip(&p.transactions_root, arg);
                "transactions-root"
            }
            3 => {
                p.signed_txs_hash = flip(&p.signed_txs_hash, arg);
                "signed-txs-hash"
            }
            4 => {
                p.timestamp = prev.header.timestamp - 1 - g.below(prev.header.timestamp);
                "past"
            }
            5 => {
                p.timestamp = now() + 600 + g.below(u64::MAX - now() - 600);
                "future"
            }
            6 => {
                p.number = *g.pick(&[h + 1, h + 2, h - 1, 0, u64::MAX]);
                "number"
            }
            7 => {
                let by = *g.pick(&[1u64, 2]);
                p.number += by;
                p.proof.number += by;
                "number-with-proof"
            }
            8 => {
                p.gas_limit = *g.pick(&[U64::zero(), U64::from(MAX_BLOCK_GAS_LIMIT) + 1, U64::from(MAX_BLOCK_GAS_LIMIT) - 1, U64::MAX]);
                "gas-limit"
            }
            9 => {
                p.extra_data = vec![ExtraData { inner: if g.bool() { g.bytes(12).into() } else { HardforkInfoInner { block_number: FAR + 1, flags: H256::zero() }.encode().unwrap() } }];
                "fork"
            }
            k @ 10..=16 if h > 1 => {
                let all = || (0..self.authority(h - 1).len()).collect::<Vec<_>>();
                let q = &mut p.proof;
                match k {
                    10 => q.round ^= 1 << (arg % 8),
                    11 => q.block_hash = flip(&q.block_hash, arg),
                    12 => {
                        let mut s = q.signature.to_vec();
                        s[arg as usize % 96] ^= 1 << (arg / 96 % 8);
                        q.signature = s.into();
                    }
                    13 => match self.voters(g, h - 1, false) {
                        Some(w) => *q = self.prove(h - 1, q.round, &q.block_hash, &w),
                        None => return Ok(()),
                    },
                    14 => *q = self.prove(h - 1, q.round, &flip(&q.block_hash, arg), &all()),
                    15 => {
                        // signed by enough, but fewer or others than it says
                        let mut b = q.bitmap.to_vec();
                        let k = arg as usize % self.authority(h - 1).len();
                        b[k / 8] ^= 0x80 >> (k % 8);
                        q.bitmap = b.into();
                    }
                    _ => {
                        // votes of the first round
                        let who = all();
                        let nodes = self.authority(h - 1);
                        let vote = Vote { height: h - 1, round: q.round, vote_type: VoteType::Prevote, block_hash: Bytes::from(q.block_hash.0.to_vec()) };
                        let hv = common_crypto::HashValue::from_bytes_unchecked(refs::keccak(&rlp::encode(&vote)));
                        let full = self.prove(h - 1, q.round, &q.block_hash, &who);
                        q.bitmap = full.bitmap;
                        let vs: Vec<_> = nodes.iter().map(|n| vals().iter().find(|v| v.pk == n.address).unwrap()).collect();
                        q.signature = notary().aggregate_signatures(vs.iter().map(|v| v.bls.sign_message(&hv).to_bytes()).collect(), vs.iter().map(|v| v.pk.clone()).collect()).unwrap();
                    }
                }
                ["proof-round", "proof-hash", "proof-signature", "proof-minority", "proof-of-another", "proof-bitmap", "proof-of-prevotes"][k as usize - 10]
            }
            17 if !list.is_empty() => {
                let at = g.usize(0, list.len() - 1);
                let t = list[at].clone();
                list.insert(g.usize(0, list.len()), t);
                roots = true;
                digest = true;
                "same-transaction-twice"
            }
            18 if !list.is_empty() => {
                list.remove(g.usize(0, list.len() - 1));
                roots = g.bool();
                digest = !roots;
                "transaction-missing"
            }
            19 if list.len() > 1 => {
                let at = g.usize(0, list.len() - 2);
                list.swap(at, at + 1);
                roots = g.bool();
                digest = !roots;
                "transactions-in-another-order"
            }
            20 => {
                let mut t = txs.first().cloned().unwrap_or_else(|| sign(UnsignedTransaction::Legacy(LegacyTransaction { nonce: 0u64.into(), gas_price: 1u64.into(), gas_limit: 21000u64.into(), action: TransactionAction::Create, value: U256::zero(), data: Bytes::new() }), Some(CHAIN), &self.users[0]));
                t.transaction.hash = flip(&t.transaction.hash, arg);
                list.push(t);
                roots = true;
                digest = true;
                "transaction-not-to-be-had"
            }
            _ => return Ok(()),
        };
        p.tx_hashes = list.iter().map(|t| t.transaction.hash).collect();
        if roots {
            p.transactions_root = if list.is_empty() { RLP_NULL } else { TrieMerkle::from_iter(p.tx_hashes.iter().enumerate()).root_hash().unwrap() };
        }
        if digest {
            p.signed_txs_hash = if list.is_empty() { RLP_EMPTY_LIST } else { H256(refs::keccak(&rlp::encode_list(&list))) };
        }
        let hash = Bytes::from(refs::keccak(&p.encode().unwrap()).to_vec());
        let p = Proposal::decode(p.encode().unwrap()).map_err(e)?;
        g.label(&format!("wrong-{what}"));
        g.hit();
        let r = runtime().block_on(self.nodes[i].live.engine.check_block(Context::new(), h, hash, p));
        if r.is_ok() {
            return Err(fail(&format!("takes-wrong-{what}"), format!("node {i} takes proposal {h} with wrong {what}")));
        }
        Ok(())
    }

    /// A node asks another for the blocks it has not.
    fn sync(&mut self, g: &mut Gen, i: usize, lies: bool) -> Res {
        let top = self.top();
        let servers: Vec<usize> = (0..self.nodes.len()).filter(|k| *k != i && self.nodes[*k].at > self.nodes[i].at && !self.torn(*k)).collect();
        if servers.is_empty() {
            return Ok(());
        }
        let from = self.nodes[i].at;
        let server = *g.pick(&servers);
        let has = self.nodes[server].at;
        let remote = match g.below(4) {
            0 if lies => has + 1 + g.below(2),
            1 if lies => g.below(has + 1),
            _ => has,
        };
        let mut at = from;
        let mut lie = None;
        if lies && g.below(4) != 0 {
            at = from + 1 + g.below(has - from);
            let what = *g.pick(&[What::Block, What::Block, What::Block, What::Proof, What::Txs, What::Txs]);
            let other = match what {
                What::Block => {
                    let k = g.below(top + 1) as usize;
                    vec![self.chain.blocks[k].encode().unwrap()]
                }
                What::Proof => {
                    let p = &self.chain.proofs[at as usize];
                    let mut o = vec![self.chain.proofs[g.below(top + 1) as usize].encode().unwrap()];
                    if let Some(w) = self.voters(g, at, false) {
                        o.push(self.prove(at, p.round, &p.block_hash, &w).encode().unwrap());
                        g.label("lie-minority");
                    }
                    o
                }
                What::Txs => {
                    let k = g.below(top + 1) as usize;
                    vec![BatchSignedTxs::new(self.chain.txs[k].clone()).encode_msg().map_err(e)?]
                }
            };
            let kind = match what {
                What::Block => g.below(27),
                What::Proof => g.below(8),
                What::Txs => {
                    // of a block that has some
                    let full: Vec<u64> = (from + 1..=has).filter(|k| !self.chain.txs[*k as usize].is_empty()).collect();
                    if !full.is_empty() {
                        at = *g.pick(&full);
                    }
                    g.below(8)
                }
            };
            lie = Some(Lie { what, number: at, kind, arg: g.u64(), other });
        }
        for k in from + 1..=has {
            // some of the transactions are in its pool
            if g.chance(1, 3) {
                let mut p = self.nodes[i].live.pool.0.lock().unwrap();
                for t in &self.chain.txs[k as usize] {
                    if g.bool() {
                        p.txs.insert(t.transaction.hash, t.clone());
                    }
                }
            }
        }
        let n = &self.nodes[i];
        {
            let mut w = n.net.wire.lock().unwrap();
            w.server = server;
            w.lie = lie.clone();
            w.told = false;
            w.tagged.clear();
            w.sent.clear();
        }
        let r = runtime().block_on(n.live.sync.receive_remote_block(Context::new(), remote));
        let told = n.net.wire.lock().unwrap().told;
        n.net.wire.lock().unwrap().lie = None;
        g.label(if told { "synced-with-lie" } else { "synced" });
        if told {
            let l = lie.as_ref().unwrap();
            g.label(&format!("lie-{:?}-{}", l.what, l.kind));
        }
        g.note(|| format!("node {} at {} asks node {} at {} for {}: lie {:?} told {}: {:?}", i, from, server, has, remote, lie.as_ref().map(|l| (l.what, l.number, l.kind)), told, r.as_ref().err().map(|x| x.to_string())));
        let now = n.live.status.inner().last_number;
        let full = if remote <= from { from } else { remote.min(has) };
        if r.is_ok() {
            check_eq!(now, full, "sync-short", "node {} at {} asks for {}", i, from, remote);
        } else {
            check!(told || remote > has, "sync-fails", "node {} at {} asks node {} at {} for {}: {:?}", i, from, server, has, remote, r.err().map(|x| x.to_string()));
            let stop = if told { at - 1 } else { has };
            check_eq!(now, stop, "sync-stops", "node {} at {} asks for {} with a wrong answer at {}: it is now at", i, from, remote, at);
        }
        self.nodes[i].at = now;
        if now > from {
            g.hit();
            self.look(i)?;
            self.tagged(g, i, from + 1, now)?;
            let n = &self.nodes[i];
            let p = n.live.pool.0.lock().unwrap();
            let want: Vec<_> = (from + 1..=now).map(|k| (self.chain.blocks[k as usize].tx_hashes.clone(), k)).collect();
            check!(p.flushed.ends_with(&want), "sync-flushed", "node {} goes from {} to {}: what the pool is told", i, from, now);
            check_eq!(p.args.last().cloned(), Some((self.chain.blocks[now as usize].header.state_root, MAX_BLOCK_GAS_LIMIT, self.limits(now).max_tx_size)), "sync-pool-limits", "node {} goes from {} to {}: the pool's limits", i, from, now);
        } else {
            self.look(i)?;
        }
        Ok(())
    }
}

/// Proposals, right and wrong.
fn proposals(g: &mut Gen) -> Res {
    let mut s = sim(g, true)?;
    for _ in 0..g.usize(1, 5) {
        let wrong = g.usize(1, 5);
        let Some((c, have)) = s.next(g, wrong)? else { break };
        for i in 0..s.nodes.len() {
            if s.nodes[i].at + 1 == c.height && (have.contains(&i) || g.bool()) {
                give_all(&s.nodes[i], s.chain.txs.last().unwrap());
                s.commit(g, i, &c)?;
            }
        }
    }
    Ok(())
}

fn give_all(n: &Node, txs: &[SignedTransaction]) {
    let mut p = n.live.pool.0.lock().unwrap();
    for t in txs {
        p.txs.insert(t.transaction.hash, t.clone());
    }
}

/// Commits, restarts and crashes.
fn commits(g: &mut Gen) -> Res {
    let mut s = sim(g, false)?;
    for _ in 0..g.usize(1, 9) {
        let Some((c, have)) = s.next(g, 0)? else { break };
        let h = c.height;
        for i in 0..s.nodes.len() {
            if s.nodes[i].at + 1 != h {
                continue;
            }
            let wal = have.contains(&i);
            if !wal {
                give_all(&s.nodes[i], s.chain.txs.last().unwrap());
            }
            match g.below(8) {
                0 | 1 if wal => {
                    // it dies while it commits, and commits again
                    let n = &s.nodes[i];
                    n.left.store(g.below(24) as i64, SeqCst);
                    let _ = pbt::no_panic(|| runtime().block_on(n.live.engine.commit(Context::new(), h, c.clone())).is_ok());
                    s.restart(g, i)?;
                    let n = &mut s.nodes[i];
                    n.at = block_on(n.live.storage.get_latest_block_header(Context::new())).map_err(e)?.number;
                    check!(n.at == h || n.at + 1 == h, "crash-height", "node {} crashes committing {} and is at {}", i, h, n.at);
                    g.label(if n.at == h { "crash-after-block" } else { "crash-before-block" });
                    n.hf = n.live.info.hardfork_proposals.read().unwrap().clone();
                    g.hit();
                    if n.at == h {
                        let st = runtime().block_on(s.nodes[i].live.engine.commit(Context::new(), h, c.clone())).map_err(boxed)?;
                        check!(same_status(&st, &status_of(&s, h + 1)), "commit-again", "node {} commits {} again after a crash: {:?}", i, h, st);
                    } else {
                        g.label_if(s.torn(i), "crash-torn");
                        s.commit(g, i, &c)?;
                    }
                }
                2 if wal => {
                    // it restarts before it commits: the transactions come from the log
                    s.restart(g, i)?;
                    g.label("restart-then-commit");
                    g.hit();
                    s.commit(g, i, &c)?;
                }
                3 => {
                    // its pool has lost a transaction, and it never logged them
                    let lost = !wal && !c.content.tx_hashes.is_empty();
                    if lost {
                        s.nodes[i].live.pool.0.lock().unwrap().txs.clear();
                        let r = runtime().block_on(s.nodes[i].live.engine.commit(Context::new(), h, c.clone()));
                        check!(r.is_err(), "commit-without-transactions", "node {} commits {} without its transactions", i, h);
                        s.look_before(i, h)?;
                        give_all(&s.nodes[i], s.chain.txs.last().unwrap());
                        g.label("commit-without-transactions");
                    } else {
                        s.nodes[i].live.pool.0.lock().unwrap().txs.clear();
                        g.label_if(wal && !c.content.tx_hashes.is_empty(), "transactions-from-log");
                    }
                    s.commit(g, i, &c)?;
                }
                _ => s.commit(g, i, &c)?,
            }
            s.look(i)?;
            if g.chance(1, 3) {
                // told twice
                let st = runtime().block_on(s.nodes[i].live.engine.commit(Context::new(), h, c.clone())).map_err(boxed)?;
                check!(same_status(&st, &status_of(&s, h + 1)), "commit-again", "node {} commits {} twice: {:?}", i, h, st);
                s.look(i)?;
            }
            if g.chance(1, 4) {
                let mut old = c.clone();
                old.height = *g.pick(&[h - 1, h + 2, 0]);
                if old.height != h {
                    let r = runtime().block_on(s.nodes[i].live.engine.commit(Context::new(), old.height, old.clone()));
                    check!(r.is_err(), "commit-out-of-order", "node {} at {} commits {}", i, h, old.height);
                    s.look(i)?;
                }
            }
            s.served(g, i)?;
            let k = g.below(h + 2);
            let auth = runtime().block_on(s.nodes[i].live.engine.get_authority_list(Context::new(), k)).map_err(boxed)?;
            let want = if k < 2 { None } else { Some(s.authority(k - 1)) };
            check!(want.is_none() || auth == want.clone().unwrap(), "authority", "node {} at {}: validators before {}: {:?} instead of {:?}", i, h, k, auth, want);
            if g.chance(1, 5) {
                s.restart(g, i)?;
                s.look(i)?;
                g.label("restart");
            }
        }
    }
    Ok(())
}

impl Sim {
    /// The node is still at the block before `h`.
    fn look_before(&self, i: usize, h: u64) -> Res {
        check_eq!(self.nodes[i].live.status.inner().last_number, h - 1, "refused-commit", "node {} after a refused commit", i);
        self.look(i)
    }
}

/// Nodes that lag behind, and peers that lie.
fn syncs(g: &mut Gen) -> Res {
    let mut s = sim(g, true)?;
    for _ in 0..g.usize(1, 10) {
        let Some((c, _)) = s.next(g, 0)? else { break };
        let keep = g.usize(0, s.nodes.len() - 1);
        let mut any = false;
        for i in 0..s.nodes.len() {
            if s.nodes[i].at + 1 == c.height && (i == keep || g.chance(1, 3) || (i + 1 == s.nodes.len() && !any)) {
                give_all(&s.nodes[i], s.chain.txs.last().unwrap());
                s.commit(g, i, &c)?;
                any = true;
            }
        }
        if !any {
            // nobody followed: somebody must have the block
            for i in 0..s.nodes.len() {
                if s.nodes[i].at + 1 == c.height {
                    give_all(&s.nodes[i], s.chain.txs.last().unwrap());
                    s.commit(g, i, &c)?;
                    break;
                }
            }
        }
        for i in 0..s.nodes.len() {
            if s.nodes[i].at < s.top() && g.chance(1, 3) {
                if g.chance(1, 5) {
                    s.restart(g, i)?;
                }
                s.sync(g, i, true)?;
                s.served(g, i)?;
                if g.chance(1, 4) {
                    s.restart(g, i)?;
                    s.look(i)?;
                    g.label("restart-after-sync");
                }
            }
        }
    }
    // honest peers bring everybody to the end
    let best = s.nodes.iter().map(|n| n.at).max().unwrap();
    for i in 0..s.nodes.len() {
        for _ in 0..=best {
            if s.nodes[i].at < best {
                s.sync(g, i, false)?;
            }
        }
    }
    for n in &s.nodes {
        check_eq!(n.at, best, "sync-end", "node {} ends at", n.me);
    }
    if best == s.top() {
        if let Some((c, _)) = s.next(g, 0)? {
            for i in 0..s.nodes.len() {
                give_all(&s.nodes[i], s.chain.txs.last().unwrap());
                s.commit(g, i, &c)?;
                s.look(i)?;
                s.served(g, i)?;
            }
            g.label("all-at-the-end");
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let _ = (AssertUnwindSafe(()), HashMap::<u8, u8>::new());
    vec![
        Prop { id: "P29", rule: "a proposal with something wrong was judged", assume: vec!["the transaction pool, the network and RocksDB are replaced by stand-ins in memory"], facets: vec![Facet::new("proposals", 200, proposals)] },
        Prop { id: "P40", rule: "a node crashed or restarted around a commit", assume: vec!["the transaction pool, the network and RocksDB are replaced by stand-ins in memory"], facets: vec![Facet::new("commits", 200, commits)] },
        Prop { id: "P41", rule: "a node got blocks by synchronization", assume: vec!["the transaction pool, the network and RocksDB are replaced by stand-ins in memory"], facets: vec![Facet::new("syncs", 200, syncs)] },
    ]
}
