//! P45: whole nodes, each a process of its own started the way the command line starts it, under
//! crashes, restarts, partitions, and slow, lossy and repeating networks.
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};

use axon_tools::types as at;
use common_crypto::{BlsPrivateKey, BlsPublicKey, PublicKey, Secp256k1PrivateKey, ToBlsPublicKey, ToPublicKey};
use core_executor::system_contract::metadata::metadata_abi as mabi;
use core_executor::system_contract::METADATA_CONTRACT_ADDRESS;
use core_network::{PeerId, PeerIdExt};
use ethers::abi::AbiEncode;
use pbt::{check, check_eq, fail, Facet, Gen, Prop, Res, Stop};
use protocol::codec::ProtocolCodec;
use protocol::types::*;
use serde_json::{json, Value};

use crate::hub::Hub;
use crate::util::*;

pub const CHAIN: u64 = 2022;
/// How long the nodes may take, once all is well again, to agree and have everything in.
pub const PATIENCE: Duration = Duration::from_secs(90);

pub struct Key {
    pub sk: [u8; 32],
    pub pk: Bytes,
    pub bsk: [u8; 32],
    pub bpk: BlsPublicKey,
}

pub fn keys(n: usize) -> Vec<Key> {
    (0..n as u8)
        .map(|i| {
            let (sk, bsk) = ([0x41 + i; 32], [0x21 + i; 32]);
            let pk = Secp256k1PrivateKey::try_from(sk.as_slice()).unwrap().pub_key().to_bytes();
            let bpk = BlsPrivateKey::try_from(bsk.as_slice()).unwrap().pub_key(&String::new());
            Key { sk, pk, bsk, bpk }
        })
        .collect()
}

fn user(i: usize) -> [u8; 32] {
    [0x71 + i as u8; 32]
}

/// An epoch: its last block, its validators with their weights, and the rest of it.
#[derive(Clone, Debug)]
pub struct Epoch {
    pub end: u64,
    pub who: Vec<(usize, u32, u32)>,
    pub interval: u64,
    pub tx_num: u64,
}

#[derive(Clone, Debug)]
enum Step {
    Wait(u64),
    Send { tx: usize, to: usize },
    Kill(usize),
    Start(usize),
    Group(Vec<u8>),
    Net { lost: u64, twice: u64, delay: u64 },
}

pub struct Net {
    pub dir: Dir,
    pub hub: Arc<Hub>,
    pub kids: Vec<Option<Child>>,
    /// The height at which the nodes are told to stop, and which of them have.
    pub stop: Option<u64>,
    pub done: BTreeSet<usize>,
}

impl Drop for Net {
    fn drop(&mut self) {
        for k in self.kids.iter_mut().flatten() {
            let _ = k.kill();
            let _ = k.wait();
        }
        self.hub.end();
    }
}

impl Net {
    pub fn home(&self, i: usize) -> PathBuf {
        self.dir.0.join(i.to_string())
    }

    pub fn spawn(&self, i: usize, args: &[&str]) -> Child {
        let log = std::fs::File::options().create(true).append(true).open(self.home(i).join("out")).unwrap();
        Command::new(std::env::current_exe().unwrap())
            .args(args)
            .current_dir(self.home(i))
            .env("AXON_CLI", "0.3.0")
            .env("AXON_HUB", self.hub.hub_path())
            .env("AXON_RPC", self.hub.rpc_path())
            .env("AXON_ME", i.to_string())
            .stdin(Stdio::null())
            .stdout(log.try_clone().unwrap())
            .stderr(log)
            .spawn()
            .expect("a process")
    }

    pub fn said(&self, i: usize) -> String {
        let mut s = String::new();
        let _ = std::fs::File::open(self.home(i).join("out")).and_then(|mut f| f.read_to_string(&mut s));
        let at = s.len().saturating_sub(400);
        let at = (at..s.len()).find(|a| s.is_char_boundary(*a)).unwrap_or(0);
        s[at..].to_string()
    }

    /// Every process that should run does.
    pub fn alive(&mut self) -> Res {
        for i in 0..self.kids.len() {
            let over = match &mut self.kids[i] {
                Some(k) => k.try_wait().unwrap(),
                None => None,
            };
            if let Some(st) = over {
                self.kids[i] = None;
                if self.stop.is_some() && st.success() {
                    self.done.insert(i);
                    self.hub.cut(i);
                    continue;
                }
                return Err(fail("node-ended", format!("node {} ended by itself ({}): {}", i, st, self.said(i))));
            }
        }
        Ok(())
    }

    pub fn start(&mut self, i: usize) {
        if self.kids[i].is_none() && !self.done.contains(&i) {
            let stop = self.stop.map(|h| h.to_string());
            let mut args = vec!["run", "-c", "config.toml"];
            args.extend(stop.iter().flat_map(|h| ["--mine-to-height", h]));
            self.kids[i] = Some(self.spawn(i, &args));
        }
    }

    pub fn kill(&mut self, i: usize) {
        if let Some(mut k) = self.kids[i].take() {
            let _ = k.kill();
            let _ = k.wait();
            self.hub.cut(i);
        }
    }

    pub fn up(&mut self, i: usize, until: Instant) -> Res {
        while !self.hub.up(i) {
            self.alive()?;
            if self.done.contains(&i) {
                break;
            }
            if Instant::now() > until {
                return Err(fail("node-silent", format!("node {} does not come up: {}", i, self.said(i))));
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        Ok(())
    }

    /// A request that must be answered.
    pub fn must(&mut self, i: usize, method: &str, params: Value) -> Result<Value, Stop> {
        match self.hub.ask(i, method, params.clone()) {
            Some(Ok(v)) => Ok(v),
            Some(Err(e)) => Err(fail("request-refused", format!("node {}: {} {}: {}", i, method, params, e))),
            None => {
                std::thread::sleep(Duration::from_millis(50));
                self.alive()?;
                Err(fail("request-unanswered", format!("node {}: {} {}", i, method, params)))
            }
        }
    }

    pub fn height(&mut self, i: usize) -> Result<u64, Stop> {
        num(&self.must(i, "eth_blockNumber", json!([]))?)
    }
}

pub fn num(v: &Value) -> Result<u64, Stop> {
    v.as_str().and_then(|s| u64::from_str_radix(s.trim_start_matches("0x"), 16).ok()).ok_or_else(|| fail("not-a-number", v.to_string()))
}

pub fn hexn(n: u64) -> String {
    format!("0x{:x}", n)
}

pub fn hex(b: &[u8]) -> String {
    format!("0x{}", refs::hex(b))
}

fn checksummed(a: &H160) -> String {
    let low = refs::hex(&a.0);
    let h = refs::keccak(low.as_bytes());
    let up = |i: usize, c: char| if h[i / 2] >> (4 * (1 - i % 2)) & 8 != 0 { c.to_ascii_uppercase() } else { c };
    format!("0x{}", low.chars().enumerate().map(|(i, c)| up(i, c)).collect::<String>())
}

fn who(g: &mut Gen, n: usize, least: usize) -> Vec<(usize, u32, u32)> {
    let mut all: Vec<usize> = (0..n).collect();
    g.shuffle(&mut all);
    all.truncate(g.usize(least.min(n), n));
    let even = g.chance(3, 4);
    all.into_iter().map(|i| (i, if even { 1 } else { g.range(1, 3) as u32 }, if even { 1 } else { g.range(1, 3) as u32 })).collect()
}

fn epochs(g: &mut Gen, n: usize) -> Vec<Epoch> {
    let e = *g.pick(&[7u64, 9, 12]);
    let first = Epoch { end: e, who: who(g, n, n.min(3)), interval: *g.pick(&[60u64, 90, 120]), tx_num: *g.pick(&[1u64, 2, 5, 100]) };
    let second = Epoch { end: 2 * e, ..first.clone() };
    let third = Epoch { end: 2 * e + *g.pick(&[4u64, 6, 9]), who: who(g, n, n.min(3)), interval: first.interval, tx_num: *g.pick(&[1u64, 3, 100]) };
    let fourth = Epoch { end: 1_000_000, who: who(g, n, n.min(3)), interval: *g.pick(&[60u64, 90]), tx_num: *g.pick(&[2u64, 100]) };
    vec![first, second, third, fourth]
}

fn config_of(e: &Epoch) -> ConsensusConfig {
    ConsensusConfig { gas_limit: 30_000_000, interval: e.interval, propose_ratio: 15, prevote_ratio: 10, precommit_ratio: 10, brake_ratio: 10, tx_num_limit: e.tx_num, max_tx_size: 40_960, ..Default::default() }
}

fn metadata(n: u64, start: u64, e: &Epoch, k: &[Key]) -> Metadata {
    Metadata {
        version: MetadataVersion { start, end: e.end },
        epoch: n,
        verifier_list: e
            .who
            .iter()
            .map(|(i, p, v)| ValidatorExtend { bls_pub_key: Hex::encode(k[*i].bpk.to_bytes()), pub_key: Hex::encode(&k[*i].pk), address: address(&k[*i].sk), propose_weight: *p, vote_weight: *v })
            .collect(),
        propose_counter: vec![],
        consensus_config: config_of(e),
    }
}

pub fn spec(e: &Epoch, k: &[Key], forks: bool) -> String {
    let mut s = format!("[genesis]\ntimestamp = 1679656015\nbase_fee_per_gas = \"0x539\"\nchain_id = {}\nhardforks = {}\n", CHAIN, if forks { "[]" } else { "[\"None\"]" });
    for a in (0..3).map(user).chain(k.iter().map(|k| k.sk)) {
        s += &format!("[[accounts]]\naddress = \"{}\"\nbalance = \"d3c21bcecceda1000000\"\n", checksummed(&address(&a)));
    }
    let c = config_of(e);
    s += &format!(
        "[params]\nepoch = 0\n[params.version]\nstart = 1\nend = {}\n[params.consensus_config]\npropose_ratio = {}\nprevote_ratio = {}\nprecommit_ratio = {}\nbrake_ratio = {}\ntx_num_limit = {}\nmax_tx_size = {}\ngas_limit = {}\ninterval = {}\n",
        e.end, c.propose_ratio, c.prevote_ratio, c.precommit_ratio, c.brake_ratio, c.tx_num_limit, c.max_tx_size, c.gas_limit, c.interval
    );
    for (i, p, v) in &e.who {
        s += &format!("[[params.verifier_list]]\nbls_pub_key = \"{}\"\npub_key = \"{}\"\npropose_weight = {}\nvote_weight = {}\n", hex(&k[*i].bpk.to_bytes()), hex(&k[*i].pk), p, v);
    }
    s
}

pub fn config(g: &mut Gen) -> String {
    format!(
        "net_privkey_file = \"net.key\"\nbls_privkey_file = \"bls.key\"\ndata_path = \"data\"\n[rpc]\nhttp_listening_address = \"127.0.0.1:1\"\nmaxconn = 10\nmax_payload_size = 10485760\n[web3]\n[logger]\nfilter = \"error\"\nlog_to_console = true\nconsole_show_file_and_line = false\nlog_to_file = false\nmetrics = false\nlog_path = \"logs\"\nfile_size_limit = 1000000\n[network]\nlistening_address = \"/ip4/127.0.0.1/tcp/8001\"\nrpc_timeout = 10\n[synchronization]\nsync_txs_chunk_size = {}\n[mempool]\ntimeout_gap = {}\npool_size = 1000\nbroadcast_txs_size = {}\nbroadcast_txs_interval = {}\n[executor]\ntriedb_cache_size = {}\n[rocksdb]\nmax_open_files = 64\ncache_size = {}\n",
        g.pick(&[1, 3, 5000]),
        g.pick(&[20, 1000]),
        g.pick(&[1, 3, 200]),
        g.pick(&[20, 200]),
        g.pick(&[1, 20, 200]),
        g.pick(&[1, 10, 100])
    )
}

/// A transaction and what it does.
struct Tx {
    raw: String,
    hash: String,
    from: usize,
    nonce: u64,
    to: H160,
    value: u64,
}

/// There is nothing to go on with: the next epoch's metadata is needed, and not there, when the
/// last block of an epoch is decided.
fn late(ep: &[Epoch], left: &BTreeSet<usize>, height: u64) -> bool {
    height + 1 >= ep[1].end && left.contains(&0) || height + 1 >= ep[2].end && left.contains(&1)
}

/// Offers every node what is not yet everywhere, the fourth epoch only once the third is in:
/// transactions that are known or already in a block are refused, which is fine.
fn offer(net: &mut Net, txs: &[Tx], left: &mut BTreeSet<usize>, n: usize, all: bool) {
    let in_block = |net: &Net, t: &Tx| (0..n).any(|i| matches!(net.hub.ask(i, "eth_getTransactionReceipt", json!([t.hash])), Some(Ok(r)) if !r.is_null()));
    if left.contains(&0) && in_block(net, &txs[0]) {
        left.remove(&0);
    }
    if left.contains(&1) && in_block(net, &txs[1]) {
        left.remove(&1);
    }
    for tx in left.iter().filter(|t| all && (**t != 1 || !left.contains(&0))) {
        for i in 0..n {
            let _ = net.hub.ask(i, "eth_sendRawTransaction", json!([txs[*tx].raw]));
        }
    }
}

fn whole(g: &mut Gen) -> Res {
    let n = [4, 3, 1, 5][g.weighted(&[6, 2, 1, 1])];
    let k = keys(n);
    let ep = epochs(g, n);
    let forks = g.bool();
    // the genesis block's validators append the other epochs; users move money
    let mut txs: Vec<Tx> = vec![];
    let mk = |u: UnsignedTransaction, k: &[u8; 32], from, nonce, to, value| {
        let t = sign(u, Some(CHAIN), k);
        Tx { raw: hex(&t.transaction.encode().unwrap()), hash: hex(&t.transaction.hash.0), from, nonce, to, value }
    };
    for (j, m) in [(2u64, &ep[2]), (3, &ep[3])].into_iter().enumerate() {
        let start = ep[1 + j].end + 1;
        let data = mabi::AppendMetadataCall { metadata: metadata(m.0, start, m.1, &k).into() }.encode();
        let u = UnsignedTransaction::Legacy(LegacyTransaction { nonce: j.into(), gas_price: 10_000_000_000u64.into(), gas_limit: 400_000u64.into(), action: TransactionAction::Call(METADATA_CONTRACT_ADDRESS), value: U256::zero(), data: data.into() });
        txs.push(mk(u, &k[ep[0].who[0].0].sk, 100, j as u64, METADATA_CONTRACT_ADDRESS, 0));
    }
    let mut nonces = [0u64; 3];
    for _ in 0..g.usize(0, 12) {
        let from = g.usize(0, 2);
        let to = H160([0xb0 + g.below(3) as u8; 20]);
        let value = 1 + g.below(1000);
        let nonce = nonces[from];
        nonces[from] += 1;
        let u = UnsignedTransaction::Legacy(LegacyTransaction { nonce: nonce.into(), gas_price: 10_000_000_000u64.into(), gas_limit: 21_000u64.into(), action: TransactionAction::Call(to), value: value.into(), data: Default::default() });
        txs.push(mk(u, &user(from), from, nonce, to, value));
    }
    // what happens
    let mut steps = vec![];
    let mut down = BTreeSet::new();
    steps.extend((0..n).map(|to| Step::Send { tx: 0, to }));
    let mut next = 2;
    for _ in 0..g.usize(2, 14) {
        steps.push(Step::Wait(*g.pick(&[20u64, 90, 200, 450, 800])));
        match g.below(12) {
            0..=3 if next < txs.len() => {
                steps.push(Step::Send { tx: next, to: g.usize(0, n - 1) });
                next += 1;
            }
            4 | 5 => {
                let i = g.usize(0, n - 1);
                if down.insert(i) {
                    steps.push(Step::Kill(i));
                }
            }
            6 => (0..n).filter(|i| down.insert(*i)).for_each(|i| steps.push(Step::Kill(i))),
            7 | 8 => {
                let d: Vec<usize> = down.iter().copied().collect();
                if !d.is_empty() {
                    let i = *g.pick(&d);
                    down.remove(&i);
                    steps.push(Step::Start(i));
                }
            }
            9 => steps.push(Step::Group((0..n).map(|_| g.below(2) as u8).collect())),
            10 => steps.push(Step::Group(vec![0; n])),
            _ => steps.push(Step::Net { lost: *g.pick(&[0u64, 10, 60]), twice: *g.pick(&[0u64, 40]), delay: *g.pick(&[0u64, 20, 150]) }),
        }
    }
    let stop = match g.below(4) {
        0 => Some(ep[1].end),
        1 => Some(g.range(2, ep[2].end)),
        _ => None,
    };
    g.note(|| format!("{} nodes, epochs {:?}, {} transactions, stop at {:?}, steps {:?}", n, ep, txs.len(), stop, steps));

    let dir = Dir::new();
    let ids = k.iter().map(|k| PeerId::from_pubkey_bytes(&k.pk).unwrap().into_bytes_ext().to_vec()).collect();
    let hub = Hub::start(&dir.0, ids, g.raw_u64());
    let mut net = Net { dir, hub, kids: (0..n).map(|_| None).collect(), stop, done: Default::default() };
    let mut inits = vec![];
    for i in 0..n {
        let h = net.home(i);
        std::fs::create_dir_all(&h).unwrap();
        std::fs::write(h.join("net.key"), k[i].sk).unwrap();
        std::fs::write(h.join("bls.key"), k[i].bsk).unwrap();
        std::fs::write(h.join("spec.toml"), spec(&ep[0], &k, forks)).unwrap();
        std::fs::write(h.join("config.toml"), config(g)).unwrap();
        inits.push(net.spawn(i, &["init", "-c", "config.toml", "-s", "spec.toml"]));
    }
    for (i, mut c) in inits.into_iter().enumerate() {
        let st = c.wait().unwrap();
        check!(st.success(), "init", "node {}: {}: {}", i, st, net.said(i));
    }
    let limit = Instant::now() + PATIENCE;
    for i in 0..n {
        net.start(i);
    }
    for i in 0..n {
        net.up(i, limit)?;
    }

    // what was seen: height, and by whom, of each block hash
    let mut seen: BTreeMap<u64, (String, usize)> = BTreeMap::new();
    let look = |net: &mut Net, i: usize, seen: &mut BTreeMap<u64, (String, usize)>| -> Res {
        if let Some(Ok(b)) = net.hub.ask(i, "eth_getBlockByNumber", json!(["latest", false])) {
            let (h, at) = (b["hash"].as_str().unwrap_or("").to_string(), num(&b["number"])?);
            let was = seen.entry(at).or_insert_with(|| (h.clone(), i));
            check_eq!(was.0, h, "fork", "block {} of nodes {} and {}", at, was.1, i);
        }
        Ok(())
    };
    let mut kills = 0;
    let mut second = false;
    for s in &steps {
        net.alive()?;
        match s {
            Step::Wait(ms) => {
                std::thread::sleep(Duration::from_millis(*ms));
                for i in 0..n {
                    look(&mut net, i, &mut seen)?;
                }
                // the fourth epoch goes in once the third is there
                let mut has = |i| matches!(net.hub.ask(i, "eth_getTransactionReceipt", json!([txs[0].hash])), Some(Ok(r)) if !r.is_null());
                if !second && (0..n).any(&mut has) {
                    second = true;
                    for i in 0..n {
                        let _ = net.hub.ask(i, "eth_sendRawTransaction", json!([txs[1].raw]));
                    }
                }
            }
            Step::Send { tx, to } => {
                if let Some(r) = net.hub.ask(*to, "eth_sendRawTransaction", json!([txs[*tx].raw])) {
                    if let Ok(v) = r {
                        check_eq!(v.as_str().unwrap_or(""), txs[*tx].hash, "hash", "of a transaction sent");
                    }
                }
            }
            Step::Kill(i) => {
                look(&mut net, *i, &mut seen)?;
                net.kill(*i);
                kills += 1;
            }
            Step::Start(i) => net.start(*i),
            Step::Group(v) => net.hub.rules(|r| r.group = v.clone()),
            Step::Net { lost, twice, delay } => net.hub.rules(|r| {
                r.lost = *lost;
                r.twice = *twice;
                r.delay = *delay;
            }),
        }
    }

    // all is well from here on
    let mut stopped = BTreeSet::new();
    net.hub.rules(|r| {
        r.group = vec![0; n];
        r.lost = 0;
        r.twice = 0;
        r.delay = 0;
    });
    let mut left: BTreeSet<usize> = (0..txs.len()).collect();
    if let Some(at) = stop {
        // until the nodes have stopped where they were told to; one that gets the block from
        // others rather than by consensus goes on alone
        let limit = Instant::now() + PATIENCE;
        for i in 0..n {
            net.start(i);
        }
        let mut quiet = Instant::now();
        let mut was = vec![];
        let mut round = 0u64;
        while net.done.len() < n {
            net.alive()?;
            let mut now = vec![];
            for i in 0..n {
                let h = net.hub.ask(i, "eth_blockNumber", json!([])).and_then(|v| v.ok()).and_then(|v| num(&v).ok());
                check!(h.unwrap_or(0) <= at, "goes-on", "node {} is at {:?}, to stop at {}", i, h, at);
                now.push(h);
            }
            if now != was {
                was = now;
                quiet = Instant::now();
            } else if !net.done.is_empty() && quiet.elapsed() > Duration::from_secs(3) {
                break;
            }
            offer(&mut net, &txs, &mut left, n, round % 10 == 0);
            round += 1;
            if was.iter().flatten().any(|h| late(&ep, &left, *h)) {
                return Err(Stop::Discard);
            }
            if Instant::now() > limit {
                return Err(fail("stuck", format!("heights {:?}, to stop at {}, transactions left {:?}", was, at, left)));
            }
            std::thread::sleep(Duration::from_millis(50));
        }
        stopped = std::mem::take(&mut net.done);
        for i in 0..n {
            net.kill(i);
        }
        net.stop = None;
    }
    let limit = Instant::now() + PATIENCE;
    for i in 0..n {
        net.start(i);
    }
    for i in 0..n {
        net.up(i, limit)?;
    }
    if let Some(at) = stop {
        for i in &stopped {
            let h = net.height(*i)?;
            check!(h >= at, "stopped-early", "node {} stopped by itself before {}: it has {}", i, at, h);
        }
    }
    let mut goal = 0;
    for i in 0..n {
        goal = goal.max(net.height(i)? + 3);
    }
    let mut round = 0u64;
    loop {
        net.alive()?;
        offer(&mut net, &txs, &mut left, n, round % 10 == 0);
        round += 1;
        let mut low = u64::MAX;
        let mut hs = vec![];
        for i in 0..n {
            let h = net.height(i)?;
            hs.push(h);
            low = low.min(h);
            look(&mut net, i, &mut seen)?;
        }
        let mut still = BTreeSet::new();
        for tx in &left {
            for i in 0..n {
                if net.must(i, "eth_getTransactionReceipt", json!([txs[*tx].hash]))?.is_null() {
                    still.insert(*tx);
                    break;
                }
            }
        }
        left = still;
        if left.is_empty() && low >= goal {
            break;
        }
        if late(&ep, &left, low) {
            return Err(Stop::Discard);
        }
        if Instant::now() > limit {
            for i in 0..n {
                eprintln!("node {}: {}", i, net.said(i));
            }
            return Err(fail("stuck", format!("heights {:?}, to reach {}, transactions left {:?}", hs, goal, left)));
        }
        std::thread::sleep(Duration::from_millis(100));
    }

    // the chain as each node tells it
    let mut top = u64::MAX;
    for i in 0..n {
        top = top.min(net.height(i)?);
    }
    let mut included: BTreeMap<String, u64> = BTreeMap::new();
    let mut order: BTreeMap<usize, Vec<u64>> = BTreeMap::new();
    let mut paid: BTreeMap<H160, u64> = BTreeMap::new();
    let mut last: Option<Value> = None;
    let mut raws: Vec<Value> = vec![];
    let mut limit = ep[0].tx_num;
    for h in 0..=top {
        let mut b = Value::Null;
        for i in 0..n {
            let v = net.must(i, "eth_getBlockByNumber", json!([hexn(h), true]))?;
            check!(!v.is_null(), "no-block", "node {} has no block {}", i, h);
            if i == 0 {
                b = v;
            } else {
                check_eq!(v, b, "fork", "block {} of nodes 0 and {}", h, i);
            }
        }
        if let Some((hash, i)) = seen.get(&h) {
            check_eq!(b["hash"].as_str(), Some(hash.as_str()), "lost-block", "block {} that node {} had", h, i);
        }
        if let Some(p) = &last {
            check_eq!(b["parentHash"], p["hash"], "parent", "of block {}", h);
            check!(num(&b["timestamp"])? >= num(&p["timestamp"])?, "time", "block {} is older than its parent", h);
        }
        let list = b["transactions"].as_array().cloned().unwrap_or_default();
        // transactions to system contracts are not limited; appending an epoch changes the
        // configuration from the next block on
        let is = |t: &Value, k: usize| t["hash"] == txs[k].hash;
        let system = list.iter().filter(|t| is(t, 0) || is(t, 1)).count();
        check!((list.len() - system) as u64 <= limit, "too-many", "{} transactions in block {} (limit {})", list.len() - system, h, limit);
        if list.iter().any(|t| is(t, 0)) {
            limit = ep[2].tx_num;
        }
        if list.iter().any(|t| is(t, 1)) {
            limit = ep[3].tx_num;
        }
        for t in list {
            let hash = t["hash"].as_str().unwrap_or("").to_string();
            let Some(x) = txs.iter().find(|x| x.hash == hash) else {
                return Err(fail("foreign-transaction", format!("{} in block {}", hash, h)));
            };
            check!(included.insert(hash, h).is_none(), "twice", "a transaction is in a second block {}", h);
            order.entry(x.from).or_default().push(x.nonce);
            *paid.entry(x.to).or_default() += x.value;
        }
        last = Some(b);
        raws.push(net.must(0, "axon_getBlockById", json!([hexn(h)]))?);
    }
    for x in &txs {
        let Some(h) = included.get(&x.hash) else {
            return Err(fail("missing", format!("transaction {} has a receipt but is in no block up to {}", x.hash, top)));
        };
        let mut r0 = Value::Null;
        for i in 0..n {
            let r = net.must(i, "eth_getTransactionReceipt", json!([x.hash]))?;
            check_eq!(num(&r["blockNumber"])?, *h, "receipt-block", "node {}", i);
            check_eq!(num(&r["status"])?, 1, "receipt-status", "node {}: {}", i, r);
            if i == 0 {
                r0 = r;
            } else {
                check_eq!(r, r0, "receipt", "of nodes 0 and {}", i);
            }
        }
    }
    for (u, v) in &order {
        check!(v.windows(2).all(|w| w[0] < w[1]), "nonce-order", "sender {}: {:?}", u, v);
    }
    for i in 0..n {
        for (a, v) in &paid {
            if *a != METADATA_CONTRACT_ADDRESS {
                check_eq!(num(&net.must(i, "eth_getBalance", json!([hex(&a.0), "latest"]))?)?, *v, "balance", "node {} account {:?}", i, a);
            }
        }
        for (u, c) in nonces.iter().enumerate() {
            check_eq!(num(&net.must(i, "eth_getTransactionCount", json!([hex(&address(&user(u)).0), "latest"]))?)?, *c, "nonce", "node {} user {}", i, u);
        }
    }
    // epochs and proofs
    for h in 1..top {
        let e = ep.iter().position(|e| h <= e.end).unwrap();
        let i = g.usize(0, n - 1);
        let md = net.must(i, "axon_getMetadataByNumber", json!([hexn(h)]))?;
        check_eq!(num(&md["epoch"])?, e as u64, "epoch", "of block {}", h);
        let mut a: Vec<String> = md["verifier_list"].as_array().map(|v| v.iter().map(|x| x["pub_key"].as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
        let mut w: Vec<String> = ep[e].who.iter().map(|x| hex(&k[x.0].pk)).collect();
        a.sort();
        w.sort();
        check_eq!(a, w, "validators", "of block {}", h);
        let proof = net.must(i, "axon_getProofById", json!([hexn(h + 1)]))?;
        let b: at::Block = serde_json::from_value(raws[h as usize].clone()).map_err(|e| fail("tools-json", format!("block: {}: {}", e, raws[h as usize])))?;
        let pb: at::Block = serde_json::from_value(raws[h as usize - 1].clone()).map_err(|e| fail("tools-json", e.to_string()))?;
        let p: at::Proof = serde_json::from_value(proof.clone()).map_err(|e| fail("tools-json", format!("proof: {}: {}", e, proof)))?;
        let m: at::Metadata = serde_json::from_value(md.clone()).map_err(|e| fail("tools-json", format!("metadata: {}: {}", e, md)))?;
        let mut vals = m.verifier_list;
        let proposer = b.header.proposer;
        check!(ep[e].who.iter().any(|x| address(&k[x.0].sk) == proposer), "proposer", "block {} was proposed by {:?}, no validator of epoch {}", h, proposer, e);
        let r = pbt::no_panic(move || axon_tools::verify_proof(b, pb.header.state_root, &mut vals, p).map_err(|e| format!("{:?}", e))).map_err(|p| fail("proof-panic", p))?;
        check!(r.is_ok(), "proof", "block {} of epoch {}: {:?}", h, e, r);
    }
    net.alive()?;
    g.label_if(!stopped.is_empty(), "stopped where told to");
    g.label_if(stop == Some(ep[1].end), "all stopped at an epoch's last block");
    g.label_if(kills > 0, "crash");
    g.label_if(kills >= n, "as many crashes as nodes");
    g.label_if(top > ep[1].end, "validators changed");
    g.label_if(top > ep[2].end, "validators changed twice");
    let passed = net.hub.passed();
    g.label_if(passed.keys().any(|k| k.contains("sync")), "sync");
    g.label(&format!("{} nodes", n));
    if kills > 0 || top > ep[1].end {
        g.hit();
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "P45", rule: "a case counts when a node was killed, or the validators changed", assume: vec![], facets: vec![Facet::new("whole nodes", 24, whole).deep(600)] }]
}
