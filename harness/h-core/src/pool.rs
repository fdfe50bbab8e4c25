//! P25: the pool of transactions, driven through the mempool's own interface with a chain that
//! stands still until a block is committed.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

use core_mempool::{MemPoolImpl, NewTxsHandler};
use core_network::NetworkContext;
use pbt::{check, check_eq, fail, Facet, Gen, Prop, Res, Stop};
use protocol::traits::{Context, MemPool, MemPoolAdapter, MessageHandler};
use protocol::types::*;
use protocol::{async_trait, tokio, ProtocolError, ProtocolErrorKind, ProtocolResult};

use crate::exec::{e, forged, sys};

#[derive(Default)]
struct Chain {
    nonces:    BTreeMap<H160, u64>,
    committed: BTreeMap<Hash, SignedTransaction>,
    /// what other nodes have
    remote:    BTreeMap<Hash, SignedTransaction>,
    /// what they answer instead
    answer:    Option<Vec<SignedTransaction>>,
    bad:       BTreeSet<Hash>,
    sent:      Vec<(Option<usize>, Hash)>,
    height:    u64,
}

#[derive(Clone, Default)]
struct Ad(Arc<Mutex<Chain>>);

fn refused(s: &str) -> ProtocolError {
    ProtocolError::new(ProtocolErrorKind::Mempool, Box::new(std::io::Error::new(std::io::ErrorKind::Other, s.to_string())))
}

fn is_sys(t: &SignedTransaction) -> bool {
    t.transaction.unsigned.action() == &TransactionAction::Call(sys(1))
}

#[async_trait]
impl MemPoolAdapter for Ad {
    async fn pull_txs(&self, _: Context, _: Option<u64>, tx_hashes: Vec<Hash>) -> ProtocolResult<Vec<SignedTransaction>> {
        let mut c = self.0.lock().unwrap();
        if let Some(a) = c.answer.take() {
            return Ok(a);
        }
        tx_hashes.iter().map(|h| c.remote.get(h).cloned().ok_or_else(|| refused("no such transaction"))).collect()
    }

    async fn broadcast_tx(&self, _: Context, origin: Option<usize>, tx: SignedTransaction) -> ProtocolResult<()> {
        self.0.lock().unwrap().sent.push((origin, tx.transaction.hash));
        Ok(())
    }

    async fn check_authorization(&self, _: Context, tx: &SignedTransaction) -> ProtocolResult<U64> {
        if is_sys(tx) {
            return Ok(U64::zero());
        }
        let now: U64 = self.0.lock().unwrap().nonces.get(&tx.sender).copied().unwrap_or(0).into();
        if *tx.transaction.unsigned.nonce() < now {
            return Err(refused("nonce"));
        }
        Ok(*tx.transaction.unsigned.nonce() - now)
    }

    async fn check_transaction(&self, _: Context, tx: &SignedTransaction) -> ProtocolResult<()> {
        if self.0.lock().unwrap().bad.contains(&tx.transaction.hash) {
            return Err(refused("bad"));
        }
        Ok(())
    }

    async fn check_storage_exist(&self, _: Context, h: &Hash) -> ProtocolResult<()> {
        if self.0.lock().unwrap().committed.contains_key(h) {
            return Err(refused("committed"));
        }
        Ok(())
    }

    async fn get_latest_height(&self, _: Context) -> ProtocolResult<u64> {
        Ok(self.0.lock().unwrap().height)
    }

    async fn get_transactions_from_storage(&self, _: Context, _: Option<u64>, hs: &[Hash]) -> ProtocolResult<Vec<Option<SignedTransaction>>> {
        let c = self.0.lock().unwrap();
        Ok(hs.iter().map(|h| c.committed.get(h).cloned()).collect())
    }

    fn set_args(&self, _: Context, _: H256, _: u64, _: u64) {}

    fn clear_nonce_cache(&self) {}

    fn report_good(&self, _: Context) {}
}

#[derive(Clone, Debug)]
struct Rec {
    stx:   SignedTransaction,
    since: Option<u64>,
    out:   bool,
}

impl Rec {
    fn nonce(&self) -> u64 {
        self.stx.transaction.unsigned.nonce().as_u64()
    }
    fn price(&self) -> U64 {
        self.stx.transaction.unsigned.gas_price()
    }
    fn data(&self) -> &[u8] {
        self.stx.transaction.unsigned.data()
    }
}

struct Txs {
    all:    Vec<SignedTransaction>,
    serial: u64,
}

struct Sim {
    ad:      Ad,
    pool:    Arc<MemPoolImpl<Ad>>,
    txs:     Txs,
    cap:     usize,
    timeout: u64,
    acct:    BTreeMap<H160, u64>,
    recs:    BTreeMap<Hash, Rec>,
    done:    BTreeMap<Hash, SignedTransaction>,
    height:  u64,
    users:   Vec<H160>,
    log:     Vec<String>,
    synced:  bool,
}

fn short(h: &Hash) -> String {
    refs::hex(&h.0[..3])
}

impl Txs {
    fn fresh(&mut self, sender: H160, nonce: u64, price: u64, kind: u64) -> SignedTransaction {
        self.serial += 1;
        let (nonce, gas_price, gas_limit, value) = (nonce.into(), price.into(), 21_000u64.into(), U256::zero());
        let (action, data) = (TransactionAction::Call(H160::repeat_byte(7)), Bytes::from(self.serial.to_be_bytes().to_vec()));
        let u = match kind {
            0 => UnsignedTransaction::Legacy(LegacyTransaction { nonce, gas_price, gas_limit, action, value, data }),
            1 => UnsignedTransaction::Eip2930(Eip2930Transaction { nonce, gas_price, gas_limit, action, value, data, access_list: vec![] }),
            _ => UnsignedTransaction::Eip1559(Eip1559Transaction { nonce, max_priority_fee_per_gas: gas_price, gas_price, gas_limit, action, value, data, access_list: vec![] }),
        };
        let t = forged(u, sender);
        self.all.push(t.clone());
        t
    }
}

impl Sim {
    fn fresh_sys(&mut self, g: &mut Gen) -> SignedTransaction {
        self.txs.serial += 1;
        let data = Bytes::from(vec![g.below(3) as u8; 5]);
        let l = LegacyTransaction { nonce: self.txs.serial.into(), gas_price: 1u64.into(), gas_limit: 21_000u64.into(), action: TransactionAction::Call(sys(1)), value: U256::zero(), data };
        let t = forged(UnsignedTransaction::Legacy(l), H160::repeat_byte(0xaa + g.below(3) as u8));
        self.txs.all.push(t.clone());
        t
    }

    fn at(&self, s: &H160) -> u64 {
        self.acct.get(s).copied().unwrap_or(0)
    }

    /// The model's side of a transaction entering the pool.
    fn enter(&mut self, t: &SignedTransaction) {
        if self.recs.contains_key(&t.transaction.hash) {
            return;
        }
        let mut r = Rec { stx: t.clone(), since: None, out: false };
        if !is_sys(t) {
            // more than 64 of one account are not kept
            if self.recs.values().filter(|o| !o.out && !is_sys(&o.stx) && o.stx.sender == t.sender).count() > 64 {
                r.out = true;
            } else if let Some(o) = self.recs.values_mut().find(|o| !o.out && !is_sys(&o.stx) && o.stx.sender == t.sender && o.nonce() == r.nonce()) {
                if o.price() < r.price() {
                    o.out = true;
                } else {
                    r.out = true;
                }
            }
        }
        self.recs.insert(t.transaction.hash, r);
    }

    /// What can be executed of each sender, in order.
    fn runs(&self) -> BTreeMap<H160, Vec<Hash>> {
        let mut m: BTreeMap<H160, BTreeMap<u64, Hash>> = BTreeMap::new();
        for (h, r) in &self.recs {
            if !r.out && !is_sys(&r.stx) {
                m.entry(r.stx.sender).or_default().insert(r.nonce(), *h);
            }
        }
        m.into_iter()
            .map(|(s, q)| {
                let mut n = self.at(&s);
                let mut run = vec![];
                while let Some(h) = q.get(&n) {
                    run.push(*h);
                    n += 1;
                }
                (s, run)
            })
            .collect()
    }

    async fn insert(&mut self, g: &mut Gen, t: SignedTransaction) -> Res {
        let h = t.transaction.hash;
        let known = self.recs.contains_key(&h);
        let bad = g.chance(1, 20) && !known;
        self.ad.0.lock().unwrap().bad = if bad { [h].into() } else { BTreeSet::new() };
        let all = self.recs.len();
        let alive = self.recs.values().filter(|r| !r.out).count();
        let peer = if g.chance(1, 4) { Some(g.usize(0, 9)) } else { None };
        self.ad.0.lock().unwrap().sent.clear();
        let r = match peer {
            None => self.pool.insert(Context::new(), t.clone()).await,
            Some(p) => {
                let ctx = Context::new().set_session_id(p.into());
                NewTxsHandler::new(Arc::clone(&self.pool)).process(ctx, BatchSignedTxs(vec![t.clone()])).await;
                if self.pool.contains(Context::new(), &h).await {
                    Ok(())
                } else {
                    Err(refused("not there"))
                }
            }
        };
        let sent = self.ad.0.lock().unwrap().sent.clone();
        let want = if !known && r.is_ok() { vec![(peer, h)] } else { vec![] };
        check_eq!(sent, want, "offered", "a transaction from {:?} is offered to the other nodes", peer);
        self.log.push(format!("insert {} {}/{} @{}{} -> {}", short(&h), t.sender.0[0], t.transaction.unsigned.nonce(), t.transaction.unsigned.gas_price(), if is_sys(&t) { " sys" } else { "" }, if r.is_ok() { "ok" } else { "no" }));
        let must_fail = !known && (bad || self.done.contains_key(&h) || (!is_sys(&t) && (t.transaction.unsigned.nonce().as_u64() < self.at(&t.sender) || alive >= self.cap)));
        check!(!(must_fail && r.is_ok()), "accepted", "{} is accepted", short(&h));
        if known {
            // a full pool may refuse what it has
            return Ok(());
        }
        if all < self.cap {
            check!(must_fail || r.is_ok(), "refused", "{} is refused: {:?}", short(&h), r);
        }
        if r.is_ok() {
            self.enter(&t);
            check!(self.pool.contains(Context::new(), &h).await, "contains", "{} was accepted", short(&h));
            check_eq!(self.pool.get_tx_from_mem(Context::new(), &h), Some(t), "get", "an accepted transaction");
        } else {
            check!(!self.pool.contains(Context::new(), &h).await, "contains", "{} was refused", short(&h));
            g.label("refused");
        }
        Ok(())
    }

    async fn package(&mut self, g: &mut Gen, limit: u64) -> Result<Vec<Hash>, Stop> {
        let p = self.pool.package(Context::new(), g.u64().into(), limit).await.map_err(e)?;
        self.log.push(format!("package {} -> {} + {:?}", limit, p.call_system_script_count, p.hashes.iter().map(short).collect::<Vec<_>>()));
        let n = p.call_system_script_count as usize;
        check!(n <= p.hashes.len(), "count", "{} system transactions of {}", n, p.hashes.len());
        let distinct: BTreeSet<_> = p.hashes.iter().collect();
        check_eq!(distinct.len(), p.hashes.len(), "twice", "different transactions in a package");
        for h in &p.hashes {
            let Some(r) = self.recs.get(h) else { return Err(fail("packaged", format!("{} is not in the pool", short(h)))) };
            check!(!r.out, "packaged", "{} was replaced", short(h));
            check_eq!(self.pool.get_tx_from_mem(Context::new(), h), Some(r.stx.clone()), "get", "a packaged transaction");
        }
        let want: BTreeSet<&[u8]> = self.recs.values().filter(|r| is_sys(&r.stx)).map(|r| r.data()).collect();
        let got: Vec<&[u8]> = p.hashes[..n].iter().filter(|h| is_sys(&self.recs[*h].stx)).map(|h| self.recs[h].data()).collect();
        check_eq!(got.len(), n, "system", "system transactions come first");
        check_eq!(got.iter().copied().collect::<BTreeSet<_>>(), want, "system", "contents of system transactions");
        check_eq!(n, want.len(), "system", "one system transaction for each content");
        let runs = self.runs();
        let all: usize = runs.values().map(|r| r.len()).sum();
        let normal = &p.hashes[n..];
        let mut by: BTreeMap<H160, Vec<Hash>> = BTreeMap::new();
        for h in normal {
            by.entry(self.recs[h].stx.sender).or_default().push(*h);
        }
        for (s, q) in &by {
            let run = runs.get(s).cloned().unwrap_or_default();
            if self.synced && q.iter().any(|h| self.recs[h].nonce() < self.at(s)) {
                g.known(Err(fail("stale-after-sync", format!("a nonce below the account's {} is packaged", self.at(s)))))?;
                return Err(Stop::Discard);
            }
            let show = |v: &[Hash]| v.iter().map(|h| format!("{}@{}", self.recs[h].nonce(), self.recs[h].price())).collect::<Vec<_>>();
            check!(run.starts_with(q), "order", "of {} from nonce {}: {:?} instead of {:?}", s.0[0], self.at(s), show(q), show(&run));
        }
        if self.synced && normal.len() != all.min(limit as usize) {
            g.known(Err(fail("stale-after-sync", format!("{} of {} transactions are packaged", normal.len(), all))))?;
            return Err(Stop::Discard);
        }
        check_eq!(normal.len(), all.min(limit as usize), "complete", "transactions in a package of at most {} when {} can be executed", limit, all);
        g.label_if(by.values().any(|q| q.len() > 1), "several of a sender");
        g.label_if(by.len() > 1 && by.values().any(|q| q.len() > 1), "several senders");
        g.label_if(all > limit as usize, "limited");
        for s in self.users.clone() {
            let alive = self.recs.values().filter(|r| !r.out && !is_sys(&r.stx) && r.stx.sender == s).count();
            let (k, _) = self.pool.get_tx_count_by_address(Context::new(), s).await.map_err(e)?;
            check_eq!(k, alive, "tx-count", "transactions of {}", s.0[0]);
        }
        Ok(p.hashes)
    }

    async fn full(&mut self, hs: &[Hash]) -> Res {
        let got = self.pool.get_full_txs(Context::new(), None, hs).await;
        let want: Option<Vec<SignedTransaction>> = hs.iter().map(|h| self.recs.get(h).map(|r| &r.stx).or(self.done.get(h)).cloned()).collect();
        match want {
            Some(w) => {
                let got = got.map_err(e)?;
                check_eq!(got.iter().map(|t| short(&t.transaction.hash)).collect::<Vec<_>>(), hs.iter().map(short).collect::<Vec<_>>(), "full-txs", "order of the transactions asked for");
                check_eq!(got, w, "full-txs", "transactions asked for");
            }
            None => check!(got.is_err(), "full-txs", "there is a transaction nobody has"),
        }
        Ok(())
    }

    /// A proposal of other nodes: what it names is pulled from them.
    async fn ensure(&mut self, g: &mut Gen, txs: &[SignedTransaction]) -> Result<bool, Stop> {
        let hs: Vec<Hash> = txs.iter().map(|t| t.transaction.hash).collect();
        let missing: Vec<SignedTransaction> = txs.iter().filter(|t| !self.recs.contains_key(&t.transaction.hash)).cloned().collect();
        let mut ok = true;
        {
            let mut c = self.ad.0.lock().unwrap();
            c.bad = BTreeSet::new();
            c.answer = None;
            c.remote = missing.iter().map(|t| (t.transaction.hash, t.clone())).collect();
            if !missing.is_empty() {
                let mut a = missing.clone();
                match g.below(12) {
                    0 => {
                        a.pop();
                        ok = false;
                    }
                    1 => {
                        let i = g.usize(0, a.len() - 1);
                        c.bad = [a[i].transaction.hash].into();
                        ok = false;
                    }
                    2 | 3 => {
                        // another transaction instead
                        let i = g.usize(0, a.len() - 1);
                        let old = a[i].clone();
                        let t = match g.below(3) {
                            0 if a.len() > 1 => a[(i + 1) % a.len()].clone(),
                            1 if !self.recs.is_empty() => self.recs.values().nth(g.below(self.recs.len() as u64) as usize).unwrap().stx.clone(),
                            _ => {
                                let mut u = match old.transaction.unsigned.clone() {
                                    UnsignedTransaction::Legacy(l) => l,
                                    x => LegacyTransaction { nonce: *x.nonce(), gas_price: x.gas_price(), gas_limit: *x.gas_limit(), action: x.action().clone(), value: *x.value(), data: x.data().to_vec().into() },
                                };
                                u.value = u.value + 1;
                                forged(UnsignedTransaction::Legacy(u), old.sender)
                            }
                        };
                        a[i] = t;
                        ok = false;
                        g.label("foreign answer");
                    }
                    4 | 5 => g.shuffle(&mut a),
                    6 => {
                        a.push(a[0].clone());
                        ok = false;
                    }
                    _ => {}
                }
                c.answer = Some(a);
            }
        }
        let r = self.pool.ensure_order_txs(Context::new(), Some(self.height + 1), &hs).await;
        self.log.push(format!("ensure {:?} -> {}", hs.iter().map(short).collect::<Vec<_>>(), if r.is_ok() { "ok" } else { "no" }));
        if !ok {
            check!(r.is_err(), "ensured", "the answer of the other node misses a transaction or has a bad one");
            // which of them are in the pool now is not said
            for t in txs {
                if self.pool.contains(Context::new(), &t.transaction.hash).await {
                    self.enter(t);
                }
            }
            return Ok(false);
        }
        check!(r.is_ok(), "ensured", "everything was delivered: {:?}", r);
        for t in txs {
            self.enter(t);
        }
        g.label_if(!missing.is_empty(), "pulled");
        self.full(&hs).await?;
        Ok(true)
    }

    async fn commit(&mut self, g: &mut Gen, hs: Vec<Hash>, txs: Vec<SignedTransaction>) -> Res {
        self.height += 1;
        for t in &txs {
            if !is_sys(t) {
                self.acct.insert(t.sender, t.transaction.unsigned.nonce().as_u64() + 1);
            }
            self.done.insert(t.transaction.hash, t.clone());
        }
        {
            let mut c = self.ad.0.lock().unwrap();
            c.nonces = self.acct.clone();
            c.committed = self.done.clone();
            c.height = self.height;
        }
        self.log.push(format!("block {}: {:?}", self.height, hs.iter().map(short).collect::<Vec<_>>()));
        self.pool.flush(Context::new(), &hs, self.height).await.map_err(e)?;
        let mut tips: BTreeMap<H160, u64> = BTreeMap::new();
        for h in &hs {
            if let Some(r) = self.recs.remove(h) {
                if is_sys(&r.stx) {
                    self.recs.retain(|_, o| !is_sys(&o.stx) || o.data() != r.data());
                } else {
                    let t = tips.entry(r.stx.sender).or_default();
                    *t = (*t).max(r.nonce());
                }
            }
        }
        let (height, timeout) = (self.height, self.timeout);
        let before = self.recs.len();
        let mut gone = vec![];
        self.recs.retain(|h, r| {
            if is_sys(&r.stx) {
                return true;
            }
            let old = r.since.map_or(false, |f| f + timeout <= height);
            if old && !r.out {
                g.label("timed out");
            }
            let keep = !r.out && !old && !tips.get(&r.stx.sender).map_or(false, |t| r.nonce() <= *t);
            if !keep {
                gone.push(*h);
            }
            keep
        });
        for r in self.recs.values_mut() {
            r.since.get_or_insert(height);
        }
        let _ = before;
        for h in gone.iter().chain(&hs) {
            check!(!self.pool.contains(Context::new(), h).await, "contains", "{} is committed, replaced, outdated or timed out", short(h));
        }
        for (h, r) in &self.recs {
            check!(self.pool.contains(Context::new(), h).await, "lost", "{} (since {:?}) is no longer in the pool at {}", short(h), r.since, height);
        }
        check_eq!(self.pool.len(), self.recs.len(), "length", "number of transactions in the pool");
        Ok(())
    }

    async fn block(&mut self, g: &mut Gen) -> Res {
        match g.below(4) {
            // the pool's own proposal
            0 | 1 => {
                let limit = if g.bool() { 1000 } else { g.below(6) };
                let hs = self.package(g, limit).await?;
                let txs: Vec<_> = hs.iter().map(|h| self.recs[h].stx.clone()).collect();
                self.full(&hs).await?;
                if g.bool() {
                    check!(self.pool.ensure_order_txs(Context::new(), None, &hs).await.is_ok(), "ensured", "what was packaged");
                }
                if !hs.is_empty() {
                    g.hit();
                }
                self.commit(g, hs, txs).await
            }
            // another node's proposal
            _ => {
                let mut at = self.acct.clone();
                let mut txs: Vec<SignedTransaction> = vec![];
                for _ in 0..g.below(5) {
                    if g.chance(1, 8) {
                        let s: Vec<_> = self.recs.values().filter(|r| is_sys(&r.stx) && !txs.iter().any(|t| is_sys(t) && t.transaction.unsigned.data() == r.data())).map(|r| r.stx.clone()).collect();
                        if !s.is_empty() {
                            txs.push(g.pick(&s).clone());
                        }
                        continue;
                    }
                    let s = *g.pick(&self.users.clone());
                    let n = at.get(&s).copied().unwrap_or(0);
                    let mine: Vec<_> = self.recs.values().filter(|r| !is_sys(&r.stx) && r.stx.sender == s && r.nonce() == n).map(|r| r.stx.clone()).collect();
                    let t = if !mine.is_empty() && g.below(3) > 0 {
                        g.pick(&mine).clone()
                    } else {
                        let (p, k) = (1 + g.below(5), g.below(3));
                        self.txs.fresh(s, n, p, k)
                    };
                    at.insert(s, n + 1);
                    txs.push(t);
                }
                txs.sort_by_key(|t| !is_sys(t));
                if self.synced_commit(g) {
                    let hs = txs.iter().map(|t| t.transaction.hash).collect();
                    return self.commit(g, hs, txs).await;
                }
                if self.ensure(g, &txs).await? && g.below(4) > 0 {
                    let hs = txs.iter().map(|t| t.transaction.hash).collect();
                    if !txs.is_empty() {
                        g.hit();
                    }
                    return self.commit(g, hs, txs).await;
                }
                Ok(())
            }
        }
    }

    /// Whether the block comes by synchronization, past the pool.
    fn synced_commit(&mut self, g: &mut Gen) -> bool {
        if g.chance(1, 25) {
            self.synced = true;
            g.label("synchronized");
            return true;
        }
        false
    }
}

fn histories(g: &mut Gen, ops: usize, background: bool) -> Res {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    let cap = if g.chance(1, 4) { g.usize(1, 6) } else { 200 };
    let timeout = 1 + g.below(6);
    let users: Vec<H160> = (1..=1 + g.below(3)).map(|i| H160::repeat_byte(i as u8)).collect();
    let ad = Ad::default();
    let acct: BTreeMap<H160, u64> = users.iter().map(|u| (*u, if g.bool() { 0 } else { g.below(4) })).collect();
    let height = g.below(30);
    ad.0.lock().unwrap().nonces = acct.clone();
    rt.block_on(async {
        let pool = Arc::new(MemPoolImpl::new(cap, timeout, ad.clone(), vec![]).await);
        let mut s = Sim { ad, pool, cap, timeout, acct, recs: BTreeMap::new(), txs: Txs { all: vec![], serial: 0 }, done: BTreeMap::new(), height, users, log: vec![format!("{} places, timeout {}, height {}", cap, timeout, height)], synced: false };
        let n = g.usize(3, ops);
        let mut res = Ok(());
        for _ in 0..n {
            res = one(g, &mut s, background).await;
            if res.is_err() {
                break;
            }
        }
        if res.is_ok() {
            res = s.package(g, 1000).await.map(|_| ());
        }
        let log = s.log.join("; ");
        g.note(|| log);
        match res {
            Err(Stop::Discard) if s.synced => Ok(()),
            r => r,
        }
    })
}

async fn one(g: &mut Gen, s: &mut Sim, background: bool) -> Res {
    match g.weighted(&[20, 4, 4, 6, 6, 2, 2, 1]) {
        0 => {
            let u = *g.pick(&s.users.clone());
            let at = s.at(&u);
            let n = match g.below(8) {
                0 => at.saturating_sub(1 + g.below(2)),
                1 | 2 => at + g.below(6),
                // a replacement
                3 => at + g.below(2),
                _ => {
                    // the next that is missing
                    let mut n = at;
                    while s.recs.values().any(|r| !r.out && r.stx.sender == u && r.nonce() == n) {
                        n += 1;
                    }
                    n
                }
            };
            let (p, k) = (1 + g.below(5), g.below(3));
            let t = s.txs.fresh(u, n, p, k);
            s.insert(g, t).await
        }
        1 => {
            // again
            if s.txs.all.is_empty() {
                return Ok(());
            }
            let t = g.pick(&s.txs.all.clone()).clone();
            s.insert(g, t).await
        }
        2 => {
            let t = s.fresh_sys(g);
            s.insert(g, t).await
        }
        3 => {
            let limit = if g.bool() { 1000 } else { g.below(6) };
            s.package(g, limit).await.map(|_| ())
        }
        4 => s.block(g).await,
        5 => {
            let mut hs: Vec<Hash> = s.txs.all.iter().map(|t| t.transaction.hash).filter(|h| s.recs.contains_key(h) || s.done.contains_key(h)).collect();
            g.shuffle(&mut hs);
            hs.truncate(g.usize(0, 8));
            if g.chance(1, 6) {
                hs.push(Hash::repeat_byte(9));
            }
            s.full(&hs).await
        }
        7 => {
            // many of one sender
            let u = *g.pick(&s.users.clone());
            let k = g.below(70);
            if k < 50 {
                return Ok(());
            }
            let at = s.at(&u) + g.below(2);
            for i in 0..k {
                let t = s.txs.fresh(u, at + i, 1 + i % 3, i % 3);
                s.insert(g, t).await?;
            }
            g.label("many of a sender");
            Ok(())
        }
        _ => {
            if background {
                tokio::time::sleep(std::time::Duration::from_millis(55)).await;
            } else {
                tokio::task::yield_now().await;
            }
            Ok(())
        }
    }
}

/// Threads insert, pull and package at once; then everything must be there.
fn threads(g: &mut Gen) -> Res {
    let senders = 2 + g.below(6);
    let mut s = Txs { all: vec![], serial: 0 };
    let mut lists = vec![];
    for i in 0..senders {
        let n = 1 + g.below(12);
        let mut l: Vec<SignedTransaction> = (0..n).map(|k| {
            let p = 1 + g.below(5);
            s.fresh(H160::repeat_byte(1 + i as u8), k, p, 0)
        }).collect();
        if g.bool() {
            g.shuffle(&mut l);
        }
        lists.push((l, g.below(3)));
    }
    let first = g.usize(0, lists.len());
    let dup = g.below(2) == 1;
    let all: Vec<SignedTransaction> = lists.iter().flat_map(|l| l.0.clone()).collect();
    g.note(|| format!("{} transactions of {} senders, {} before the block", all.len(), senders, first));
    g.hit();
    crate::exec::runtime().block_on(async {
        let ad = Ad::default();
        ad.0.lock().unwrap().remote = all.iter().map(|t| (t.transaction.hash, t.clone())).collect();
        let pool = Arc::new(MemPoolImpl::new(500, 20, ad.clone(), vec![]).await);
        let run = |(l, how): (Vec<SignedTransaction>, u64)| {
            let pool = Arc::clone(&pool);
            tokio::spawn(async move {
                match how {
                    0 => {
                        let hs: Vec<Hash> = l.iter().map(|t| t.transaction.hash).collect();
                        pool.ensure_order_txs(Context::new(), None, &hs).await.map_err(|x| x.to_string())?;
                    }
                    _ => {
                        for t in l {
                            pool.insert(Context::new(), t.clone()).await.map_err(|x| x.to_string())?;
                            if dup {
                                pool.insert(Context::new(), t).await.map_err(|x| x.to_string())?;
                            }
                            if how == 2 {
                                pool.package(Context::new(), 1u64.into(), 1000).await.map_err(|x| x.to_string())?;
                            }
                        }
                    }
                }
                Ok::<(), String>(())
            })
        };
        let ok = |r: Result<Result<(), String>, tokio::task::JoinError>| match r {
            Ok(Ok(())) => Ok(()),
            x => Err(fail("insert", format!("{:?}", x))),
        };
        let hs: Vec<_> = lists[..first].iter().cloned().map(run).collect();
        for h in hs {
            ok(h.await)?;
        }
        // a block is committed while the others are inserted
        let p = pool.package(Context::new(), 1u64.into(), 1000).await.map_err(e)?.hashes;
        let before: usize = lists[..first].iter().map(|l| l.0.len()).sum();
        check_eq!(p.len(), before, "complete", "transactions of a package");
        let hs: Vec<_> = lists[first..].iter().cloned().map(run).collect();
        {
            let mut c = ad.0.lock().unwrap();
            for (l, _) in &lists[..first] {
                c.nonces.insert(l[0].sender, l.len() as u64);
            }
        }
        pool.flush(Context::new(), &p, 1).await.map_err(e)?;
        for h in hs {
            ok(h.await)?;
        }
        check_eq!(pool.len(), all.len() - before, "length", "number of transactions in the pool");
        let p = pool.package(Context::new(), 1u64.into(), 1000).await.map_err(e)?.hashes;
        check_eq!(p.len(), all.len() - before, "complete", "transactions of a package");
        let mut next: BTreeMap<H160, u64> = BTreeMap::new();
        for h in &p {
            let t = all.iter().find(|t| t.transaction.hash == *h).unwrap();
            let n = next.entry(t.sender).or_default();
            check_eq!(t.transaction.unsigned.nonce().as_u64(), *n, "order", "nonces of {:?}", t.sender);
            *n += 1;
        }
        pool.flush(Context::new(), &p, 2).await.map_err(e)?;
        check_eq!(pool.len(), 0, "length", "number of transactions in the pool");
        Ok(())
    })
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id:     "P25",
        rule:   "histories in which a block with transactions is committed",
        assume: vec!["the lock-free queue is replaced by one behind a lock"],
        facets: vec![
            Facet::new("histories", 12000, |g| histories(g, 60, false)),
            Facet::new("threads", 1500, threads),
            Facet::new("background", 120, |g| histories(g, 60, true)).deep(2000),
        ],
    }]
}
