//! P27, P28: the consensus write-ahead log and the log of a proposal's transactions, with crashes.
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::time::Duration;

use core_consensus::{ConsensusWal, SignedTxsWAL};
use pbt::{check, fail, Facet, Gen, Prop, Res, Stop};
use protocol::traits::Context;
use protocol::types::*;

use crate::{crash, gens};
use crate::util::*;

static HUNG: AtomicBool = AtomicBool::new(false);

/// What is read back, or a failure when reading does not end.
fn load(dir: &Path) -> Result<Option<Bytes>, Stop> {
    let (tx, rx) = std::sync::mpsc::channel();
    let dir = dir.to_path_buf();
    std::thread::spawn(move || {
        let r = ConsensusWal::new(&dir).load_overlord_wal(Context::new());
        let _ = tx.send(r.ok());
    });
    let wait = if HUNG.load(SeqCst) { 3 } else { 20 };
    rx.recv_timeout(Duration::from_secs(wait)).map_err(|_| {
        HUNG.store(true, SeqCst);
        fail("load-does-not-end", "reading the consensus log does not come to an end")
    })
}

fn consensus(g: &mut Gen) -> Res {
    let home = Dir::new();
    let dir = home.0.join("wal").join("overlord");
    let mut wal = ConsensusWal::new(&dir);
    let mut now: Option<Bytes> = None;
    let ops = g.usize(1, 14);
    let mut crashed = false;
    for i in 0..ops {
        match g.weighted(&[5, 6, 3, 2, 1]) {
            0 => {
                let info = payload(g);
                wal.update_overlord_wal(Context::new(), info.clone()).map_err(|x| fail("save-fails", format!("saving fails: {x}")))?;
                now = Some(info);
                g.label("save");
            }
            1 => {
                // the process dies while it saves
                let info = payload(g);
                let (at, part) = (g.below(7), g.below(1 << 32));
                let (r, dead) = crash::run(at, part, || wal.update_overlord_wal(Context::new(), info.clone()));
                if !dead {
                    r.map_err(|x| fail("save-fails", format!("saving fails: {x}")))?;
                    now = Some(info);
                } else {
                    g.label(&format!("crash-{at}"));
                    g.hit();
                    let got = load(&dir)?;
                    if got.as_ref() == Some(&info) && now.as_ref() != Some(&info) {
                        g.label("crash-saved");
                        now = Some(info);
                    }
                }
                crashed = true;
                wal = ConsensusWal::new(&dir);
            }
            2 => {
                wal = ConsensusWal::new(&dir);
                g.label("restart");
            }
            3 => {}
            _ => {
                wal.clear().map_err(|x| fail("clear-fails", format!("clearing fails: {x}")))?;
                now = None;
                g.label("clear");
            }
        }
        let got = load(&dir)?;
        g.label_if(crashed && now.is_some(), "state-kept-over-crash");
        if got != now {
            return Err(fail("wrong-state", format!("after operation {i} the log reads {:?}, the state saved last is {:?}", got.map(|x| refs::hex(&x)), now.map(|x| refs::hex(&x)))));
        }
    }
    Ok(())
}

fn payload(g: &mut Gen) -> Bytes {
    let n = match g.below(6) {
        0 => 0,
        1 => g.usize(1, 40),
        2 => g.usize(1, 3000),
        _ => g.usize(1, 200),
    };
    Bytes::from(g.bytes_n(n))
}

fn txs(g: &mut Gen, keys: &[[u8; 32]]) -> Vec<SignedTransaction> {
    let n = g.usize(0, 4);
    (0..n)
        .map(|_| {
            let k = *g.pick(keys);
            let u = gens::unsigned(g);
            sign(u, Some(5), &k)
        })
        .collect()
}

/// Hashes that look alike at either end.
fn roots(g: &mut Gen) -> Vec<Hash> {
    let base = Hash::from(g.arr::<32>());
    let mut v = vec![base];
    for _ in 0..g.usize(0, 4) {
        let mut h = *g.pick(&v);
        let i = g.usize(0, 31);
        h.0[i] ^= 1 << g.below(8);
        v.push(h);
    }
    v.push(Hash::from(g.arr::<32>()));
    v.sort();
    v.dedup();
    v
}

#[derive(PartialEq)]
enum Kept {
    Whole,
    /// a crash came while it was saved or removed
    Maybe,
}

fn transactions(g: &mut Gen) -> Res {
    let home = Dir::new();
    let dir = home.0.join("txs");
    let mut wal = SignedTxsWAL::new(&dir);
    let keys: Vec<[u8; 32]> = (0..2).map(|_| gens::secret(g)).collect();
    let roots = roots(g);
    let base = match g.below(4) {
        0 => g.raw_u64() | 1 << 63,
        1 => 9,
        _ => g.below(100),
    };
    let number = |g: &mut Gen| base.saturating_add(g.below(4));
    // a block's transactions follow from its root
    let of: BTreeMap<Hash, Vec<SignedTransaction>> = roots.iter().map(|h| (*h, txs(g, &keys))).collect();
    let mut kept: BTreeMap<(u64, Hash), Kept> = BTreeMap::new();
    // numbers there is a folder for, or may be
    let mut open: BTreeSet<u64> = BTreeSet::new();
    let mut maybe: BTreeSet<u64> = BTreeSet::new();
    let ops = g.usize(1, 12);
    for i in 0..ops {
        let (at, part) = if g.bool() { (g.below(8), g.below(1 << 32)) } else { (1000, 0) };
        let dead;
        match g.weighted(&[10, 2, 3, 1]) {
            0 => {
                let (n, h) = (number(g), *g.pick(&roots));
                g.label_if(kept.keys().any(|k| k.0 == n && k.1 != h && k.1 .0[..2] == h.0[..2] && k.1 .0[30..] == h.0[30..]), "roots-alike");
                g.label_if(kept.get(&(n, h)) == Some(&Kept::Maybe), "saved-again-after-crash");
                let (r, d) = crash::run(at, part, || wal.save(n, h, of[&h].clone()));
                dead = d;
                if d {
                    kept.insert((n, h), Kept::Maybe);
                    maybe.insert(n);
                    g.label(&format!("crash-saving-{at}"));
                } else {
                    r.map_err(|x| fail("save-fails", format!("saving fails: {x}")))?;
                    kept.insert((n, h), Kept::Whole);
                    open.insert(n);
                    g.label("save");
                }
            }
            1 => {
                dead = true;
                g.label("restart");
            }
            k => {
                let n = if k == 3 { u64::MAX } else { number(g) };
                let (r, d) = crash::run(at, part, || if k == 3 { wal.remove_all() } else { wal.remove(n) });
                dead = d;
                if d {
                    kept.iter_mut().filter(|x| x.0 .0 <= n).for_each(|x| *x.1 = Kept::Maybe);
                    let m: Vec<_> = open.iter().copied().filter(|x| *x <= n).collect();
                    m.iter().for_each(|x| {
                        open.remove(x);
                        maybe.insert(*x);
                    });
                    g.label("crash-removing");
                } else {
                    r.map_err(|x| fail("remove-fails", format!("removing fails: {x}")))?;
                    kept.retain(|k, _| k.0 > n);
                    open.retain(|k| *k > n);
                    maybe.retain(|k| *k > n);
                    g.label(if k == 3 { "remove-all" } else { "remove" });
                }
            }
        }
        if dead {
            wal = SignedTxsWAL::new(&dir);
            if at < 1000 {
                g.hit();
            }
        }
        for n in (0..4).map(|x| base.saturating_add(x)).collect::<BTreeSet<_>>() {
            let (mut want, mut extra) = (vec![], vec![]);
            for h in &roots {
                let got = wal.load(n, *h);
                let t = &of[h];
                let hs = t.iter().map(|x| x.transaction.hash);
                match kept.get(&(n, *h)) {
                    Some(Kept::Whole) => {
                        want.extend(hs);
                        let got = got.map_err(|x| fail("lost", format!("after operation {i} the transactions of block {n} {h:#x} are not there: {x}")))?;
                        check!(&got == t, "wrong-transactions", "after operation {i} other transactions are read for block {n} {h:#x} than were saved: {} for {}", got.len(), t.len());
                    }
                    Some(Kept::Maybe) => {
                        extra.extend(hs);
                        if let Ok(got) = got {
                            check!(&got == t, "cut-log-read", "after a crash in operation {i} or before {} transactions are read for block {n} {h:#x}, which has {}", got.len(), t.len());
                        }
                    }
                    None => check!(got.is_err(), "transactions-from-nowhere", "after operation {i} transactions are read for block {n} {h:#x}, never saved or removed"),
                }
            }
            let mut all: Vec<_> = wal.load_by_number(n).iter().map(|x| x.transaction.hash).collect();
            for w in &want {
                let p = all.iter().position(|x| x == w);
                all.remove(p.ok_or_else(|| fail("by-number", format!("after operation {i} a transaction saved for number {n} is not among those of the number")))?);
            }
            check!(all.iter().all(|x| extra.contains(x)), "by-number", "after operation {i} number {n} has transactions never saved for it");
        }
        let got: BTreeSet<u64> = wal.available_number().map_err(|x| fail("numbers-fail", format!("{x}")))?.into_iter().collect();
        check!(open.is_subset(&got) && got.iter().all(|n| open.contains(n) || maybe.contains(n)), "numbers", "numbers there is a log for: {got:?}, saved: {open:?}");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id:     "P27",
            rule:   "histories with a crash while a state is being saved",
            assume: vec!["the clock does not go backwards", "a crash ends the process; what was written before it is in the files"],
            facets: vec![Facet::new("crashes", 6000, consensus)],
        },
        Prop {
            id:     "P28",
            rule:   "histories with a crash while transactions are being saved or removed",
            assume: vec!["a crash ends the process; what was written before it is in the files"],
            facets: vec![Facet::new("crashes", 1500, transactions)],
        },
    ]
}
