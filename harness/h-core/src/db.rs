//! P24: the data base adapters.
use std::collections::BTreeMap;

use core_db::{MemoryAdapter, RocksAdapter};
use pbt::{check, check_eq, fail, Facet, Gen, Prop, Res};
use protocol::traits::*;
use protocol::types::*;

use crate::util::*;

macro_rules! schemas {
    ($($s: ident => $c: ident),*) => {
        $(pub struct $s;
        impl StorageSchema for $s {
            type Key = DBBytes;
            type Value = DBBytes;
            fn category() -> StorageCategory { StorageCategory::$c }
        })*
    };
}

schemas!(SBlock => Block, SHeader => BlockHeader, SReceipt => Receipt, STx => SignedTransaction, SWal => Wal, SHashHeight => HashHeight, SCode => Code, SEvm => EvmState, SMeta => MetadataState, SCkb => CkbLightClientState, SVersion => Version);
const N: usize = 11;

macro_rules! table {
    ($f: ident) => {
        [$f::<A, SBlock>, $f::<A, SHeader>, $f::<A, SReceipt>, $f::<A, STx>, $f::<A, SWal>, $f::<A, SHashHeight>, $f::<A, SCode>, $f::<A, SEvm>, $f::<A, SMeta>, $f::<A, SCkb>, $f::<A, SVersion>]
    };
}

type Model = Vec<BTreeMap<Vec<u8>, Vec<u8>>>;

fn b(v: &[u8]) -> DBBytes {
    DBBytes(Bytes::copy_from_slice(v))
}

fn insert<A: StorageAdapter, S: StorageSchema<Key = DBBytes, Value = DBBytes> + 'static>(a: &A, k: &[u8], v: &[u8]) -> Result<(), String> {
    a.insert::<S>(b(k), b(v)).map_err(|e| e.to_string())
}
fn get<A: StorageAdapter, S: StorageSchema<Key = DBBytes, Value = DBBytes> + 'static>(a: &A, k: &[u8]) -> Result<Option<Vec<u8>>, String> {
    a.get::<S>(b(k)).map(|v| v.map(|v| v.0.to_vec())).map_err(|e| e.to_string())
}
fn contains<A: StorageAdapter, S: StorageSchema<Key = DBBytes, Value = DBBytes> + 'static>(a: &A, k: &[u8]) -> Result<bool, String> {
    a.contains::<S>(b(k)).map_err(|e| e.to_string())
}
fn remove<A: StorageAdapter, S: StorageSchema<Key = DBBytes, Value = DBBytes> + 'static>(a: &A, k: &[u8]) -> Result<(), String> {
    a.remove::<S>(b(k)).map_err(|e| e.to_string())
}
fn get_batch<A: StorageAdapter, S: StorageSchema<Key = DBBytes, Value = DBBytes> + 'static>(a: &A, ks: &[Vec<u8>]) -> Result<Vec<Option<Vec<u8>>>, String> {
    a.get_batch::<S>(ks.iter().map(|k| b(k)).collect()).map(|v| v.into_iter().map(|v| v.map(|v| v.0.to_vec())).collect()).map_err(|e| e.to_string())
}
fn batch<A: StorageAdapter, S: StorageSchema<Key = DBBytes, Value = DBBytes> + 'static>(a: &A, ks: &[Vec<u8>], vs: &[Option<Vec<u8>>]) -> Result<(), String> {
    let vs = vs
        .iter()
        .map(|v| match v {
            Some(v) => StorageBatchModify::<S>::Insert(b(v)),
            None => StorageBatchModify::Remove,
        })
        .collect();
    a.batch_modify::<S>(ks.iter().map(|k| b(k)).collect(), vs).map_err(|e| e.to_string())
}
/// The first `n` entries an iteration from `prefix` yields.
fn scan<A: StorageAdapter, S: StorageSchema<Key = DBBytes, Value = DBBytes> + 'static>(a: &A, prefix: &[u8], n: usize) -> Result<Vec<(Vec<u8>, Vec<u8>)>, String> {
    let p = prefix.to_vec();
    let it = a.prepare_iter::<S, _>(&p).map_err(|e| e.to_string())?;
    let mut out = vec![];
    let mut it = it.ref_to_iter();
    while out.len() < n {
        match it.next() {
            Some(Ok((k, v))) => out.push((k.0.to_vec(), v.0.to_vec())),
            Some(Err(e)) => return Err(e.to_string()),
            None => break,
        }
    }
    Ok(out)
}

fn keyg(g: &mut Gen) -> Vec<u8> {
    // few distinct keys, many of them prefixes of others or neighbours of a prefix
    let n = g.usize(0, 4);
    (0..n).map(|_| *g.pick(&[0u8, 1, 0x7f, 0xfe, 0xff])).collect()
}

fn valg(g: &mut Gen) -> Vec<u8> {
    match g.below(8) {
        0 => vec![],
        1 => {
            let n = g.usize(0, 3000);
            vec![7; n]
        }
        _ => g.bytes(24),
    }
}

fn run<A: StorageAdapter>(g: &mut Gen, a: &mut A, mut reopen: Option<&mut dyn FnMut(&mut A)>) -> Res {
    let mut m: Model = vec![BTreeMap::new(); N];
    let cats = [g.usize(0, N - 1), g.usize(0, N - 1)];
    let steps = g.usize(1, 40);
    let e = |s: String| fail("adapter-error", s);
    for _ in 0..steps {
        let c = cats[g.usize(0, 1)];
        match g.weighted(&[5, 3, 2, 2, 3, 4, 4, 1, 1]) {
            0 => {
                let (k, v) = (keyg(g), valg(g));
                table!(insert)[c](a, &k, &v).map_err(e)?;
                g.note(|| format!("insert {} {} {}", c, refs::hex(&k), refs::hex(&v)));
                if m[c].insert(k, v).is_some() {
                    g.label("overwritten");
                }
            }
            1 => {
                let k = keyg(g);
                check_eq!(table!(get)[c](a, &k).map_err(e)?, m[c].get(&k).cloned(), "get", "get of {} in category {}", refs::hex(&k), c);
            }
            2 => {
                let k = keyg(g);
                check_eq!(table!(contains)[c](a, &k).map_err(e)?, m[c].contains_key(&k), "contains", "contains {} in category {}", refs::hex(&k), c);
            }
            3 => {
                let k = keyg(g);
                table!(remove)[c](a, &k).map_err(e)?;
                g.note(|| format!("remove {} {}", c, refs::hex(&k)));
                g.label_if(m[c].remove(&k).is_some(), "removed");
            }
            4 => {
                let ks = g.vec(5, keyg);
                let want: Vec<_> = ks.iter().map(|k| m[c].get(k).cloned()).collect();
                check_eq!(table!(get_batch)[c](a, &ks).map_err(e)?, want, "get-batch", "get_batch in category {}", c);
            }
            5 => {
                let ks = g.vec(6, keyg);
                let mut vs: Vec<_> = ks.iter().map(|_| if g.below(3) == 0 { None } else { Some(valg(g)) }).collect();
                let bad = g.chance(1, 8);
                if bad {
                    if g.bool() && !vs.is_empty() {
                        vs.pop();
                    } else {
                        vs.push(Some(valg(g)));
                    }
                }
                let r = table!(batch)[c](a, &ks, &vs);
                g.note(|| format!("batch {} of {} keys, {} values: {:?}", c, ks.len(), vs.len(), r));
                if bad {
                    check!(r.is_err(), "batch-mismatch", "a batch of {} keys and {} values is accepted", ks.len(), vs.len());
                    g.label("refused batch");
                } else {
                    r.map_err(e)?;
                    let n = ks.len();
                    for (k, v) in ks.into_iter().zip(vs) {
                        match v {
                            Some(v) => {
                                m[c].insert(k, v);
                            }
                            None => {
                                m[c].remove(&k);
                            }
                        }
                    }
                    g.label_if(n > 1, "batch");
                }
            }
            6 => {
                let p = keyg(g);
                let want: Vec<_> = m[c].iter().filter(|(k, _)| k.starts_with(&p)).map(|(k, v)| (k.clone(), v.clone())).collect();
                let got = table!(scan)[c](a, &p, want.len()).map_err(e)?;
                check_eq!(got, want, "prefix-iteration", "the first {} entries from prefix {} in category {}", want.len(), refs::hex(&p), c);
                // what follows does not have the prefix
                let more = table!(scan)[c](a, &p, want.len() + 1).map_err(e)?;
                check!(more.len() <= want.len() || !more[want.len()].0.starts_with(&p), "prefix-iteration", "an entry with the prefix {} comes twice", refs::hex(&p));
                g.label_if(want.len() > 1, "iteration over several");
                if want.len() > 1 {
                    g.hit();
                }
            }
            7 => {
                if let Some(r) = reopen.as_mut() {
                    r(a);
                    g.note(|| "reopen".into());
                    g.label("reopened");
                }
            }
            _ => {
                // nothing leaked into any other category
                for o in 0..N {
                    let want: Vec<_> = m[o].iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                    check_eq!(table!(scan)[o](a, &[], usize::MAX).map_err(e)?, want, "contents", "contents of category {}", o);
                }
            }
        }
    }
    for o in 0..N {
        let want: Vec<_> = m[o].iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        check_eq!(table!(scan)[o](a, &[], usize::MAX).map_err(e)?, want, "contents", "contents of category {}", o);
    }
    Ok(())
}

fn memory(g: &mut Gen) -> Res {
    run(g, &mut MemoryAdapter::new(), None)
}

fn rocks(g: &mut Gen) -> Res {
    let d = Dir::new();
    let p = d.db();
    let mut a = open(&p);
    run(g, &mut a, Some(&mut |a: &mut RocksAdapter| *a = RocksAdapter::open(&p, Default::default()).unwrap()))
}

/// Writes that fail part way: a batch is there whole or not at all.
fn crash(g: &mut Gen) -> Res {
    let d = Dir::new();
    let p = d.db();
    let a = open(&p);
    let mut states: Vec<Model> = vec![vec![BTreeMap::new(); N]];
    let n = g.usize(1, 8);
    let allowed = g.usize(0, n);
    let mut ok = 0;
    rocksdb::sim::allow(&p, allowed as u64);
    for i in 0..n {
        type A = RocksAdapter;
        let c = g.usize(0, 2);
        let mut m = states.last().unwrap().clone();
        let ks = g.vec(5, keyg);
        let vs: Vec<_> = ks.iter().map(|_| if g.below(3) == 0 { None } else { Some(valg(g)) }).collect();
        for (k, v) in ks.iter().zip(&vs) {
            match v {
                Some(v) => {
                    m[c].insert(k.clone(), v.clone());
                }
                None => {
                    m[c].remove(k);
                }
            }
        }
        let r = table!(batch)[c](&a, &ks, &vs);
        match r {
            Ok(()) => {
                check_eq!(ok, i, "write-order", "a write succeeds after a failed one");
                ok += 1;
                states.push(m);
            }
            Err(_) => {
                g.label("failed write");
                if ks.len() > 1 {
                    g.hit();
                }
            }
        }
    }
    drop(a);
    rocksdb::sim::allow(&p, u64::MAX);
    let a = RocksAdapter::open(&p, Default::default()).map_err(|e| fail("reopen", e.to_string()))?;
    type A = RocksAdapter;
    for o in 0..N {
        let got: BTreeMap<_, _> = table!(scan)[o](&a, &[], usize::MAX).map_err(|e| fail("adapter-error", e))?.into_iter().collect();
        check_eq!(got, states[ok][o], "atomic-batch", "category {} after {} reported batches", o, ok);
    }
    Ok(())
}

fn missing(g: &mut Gen) -> Res {
    let d = Dir::new();
    let p = d.db();
    check!(RocksAdapter::open(&p, Default::default()).is_err(), "open-missing", "opening a data base that is not there succeeds");
    let k = keyg(g);
    {
        let a = open(&p);
        insert::<_, SBlock>(&a, &k, b"x").map_err(|e| fail("adapter-error", e))?;
    }
    let a = if g.bool() { open(&p) } else { RocksAdapter::open(&p, Default::default()).map_err(|e| fail("reopen", e.to_string()))? };
    check_eq!(get::<_, SBlock>(&a, &k).map_err(|e| fail("adapter-error", e))?, Some(b"x".to_vec()), "reopen", "an entry after the data base is opened again");
    g.hit();
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id:     "P24",
        rule:   "a history in which an iteration meets several entries with its prefix, a batch of several keys fails, or a data base is opened again",
        assume: vec!["RocksDB itself is replaced by an ordered map in memory with atomic batches (ckb-rocksdb is not available offline)"],
        facets: vec![Facet::new("memory", 6000, memory), Facet::new("rocks", 6000, rocks), Facet::new("crash", 3000, crash), Facet::new("missing", 200, missing)],
    }]
}
