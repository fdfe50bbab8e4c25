//! Stands in for ckb-rocksdb (a C++ library that is not available offline): the calls this
//! repository makes, on ordered maps in memory. A data base is kept under its path, so that opening
//! it again finds what was written; a batch is applied whole or not at all; `sim` counts the writes
//! and can make every write from some point on fail, which is what a crash there leaves behind.
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::ops::Deref;
use std::path::{Path, PathBuf};
use std::fs::File;
use std::io::{Read, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex, RwLock};

type Column = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Default)]
struct Store {
    columns: RwLock<HashMap<String, Column>>,
    writes:  AtomicU64,
    limit:   AtomicU64,
    log:     Mutex<Option<File>>,
}

static KEEP: AtomicBool = AtomicBool::new(false);

static STORES: Mutex<BTreeMap<PathBuf, Arc<Store>>> = Mutex::new(BTreeMap::new());

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error {
    message: String,
}

impl Error {
    pub fn new(message: String) -> Error {
        Error { message }
    }
    pub fn into_string(self) -> String {
        self.message
    }
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.message)
    }
}

impl std::error::Error for Error {}

pub mod sim {
    use super::*;

    fn with<T>(path: &Path, f: impl FnOnce(&Store) -> T) -> T {
        let s = STORES.lock().unwrap().get(path).cloned().expect("no such data base");
        f(&s)
    }

    /// From now on the data bases of this process are also kept in files under their paths, a write
    /// being there once the call that makes it has returned, and whole if at all.
    pub fn keep() {
        KEEP.store(true, SeqCst);
    }

    /// Drops what is stored under `path`.
    pub fn forget(path: impl AsRef<Path>) {
        STORES.lock().unwrap().remove(path.as_ref());
    }

    /// The number of writes (a batch is one write) so far.
    pub fn writes(path: impl AsRef<Path>) -> u64 {
        with(path.as_ref(), |s| s.writes.load(SeqCst))
    }

    /// From now on `n` more writes succeed and all others fail.
    pub fn allow(path: impl AsRef<Path>, n: u64) {
        with(path.as_ref(), |s| s.limit.store(s.writes.load(SeqCst).saturating_add(n), SeqCst))
    }

    /// Everything stored, by column.
    pub fn dump(path: impl AsRef<Path>) -> BTreeMap<String, BTreeMap<Vec<u8>, Vec<u8>>> {
        with(path.as_ref(), |s| s.columns.read().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect())
    }
}

pub struct ColumnFamily {
    name: String,
}

pub struct ColumnFamilyDescriptor {
    name: String,
}

impl ColumnFamilyDescriptor {
    pub fn new(name: impl Into<String>, _options: Options) -> Self {
        ColumnFamilyDescriptor { name: name.into() }
    }
}

#[derive(Default, Clone)]
pub struct Options {
    create: bool,
}

impl Options {
    pub fn create_if_missing(&mut self, v: bool) {
        self.create = v;
    }
    pub fn create_missing_column_families(&mut self, _: bool) {}
    pub fn set_max_open_files(&mut self, _: i32) {}
}

pub struct FullOptions {
    pub db_opts:        Options,
    pub cf_descriptors: Vec<ColumnFamilyDescriptor>,
}

impl FullOptions {
    pub fn load_from_file<P: AsRef<Path>>(_: P, _: Option<usize>, _: bool) -> Result<FullOptions, Error> {
        Err(Error::new("options files are not supported here".into()))
    }
    pub fn complete_column_families(&mut self, _: &[&str], _: bool) -> Result<(), Error> {
        Ok(())
    }
}

#[derive(Default)]
pub struct WriteOptions;

impl WriteOptions {
    pub fn set_sync(&mut self, _: bool) {}
}

#[derive(Default)]
pub struct ReadOptions;

/// A value read.
pub struct DBVector(Vec<u8>);

impl Deref for DBVector {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}

impl AsRef<[u8]> for DBVector {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}

pub struct DB {
    store:    Arc<Store>,
    path:     PathBuf,
    families: HashMap<String, ColumnFamily>,
}

impl fmt::Debug for DB {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "RocksDB {{ path: {:?} }}", self.path)
    }
}

enum Op {
    Put(String, Vec<u8>, Vec<u8>),
    Delete(String, Vec<u8>),
}

#[derive(Default)]
pub struct WriteBatch {
    ops: Mutex<Vec<Op>>,
}

impl WriteBatch {
    pub fn len(&self) -> usize {
        self.ops.lock().unwrap().len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn clear(&mut self) -> Result<(), Error> {
        self.ops.lock().unwrap().clear();
        Ok(())
    }
}

fn record(ops: &[Op]) -> Vec<u8> {
    let mut b = vec![0; 4];
    let mut put = |v: &[u8]| {
        b.extend((v.len() as u32).to_be_bytes());
        b.extend(v);
    };
    for op in ops {
        match op {
            Op::Put(c, k, v) => [b"+".as_slice(), c.as_bytes(), k.as_slice(), v.as_slice()].into_iter().for_each(&mut put),
            Op::Delete(c, k) => [b"-".as_slice(), c.as_bytes(), k.as_slice(), &[]].into_iter().for_each(&mut put),
        }
    }
    let n = b.len() as u32 - 4;
    b[..4].copy_from_slice(&n.to_be_bytes());
    b
}

/// What the file holds; a last record that is cut short is as if never written.
fn load(file: &mut File, columns: &mut HashMap<String, Column>) -> std::io::Result<()> {
    let mut all = vec![];
    file.read_to_end(&mut all)?;
    let num = |at: usize| all.get(at..at + 4).map(|v| u32::from_be_bytes(v.try_into().unwrap()) as usize);
    let mut at = 0;
    while let Some(n) = num(at).filter(|n| all.len() >= at + 4 + n) {
        let end = at + 4 + n;
        let mut p = at + 4;
        while p < end {
            let mut take = || {
                let n = num(p).expect("a length");
                p += 4 + n;
                all[p - n..p].to_vec()
            };
            let (op, c, k, v) = (take(), take(), take(), take());
            let col = columns.entry(String::from_utf8(c).expect("a name")).or_default();
            if op == b"+" {
                col.insert(k, v);
            } else {
                col.remove(&k);
            }
        }
        at = end;
    }
    file.set_len(at as u64)
}

impl DB {
    pub fn path(&self) -> &Path {
        &self.path
    }

    fn apply(&self, ops: &[Op]) -> Result<(), Error> {
        let mut cols = self.store.columns.write().unwrap();
        if self.store.writes.load(SeqCst) >= self.store.limit.load(SeqCst) {
            return Err(Error::new("IO error: no space left".into()));
        }
        self.store.writes.fetch_add(1, SeqCst);
        if let Some(f) = self.store.log.lock().unwrap().as_mut() {
            f.write_all(&record(ops)).map_err(|e| Error::new(format!("IO error: {e}")))?;
        }
        for op in ops {
            match op {
                Op::Put(c, k, v) => {
                    cols.entry(c.clone()).or_default().insert(k.clone(), v.clone());
                }
                Op::Delete(c, k) => {
                    cols.entry(c.clone()).or_default().remove(k);
                }
            }
        }
        Ok(())
    }
}

/// Entries in the order of their keys, from the first key that is not below the prefix on (what
/// RocksDB does for a data base that has no prefix extractor).
pub struct DBIterator<'a> {
    items: std::vec::IntoIter<(Vec<u8>, Vec<u8>)>,
    _db:   std::marker::PhantomData<&'a DB>,
}

impl<'a> Iterator for DBIterator<'a> {
    type Item = (Box<[u8]>, Box<[u8]>);
    fn next(&mut self) -> Option<Self::Item> {
        self.items.next().map(|(k, v)| (k.into_boxed_slice(), v.into_boxed_slice()))
    }
}

#[derive(Clone, Copy)]
pub enum Direction {
    Forward,
    Reverse,
}

pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}

pub mod ops {
    use super::*;

    pub trait GetColumnFamilys {
        fn cf_handle(&self, name: &str) -> Option<&ColumnFamily>;
    }
    pub trait OpenCF: Sized {
        fn open_cf_descriptors<P: AsRef<Path>>(o: &Options, p: P, cfs: Vec<ColumnFamilyDescriptor>) -> Result<Self, Error>;
    }
    pub trait GetCF {
        fn get_cf<K: AsRef<[u8]>>(&self, cf: &ColumnFamily, key: K) -> Result<Option<DBVector>, Error>;
    }
    pub trait PutCF {
        fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, cf: &ColumnFamily, key: K, value: V) -> Result<(), Error>;
    }
    pub trait DeleteCF {
        fn delete_cf<K: AsRef<[u8]>>(&self, cf: &ColumnFamily, key: K) -> Result<(), Error>;
    }
    pub trait IterateCF {
        fn prefix_iterator_cf<'a, P: AsRef<[u8]>>(&'a self, cf: &ColumnFamily, prefix: P) -> Result<DBIterator<'a>, Error>;
        fn iterator_cf<'a>(&'a self, cf: &ColumnFamily, mode: IteratorMode<'_>) -> Result<DBIterator<'a>, Error>;
    }
    pub trait WriteOps {
        fn write(&self, batch: &WriteBatch) -> Result<(), Error> {
            self.write_opt(batch, &WriteOptions)
        }
        fn write_opt(&self, batch: &WriteBatch, o: &WriteOptions) -> Result<(), Error>;
    }

    impl GetColumnFamilys for DB {
        fn cf_handle(&self, name: &str) -> Option<&ColumnFamily> {
            self.families.get(name)
        }
    }

    impl OpenCF for DB {
        fn open_cf_descriptors<P: AsRef<Path>>(o: &Options, p: P, cfs: Vec<ColumnFamilyDescriptor>) -> Result<Self, Error> {
            let path = p.as_ref().to_path_buf();
            let mut stores = STORES.lock().unwrap();
            if !stores.contains_key(&path) && KEEP.load(SeqCst) && (o.create || path.join("log").exists()) {
                let io = |e: std::io::Error| Error::new(format!("IO error: {e}"));
                std::fs::create_dir_all(&path).map_err(io)?;
                let mut f = File::options().create(true).read(true).append(true).open(path.join("log")).map_err(io)?;
                let mut columns = HashMap::new();
                load(&mut f, &mut columns).map_err(io)?;
                let s = Store { limit: AtomicU64::new(u64::MAX), columns: RwLock::new(columns), log: Mutex::new(Some(f)), ..Default::default() };
                stores.insert(path.clone(), Arc::new(s));
            }
            if !stores.contains_key(&path) {
                if !o.create {
                    return Err(Error::new(format!("Invalid argument: {}: does not exist (create_if_missing is false)", path.display())));
                }
                let s = Store { limit: AtomicU64::new(u64::MAX), ..Default::default() };
                stores.insert(path.clone(), Arc::new(s));
            }
            let store = stores[&path].clone();
            let families = cfs.into_iter().map(|d| (d.name.clone(), ColumnFamily { name: d.name })).collect();
            Ok(DB { store, path, families })
        }
    }

    impl GetCF for DB {
        fn get_cf<K: AsRef<[u8]>>(&self, cf: &ColumnFamily, key: K) -> Result<Option<DBVector>, Error> {
            let cols = self.store.columns.read().unwrap();
            Ok(cols.get(&cf.name).and_then(|c| c.get(key.as_ref())).cloned().map(DBVector))
        }
    }

    impl PutCF for DB {
        fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, cf: &ColumnFamily, key: K, value: V) -> Result<(), Error> {
            self.apply(&[Op::Put(cf.name.clone(), key.as_ref().to_vec(), value.as_ref().to_vec())])
        }
    }

    impl DeleteCF for DB {
        fn delete_cf<K: AsRef<[u8]>>(&self, cf: &ColumnFamily, key: K) -> Result<(), Error> {
            self.apply(&[Op::Delete(cf.name.clone(), key.as_ref().to_vec())])
        }
    }

    impl PutCF for WriteBatch {
        fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, cf: &ColumnFamily, key: K, value: V) -> Result<(), Error> {
            self.ops.lock().unwrap().push(Op::Put(cf.name.clone(), key.as_ref().to_vec(), value.as_ref().to_vec()));
            Ok(())
        }
    }

    impl DeleteCF for WriteBatch {
        fn delete_cf<K: AsRef<[u8]>>(&self, cf: &ColumnFamily, key: K) -> Result<(), Error> {
            self.ops.lock().unwrap().push(Op::Delete(cf.name.clone(), key.as_ref().to_vec()));
            Ok(())
        }
    }

    impl WriteOps for DB {
        fn write_opt(&self, batch: &WriteBatch, _: &WriteOptions) -> Result<(), Error> {
            self.apply(&batch.ops.lock().unwrap())
        }
    }

    impl IterateCF for DB {
        fn prefix_iterator_cf<'a, P: AsRef<[u8]>>(&'a self, cf: &ColumnFamily, prefix: P) -> Result<DBIterator<'a>, Error> {
            self.iterator_cf(cf, IteratorMode::From(prefix.as_ref(), Direction::Forward))
        }
        fn iterator_cf<'a>(&'a self, cf: &ColumnFamily, mode: IteratorMode<'_>) -> Result<DBIterator<'a>, Error> {
            let cols = self.store.columns.read().unwrap();
            let empty = Column::new();
            let c = cols.get(&cf.name).unwrap_or(&empty);
            let own = |(k, v): (&Vec<u8>, &Vec<u8>)| (k.clone(), v.clone());
            let items: Vec<_> = match mode {
                IteratorMode::Start => c.iter().map(own).collect(),
                IteratorMode::End => c.iter().rev().map(own).collect(),
                IteratorMode::From(k, Direction::Forward) => c.range(k.to_vec()..).map(own).collect(),
                IteratorMode::From(k, Direction::Reverse) => c.range(..=k.to_vec()).rev().map(own).collect(),
            };
            Ok(DBIterator { items: items.into_iter(), _db: std::marker::PhantomData })
        }
    }
}
