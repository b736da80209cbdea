//! Stand-in for the part of `rocksdb` (rust-rocksdb, OptimisticTransactionDB)
//! that grovedb-storage uses. The real crate is a git dependency that cannot be
//! fetched in this sandbox.
//!
//! Semantics modelled on RocksDB's documented behaviour:
//! * column families are independent ordered maps, keys ordered bytewise;
//! * a `WriteBatch` is applied atomically; later operations of a batch win;
//! * an optimistic transaction reads its own writes over the latest committed
//!   state (no snapshot is taken), tracks the keys it writes with the sequence
//!   number at which each was first tracked, and fails to commit with `Busy`
//!   if any of them was written by someone else afterwards;
//! * `rebuild_from_writebatch` *adds* the batch to the transaction;
//! * iterators see the committed state as of their creation (plus, for a
//!   transaction, the transaction's own writes);
//! * a database directory can be opened only once at a time; contents survive
//!   closing and reopening; a checkpoint is an openable copy.
//!
//! [`control`] is the harness's side door: recording the state after every
//! atomic write (crash points), failing writes, forking a recorded state.

use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt;
use std::marker::PhantomData;
use std::ops::Bound;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex, OnceLock, RwLock};

pub const DEFAULT_COLUMN_FAMILY_NAME: &str = "default";
const DATA_FILE: &str = "SHIMDATA";

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ErrorKind {
    NotFound,
    Corruption,
    InvalidArgument,
    IOError,
    Busy,
    TryAgain,
    Unknown,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error {
    kind: ErrorKind,
    message: String,
}

impl Error {
    fn new(kind: ErrorKind, message: impl Into<String>) -> Self {
        Error { kind, message: message.into() }
    }
    pub fn kind(&self) -> ErrorKind {
        self.kind
    }
    pub fn into_string(self) -> String {
        self.message
    }
}
impl AsRef<str> for Error {
    fn as_ref(&self) -> &str {
        &self.message
    }
}
impl From<Error> for String {
    fn from(e: Error) -> String {
        e.message
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.message)
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Debug, Default)]
pub struct Options {
    create_if_missing: bool,
    create_missing_column_families: bool,
}
impl Options {
    pub fn create_if_missing(&mut self, v: bool) {
        self.create_if_missing = v;
    }
    pub fn create_missing_column_families(&mut self, v: bool) {
        self.create_missing_column_families = v;
    }
    pub fn increase_parallelism(&mut self, _: i32) {}
    pub fn set_allow_mmap_writes(&mut self, _: bool) {}
    pub fn set_allow_mmap_reads(&mut self, _: bool) {}
    pub fn set_atomic_flush(&mut self, _: bool) {}
    pub fn set_disable_auto_compactions(&mut self, _: bool) {}
}

pub struct ColumnFamilyDescriptor {
    name: String,
}
impl ColumnFamilyDescriptor {
    pub fn new<S: Into<String>>(name: S, _options: Options) -> Self {
        ColumnFamilyDescriptor { name: name.into() }
    }
}

pub struct ColumnFamily {
    id: usize,
}
pub trait AsColumnFamilyRef {
    fn cf_id(&self) -> usize;
}
impl AsColumnFamilyRef for ColumnFamily {
    fn cf_id(&self) -> usize {
        self.id
    }
}
impl<T: AsColumnFamilyRef + ?Sized> AsColumnFamilyRef for &T {
    fn cf_id(&self) -> usize {
        (**self).cf_id()
    }
}

type Map = BTreeMap<Vec<u8>, Vec<u8>>;
type Snapshot = Vec<Arc<Map>>;

struct State {
    seq: u64,
    names: Vec<String>,
    cfs: Snapshot,
    last_write: HashMap<(usize, Vec<u8>), u64>,
    recording: bool,
    history: Vec<Snapshot>,
    fail_after: Option<u64>,
    writes: u64,
}

enum Op {
    Put(usize, Vec<u8>, Vec<u8>),
    Delete(usize, Vec<u8>),
    DeleteRange(usize, Vec<u8>, Vec<u8>),
}

impl State {
    /// One atomic write.
    fn apply(&mut self, ops: impl IntoIterator<Item = Op>) -> Result<(), Error> {
        if let Some(n) = self.fail_after.as_mut() {
            if *n == 0 {
                return Err(Error::new(ErrorKind::IOError, "IO error: injected write failure"));
            }
            *n -= 1;
        }
        self.writes += 1;
        self.seq += 1;
        let seq = self.seq;
        for op in ops {
            match op {
                Op::Put(cf, k, v) => {
                    Arc::make_mut(&mut self.cfs[cf]).insert(k.clone(), v);
                    self.last_write.insert((cf, k), seq);
                }
                Op::Delete(cf, k) => {
                    Arc::make_mut(&mut self.cfs[cf]).remove(&k);
                    self.last_write.insert((cf, k), seq);
                }
                Op::DeleteRange(cf, from, to) => {
                    let map = Arc::make_mut(&mut self.cfs[cf]);
                    let doomed: Vec<Vec<u8>> =
                        if from < to { map.range(from..to).map(|(k, _)| k.clone()).collect() } else { vec![] };
                    for k in doomed {
                        map.remove(&k);
                        self.last_write.insert((cf, k), seq);
                    }
                }
            }
        }
        if self.recording {
            self.history.push(self.cfs.clone());
        }
        Ok(())
    }
}

struct Inner {
    path: PathBuf,
    state: RwLock<State>,
}

fn open_set() -> &'static Mutex<HashMap<PathBuf, std::sync::Weak<Inner>>> {
    static S: OnceLock<Mutex<HashMap<PathBuf, std::sync::Weak<Inner>>>> = OnceLock::new();
    S.get_or_init(Default::default)
}

fn put_chunk(out: &mut Vec<u8>, b: &[u8]) {
    out.extend((b.len() as u64).to_le_bytes());
    out.extend(b);
}
fn take<'a>(buf: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
    if buf.len() < n {
        return None;
    }
    let (a, b) = buf.split_at(n);
    *buf = b;
    Some(a)
}
fn take_u64(buf: &mut &[u8]) -> Option<u64> {
    take(buf, 8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))
}
fn take_chunk<'a>(buf: &mut &'a [u8]) -> Option<&'a [u8]> {
    let n = take_u64(buf)? as usize;
    take(buf, n)
}

fn encode(names: &[String], cfs: &Snapshot) -> Vec<u8> {
    let mut out = b"SHIMDB01".to_vec();
    out.extend((names.len() as u64).to_le_bytes());
    for (n, m) in names.iter().zip(cfs) {
        put_chunk(&mut out, n.as_bytes());
        out.extend((m.len() as u64).to_le_bytes());
        for (k, v) in m.iter() {
            put_chunk(&mut out, k);
            put_chunk(&mut out, v);
        }
    }
    out
}
fn decode(mut buf: &[u8]) -> Option<(Vec<String>, Snapshot)> {
    let buf = &mut buf;
    if take(buf, 8)? != b"SHIMDB01" {
        return None;
    }
    let n = take_u64(buf)?;
    let (mut names, mut cfs) = (vec![], vec![]);
    for _ in 0..n {
        names.push(String::from_utf8(take_chunk(buf)?.to_vec()).ok()?);
        let len = take_u64(buf)?;
        let mut m = Map::new();
        for _ in 0..len {
            let k = take_chunk(buf)?.to_vec();
            let v = take_chunk(buf)?.to_vec();
            m.insert(k, v);
        }
        cfs.push(Arc::new(m));
    }
    Some((names, cfs))
}

fn write_dir(dir: &Path, names: &[String], cfs: &Snapshot) -> std::io::Result<()> {
    std::fs::write(dir.join(DATA_FILE), encode(names, cfs))?;
    std::fs::write(dir.join("CURRENT"), b"MANIFEST-000001\n")
}

impl Drop for Inner {
    fn drop(&mut self) {
        let mut set = open_set().lock().unwrap_or_else(|e| e.into_inner());
        if let Ok(state) = self.state.read() {
            // the directory may have been removed in the meantime: then the data is gone with it
            if self.path.is_dir() {
                let _ = write_dir(&self.path, &state.names, &state.cfs);
            }
        }
        set.remove(&self.path);
    }
}

pub struct OptimisticTransactionDB {
    inner: Arc<Inner>,
    handles: Vec<(String, ColumnFamily)>,
}

impl OptimisticTransactionDB {
    pub fn open_cf_descriptors<P, I>(opts: &Options, path: P, cfs: I) -> Result<Self, Error>
    where
        P: AsRef<Path>,
        I: IntoIterator<Item = ColumnFamilyDescriptor>,
    {
        let io = |e: std::io::Error| Error::new(ErrorKind::IOError, format!("IO error: {e}"));
        let path = path.as_ref();
        let exists = path.join("CURRENT").exists();
        if !exists {
            if !opts.create_if_missing {
                return Err(Error::new(
                    ErrorKind::InvalidArgument,
                    format!("Invalid argument: {}: does not exist (create_if_missing is false)", path.display()),
                ));
            }
            std::fs::create_dir_all(path).map_err(io)?;
        }
        let canonical = path.canonicalize().map_err(io)?;
        let mut set = open_set().lock().unwrap_or_else(|e| e.into_inner());
        if set.contains_key(&canonical) {
            return Err(Error::new(
                ErrorKind::IOError,
                format!("IO error: lock hold by current process: {}/LOCK: No locks available", canonical.display()),
            ));
        }
        let (mut names, mut maps) = if exists {
            let data = std::fs::read(canonical.join(DATA_FILE)).map_err(io)?;
            decode(&data).ok_or_else(|| Error::new(ErrorKind::Corruption, "Corruption: bad data file"))?
        } else {
            (vec![DEFAULT_COLUMN_FAMILY_NAME.to_string()], vec![Arc::new(Map::new())])
        };
        let mut wanted = vec![DEFAULT_COLUMN_FAMILY_NAME.to_string()];
        wanted.extend(cfs.into_iter().map(|d| d.name));
        for w in &wanted {
            if !names.contains(w) {
                if !opts.create_missing_column_families {
                    return Err(Error::new(
                        ErrorKind::InvalidArgument,
                        format!("Invalid argument: Column family not found: {w}"),
                    ));
                }
                names.push(w.clone());
                maps.push(Arc::new(Map::new()));
            }
        }
        if names.iter().any(|n| !wanted.contains(n)) {
            return Err(Error::new(ErrorKind::InvalidArgument, "Invalid argument: Column families not opened"));
        }
        let handles = names.iter().enumerate().map(|(id, n)| (n.clone(), ColumnFamily { id })).collect();
        write_dir(&canonical, &names, &maps).map_err(io)?;
        let inner = Arc::new(Inner {
            path: canonical.clone(),
            state: RwLock::new(State {
                seq: 0,
                names,
                cfs: maps,
                last_write: HashMap::new(),
                recording: false,
                history: vec![],
                fail_after: None,
                writes: 0,
            }),
        });
        set.insert(canonical, Arc::downgrade(&inner));
        Ok(OptimisticTransactionDB { inner, handles })
    }

    pub fn cf_handle(&self, name: &str) -> Option<&ColumnFamily> {
        self.handles.iter().find(|(n, _)| n == name).map(|(_, c)| c)
    }

    fn read(&self, cf: usize, key: &[u8]) -> Option<Vec<u8>> {
        self.inner.state.read().unwrap().cfs[cf].get(key).cloned()
    }
    fn apply(&self, ops: impl IntoIterator<Item = Op>) -> Result<(), Error> {
        self.inner.state.write().unwrap().apply(ops)
    }

    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        Ok(self.read(0, key.as_ref()))
    }
    pub fn get_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, key: K) -> Result<Option<Vec<u8>>, Error> {
        Ok(self.read(cf.cf_id(), key.as_ref()))
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error> {
        self.apply([Op::Put(0, key.as_ref().to_vec(), value.as_ref().to_vec())])
    }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
        value: V,
    ) -> Result<(), Error> {
        self.apply([Op::Put(cf.cf_id(), key.as_ref().to_vec(), value.as_ref().to_vec())])
    }
    pub fn delete<K: AsRef<[u8]>>(&self, key: K) -> Result<(), Error> {
        self.apply([Op::Delete(0, key.as_ref().to_vec())])
    }
    pub fn delete_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, key: K) -> Result<(), Error> {
        self.apply([Op::Delete(cf.cf_id(), key.as_ref().to_vec())])
    }
    pub fn delete_range_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, from: K, to: K) -> Result<(), Error> {
        self.apply([Op::DeleteRange(cf.cf_id(), from.as_ref().to_vec(), to.as_ref().to_vec())])
    }
    pub fn write(&self, batch: WriteBatchWithTransaction<true>) -> Result<(), Error> {
        self.apply(batch.ops.into_iter().map(|(cf, k, v)| match v {
            Some(v) => Op::Put(cf, k, v),
            None => Op::Delete(cf, k),
        }))
    }
    pub fn flush(&self) -> Result<(), Error> {
        Ok(())
    }
    pub fn transaction(&self) -> Transaction<'_, Self> {
        Transaction {
            inner: self.inner.clone(),
            data: Arc::new(Mutex::new(TxData::default())),
            _db: PhantomData,
        }
    }
    pub fn raw_iterator(&self) -> DBRawIteratorWithThreadMode<'_, Self> {
        DBRawIteratorWithThreadMode::new(&self.inner, 0, None)
    }
    pub fn raw_iterator_cf(&self, cf: &impl AsColumnFamilyRef) -> DBRawIteratorWithThreadMode<'_, Self> {
        DBRawIteratorWithThreadMode::new(&self.inner, cf.cf_id(), None)
    }
    pub fn path(&self) -> &Path {
        &self.inner.path
    }
}

#[derive(Default, Clone)]
pub struct WriteBatchWithTransaction<const T: bool> {
    ops: Vec<(usize, Vec<u8>, Option<Vec<u8>>)>,
}
impl<const T: bool> WriteBatchWithTransaction<T> {
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, key: K, value: V) {
        self.ops.push((0, key.as_ref().to_vec(), Some(value.as_ref().to_vec())));
    }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, cf: &impl AsColumnFamilyRef, key: K, value: V) {
        self.ops.push((cf.cf_id(), key.as_ref().to_vec(), Some(value.as_ref().to_vec())));
    }
    pub fn delete<K: AsRef<[u8]>>(&mut self, key: K) {
        self.ops.push((0, key.as_ref().to_vec(), None));
    }
    pub fn delete_cf<K: AsRef<[u8]>>(&mut self, cf: &impl AsColumnFamilyRef, key: K) {
        self.ops.push((cf.cf_id(), key.as_ref().to_vec(), None));
    }
    pub fn len(&self) -> usize {
        self.ops.len()
    }
    pub fn is_empty(&self) -> bool {
        self.ops.is_empty()
    }
    pub fn clear(&mut self) {
        self.ops.clear()
    }
}

#[derive(Default)]
struct TxData {
    overlay: HashMap<usize, BTreeMap<Vec<u8>, Option<Vec<u8>>>>,
    tracked: HashMap<(usize, Vec<u8>), u64>,
}

pub struct Transaction<'db, DB> {
    inner: Arc<Inner>,
    data: Arc<Mutex<TxData>>,
    _db: PhantomData<&'db DB>,
}

impl<'db, DB> Transaction<'db, DB> {
    fn set(&self, cf: usize, key: &[u8], value: Option<Vec<u8>>) {
        let seq = self.inner.state.read().unwrap().seq;
        let mut d = self.data.lock().unwrap();
        d.tracked.entry((cf, key.to_vec())).or_insert(seq);
        d.overlay.entry(cf).or_default().insert(key.to_vec(), value);
    }
    fn read(&self, cf: usize, key: &[u8]) -> Option<Vec<u8>> {
        if let Some(v) = self.data.lock().unwrap().overlay.get(&cf).and_then(|m| m.get(key)) {
            return v.clone();
        }
        self.inner.state.read().unwrap().cfs[cf].get(key).cloned()
    }
    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        Ok(self.read(0, key.as_ref()))
    }
    pub fn get_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, key: K) -> Result<Option<Vec<u8>>, Error> {
        Ok(self.read(cf.cf_id(), key.as_ref()))
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error> {
        self.set(0, key.as_ref(), Some(value.as_ref().to_vec()));
        Ok(())
    }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
        value: V,
    ) -> Result<(), Error> {
        self.set(cf.cf_id(), key.as_ref(), Some(value.as_ref().to_vec()));
        Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&self, key: K) -> Result<(), Error> {
        self.set(0, key.as_ref(), None);
        Ok(())
    }
    pub fn delete_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, key: K) -> Result<(), Error> {
        self.set(cf.cf_id(), key.as_ref(), None);
        Ok(())
    }
    pub fn rebuild_from_writebatch(&self, batch: &WriteBatchWithTransaction<true>) -> Result<(), Error> {
        for (cf, k, v) in &batch.ops {
            self.set(*cf, k, v.clone());
        }
        Ok(())
    }
    pub fn commit(self) -> Result<(), Error> {
        let mut state = self.inner.state.write().unwrap();
        let mut d = self.data.lock().unwrap();
        for (k, seq) in &d.tracked {
            if state.last_write.get(k).is_some_and(|s| s > seq) {
                return Err(Error::new(ErrorKind::Busy, "Resource busy: "));
            }
        }
        let overlay = std::mem::take(&mut d.overlay);
        d.tracked.clear();
        let mut cfs: Vec<_> = overlay.into_iter().collect();
        cfs.sort_by_key(|c| c.0);
        let ops: Vec<Op> = cfs
            .into_iter()
            .flat_map(|(cf, m)| {
                m.into_iter().map(move |(k, v)| match v {
                    Some(v) => Op::Put(cf, k, v),
                    None => Op::Delete(cf, k),
                })
            })
            .collect();
        if ops.is_empty() {
            return Ok(());
        }
        state.apply(ops)
    }
    pub fn rollback(&self) -> Result<(), Error> {
        let mut d = self.data.lock().unwrap();
        d.overlay.clear();
        d.tracked.clear();
        Ok(())
    }
    pub fn raw_iterator(&self) -> DBRawIteratorWithThreadMode<'_, Self> {
        DBRawIteratorWithThreadMode::new(&self.inner, 0, Some(self.data.clone()))
    }
    pub fn raw_iterator_cf(&self, cf: &impl AsColumnFamilyRef) -> DBRawIteratorWithThreadMode<'_, Self> {
        DBRawIteratorWithThreadMode::new(&self.inner, cf.cf_id(), Some(self.data.clone()))
    }
}

pub struct DBRawIteratorWithThreadMode<'a, D> {
    base: Arc<Map>,
    cf: usize,
    tx: Option<Arc<Mutex<TxData>>>,
    current: Option<(Vec<u8>, Vec<u8>)>,
    _d: PhantomData<&'a D>,
}

impl<'a, D> DBRawIteratorWithThreadMode<'a, D> {
    fn new(inner: &Arc<Inner>, cf: usize, tx: Option<Arc<Mutex<TxData>>>) -> Self {
        let base = inner.state.read().unwrap().cfs[cf].clone();
        DBRawIteratorWithThreadMode { base, cf, tx, current: None, _d: PhantomData }
    }

    fn first_in(&self, mut lower: Bound<Vec<u8>>) -> Option<(Vec<u8>, Vec<u8>)> {
        let guard = self.tx.as_ref().map(|t| t.lock().unwrap());
        let over = guard.as_ref().and_then(|g| g.overlay.get(&self.cf));
        loop {
            let b = self.base.range((lower.clone(), Bound::Unbounded)).next();
            let o = over.and_then(|m| m.range((lower.clone(), Bound::Unbounded)).next());
            match (b, o) {
                (None, None) => return None,
                (Some((k, v)), None) => return Some((k.clone(), v.clone())),
                (Some((k, v)), Some((ok, _))) if k < ok => return Some((k.clone(), v.clone())),
                (_, Some((ok, Some(ov)))) => return Some((ok.clone(), ov.clone())),
                (_, Some((ok, None))) => lower = Bound::Excluded(ok.clone()),
            }
        }
    }
    fn last_in(&self, mut upper: Bound<Vec<u8>>) -> Option<(Vec<u8>, Vec<u8>)> {
        let guard = self.tx.as_ref().map(|t| t.lock().unwrap());
        let over = guard.as_ref().and_then(|g| g.overlay.get(&self.cf));
        loop {
            let b = self.base.range((Bound::Unbounded, upper.clone())).next_back();
            let o = over.and_then(|m| m.range((Bound::Unbounded, upper.clone())).next_back());
            match (b, o) {
                (None, None) => return None,
                (Some((k, v)), None) => return Some((k.clone(), v.clone())),
                (Some((k, v)), Some((ok, _))) if k > ok => return Some((k.clone(), v.clone())),
                (_, Some((ok, Some(ov)))) => return Some((ok.clone(), ov.clone())),
                (_, Some((ok, None))) => upper = Bound::Excluded(ok.clone()),
            }
        }
    }

    pub fn valid(&self) -> bool {
        self.current.is_some()
    }
    pub fn status(&self) -> Result<(), Error> {
        Ok(())
    }
    pub fn seek_to_first(&mut self) {
        self.current = self.first_in(Bound::Unbounded);
    }
    pub fn seek_to_last(&mut self) {
        self.current = self.last_in(Bound::Unbounded);
    }
    pub fn seek<K: AsRef<[u8]>>(&mut self, key: K) {
        self.current = self.first_in(Bound::Included(key.as_ref().to_vec()));
    }
    pub fn seek_for_prev<K: AsRef<[u8]>>(&mut self, key: K) {
        self.current = self.last_in(Bound::Included(key.as_ref().to_vec()));
    }
    pub fn next(&mut self) {
        if let Some((k, _)) = self.current.take() {
            self.current = self.first_in(Bound::Excluded(k));
        }
    }
    pub fn prev(&mut self) {
        if let Some((k, _)) = self.current.take() {
            self.current = self.last_in(Bound::Excluded(k));
        }
    }
    pub fn key(&self) -> Option<&[u8]> {
        self.current.as_ref().map(|c| c.0.as_slice())
    }
    pub fn value(&self) -> Option<&[u8]> {
        self.current.as_ref().map(|c| c.1.as_slice())
    }
    pub fn item(&self) -> Option<(&[u8], &[u8])> {
        self.current.as_ref().map(|c| (c.0.as_slice(), c.1.as_slice()))
    }
}

pub mod checkpoint {
    use super::*;

    pub struct Checkpoint<'db> {
        inner: Arc<Inner>,
        _p: PhantomData<&'db ()>,
    }
    impl<'db> Checkpoint<'db> {
        pub fn new(db: &'db OptimisticTransactionDB) -> Result<Self, Error> {
            Ok(Checkpoint { inner: db.inner.clone(), _p: PhantomData })
        }
        pub fn create_checkpoint<P: AsRef<Path>>(&self, path: P) -> Result<(), Error> {
            self.create_checkpoint_with_log_size(path, 0)
        }
        pub fn create_checkpoint_with_log_size<P: AsRef<Path>>(&self, path: P, _n: u64) -> Result<(), Error> {
            let path = path.as_ref();
            if path.exists() {
                return Err(Error::new(ErrorKind::InvalidArgument, "Invalid argument: Directory exists"));
            }
            let io = |e: std::io::Error| Error::new(ErrorKind::IOError, format!("IO error: {e}"));
            // like RocksDB, the parent must exist
            std::fs::create_dir(path).map_err(io)?;
            let s = self.inner.state.read().unwrap();
            write_dir(path, &s.names, &s.cfs).map_err(io)
        }
    }
}

/// Harness-only controls; nothing in grovedb calls these.
pub mod control {
    use super::*;

    fn with<R>(path: &Path, f: impl FnOnce(&mut State) -> R) -> Option<R> {
        let canonical = path.canonicalize().ok()?;
        let inner = open_set().lock().unwrap().get(&canonical)?.upgrade()?;
        let mut s = inner.state.write().unwrap();
        Some(f(&mut s))
    }
    /// Start recording the database state after every atomic write.
    pub fn record(path: &Path) {
        with(path, |s| {
            s.recording = true;
            s.history = vec![s.cfs.clone()];
        })
        .expect("database is open");
    }
    /// Number of recorded states (the initial one included).
    pub fn recorded(path: &Path) -> usize {
        with(path, |s| s.history.len()).expect("database is open")
    }
    /// Number of atomic writes so far.
    pub fn writes(path: &Path) -> u64 {
        with(path, |s| s.writes).expect("database is open")
    }
    /// Fail every write after the next `n`; `None` stops failing.
    pub fn fail_after(path: &Path, n: Option<u64>) {
        with(path, |s| s.fail_after = n).expect("database is open")
    }
    /// Writes recorded state `i` into the (new) directory `to`: what a crash
    /// right after the i-th recorded write would leave on disk.
    pub fn fork(path: &Path, i: usize, to: &Path) {
        with(path, |s| {
            std::fs::create_dir_all(to).unwrap();
            write_dir(to, &s.names, &s.history[i]).unwrap();
        })
        .expect("database is open")
    }
    pub type Dump = Vec<(String, Vec<(Vec<u8>, Vec<u8>)>)>;
    /// The complete committed contents, per column family.
    pub fn dump(path: &Path) -> Dump {
        with(path, |s| {
            s.names
                .iter()
                .zip(&s.cfs)
                .map(|(n, m)| (n.clone(), m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()))
                .collect()
        })
        .expect("database is open")
    }
    /// Overwrites (or, with `None`, removes) one raw committed entry behind the database's back.
    pub fn tamper(path: &Path, cf: &str, key: &[u8], value: Option<Vec<u8>>) {
        with(path, |s| {
            let i = s.names.iter().position(|n| n == cf).unwrap();
            let m = Arc::make_mut(&mut s.cfs[i]);
            match value {
                Some(v) => m.insert(key.to_vec(), v),
                None => m.remove(key),
            };
        })
        .expect("database is open")
    }
    #[allow(unused)]
    fn unused(_: HashSet<u8>) {}
}
