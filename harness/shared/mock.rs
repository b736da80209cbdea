//! An in-memory storage context with a journal and injectable read / write failures.
use grovedb_costs::{storage_cost::key_value_cost::KeyValueStorageCost, ChildrenSizesWithIsSumTree, CostContext, CostResult, CostsExt, OperationCost};
use grovedb_storage::{Batch, Error, RawIterator, StorageContext};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Mock {
    pub data: RefCell<BTreeMap<Vec<u8>, Vec<u8>>>,
    pub gets: Cell<u64>,
    pub puts: Cell<u64>,
    /// Fail every operation once this many have been made.
    pub fail_at: Cell<Option<u64>>,
    pub failed: Cell<bool>,
}

impl Mock {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn fork(&self) -> Self {
        Mock { data: RefCell::new(self.data.borrow().clone()), ..Default::default() }
    }
    pub fn dump(&self) -> BTreeMap<Vec<u8>, Vec<u8>> {
        self.data.borrow().clone()
    }
    pub fn ops(&self) -> u64 {
        self.gets.get() + self.puts.get()
    }
    fn tick(&self, c: &Cell<u64>) -> Result<(), Error> {
        if let Some(n) = self.fail_at.get() {
            if self.ops() >= n {
                self.failed.set(true);
                return Err(Error::StorageError("injected".into()));
            }
        }
        c.set(c.get() + 1);
        Ok(())
    }
    fn read(&self, key: &[u8]) -> CostResult<Option<Vec<u8>>, Error> {
        if let Err(e) = self.tick(&self.gets) {
            return Err(e).wrap_with_cost(OperationCost::default());
        }
        let v = self.data.borrow().get(key).cloned();
        let cost = OperationCost { seek_count: 1, storage_loaded_bytes: v.as_ref().map_or(0, |v| v.len() as u64), ..Default::default() };
        Ok(v).wrap_with_cost(cost)
    }
    fn write(&self, key: &[u8], value: Option<&[u8]>) -> CostResult<(), Error> {
        if let Err(e) = self.tick(&self.puts) {
            return Err(e).wrap_with_cost(OperationCost::default());
        }
        match value {
            Some(v) => {
                self.data.borrow_mut().insert(key.to_vec(), v.to_vec());
            }
            None => {
                self.data.borrow_mut().remove(key);
            }
        }
        Ok(()).wrap_with_cost(OperationCost { seek_count: 1, ..Default::default() })
    }
}

fn k(ns: u8, key: impl AsRef<[u8]>) -> Vec<u8> {
    let mut v = vec![ns];
    v.extend_from_slice(key.as_ref());
    v
}

pub struct NoBatch;
impl Batch for NoBatch {
    fn put<K: AsRef<[u8]>>(&mut self, _: K, _: &[u8], _: ChildrenSizesWithIsSumTree, _: Option<KeyValueStorageCost>) -> Result<(), grovedb_costs::error::Error> {
        Ok(())
    }
    fn put_aux<K: AsRef<[u8]>>(&mut self, _: K, _: &[u8], _: Option<KeyValueStorageCost>) -> Result<(), grovedb_costs::error::Error> {
        Ok(())
    }
    fn put_root<K: AsRef<[u8]>>(&mut self, _: K, _: &[u8], _: Option<KeyValueStorageCost>) -> Result<(), grovedb_costs::error::Error> {
        Ok(())
    }
    fn delete<K: AsRef<[u8]>>(&mut self, _: K, _: Option<KeyValueStorageCost>) {}
    fn delete_aux<K: AsRef<[u8]>>(&mut self, _: K, _: Option<KeyValueStorageCost>) {}
    fn delete_root<K: AsRef<[u8]>>(&mut self, _: K, _: Option<KeyValueStorageCost>) {}
}
pub struct NoIter;
fn c<T>(t: T) -> CostContext<T> {
    t.wrap_with_cost(OperationCost::default())
}
impl RawIterator for NoIter {
    fn seek_to_first(&mut self) -> CostContext<()> {
        c(())
    }
    fn seek_to_last(&mut self) -> CostContext<()> {
        c(())
    }
    fn seek<K: AsRef<[u8]>>(&mut self, _: K) -> CostContext<()> {
        c(())
    }
    fn seek_for_prev<K: AsRef<[u8]>>(&mut self, _: K) -> CostContext<()> {
        c(())
    }
    fn next(&mut self) -> CostContext<()> {
        c(())
    }
    fn prev(&mut self) -> CostContext<()> {
        c(())
    }
    fn value(&self) -> CostContext<Option<&[u8]>> {
        c(None)
    }
    fn key(&self) -> CostContext<Option<&[u8]>> {
        c(None)
    }
    fn valid(&self) -> CostContext<bool> {
        c(false)
    }
}
impl<'db> StorageContext<'db> for Mock {
    type Batch = NoBatch;
    type RawIterator = NoIter;
    fn put<K: AsRef<[u8]>>(&self, key: K, value: &[u8], _: ChildrenSizesWithIsSumTree, _: Option<KeyValueStorageCost>) -> CostResult<(), Error> {
        self.write(&k(b'd', key), Some(value))
    }
    fn put_aux<K: AsRef<[u8]>>(&self, key: K, value: &[u8], _: Option<KeyValueStorageCost>) -> CostResult<(), Error> {
        self.write(&k(b'a', key), Some(value))
    }
    fn put_root<K: AsRef<[u8]>>(&self, key: K, value: &[u8], _: Option<KeyValueStorageCost>) -> CostResult<(), Error> {
        self.write(&k(b'r', key), Some(value))
    }
    fn put_meta<K: AsRef<[u8]>>(&self, key: K, value: &[u8], _: Option<KeyValueStorageCost>) -> CostResult<(), Error> {
        self.write(&k(b'm', key), Some(value))
    }
    fn delete<K: AsRef<[u8]>>(&self, key: K, _: Option<KeyValueStorageCost>) -> CostResult<(), Error> {
        self.write(&k(b'd', key), None)
    }
    fn delete_aux<K: AsRef<[u8]>>(&self, key: K, _: Option<KeyValueStorageCost>) -> CostResult<(), Error> {
        self.write(&k(b'a', key), None)
    }
    fn delete_root<K: AsRef<[u8]>>(&self, key: K, _: Option<KeyValueStorageCost>) -> CostResult<(), Error> {
        self.write(&k(b'r', key), None)
    }
    fn delete_meta<K: AsRef<[u8]>>(&self, key: K, _: Option<KeyValueStorageCost>) -> CostResult<(), Error> {
        self.write(&k(b'm', key), None)
    }
    fn get<K: AsRef<[u8]>>(&self, key: K) -> CostResult<Option<Vec<u8>>, Error> {
        self.read(&k(b'd', key))
    }
    fn get_aux<K: AsRef<[u8]>>(&self, key: K) -> CostResult<Option<Vec<u8>>, Error> {
        self.read(&k(b'a', key))
    }
    fn get_root<K: AsRef<[u8]>>(&self, key: K) -> CostResult<Option<Vec<u8>>, Error> {
        self.read(&k(b'r', key))
    }
    fn get_meta<K: AsRef<[u8]>>(&self, key: K) -> CostResult<Option<Vec<u8>>, Error> {
        self.read(&k(b'm', key))
    }
    fn new_batch(&self) -> Self::Batch {
        NoBatch
    }
    fn commit_batch(&self, _: Self::Batch) -> CostResult<(), Error> {
        c(Ok(()))
    }
    fn raw_iter(&self) -> Self::RawIterator {
        NoIter
    }
}
