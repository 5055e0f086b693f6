//! A store kept in memory that survives its users, can be compared and rewound, and fails on demand.
use std::{
    borrow::Cow,
    collections::BTreeMap,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering::SeqCst},
        Arc, Mutex,
    },
};
use storage_core::{
    error::{Fatal, Recoverable},
    backend::{ReadOps, TxRo, TxRw, WriteOps}, Backend, BackendImpl, Data, DbDesc, DbMapId, SharedBackend, SharedBackendImpl,
};
use utils::shallow_clone::ShallowClone;

type Map = BTreeMap<Data, Data>;
pub type Maps = Vec<Arc<Map>>;

#[derive(Default)]
struct State {
    names: Vec<String>,
    maps: Maps,
}

/// Which operations fail.
#[derive(Default)]
struct Faults {
    armed: AtomicBool,
    /// Counts operations while armed.
    ops: AtomicU64,
    from: AtomicU64,
    until: AtomicU64,
    fatal: AtomicBool,
    hits: AtomicU64,
    /// Whether operations and commits are written down.
    watched: AtomicBool,
    log: Mutex<(Vec<Op>, Vec<Maps>)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Begin { write: bool },
    Read { write: bool },
    Write,
    Commit,
}

#[derive(Clone, Default)]
pub struct Disk {
    state: Arc<Mutex<State>>,
    faults: Arc<Faults>,
    reckless: Arc<AtomicBool>,
}

impl Disk {
    /// Operations numbered `from..until` from now on fail.
    pub fn arm(&self, from: u64, until: u64, fatal: bool) {
        let f = &self.faults;
        f.ops.store(0, SeqCst);
        f.hits.store(0, SeqCst);
        f.from.store(from, SeqCst);
        f.until.store(until, SeqCst);
        f.fatal.store(fatal, SeqCst);
        f.armed.store(true, SeqCst);
    }
    /// Stop failing; how many operations were counted, how many failed.
    pub fn disarm(&self) -> (u64, u64) {
        self.faults.armed.store(false, SeqCst);
        (self.faults.ops.load(SeqCst), self.faults.hits.load(SeqCst))
    }
    /// Write down what happens from now on.
    pub fn watch(&self) {
        *self.faults.log.lock().expect("lock") = Default::default();
        self.faults.watched.store(true, SeqCst);
    }
    /// The operations since, and the states they stored.
    pub fn unwatch(&self) -> (Vec<Op>, Vec<Maps>) {
        self.faults.watched.store(false, SeqCst);
        std::mem::take(&mut *self.faults.log.lock().expect("lock"))
    }
    pub fn maps(&self) -> Maps {
        self.state.lock().expect("lock").maps.clone()
    }
    pub fn restore(&self, maps: Maps) {
        self.state.lock().expect("lock").maps = maps;
    }
    /// A separate store with the same contents.
    pub fn copy(&self) -> Disk {
        let s = self.state.lock().expect("lock");
        Disk { state: Arc::new(Mutex::new(State { names: s.names.clone(), maps: s.maps.clone() })), ..Disk::default() }
    }
    pub fn table(&self, name: &str) -> Arc<Map> {
        let s = self.state.lock().expect("lock");
        let i = s.names.iter().position(|n| n == name).unwrap_or_else(|| panic!("no table {name}"));
        Arc::clone(&s.maps[i])
    }
    pub fn names(&self) -> Vec<String> {
        self.state.lock().expect("lock").names.clone()
    }
    fn tick(&self, op: Op) -> storage_core::Result<()> {
        let f = &self.faults;
        if f.watched.load(SeqCst) {
            f.log.lock().expect("lock").0.push(op);
        }
        if f.armed.load(SeqCst) {
            let n = f.ops.fetch_add(1, SeqCst);
            if n >= f.from.load(SeqCst) && n < f.until.load(SeqCst) {
                f.hits.fetch_add(1, SeqCst);
                return Err(if f.fatal.load(SeqCst) { Fatal::OutOfSpace.into() } else { Recoverable::TransactionFailed.into() });
            }
        }
        Ok(())
    }
}

#[derive(Clone)]
pub struct DiskImpl(Disk);

impl Backend for Disk {
    type Impl = DiskImpl;
    fn open(self, desc: DbDesc) -> storage_core::Result<DiskImpl> {
        let mut s = self.state.lock().expect("lock");
        let names: Vec<String> = desc.db_maps().transform(|d| d.name().to_string()).into_iter_with_id().map(|(_, n)| n).collect();
        if s.names.is_empty() {
            s.maps = names.iter().map(|_| Arc::default()).collect();
            s.names = names;
        } else {
            assert_eq!(s.names, names, "the tables changed");
        }
        drop(s);
        Ok(DiskImpl(self))
    }
}

impl SharedBackend for Disk {
    type ImplHelper = DiskImpl;
}

impl ShallowClone for DiskImpl {
    fn shallow_clone(&self) -> Self {
        self.clone()
    }
}

pub struct Tx {
    disk: Disk,
    maps: Maps,
    write: bool,
}

impl Tx {
    fn map(&self, id: DbMapId) -> &Map {
        &self.maps[id.as_usize()]
    }
}

impl ReadOps for Tx {
    fn get(&self, id: DbMapId, key: &[u8]) -> storage_core::Result<Option<Cow<'_, [u8]>>> {
        self.disk.tick(Op::Read { write: self.write })?;
        Ok(self.map(id).get(key).map(|v| v.into()))
    }
    fn prefix_iter(&self, id: DbMapId, prefix: Data) -> storage_core::Result<impl Iterator<Item = (Data, Data)> + '_> {
        self.disk.tick(Op::Read { write: self.write })?;
        let end = prefix.clone();
        Ok(self.map(id).range(prefix..).take_while(move |(k, _)| k.starts_with(&end)).map(|(k, v)| (k.clone(), v.clone())))
    }
    fn greater_equal_iter(&self, id: DbMapId, key: Data) -> storage_core::Result<impl Iterator<Item = (Data, Data)> + '_> {
        self.disk.tick(Op::Read { write: self.write })?;
        Ok(self.map(id).range(key..).map(|(k, v)| (k.clone(), v.clone())))
    }
}

impl WriteOps for Tx {
    fn put(&mut self, id: DbMapId, key: Data, val: Data) -> storage_core::Result<()> {
        self.disk.tick(Op::Write)?;
        Arc::make_mut(&mut self.maps[id.as_usize()]).insert(key, val);
        Ok(())
    }
    fn del(&mut self, id: DbMapId, key: &[u8]) -> storage_core::Result<()> {
        self.disk.tick(Op::Write)?;
        Arc::make_mut(&mut self.maps[id.as_usize()]).remove(key);
        Ok(())
    }
}

impl TxRo for Tx {}

impl TxRw for Tx {
    fn commit(self) -> storage_core::Result<()> {
        self.disk.tick(Op::Commit)?;
        if self.disk.faults.watched.load(SeqCst) {
            self.disk.faults.log.lock().expect("lock").1.push(self.maps.clone());
        }
        self.disk.restore(self.maps);
        Ok(())
    }
}

impl DiskImpl {
    fn begin(&self, write: bool) -> storage_core::Result<Tx> {
        self.0.tick(Op::Begin { write })?;
        Ok(Tx { disk: self.0.clone(), maps: self.0.maps(), write })
    }
}

impl BackendImpl for DiskImpl {
    type TxRo<'a> = Tx;
    type TxRw<'a> = Tx;
    fn transaction_ro(&self) -> storage_core::Result<Tx> {
        self.begin(false)
    }
    fn transaction_rw(&mut self, _: Option<usize>) -> storage_core::Result<Tx> {
        self.begin(true)
    }
}

impl SharedBackendImpl for DiskImpl {
    fn transaction_rw(&self, _: Option<usize>) -> storage_core::Result<Tx> {
        self.begin(true)
    }
}

impl chainstate_storage::BlockchainStorageBackendImpl for DiskImpl {
    fn set_reckless_mode(&self, set: bool) -> chainstate_storage::Result<()> {
        self.0.reckless.store(set, SeqCst);
        Ok(())
    }
    fn in_reckless_mode(&self) -> chainstate_storage::Result<bool> {
        Ok(self.0.reckless.load(SeqCst))
    }
}

impl chainstate_storage::BlockchainStorageBackend for Disk {
    type ImplHelper = DiskImpl;
}
