//! In-memory stand-in for `sled`: an ordered map per tree, every write logged so that a harness can
//! let the process crash. Writes are durable in order; a crash keeps everything up to the last flush
//! plus any prefix of what was written after it.
use std::collections::BTreeMap;
use std::fmt;
use std::ops::Deref;
use std::sync::{Arc, Mutex};

pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error {
    CollectionNotFound(IVec),
    Unsupported(String),
    ReportableBug(String),
    Io(std::io::ErrorKind, String),
    Corruption { at: Option<u64>, bt: () },
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("sled error")
    }
}
impl std::error::Error for Error {}
impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self {
        match e {
            Error::Io(k, _) => k.into(),
            _ => std::io::ErrorKind::Other.into(),
        }
    }
}

#[derive(Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct IVec(Vec<u8>);
impl Deref for IVec {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for IVec {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl From<Vec<u8>> for IVec {
    fn from(v: Vec<u8>) -> Self {
        IVec(v)
    }
}
impl From<&[u8]> for IVec {
    fn from(v: &[u8]) -> Self {
        IVec(v.to_vec())
    }
}
impl From<&str> for IVec {
    fn from(v: &str) -> Self {
        IVec(v.as_bytes().to_vec())
    }
}
impl From<String> for IVec {
    fn from(v: String) -> Self {
        IVec(v.into_bytes())
    }
}
impl From<Box<[u8]>> for IVec {
    fn from(v: Box<[u8]>) -> Self {
        IVec(v.into_vec())
    }
}
impl<const N: usize> From<&[u8; N]> for IVec {
    fn from(v: &[u8; N]) -> Self {
        IVec(v.to_vec())
    }
}
impl<const N: usize> From<[u8; N]> for IVec {
    fn from(v: [u8; N]) -> Self {
        IVec(v.to_vec())
    }
}
impl From<&IVec> for IVec {
    fn from(v: &IVec) -> Self {
        v.clone()
    }
}
impl PartialEq<[u8]> for IVec {
    fn eq(&self, o: &[u8]) -> bool {
        self.0 == o
    }
}
impl PartialEq<Vec<u8>> for IVec {
    fn eq(&self, o: &Vec<u8>) -> bool {
        &self.0 == o
    }
}

type Map = BTreeMap<Vec<u8>, Vec<u8>>;
#[derive(Clone)]
enum Op {
    Put(Vec<u8>, Vec<u8>),
    Del(Vec<u8>),
}

#[derive(Default)]
struct Store {
    durable: Map,
    log: Vec<Vec<Op>>,
    view: Map,
}
fn apply(m: &mut Map, ops: &[Op]) {
    for o in ops {
        match o {
            Op::Put(k, v) => {
                m.insert(k.clone(), v.clone());
            }
            Op::Del(k) => {
                m.remove(k);
            }
        }
    }
}
impl Store {
    fn write(&mut self, ops: Vec<Op>) -> Result<()> {
        match strike() {
            Strike::No => {
                apply(&mut self.view, &ops);
                self.log.push(ops);
                Ok(())
            }
            Strike::Dead => Ok(()),
            Strike::Failed => failed(),
        }
    }
}
fn failed<T>() -> Result<T> {
    Err(Error::Io(std::io::ErrorKind::Other, String::new()))
}
enum Strike {
    No,
    Dead,
    Failed,
}
/// What happens to which of the next writes and flushes: (kind, how many go well).
static TROUBLE: Mutex<(u8, usize, bool)> = Mutex::new((0, 0, false));
fn strike() -> Strike {
    let mut t = TROUBLE.lock().unwrap();
    match (t.0, t.1) {
        (0, _) => Strike::No,
        (1, 0) => {
            t.2 = true;
            Strike::Dead
        }
        (_, 0) => {
            t.0 = 0;
            t.2 = true;
            Strike::Failed
        }
        _ => {
            t.1 -= 1;
            Strike::No
        }
    }
}

static WORLD: Mutex<Vec<(String, Arc<Mutex<Store>>)>> = Mutex::new(Vec::new());

/// Harness-side controls.
pub mod model {
    use super::*;
    fn all() -> Vec<Arc<Mutex<Store>>> {
        WORLD.lock().unwrap().iter().map(|x| x.1.clone()).collect()
    }
    /// Number of writes not yet flushed, over all trees.
    pub fn pending() -> usize {
        all().iter().map(|s| s.lock().unwrap().log.len()).sum()
    }
    /// From the write or flush after the next `n` on, the process is dead: nothing has any effect. To be followed by `crash`.
    pub fn die_after(n: usize) {
        *TROUBLE.lock().unwrap() = (1, n, false);
    }
    /// The write or flush after the next `n` fails.
    pub fn fail_after(n: usize) {
        *TROUBLE.lock().unwrap() = (2, n, false);
    }
    /// Whether the trouble asked for has come.
    pub fn struck() -> bool {
        TROUBLE.lock().unwrap().2
    }
    /// Crash: keep what was flushed and the first `keep` of the unflushed writes.
    pub fn crash(mut keep: usize) {
        *TROUBLE.lock().unwrap() = (0, 0, false);
        for s in all() {
            let mut s = s.lock().unwrap();
            let log = std::mem::take(&mut s.log);
            let n = keep.min(log.len());
            keep -= n;
            let mut m = std::mem::take(&mut s.durable);
            for ops in &log[..n] {
                apply(&mut m, ops);
            }
            s.view = m.clone();
            s.durable = m;
        }
    }
}

#[derive(Clone)]
pub struct Tree(Arc<Mutex<Store>>);
#[derive(Clone)]
pub struct Db(String, Tree);
impl fmt::Debug for Tree {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Tree")
    }
}
impl fmt::Debug for Db {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Db")
    }
}
impl Deref for Db {
    type Target = Tree;
    fn deref(&self) -> &Tree {
        &self.1
    }
}

fn tree(name: String) -> Tree {
    let mut w = WORLD.lock().unwrap();
    if let Some(x) = w.iter().find(|x| x.0 == name) {
        return Tree(x.1.clone());
    }
    let s = Arc::new(Mutex::new(Store::default()));
    w.push((name, s.clone()));
    Tree(s)
}

pub fn open<P: AsRef<std::path::Path>>(path: P) -> Result<Db> {
    let n = path.as_ref().to_string_lossy().into_owned();
    Ok(Db(n.clone(), tree(n)))
}
#[derive(Clone, Default, Debug)]
pub struct Config {
    path: String,
}
impl Config {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn path<P: AsRef<std::path::Path>>(mut self, p: P) -> Self {
        self.path = p.as_ref().to_string_lossy().into_owned();
        self
    }
    pub fn temporary(self, _t: bool) -> Self {
        self
    }
    pub fn open(&self) -> Result<Db> {
        open(&self.path)
    }
}
impl Db {
    pub fn open_tree<V: AsRef<[u8]>>(&self, name: V) -> Result<Tree> {
        Ok(tree(format!("{}\0{}", self.0, String::from_utf8_lossy(name.as_ref()))))
    }
}
#[derive(Clone, Default)]
pub struct Batch(Vec<Op>);
impl Batch {
    pub fn insert<K: Into<IVec>, V: Into<IVec>>(&mut self, k: K, v: V) {
        self.0.push(Op::Put(k.into().0, v.into().0));
    }
    pub fn remove<K: Into<IVec>>(&mut self, k: K) {
        self.0.push(Op::Del(k.into().0));
    }
}
impl Tree {
    pub fn insert<K: AsRef<[u8]>, V: Into<IVec>>(&self, k: K, v: V) -> Result<Option<IVec>> {
        let mut s = self.0.lock().unwrap();
        let old = s.view.get(k.as_ref()).cloned().map(IVec);
        s.write(vec![Op::Put(k.as_ref().to_vec(), v.into().0)])?;
        Ok(old)
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<IVec>> {
        Ok(self.0.lock().unwrap().view.get(k.as_ref()).cloned().map(IVec))
    }
    pub fn contains_key<K: AsRef<[u8]>>(&self, k: K) -> Result<bool> {
        Ok(self.0.lock().unwrap().view.contains_key(k.as_ref()))
    }
    pub fn remove<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<IVec>> {
        let mut s = self.0.lock().unwrap();
        let old = s.view.get(k.as_ref()).cloned().map(IVec);
        s.write(vec![Op::Del(k.as_ref().to_vec())])?;
        Ok(old)
    }
    pub fn apply_batch(&self, b: Batch) -> Result<()> {
        self.0.lock().unwrap().write(b.0)
    }
    pub fn clear(&self) -> Result<()> {
        let mut s = self.0.lock().unwrap();
        let ops = s.view.keys().map(|k| Op::Del(k.clone())).collect();
        s.write(ops)
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap().view.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn iter(&self) -> std::vec::IntoIter<Result<(IVec, IVec)>> {
        let s = self.0.lock().unwrap();
        let v: Vec<_> = s.view.iter().map(|(k, v)| Ok((IVec(k.clone()), IVec(v.clone())))).collect();
        v.into_iter()
    }
    pub fn flush(&self) -> Result<usize> {
        let mut s = self.0.lock().unwrap();
        match strike() {
            Strike::No => {
                s.durable = s.view.clone();
                s.log.clear();
                Ok(0)
            }
            Strike::Dead => Ok(0),
            Strike::Failed => failed(),
        }
    }
}
