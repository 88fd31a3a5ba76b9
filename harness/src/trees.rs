//! Merkle arrays (positional commitments) and Merkle tries (set commitments).
use crate::nd;
use algorsand::crypto::hashable::*;
use algorsand::crypto::merklearray::{Layer, Pair, Tree};
use algorsand::crypto::merkletrie::*;
use algorsand::protocol;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

struct Leaf(Vec<u8>);
impl Hashable for Leaf {
    fn to_be_hashed(&self) -> (protocol::HashID, Vec<u8>) {
        (protocol::TEST_HASHABLE, self.0.clone())
    }
}
fn leaves(n: usize, name: &str) -> Vec<Leaf> {
    (0..n).map(|_| Leaf(nd::vec(2, name))).collect()
}

/// Every set of positions has a proof, and it verifies.
pub fn array_complete() {
    let n = nd::choose(if nd::thorough() { 10 } else { 7 }, "n");
    let a = leaves(n, "leaf");
    let t = Tree::from_array(&a).unwrap();
    let mut idx = vec![];
    let mut m = HashMap::new();
    for i in 0..n {
        if nd::flip("prove") {
            idx.push(i as u64);
            m.insert(i as u64, hash_obj(&a[i]));
        }
    }
    // order and duplicates make no difference
    match nd::choose(3, "form") {
        0 => {}
        1 => idx.reverse(),
        _ => {
            if let Some(x) = idx.first().copied() {
                idx.push(x)
            }
        }
    }
    let p = t.prove(&mut idx);
    nd::check(p.is_ok(), "every set of positions has a proof");
    let p = p.unwrap();
    nd::check(Tree::verify(&t.root(), m, &p).is_ok(), "every honest proof verifies");
    if n > 0 && idx.len() == n {
        nd::check(p.len() <= 8, "a proof of everything is short");
    }
}
/// Positions outside of the array cannot be proven.
pub fn array_out_of_range() {
    let n = nd::choose(6, "n");
    let a = leaves(n, "leaf");
    let t = Tree::from_array(&a).unwrap();
    let i = nd::u64("i");
    let mut idx = vec![i];
    if nd::flip("and another") {
        idx.push(0);
    }
    let ok = idx.iter().all(|x| *x < n as u64);
    let r = t.prove(&mut idx);
    nd::check(r.is_ok() == ok, "exactly the positions of the array can be proven");
    if ok {
        nd::cover("in range");
    }
    if n == 0 {
        nd::check(t.root() == CryptoHash([0; 32]), "the root of nothing is zero");
    }
}
/// Whatever proof is presented, only what is in the array, where it is, can be shown.
pub fn array_sound() {
    let n = nd::choose(if nd::thorough() { 8 } else { 5 }, "n");
    let a = leaves(n, "leaf");
    let t = Tree::from_array(&a).unwrap();
    let root = t.root();
    let claims = 1 + nd::choose(2, "claims");
    let mut m = HashMap::new();
    let mut truth = true;
    for _ in 0..claims {
        let k = nd::choose(n + 4, "pos");
        let pos = if k < n + 2 { k as u64 } else if k == n + 2 { 1 << 2 } else { 1 << 63 };
        let x = Leaf(nd::vec(2, "claim"));
        truth = truth && pos < n as u64 && a[pos as usize].0 == x.0;
        nd::assume(m.insert(pos, hash_obj(&x)).is_none());
    }
    let p = nd::choose(if nd::thorough() { 5 } else { 4 }, "proof length");
    let proof: Vec<_> = (0..p).map(|_| CryptoHash(nd::bytes("hint"))).collect();
    let r = Tree::verify(&root, m, &proof);
    nd::check(r.is_err() || truth, "a proof shows only what is in the array");
    if r.is_ok() {
        nd::cover("verified");
    }
}
/// The root fixes the whole array.
pub fn array_binding() {
    let max = if nd::thorough() { 6 } else { 5 };
    let n = nd::choose(max, "n");
    let m = nd::choose(max, "m");
    let a = leaves(n, "a");
    let b = leaves(m, "b");
    let same = n == m && a.iter().zip(&b).all(|(x, y)| x.0 == y.0);
    let r = Tree::from_array(&a).unwrap().root();
    let s = Tree::from_array(&b).unwrap().root();
    nd::check((r == s) == same, "equal roots are equal arrays");
}
/// A root is not the root of an array one level up, and a node is no leaf.
pub fn array_domains() {
    let p = Pair { l: CryptoHash(nd::bytes("l")), r: CryptoHash(nd::bytes("r")) };
    let x = Leaf(nd::vec(64, "leaf"));
    nd::check(hash_obj(&p) != hash_obj(&x), "nodes and leaves are told apart");
    let q = Pair { l: CryptoHash(nd::bytes("l2")), r: CryptoHash(nd::bytes("r2")) };
    nd::check((hash_obj(&p) == hash_obj(&q)) == (p.l == q.l && p.r == q.r), "a node fixes its children and their order");
    let n = nd::choose(6, "n");
    let l = Layer((0..n).map(|_| CryptoHash(nd::bytes("h"))).collect());
    let u = l.up();
    nd::check(u.0.len() == (n + 1) / 2, "each level halves");
    for i in 0..u.0.len() {
        let r = if 2 * i + 1 < n { l.0[2 * i + 1].clone() } else { CryptoHash([0; 32]) };
        nd::check(u.0[i] == hash_obj(&Pair { l: l.0[2 * i].clone(), r }), "each node covers its two children");
    }
}

/// A store that can be looked into.
#[derive(Clone, Default)]
struct Shared(Rc<RefCell<BTreeMap<u64, Vec<u8>>>>);
impl Storage for Shared {
    fn store_node(&mut self, id: NodeID, content: &[u8]) -> Result<(), std::io::Error> {
        if content.is_empty() {
            self.0.borrow_mut().remove(&id);
        } else {
            self.0.borrow_mut().insert(id, content.to_vec());
        }
        Ok(())
    }
    fn load_node(&mut self, id: NodeID) -> Result<Option<Vec<u8>>, std::io::Error> {
        Ok(self.0.borrow().get(&id).cloned())
    }
    fn current_storage_size(&self) -> usize {
        self.0.borrow().values().map(|v| v.len()).sum()
    }
}
/// An arbitrary element: a prefix over a small alphabet, which places it in the trie, followed by
/// arbitrary bytes (the same ones whenever the prefix is), which are carried along.
fn element(len: usize, alphabet: u8, rest: &mut BTreeMap<Vec<u8>, [u8; 2]>) -> Vec<u8> {
    let mut v: Vec<u8> = (0..len)
        .map(|_| {
            let b = nd::u8("byte");
            nd::assume(b < alphabet);
            nd::concretize(b as u64) as u8 * 85
        })
        .collect();
    let r = *rest.entry(v.clone()).or_insert_with(|| nd::bytes("rest"));
    v.extend_from_slice(&r);
    v
}
fn rebuilt(set: &BTreeSet<Vec<u8>>) -> CryptoHash {
    let mut t = Trie::new(Shared::default());
    for x in set {
        t.add(x).unwrap();
    }
    t.root_hash().unwrap()
}
fn history(steps: usize, len: usize, alphabet: u8, hash_between: bool, own_store: bool) {
    let store = Shared::default();
    let mut t = if own_store { Trie::new(store.clone()) } else { Trie::new(InMemoryStorage::default()) };
    let mut set: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut rest = BTreeMap::new();
    for _ in 0..steps {
        let x = element(len, alphabet, &mut rest);
        if nd::flip("delete") {
            let r = t.delete(&x);
            let want = set.remove(&x);
            nd::check(r.ok() == Some(want), "deleting tells whether the element was there");
        } else {
            let r = t.add(&x);
            let want = set.insert(x);
            nd::check(r.ok() == Some(want), "adding tells whether the element is new");
        }
        if hash_between && nd::flip("hash") {
            nd::check(t.root_hash().is_ok(), "there is always a root");
        }
    }
    finish(t, store, set, own_store);
}
/// Each storage gives back what was stored in it last, and a trie works on each.
pub fn trie_storages() {
    let tree = || sled::Config::new().temporary(true).open().unwrap().open_tree("nodes").unwrap();
    let disk = nd::flip("disk");
    let store: Box<dyn Storage> = if disk { Box::new(tree()) } else { Box::new(InMemoryStorage::default()) };
    if nd::flip("trie") {
        let mut t = if disk { Trie::new(tree()) } else { Trie::new(InMemoryStorage::default()) };
        let (mut set, mut rest) = (BTreeSet::new(), BTreeMap::new());
        for _ in 0..if nd::thorough() { 4 } else { 3 } {
            let x = element(2, 2, &mut rest);
            if nd::flip("delete") {
                nd::check(t.delete(&x).ok() == Some(set.remove(&x)), "deleting tells whether the element was there");
            } else {
                nd::check(t.add(&x).ok() == Some(set.insert(x)), "adding tells whether the element is new");
            }
        }
        nd::check(t.root_hash().ok() == Some(rebuilt(&set)), "the root depends on the elements only");
        return;
    }
    let mut store = store;
    let mut want: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
    let ids = [0, 1, 256, u64::MAX];
    for _ in 0..3 {
        let id = ids[nd::choose(4, "node")];
        let n = nd::choose(3, "length");
        let c = nd::vec(n, "content");
        nd::check(store.store_node(id, &c).is_ok(), "storing works");
        if n == 0 {
            want.remove(&id);
        } else {
            want.insert(id, c);
        }
    }
    for id in ids {
        nd::check(store.load_node(id).ok() == Some(want.get(&id).cloned()), "a node is what was stored last, if not removed");
    }
    nd::check(disk || store.current_storage_size() == want.values().map(|v| v.len()).sum::<usize>(), "as much is stored");
}
/// The root, the storage and emptying the trie after any history.
fn finish(mut t: Trie, store: Shared, mut set: BTreeSet<Vec<u8>>, own_store: bool) {
    let r = t.root_hash().unwrap();
    nd::check(r == rebuilt(&set), "the root depends on the elements only");
    nd::check(r == t.root_hash().unwrap(), "asking for the root does not change it");
    nd::check(t.root.is_none() == set.is_empty() && (set.is_empty() == (r == CryptoHash([0; 32]))), "only nothing has the zero root");
    if set.len() > 1 {
        nd::cover("several elements");
    }
    if own_store {
        // a compressed tree of n elements has at most n leaves and one node per prefix
        let nodes = store.0.borrow().len();
        let mut prefixes = BTreeSet::new();
        for x in &set {
            for l in 0..x.len() {
                prefixes.insert(x[..l].to_vec());
            }
        }
        nd::check(nodes <= set.len() + prefixes.len() && (nodes == 0) == set.is_empty(), "no nodes are left behind");
    }
    for x in set.clone() {
        nd::check(t.delete(&x).ok() == Some(true), "every element can be deleted");
        set.remove(&x);
    }
    nd::check(t.root_hash().unwrap() == CryptoHash([0; 32]), "deleting everything leaves nothing");
    nd::check(store.0.borrow().is_empty(), "deleting everything frees every node");
}
/// One or two operations on any subset of seven elements which share prefixes of every length, added in either order.
pub fn trie_step() {
    let universe: Vec<Vec<u8>> = [[1u8, 1, 1, 1], [1, 1, 1, 2], [1, 1, 1, 7], [1, 1, 3, 1], [1, 4, 1, 1], [1, 4, 5, 1], [6, 1, 1, 1]]
        .iter()
        .map(|p| {
            let mut v = p.to_vec();
            v.extend_from_slice(&nd::bytes::<2>("rest"));
            v
        })
        .collect();
    let store = Shared::default();
    let mut t = Trie::new(store.clone());
    let mut set: BTreeSet<Vec<u8>> = BTreeSet::new();
    let n = universe.len();
    let hash = nd::flip("hash");
    let backwards = if nd::thorough() { nd::flip("backwards") } else { hash };
    for i in 0..n {
        if nd::flip("there") {
            let x = &universe[if backwards { n - 1 - i } else { i }];
            nd::check(t.add(x).ok() == Some(true), "a new element is added");
            set.insert(x.clone());
        }
    }
    if hash {
        t.root_hash().unwrap();
    }
    for _ in 0..(if nd::thorough() { 2 } else { 1 }) {
        let x = &universe[nd::choose(n, "which")];
        if nd::flip("delete") {
            nd::check(t.delete(x).ok() == Some(set.remove(x)), "deleting tells whether the element was there");
        } else {
            nd::check(t.add(x).ok() == Some(set.insert(x.clone())), "adding tells whether the element is new");
        }
    }
    if set.len() > 2 {
        nd::cover("many elements");
    }
    finish(t, store, set, true);
}
/// Histories of additions and deletions: the trie is a set and its root a function of the set.
pub fn trie_history() {
    history(if nd::thorough() { 5 } else { 4 }, 2, 2, false, true)
}
/// The same with the root asked for at any point in between.
pub fn trie_history_roots() {
    history(if nd::thorough() { 4 } else { 3 }, 2, 2, true, true)
}
pub fn trie_history_wide() {
    history(if nd::thorough() { 4 } else { 3 }, 2, 3, false, false)
}
pub fn trie_history_deep() {
    history(if nd::thorough() { 4 } else { 3 }, 3, 2, nd::thorough(), true)
}
/// Different sets have different roots.
pub fn trie_binding() {
    let make = |k: usize| {
        let mut t = Trie::new(Shared::default());
        let mut v: Vec<Vec<u8>> = vec![];
        let mut rest = BTreeMap::new();
        for _ in 0..k {
            let x = element(2, 2, &mut rest);
            nd::check(t.add(&x).ok() == Some(!v.contains(&x)), "an element is added once");
            if !v.contains(&x) {
                v.push(x);
            }
        }
        (t.root_hash().unwrap(), v)
    };
    let max = if nd::thorough() { 4 } else { 3 };
    let (r, a) = make(nd::choose(max + 1, "n"));
    let (s, b) = make(nd::choose(max, "m"));
    let same = a.iter().all(|x| b.contains(x)) && b.iter().all(|x| a.contains(x));
    nd::check((r == s) == same, "equal roots are equal sets");
    if same && a.len() > 1 {
        nd::cover("same set");
    }
}
/// The same for elements that differ only deep down.
pub fn trie_binding_deep() {
    let make = |k: usize| {
        let mut t = Trie::new(Shared::default());
        let mut v: BTreeSet<Vec<u8>> = BTreeSet::new();
        let mut rest = BTreeMap::new();
        for i in 0..k {
            let x = if i == 0 {
                let r = nd::bytes::<2>("rest");
                rest.insert(vec![0, 0, 0], r);
                vec![0, 0, 0, r[0], r[1]]
            } else {
                element(3, 2, &mut rest)
            };
            nd::check(t.add(&x).ok() == Some(v.insert(x)), "an element is added once");
        }
        (t.root_hash().unwrap(), v)
    };
    let max = if nd::thorough() { 3 } else { 2 };
    let (r, a) = make(1 + nd::choose(max, "n"));
    let (s, b) = make(1 + nd::choose(2, "m"));
    nd::check((r == s) == (a == b), "equal roots are equal sets");
    if a == b && a.len() > 1 {
        nd::cover("same deep set");
    }
}
/// Elements of another length are refused and change nothing.
pub fn trie_lengths() {
    let mut t = Trie::new(InMemoryStorage::default());
    let n = nd::choose(3, "n");
    for i in 0..n {
        t.add(&[i as u8, 5, 6]).unwrap();
    }
    let before = t.root_hash().unwrap();
    let l = nd::choose(6, "length");
    let mut x: Vec<u8> = nd::vec(l, "x");
    if l > 0 {
        nd::assume(x[0] < 3);
        x[0] = nd::concretize(x[0] as u64) as u8;
    }
    nd::assume(l < 2 || x[1] == 5);
    nd::assume(l < 3 || x[2] == 6);
    if n == 0 {
        nd::check(matches!(t.delete(&x), Ok(false)), "nothing is in an empty trie");
        return;
    }
    let there = l == 3 && (x[0] as usize) < n;
    let del = nd::flip("delete");
    let r = if del { t.delete(&x) } else { t.add(&x) };
    if l != 3 {
        nd::cover("other length");
        nd::check(matches!(r, Err(TrieError::ElementLengthMismatch)), "elements of another length are refused");
        nd::check(t.root_hash().unwrap() == before, "a refused element changes nothing");
    } else {
        nd::check(r.ok() == Some(if del { there } else { !there }), "elements of the right length are handled");
        nd::check((t.root_hash().unwrap() == before) == (there != del), "the root changes exactly when the set does");
    }
    if n == 1 && del && there {
        nd::check(t.add(&[1, 2]).ok() == Some(true), "an emptied trie takes elements of any length");
    }
}
/// Nodes survive storage.
pub fn node_codec() {
    let hl = [0usize, 1, 3, 32][nd::choose(4, "hash length")];
    let mut n = Node::default();
    n.hash = nd::vec(hl, "hash");
    if nd::flip("inner") {
        nd::cover("inner");
        let mut c = [None; 256];
        for _ in 0..nd::choose(3, "children") {
            let at = [0usize, 1, 77, 128, 255][nd::choose(5, "at")];
            c[at] = Some(nd::u64("id"));
        }
        n.children = Some(c);
    }
    let mut buf = vec![];
    n.serialize(&mut buf);
    let m = Node::deserialize(&buf);
    nd::check(m.is_some(), "stored nodes can be read");
    let m = m.unwrap();
    nd::check(m.hash == n.hash && m.is_leaf() == n.is_leaf(), "nodes are read as stored");
    if let (Some(a), Some(b)) = (&n.children, &m.children) {
        nd::check(a.iter().zip(b.iter()).all(|(x, y)| x == y), "the children of a node are read as stored");
        nd::check(n.get_child_count() == a.iter().flatten().count() as u64, "children are counted");
    }
}
/// Damaged nodes are refused, never crash.
pub fn node_garbage() {
    let l = nd::choose(if nd::thorough() { 8 } else { 6 }, "length");
    let b = nd::vec(l, "bytes");
    let r = Node::deserialize(&b);
    if let Some(n) = r {
        nd::check(n.hash.len() < l, "no more is read than there is");
        nd::cover("read");
    } else {
        nd::cover("refused");
        nd::check(true, "refused");
    }
}
/// Sets of byte values.
pub fn bitset() {
    let mut s = Bitset::default();
    let mut model = [false; 256];
    for _ in 0..3 {
        let i = nd::below(256, "i");
        if nd::flip("clear") {
            s.clear_bit(i);
            model[i as usize] = false;
        } else {
            s.set_bit(i);
            model[i as usize] = true;
        }
    }
    let q = nd::below(256, "q");
    nd::check(s.bit(q) == model[q as usize], "exactly the set bits are set");
    nd::check(s.is_zero() == !model.iter().fold(false, |a, b| a | b), "a set is empty when no bit is set");
}
