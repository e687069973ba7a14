//! C09..C21: the versioned tree of /repo/jmt against maps and `jmt_ref`.
use crate::jmt_ref::{self as r, Map, K, PH};
use crate::tape::*;
use crate::Prop;
use borsh::{BorshDeserialize, BorshSerialize};
use jmt::db::VersionedDatabase;
use jmt::mock::MockTreeStore;
use jmt::proof::{SparseMerkleProof, SparseMerkleRangeProof};
use jmt::reader::{Preimage, TreeReader};
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use jmt::storage::{Node, NodeBatch, NodeKey, TreeUpdateBatch, TreeWriter};
use jmt::trie::VersionedTrie;
use jmt::{JellyfishMerkleIterator, JellyfishMerkleTree, KeyHash, RootHash, SimpleHasher};
use sha2::Sha256;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

type Tree = JellyfishMerkleTree<MockTreeStore, Sha256>;
type R = Result<(), String>;
fn hx(b: &[u8]) -> String {
    hex(b)
}
fn sk(k: &K) -> String {
    // short form of a key
    let h = hex(k);
    format!("{}..{}", &h[..8], &h[58..])
}
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
fn es<T, E: std::fmt::Debug>(x: Result<T, E>, what: &str) -> Result<T, String> {
    x.map_err(|e| format!("{} failed: {:?}", what, e))
}

// --------------------------------------------------------------- generators
fn gen_key(t: &mut Tape) -> K {
    let m = t.below(8);
    if m == 7 {
        let mut k = [0u8; 32];
        for x in k.iter_mut() {
            *x = t.u8();
        }
        return k;
    }
    let mut k = [*t.pick(&[0x11u8, 0x00, 0xff, 0x11, 0x11]); 32];
    let n = 1 + t.below(3);
    for _ in 0..n {
        let pos = *t.pick(&[0usize, 0, 1, 1, 2, 3, 7, 30, 62, 63]);
        let v = if m < 4 { *t.pick(&[0u8, 1, 2, 3, 4, 7, 8, 15]) } else { t.u8() & 15 };
        let b = &mut k[pos / 2];
        *b = if pos % 2 == 0 { (*b & 0x0f) | v << 4 } else { (*b & 0xf0) | v };
    }
    k
}
fn gen_val(t: &mut Tape, ctr: &mut u32) -> Vec<u8> {
    *ctr += 1;
    match t.below(5) {
        0 => vec![],
        1 => vec![1],
        2 => vec![7; 40],
        _ => vec![(*ctr >> 8) as u8, *ctr as u8, 9],
    }
}

pub struct W {
    pub db: Arc<MockTreeStore>,
    pub tree: Tree,
    pub maps: Vec<Map>,
    pub roots: Vec<RootHash>,
    pub batches: Vec<(u64, TreeUpdateBatch)>,
    pub universe: Vec<K>,
    pub ctr: u32,
    pub migration: bool,
}
impl W {
    fn new(migration: bool) -> W {
        let db = Arc::new(MockTreeStore::default());
        let tree = if migration { Tree::new(db.clone()) } else { Tree::new_migration(db.clone(), false) };
        W { db, tree, maps: vec![], roots: vec![], batches: vec![], universe: vec![], ctr: 0, migration }
    }
    fn cur(&self) -> Map {
        self.maps.last().cloned().unwrap_or_default()
    }
    fn key(&mut self, t: &mut Tape) -> K {
        if !self.universe.is_empty() && t.pct(50) {
            let i = t.below(self.universe.len().min(256));
            return self.universe[i];
        }
        let k = gen_key(t);
        if !self.universe.contains(&k) {
            self.universe.push(k);
        }
        k
    }
    fn set(&mut self, t: &mut Tape, insert_only: bool, big: bool) -> Vec<(KeyHash, Option<Vec<u8>>)> {
        let n = match t.below(6) {
            0 if !insert_only => 0,
            0 | 1 => 1,
            2 | 3 => 1 + t.below(4),
            4 => 1 + t.below(9),
            _ => 1 + t.below(if big { 60 } else { 16 }),
        };
        let del = *t.pick(&[0usize, 25, 50, 90]);
        let mut v = vec![];
        for _ in 0..n {
            let k = self.key(t);
            if !insert_only && t.pct(del) {
                v.push((KeyHash(k), None));
            } else {
                let val = gen_val(t, &mut self.ctr);
                v.push((KeyHash(k), Some(val)));
            }
        }
        v
    }
    fn log_set(t: &mut Tape, api: &str, v: u64, s: &[(KeyHash, Option<Vec<u8>>)]) {
        let mut o = format!("{} v{}:", api, v);
        for (k, x) in s {
            match x {
                Some(x) => o.push_str(&format!(" {}={}", hx(&k.0), hx(x))),
                None => o.push_str(&format!(" -{}", hx(&k.0))),
            }
        }
        t.log(o);
    }
    fn apply(&mut self, s: &[(KeyHash, Option<Vec<u8>>)]) {
        let mut m = self.cur();
        for (k, v) in s {
            match v {
                Some(v) => {
                    m.insert(k.0, v.clone());
                }
                None => {
                    m.remove(&k.0);
                }
            }
        }
        self.maps.push(m);
    }
    /// one update call through one of the APIs; returns the versions it made
    fn step(&mut self, t: &mut Tape, allow_batch: bool, big: bool) -> Result<(), String> {
        let v0 = self.maps.len() as u64;
        let kind = t.below(if allow_batch { 6 } else { 4 });
        let (roots, batch) = match kind {
            0 | 1 | 2 => {
                let s = self.set(t, false, big);
                Self::log_set(t, "put_value_set", v0, &s);
                let (r, b) = es(self.tree.put_value_set(s.clone(), v0), "put_value_set")?;
                self.apply(&s);
                (vec![r], b)
            }
            3 => {
                let n = 1 + t.below(3);
                let ss: Vec<_> = (0..n).map(|_| self.set(t, false, big)).collect();
                for (i, s) in ss.iter().enumerate() {
                    Self::log_set(t, "put_value_sets", v0 + i as u64, s);
                }
                let x = es(self.tree.put_value_sets(ss.clone(), v0), "put_value_sets")?;
                for s in &ss {
                    self.apply(s);
                }
                x
            }
            _ => {
                let n = 1 + t.below(2);
                let ss: Vec<_> = (0..n).map(|_| self.set(t, true, big)).collect();
                for (i, s) in ss.iter().enumerate() {
                    Self::log_set(t, "batch_put_value_sets", v0 + i as u64, s);
                }
                let x = es(
                    self.tree.batch_put_value_sets(
                        ss.iter().map(|s| s.iter().map(|(k, v)| (*k, v.clone().unwrap())).collect()).collect(), None, v0),
                    "batch_put_value_sets")?;
                for s in &ss {
                    self.apply(s);
                }
                x
            }
        };
        ck!(roots.len() as u64 + v0 == self.maps.len() as u64, "{} root hashes returned for {} versions", roots.len(), self.maps.len() as u64 - v0);
        self.roots.extend(roots);
        self.batches.push((v0, batch.clone()));
        es(self.db.write_tree_update_batch(batch), "write_tree_update_batch")
    }
    fn probe_keys(&self, t: &mut Tape) -> Vec<K> {
        let mut v = self.universe.clone();
        v.truncate(24);
        for _ in 0..4 {
            v.push(gen_key(t));
        }
        v.push([0; 32]);
        v.push([255; 32]);
        v
    }
}
fn world(t: &mut Tape, migration: bool, steps: usize, batch: bool) -> Result<W, String> {
    let mut w = W::new(migration);
    let n = 1 + t.below(steps);
    for _ in 0..n {
        w.step(t, batch, false)?;
    }
    t.nontrivial = w.maps.iter().any(|m| m.len() >= 2);
    Ok(w)
}
fn rootc(m: &Map) -> RootHash {
    RootHash(r::root(m))
}

// ---------------------------------------------------------------------- C09
fn c09_at(w: &W, v: usize, keys: &[K]) -> R {
    let m = &w.maps[v];
    let ver = v as u64;
    for k in keys {
        let want = m.get(k);
        let kh = KeyHash(*k);
        let a = es(VersionedTrie::get(&w.tree, kh, ver), "get")?;
        ck!(a.as_ref() == want, "get({}, v{}) = {:?}, expected {:?}", hx(k), v, a, want);
        let a = es(w.db.get_value_option(ver.into(), kh), "get_value_option")?;
        ck!(a.as_ref() == want, "get_value_option({}, v{}) = {:?}, expected {:?}", hx(k), v, a, want);
        let (a, _) = es(w.tree.get_with_proof(kh, ver), "get_with_proof")?;
        ck!(a.as_ref() == want, "get_with_proof({}, v{}) = {:?}, expected {:?}", hx(k), v, a, want);
        ck!(es(w.tree.contains(kh, ver), "contains")? == want.is_some(), "contains({}, v{}) wrong", hx(k), v);
        match w.db.get_value(ver.into(), kh) {
            Ok(x) => ck!(Some(&x) == want, "get_value({}, v{}) = {:?}, expected {:?}", hx(k), v, x, want),
            Err(_) => ck!(want.is_none(), "get_value({}, v{}) failed for a present key", hx(k), v),
        }
    }
    Ok(())
}
fn c09(t: &mut Tape) -> R {
    let mut w = W::new(t.pct(90));
    let n = 1 + t.below(7);
    for _ in 0..n {
        w.step(t, true, false)?;
        let keys = w.probe_keys(t);
        for v in 0..w.maps.len() {
            c09_at(&w, v, &keys)?;
        }
    }
    t.nontrivial = w.maps.len() > 1 && w.maps.iter().any(|m| m.len() > 1);
    Ok(())
}
// ---------------------------------------------------------------------- C10
fn c10(t: &mut Tape) -> R {
    let w = world(t, !t_false(), 7, true)?;
    for (v, m) in w.maps.iter().enumerate() {
        let e = rootc(m);
        ck!(w.roots[v] == e, "root of v{} with {} keys is {:?}, expected {:?}", v, m.len(), w.roots[v], e);
        ck!(es(w.tree.get_root_hash(v as u64), "get_root_hash")? == e, "stored root of v{} differs", v);
        ck!(es(w.tree.get_root_hash_option(v as u64), "get_root_hash_option")? == Some(e), "stored root option of v{} differs", v);
    }
    let n = w.maps.len() as u64;
    ck!(es(w.tree.get_root_hash_option(n), "get_root_hash_option")?.is_none(), "a root for a version that does not exist");
    // the other hasher only changes the value hash: same shape either way
    let m = w.cur();
    if !m.is_empty() {
        let w2 = W::new(false);
        let (rs, _) = es(w2.tree.batch_put_value_sets(vec![m.iter().rev().map(|(k, v)| (KeyHash(*k), v.clone())).collect()], None, 0), "batch")?;
        ck!(rs[0] == rootc(&m), "batch-built root differs from the root of the contents");
        let (r1, _) = es(w2.tree.put_value_set(m.iter().rev().map(|(k, v)| (KeyHash(*k), Some(v.clone()))), 0), "put")?;
        ck!(r1 == rootc(&m), "descending-order root differs from the root of the contents");
    }
    if !m.is_empty() && t.pct(25) {
        c10_pre_genesis(t, &w, n - 1, &m)?;
    }
    Ok(())
}
// a history that starts on top of a restored state (version u64::MAX, "pre-genesis")
fn c10_pre_genesis(t: &mut Tape, src: &W, v: u64, m: &Map) -> R {
    let mut w = W::new(true);
    w.universe = src.universe.clone();
    let mut rs = restorer(&w.db, u64::MAX, rootc(m), false)?;
    let all: Vec<_> = m.iter().map(|(k, x)| (KeyHash(*k), x.clone())).collect();
    let p = es(src.tree.get_range_proof(all.last().unwrap().0, v), "get_range_proof")?;
    es(rs.add_chunk(all, p), "add_chunk")?;
    es(rs.finish(), "finish")?;
    t.log(format!("pre-genesis state of {} keys", m.len()));
    let mut cur = m.clone();
    for ver in 0..2 + t.below(2) as u64 {
        let s = w.set(t, false, false);
        W::log_set(t, "put_value_set", ver, &s);
        let (root, batch) = es(w.tree.put_value_set(s.clone(), ver), "put_value_set over a pre-genesis state")?;
        // nodes only: the mock store takes the values of a key in version order, and u64::MAX comes last
        let mut nb = NodeBatch::default();
        nb.extend(batch.node_batch.nodes().clone(), []);
        es(w.db.write_node_batch(&nb), "write_node_batch")?;
        for (k, x) in &s {
            match x {
                Some(x) => { cur.insert(k.0, x.clone()); }
                None => { cur.remove(&k.0); }
            }
        }
        ck!(root == rootc(&cur), "root of v{} over a pre-genesis state is not the root of its contents", ver);
        ck!(es(w.tree.get_root_hash(ver), "get_root_hash over a pre-genesis state")? == root, "stored root of v{} over a pre-genesis state differs", ver);
    }
    Ok(())
}
fn t_false() -> bool {
    false
}
// ---------------------------------------------------------------------- C11
fn c11_at(w: &W, v: usize, keys: &[K]) -> R {
    let m = &w.maps[v];
    let root = rootc(m);
    for k in keys {
        let kh = KeyHash(*k);
        let (val, p) = es(w.tree.get_with_proof(kh, v as u64), "get_with_proof")?;
        ck!(val.as_ref() == m.get(k), "get_with_proof({}, v{}) returns {:?}", hx(k), v, val);
        let r0 = match m.get(k) {
            Some(x) => p.verify_existence(root, kh, x),
            None => p.verify_nonexistence(root, kh),
        };
        ck!(r0.is_ok(), "proof of {} ({}) at v{} does not verify: {:?}", hx(k), if val.is_some() { "present" } else { "absent" }, v, r0);
        let p = es(w.tree.get_proof(kh, v as u64), "get_proof")?;
        es(p.verify(root, kh, m.get(k)), "verify")?;
        es(w.tree.verify_proof(kh, v as u64, root, p), "VersionedTrie::verify_proof")?;
        if w.roots[v] != root {
            return Err(format!("root of v{} is not the root of its contents", v));
        }
    }
    Ok(())
}
fn c11(t: &mut Tape) -> R {
    let w = world(t, true, 7, true)?;
    let keys = w.probe_keys(t);
    for v in 0..w.maps.len() {
        c11_at(&w, v, &keys)?;
    }
    Ok(())
}
// ---------------------------------------------------------------------- C12
#[derive(Clone, Debug, PartialEq, Eq, BorshSerialize, BorshDeserialize)]
struct VH(Vec<u8>);
impl SimpleHasher for VH {
    fn new() -> Self {
        VH(vec![])
    }
    fn update(&mut self, d: &[u8]) {
        self.0.extend_from_slice(d)
    }
    fn finalize(self) -> [u8; 32] {
        r::sha(&[&self.0])
    }
}
fn mkproof(leaf: Option<(K, [u8; 32])>, sib: &[[u8; 32]]) -> Result<SparseMerkleProof<VH>, String> {
    let mut b = vec![];
    match leaf {
        None => b.push(0),
        Some((k, v)) => {
            b.push(1);
            b.extend(k);
            b.extend(v);
        }
    }
    b.extend((sib.len() as u32).to_le_bytes());
    for s in sib {
        b.extend(s);
    }
    SparseMerkleProof::<VH>::try_from_slice(&b).map_err(|e| format!("proof does not deserialize: {}", e))
}
fn mkrange(sib: &[[u8; 32]]) -> SparseMerkleRangeProof {
    let mut b = (sib.len() as u32).to_le_bytes().to_vec();
    for s in sib {
        b.extend(s);
    }
    SparseMerkleRangeProof::try_from_slice(&b).unwrap()
}
fn tamper(t: &mut Tape, m: &Map, leaf: &mut Option<(K, [u8; 32])>, sib: &mut Vec<[u8; 32]>) {
    let n = t.below(4);
    for _ in 0..n {
        let some_hash = match t.below(4) {
            0 => PH,
            1 => r::root(m),
            2 if !sib.is_empty() => sib[t.below(sib.len().min(256))],
            _ => [t.u8(); 32],
        };
        match t.below(12) {
            0 => {
                sib.pop();
            }
            1 => {
                if !sib.is_empty() {
                    sib.remove(0);
                }
            }
            2 => sib.insert(0, some_hash),
            3 => sib.push(some_hash),
            4 => {
                if !sib.is_empty() {
                    let i = t.below(sib.len().min(256));
                    sib[i] = some_hash;
                }
            }
            5 => *leaf = None,
            6 => {
                let ks: Vec<_> = m.keys().collect();
                if !ks.is_empty() {
                    let k = *ks[t.below(ks.len().min(256))];
                    *leaf = Some((k, r::vhash(&m[&k])));
                }
            }
            7 => {
                let k = gen_key(t);
                *leaf = Some((k, some_hash));
            }
            8 => {
                if let Some(l) = leaf {
                    l.1 = some_hash;
                }
            }
            9 => {
                if let Some(l) = leaf {
                    let i = t.below(32);
                    l.0[i] ^= 1 << t.below(8);
                }
            }
            10 => {
                let c = *t.pick(&[255usize, 256, 257, 258, 300, 512]);
                while sib.len() < c {
                    sib.push(some_hash);
                }
            }
            _ => {
                // lift an inner node into the leaf position
                if sib.len() > 1 {
                    let c = 1 + t.below(sib.len() - 1);
                    sib.drain(..c);
                }
            }
        }
    }
}
fn c12(t: &mut Tape) -> R {
    let mut m = Map::new();
    let mut ctr = 0;
    let n = t.below(12);
    let mut keys = vec![];
    for _ in 0..n {
        let k = gen_key(t);
        keys.push(k);
        m.insert(k, gen_val(t, &mut ctr));
    }
    for _ in 0..3 {
        keys.push(gen_key(t));
    }
    let root = r::root(&m);
    t.nontrivial = m.len() > 1;
    let mut acc = 0;
    for _ in 0..10 {
        let k = *t.pick(&keys);
        let from = *t.pick(&keys);
        let (mut leaf, mut sib) = r::path(&m, &from);
        // genuine proofs are accepted
        {
            let p = mkproof(leaf, &sib)?;
            match m.get(&from) {
                Some(v) => es(p.verify_existence(RootHash(root), KeyHash(from), v), "verify of a genuine existence proof")?,
                None => es(p.verify_nonexistence(RootHash(root), KeyHash(from)), "verify of a genuine absence proof")?,
            }
        }
        tamper(t, &m, &mut leaf, &mut sib);
        let rt = match t.below(8) {
            0 => PH,
            1 => leaf.map(|l| r::leaf_hash(&l.0, &l.1)).unwrap_or(PH),
            _ => root,
        };
        t.log(format!("map {} keys, proof for {} leaf {:?} with {} siblings, asked about {}", m.len(), sk(&from), leaf.map(|l| sk(&l.0)), sib.len(), sk(&k)));
        let p = mkproof(leaf, &sib)?;
        let p2 = SparseMerkleProof::<VH>::try_from_slice(&p.try_to_vec().unwrap()).unwrap();
        ck!(p == p2, "proof changed over serialization");
        let val = match t.below(3) {
            0 => m.get(&k).cloned(),
            1 => Some(gen_val(t, &mut ctr)),
            _ => m.values().next().cloned(),
        };
        let a = p.verify_nonexistence(RootHash(rt), KeyHash(k)).is_ok();
        ck!(a == p.verify(RootHash(rt), KeyHash(k), None::<&[u8]>).is_ok(), "verify and verify_nonexistence disagree");
        if rt == root {
            ck!(!a || !m.contains_key(&k), "absence of the present key {} accepted", hx(&k));
        } else if rt == PH {
            // the empty tree
        } else if let Some(l) = leaf {
            ck!(!a || k != l.0, "absence of {} accepted in the one-leaf tree of that key", hx(&k));
        }
        acc += a as usize;
        if let Some(v) = val {
            let a = p.verify_existence(RootHash(rt), KeyHash(k), &v).is_ok();
            if rt == root {
                ck!(!a || m.get(&k) == Some(&v), "{} = {:?} accepted, tree has {:?}", hx(&k), v, m.get(&k));
            } else if rt == PH {
                ck!(!a, "existence accepted in the empty tree");
            } else if let Some(l) = leaf {
                ck!(!a || (k == l.0 && r::vhash(&v) == l.1), "{} = {:?} accepted in another one-leaf tree", hx(&k), v);
            }
            acc += a as usize;
        }
    }
    t.log(format!("{} accepted", acc));
    // any number of siblings, any root
    let c = *t.pick(&[0usize, 1, 4, 255, 256, 257, 300]);
    let leaf = if t.pct(50) { Some((gen_key(t), [t.u8(); 32])) } else { None };
    let p = mkproof(leaf, &vec![[t.u8(); 32]; c])?;
    let k = gen_key(t);
    let _ = p.verify_nonexistence(RootHash([t.u8(); 32]), KeyHash(k));
    let _ = p.verify_existence(RootHash([t.u8(); 32]), KeyHash(k), [1u8]);
    if c > 256 {
        ck!(p.verify_nonexistence(RootHash(r::root(&m)), KeyHash(k)).is_err(), "more than 256 siblings accepted");
    }
    // range proofs: the rightmost known leaf with all left and right siblings
    range_case(t, &m, &keys)
}
#[cfg(feature = "hooks")]
fn range_case(t: &mut Tape, m: &Map, keys: &[K]) -> R {
    use jmt::verif_hooks as hk;
    for _ in 0..4 {
        let from = *t.pick(keys);
        let (mut leaf, mut sib) = r::path(m, &from);
        let g = leaf.is_some();
        if let Some(l) = leaf {
            // genuine: split the siblings of the leaf's own path
            let (le, ri) = split(&l.0, &sib);
            let res = mkrange(&ri).verify(RootHash(r::root(m)), hk::leaf(KeyHash(l.0), jmt_vh(l.1)), le);
            ck!(res.is_ok(), "genuine range proof for {} rejected: {:?}", hx(&l.0), res);
        }
        tamper(t, m, &mut leaf, &mut sib);
        let l = leaf.unwrap_or(([0; 32], [0; 32]));
        let (mut le, mut ri) = split(&l.0, &sib);
        if t.pct(20) { std::mem::swap(&mut le, &mut ri); }
        if t.pct(20) { le.pop(); }
        if t.pct(20) { ri.pop(); }
        if t.pct(20) { ri.push(PH); }
        if t.pct(20) { le.push(PH); }
        let ok = mkrange(&ri).verify(RootHash(r::root(m)), hk::leaf(KeyHash(l.0), jmt_vh(l.1)), le).is_ok();
        ck!(!ok || m.get(&l.0).map(|v| r::vhash(v)) == Some(l.1), "range proof for a leaf {} that is not in the tree accepted", hx(&l.0));
        let _ = g;
    }
    Ok(())
}
#[cfg(not(feature = "hooks"))]
fn range_case(_t: &mut Tape, _m: &Map, _keys: &[K]) -> R {
    let _ = mkrange(&[]);
    Ok(())
}
#[cfg(feature = "hooks")]
fn jmt_vh(h: [u8; 32]) -> jmt::ValueHash {
    jmt::ValueHash(h)
}
fn split(k: &K, sib: &[[u8; 32]]) -> (Vec<[u8; 32]>, Vec<[u8; 32]>) {
    let (mut l, mut ri) = (vec![], vec![]);
    let n = sib.len();
    for (i, s) in sib.iter().enumerate() {
        let d = n - 1 - i;
        if d < 256 && r::bit(k, d) { l.push(*s) } else { ri.push(*s) }
    }
    (l, ri)
}
// ---------------------------------------------------------------------- C13
fn sub16(c: &[Option<([u8; 32], bool)>]) -> ([u8; 32], usize, bool) {
    // (hash, number of children, has a leaf)
    let n = c.iter().filter(|x| x.is_some()).count();
    let leaf = c.iter().any(|x| matches!(x, Some((_, true))));
    if n == 0 {
        return (PH, 0, false);
    }
    if c.len() == 1 || (n == 1 && leaf) {
        return (c.iter().flatten().next().unwrap().0, n, leaf);
    }
    let (a, b) = c.split_at(c.len() / 2);
    (r::int_hash(&sub16(a).0, &sub16(b).0), n, leaf)
}
#[cfg(feature = "hooks")]
fn c13(t: &mut Tape) -> R {
    use jmt::verif_hooks as hk;
    let mut ch = hk::Children::new();
    let mut c: Vec<Option<([u8; 32], bool)>> = vec![None; 16];
    let n = match t.below(3) { 0 => 1 + t.below(2), 1 => 2 + t.below(4), _ => 1 + t.below(20) };
    let mut vers = [0u64; 16];
    for _ in 0..n {
        let i = t.below(16);
        let leaf = t.pct(60);
        let mut h = [i as u8; 32];
        h[0] = t.u8();
        let v = t.u8() as u64;
        let ty = if leaf { hk::NodeType::Leaf } else if t.pct(20) { hk::NodeType::InternalLegacy } else { hk::NodeType::Internal { leaf_count: 2 + t.below(5) } };
        ch.insert(hk::Nibble::from(i as u8), hk::Child::new(h, v, ty));
        c[i] = Some((h, leaf));
        vers[i] = v;
    }
    if t.pct(30) {
        let i = t.below(16);
        ch.remove(hk::Nibble::from(i as u8));
        c[i] = None;
    }
    let cnt = c.iter().flatten().count();
    ck!(ch.num_children() == cnt && ch.is_empty() == (cnt == 0), "num_children {} for {} children", ch.num_children(), cnt);
    for i in 0..16u8 {
        ck!(ch.get(hk::Nibble::from(i)).as_ref().map(|x| (x.hash, x.is_leaf())) == c[i as usize], "Children::get({}) wrong", i);
    }
    let order: Vec<u8> = ch.iter_sorted().map(|(n, _)| u8::from(n)).collect();
    ck!(order == (0..16u8).filter(|i| c[*i as usize].is_some()).collect::<Vec<_>>(), "children out of order {:?}", order);
    let legal = cnt > 1 || (cnt == 1 && c.iter().flatten().all(|x| !x.1));
    let node = match hk::InternalNode::new_impl(ch, true) {
        Ok(n) => { ck!(legal, "illegal children accepted"); n }
        Err(_) => { ck!(!legal, "legal children refused"); return Ok(()) }
    };
    t.log(format!("children {:?}", c.iter().enumerate().filter_map(|(i, x)| x.map(|x| (i, x.1))).collect::<Vec<_>>()));
    t.nontrivial = cnt > 1;
    ck!(node.hash() == sub16(&c).0, "hash differs from the four-level subtree");
    let mut pb = vec![];
    let plen = t.below(8);
    for _ in 0..plen { pb.push(t.u8()); }
    let nk = hk::node_key(77, hk::NibblePath::new(pb.clone()));
    for i in 0..16usize {
        // reference walk
        let (mut lo, mut w) = (0usize, 16usize);
        let mut sibs = vec![];
        let mut child = None;
        loop {
            if w < 16 {
                let s = &c[lo..lo + w];
                let (_, n, leaf) = sub16(s);
                if n == 0 { break; }
                if w == 1 || (n == 1 && leaf) {
                    child = Some(lo + s.iter().position(|x| x.is_some()).unwrap());
                    break;
                }
            }
            w /= 2;
            let (a, b) = (lo, lo + w);
            let (me, other) = if i >= b { (b, a) } else { (a, b) };
            sibs.push(sub16(&c[other..other + w]).0);
            lo = me;
        }
        let (k, s) = node.get_child_with_siblings(&nk, hk::Nibble::from(i as u8));
        let k2 = node.get_child_without_siblings(&nk, hk::Nibble::from(i as u8));
        ck!(k == k2, "the two child lookups disagree at {}", i);
        ck!(s == sibs, "siblings at {} wrong", i);
        let want = child.map(|x| {
            let mut p = hk::NibblePath::new(pb.clone());
            p.push(hk::Nibble::from(x as u8));
            hk::node_key(vers[x], p)
        });
        ck!(k == want, "child at nibble {} is {:?}, expected {:?}", i, k, want);
        // fold back
        let mut h = child.map(|x| c[x].unwrap().0).unwrap_or(PH);
        for (lvl, sib) in s.iter().enumerate().rev() {
            h = if (i >> (3 - lvl)) & 1 == 1 { r::int_hash(sib, &h) } else { r::int_hash(&h, sib) };
        }
        ck!(h == node.hash(), "folding at nibble {} does not give the hash", i);
        ck!(node.child(hk::Nibble::from(i as u8)).map(|x| x.hash) == c[i].map(|x| x.0), "child({}) wrong", i);
    }
    Ok(())
}
#[cfg(not(feature = "hooks"))]
fn c13(t: &mut Tape) -> R {
    // one node: keys that differ in the first nibble only
    let mut m = Map::new();
    let mut ctr = 0;
    let n = 1 + t.below(16);
    for _ in 0..n {
        let mut k = [0x33u8; 32];
        k[0] = (t.u8() & 0xf0) | (t.below(2) as u8);
        m.insert(k, gen_val(t, &mut ctr));
    }
    let mut w = W::new(true);
    let (rt, b) = es(w.tree.put_value_set(m.iter().map(|(k, v)| (KeyHash(*k), Some(v.clone()))), 0), "put")?;
    es(w.db.write_tree_update_batch(b), "write")?;
    ck!(rt == rootc(&m), "root differs");
    w.maps.push(m);
    w.roots.push(rt);
    let keys: Vec<K> = (0..=255u8).map(|i| { let mut k = [0x33u8; 32]; k[0] = i; k }).collect();
    t.nontrivial = true;
    c11_at(&w, 0, &keys)
}
// ---------------------------------------------------------------------- C14
fn c14(t: &mut Tape) -> R {
    let w = world(t, true, 6, true)?;
    let keys = w.probe_keys(t);
    #[cfg(feature = "hooks")]
    for v in 0..w.maps.len() {
        use jmt::verif_hooks::{leaf_key, ExclusionProof as X};
        let m = &w.maps[v];
        if m.is_empty() {
            continue;
        }
        let root = rootc(m);
        for k in &keys {
            let kh = KeyHash(*k);
            let below = m.range(..*k).next_back();
            let above = m.range((std::ops::Bound::Excluded(*k), std::ops::Bound::Unbounded)).next();
            let chk = |p: &SparseMerkleProof<Sha256>, e: Option<(&K, &Vec<u8>)>, side: &str| -> R {
                let (ek, ev) = match e { Some(e) => e, None => return Err(format!("a {} neighbour of {} at v{} where there is none", side, hx(k), v)) };
                let lk = p.leaf().map(|l| leaf_key(&l).0);
                ck!(lk == Some(*ek), "{} neighbour of {} at v{} is {:?}, expected {}", side, hx(k), v, lk.map(|x| hx(&x)), hx(ek));
                es(p.verify_existence(root, KeyHash(*ek), ev), "verify of a neighbour's proof")
            };
            match es(w.tree.get_with_exclusion_proof(kh, v as u64), "get_with_exclusion_proof")? {
                Ok((val, p)) => {
                    ck!(Some(&val) == m.get(k), "exclusion query returns {:?} for {} at v{}", val, hx(k), v);
                    es(p.verify_existence(root, kh, &val), "verify of the existence proof")?;
                }
                Err(x) => {
                    ck!(!m.contains_key(k), "exclusion proof for the present key {} at v{}", hx(k), v);
                    match x {
                        X::Leftmost { leftmost_right_proof } => {
                            ck!(below.is_none(), "leftmost answer although {:?} is below", below);
                            chk(&leftmost_right_proof, above, "right")?;
                        }
                        X::Rightmost { rightmost_left_proof } => {
                            ck!(above.is_none(), "rightmost answer although {:?} is above", above);
                            chk(&rightmost_left_proof, below, "left")?;
                        }
                        X::Middle { leftmost_right_proof, rightmost_left_proof } => {
                            chk(&leftmost_right_proof, above, "right")?;
                            chk(&rightmost_left_proof, below, "left")?;
                        }
                    }
                }
            }
        }
    }
    let _ = keys;
    c14_ics23(t)
}
fn c14_ics23(t: &mut Tape) -> R {
    use ics23::{HostFunctionsManager as HF, commitment_proof::Proof};
    let db = Arc::new(MockTreeStore::default());
    let tree = Tree::new(db.clone());
    let mut m: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
    let nv = 1 + t.below(4);
    let uni: Vec<Vec<u8>> = (0..12u8).map(|i| vec![b'k', i * 7, t.u8() & 3]).collect();
    let mut hist = vec![];
    for v in 0..nv as u64 {
        let n = 1 + t.below(5);
        let mut set = vec![];
        for _ in 0..n {
            let k = t.pick(&uni).clone();
            db.put_key_preimage::<Sha256>(&Preimage(k.clone()));
            if t.pct(25) {
                m.remove(&k);
                set.push((KeyHash::with::<Sha256>(&k), None));
            } else {
                let val = vec![1 + t.below(250) as u8; 1 + t.below(3)];
                m.insert(k.clone(), val.clone());
                set.push((KeyHash::with::<Sha256>(&k), Some(val)));
            }
        }
        let (root, b) = es(tree.put_value_set(set, v), "put_value_set")?;
        es(db.write_tree_update_batch(b), "write")?;
        hist.push((root, m.clone()));
    }
    for (v, (root, m)) in hist.iter().enumerate() {
        if m.is_empty() {
            continue;
        }
        for k in uni.iter().take(8) {
            let (val, cp) = es(tree.get_with_ics23_proof(k.clone(), v as u64), "get_with_ics23_proof")?;
            ck!(val.as_ref() == m.get(k), "get_with_ics23_proof returns {:?} for {:?} at v{}", val, k, v);
            let rt = root.0.to_vec();
            match &val {
                Some(x) => {
                    ck!(matches!(cp.proof, Some(Proof::Exist(_))), "not an existence proof");
                    ck!(ics23::verify_membership::<HF>(&cp, &jmt::ics23_spec(), &rt, k, x), "ICS23 existence proof of {:?} at v{} does not verify", k, v);
                }
                None => {
                    ck!(matches!(cp.proof, Some(Proof::Nonexist(_))), "not a non-existence proof");
                    ck!(ics23::verify_non_membership::<HF>(&cp, &jmt::ics23_spec(), &rt, k), "ICS23 absence proof of {:?} at v{} does not verify", k, v);
                }
            }
        }
    }
    Ok(())
}
// ---------------------------------------------------------------------- C15
fn drain(it: JellyfishMerkleIterator<MockTreeStore>, cap: usize) -> Result<Vec<(K, Vec<u8>)>, String> {
    let mut it = it;
    let mut o = vec![];
    loop {
        match it.next() {
            None => break,
            Some(Err(e)) => return Err(format!("iterator failed after {} pairs: {:?}", o.len(), e)),
            Some(Ok((k, v))) => o.push((k.0, v)),
        }
        if o.len() > cap {
            return Err("iterator yields too many pairs".into());
        }
    }
    for _ in 0..2 {
        if let Some(x) = it.next() {
            return Err(format!("iterator yields {:?} after its end", x));
        }
    }
    Ok(o)
}
fn c15_at(w: &W, v: usize, starts: &[K]) -> R {
    let m = &w.maps[v];
    let ver = v as u64;
    let all: Vec<(K, Vec<u8>)> = m.iter().map(|(a, b)| (*a, b.clone())).collect();
    let got = drain(es(w.tree.iter(ver), "iter")?, m.len())?;
    ck!(got == all, "iter(v{}) yields {} pairs, expected {}", v, got.len(), all.len());
    for s in starts {
        let it = es(JellyfishMerkleIterator::new(w.db.clone(), ver, KeyHash(*s)), "JellyfishMerkleIterator::new")?;
        let got = drain(it, m.len())?;
        let want: Vec<_> = m.range(*s..).map(|(a, b)| (*a, b.clone())).collect();
        ck!(got == want, "iterating v{} from {} yields {:?}, expected {:?}", v, hx(s), got.iter().map(|x| sk(&x.0)).collect::<Vec<_>>(), want.iter().map(|x| sk(&x.0)).collect::<Vec<_>>());
    }
    for i in (0..m.len() + 2).chain([usize::MAX, m.len() + 1000]) {
        let it = es(JellyfishMerkleIterator::new_by_index(w.db.clone(), ver, i), "new_by_index")?;
        let got = drain(it, m.len())?;
        let want = if i < all.len() { &all[i..] } else { &[] };
        ck!(got == want, "iterating v{} from index {} yields {} pairs, expected {}", v, i, got.len(), want.len());
    }
    Ok(())
}
fn starts(w: &W, t: &mut Tape) -> Vec<K> {
    let mut s = w.probe_keys(t);
    for k in w.universe.iter().take(10) {
        let mut a = *k;
        // neighbours
        for i in (0..32).rev() { a[i] = a[i].wrapping_add(1); if a[i] != 0 { break; } }
        s.push(a);
        let mut a = *k;
        for i in (0..32).rev() { a[i] = a[i].wrapping_sub(1); if a[i] != 255 { break; } }
        s.push(a);
    }
    s
}
fn c15(t: &mut Tape) -> R {
    let w = world(t, true, 5, true)?;
    let s = starts(&w, t);
    for v in 0..w.maps.len() {
        c15_at(&w, v, &s)?;
    }
    Ok(())
}
// ---------------------------------------------------------------------- C16
fn reach(w: &W, v: u64) -> Result<BTreeSet<NodeKey>, String> {
    // every node read while proving all keys and iterating: approximated from the
    // store by walking with a recording map is not possible without hooks, so walk
    // the stored nodes
    reach_impl(w, v)
}
#[cfg(feature = "hooks")]
fn reach_impl(w: &W, v: u64) -> Result<BTreeSet<NodeKey>, String> {
    use jmt::verif_hooks as hk;
    let all: HashMap<NodeKey, Node> = w.db.nodes().collect();
    let mut out = BTreeSet::new();
    let mut st = vec![hk::node_key(v, hk::NibblePath::new(vec![]))];
    while let Some(k) = st.pop() {
        let n = all.get(&k).ok_or_else(|| format!("version {} needs the missing node {:?}", v, k))?;
        if let Node::Internal(i) = n {
            for (nb, c) in i.children_sorted() {
                let mut p = hk::node_key_path(&k);
                p.push(nb);
                st.push(hk::node_key(c.version, p));
            }
        }
        out.insert(k);
    }
    Ok(out)
}
#[cfg(not(feature = "hooks"))]
fn reach_impl(_w: &W, _v: u64) -> Result<BTreeSet<NodeKey>, String> {
    Ok(BTreeSet::new())
}
fn c16(t: &mut Tape) -> R {
    let mut w = world(t, true, 7, true)?;
    let nv = w.maps.len() as u64;
    // stale lists, per version
    let mut seen = BTreeSet::new();
    for (v0, b) in &w.batches {
        for s in &b.stale_node_index_batch {
            ck!(seen.insert(s.node_key.clone()), "{:?} named stale twice", s.node_key);
            ck!(s.stale_since_version >= *v0, "stale since {} in the update of {}", s.stale_since_version, v0);
        }
    }
    for v in 0..nv {
        let re = reach(&w, v)?;
        for (_, b) in &w.batches {
            for s in &b.stale_node_index_batch {
                if s.stale_since_version <= v {
                    ck!(!re.contains(&s.node_key), "{:?} is stale since {} but version {} reaches it", s.node_key, s.stale_since_version, v);
                }
            }
        }
    }
    let keys = w.probe_keys(t);
    let s = starts(&w, t);
    let mut p = 0;
    for _ in 0..2 {
        p = p + t.below((nv - p) as usize) as u64;
        es(w.db.purge_stale_nodes(p), "purge_stale_nodes")?;
        t.log(format!("purge up to v{}", p));
        for v in p..nv {
            let v = v as usize;
            c09_at(&w, v, &keys)?;
            c11_at(&w, v, &keys)?;
            c15_at(&w, v, &s[..s.len().min(8)])?;
            ck!(es(w.tree.get_root_hash(v as u64), "get_root_hash")? == rootc(&w.maps[v]), "root hash of v{} changed", v);
        }
        if t.pct(40) {
            // the purged store goes on working
            w.step(t, true, false)?;
            let v = w.maps.len() - 1;
            c11_at(&w, v, &keys)?;
            ck!(w.roots[v] == rootc(&w.maps[v]), "root after purge wrong");
            break;
        }
    }
    Ok(())
}
// ------------------------------------------------------------- C17 and C18
fn src(t: &mut Tape) -> Result<(W, u64, Map), String> {
    let w = {
        let mut w = W::new(true);
        let n = 1 + t.below(3);
        for _ in 0..n {
            w.step(t, true, true)?;
        }
        w
    };
    let v = w.maps.len() as u64 - 1;
    let m = w.cur();
    Ok((w, v, m))
}
type Chunk = (Vec<(KeyHash, Vec<u8>)>, SparseMerkleRangeProof);
fn chunks(t: &mut Tape, w: &W, v: u64, m: &Map) -> Result<Vec<Chunk>, String> {
    let all: Vec<_> = m.iter().map(|(k, x)| (KeyHash(*k), x.clone())).collect();
    let mut out = vec![];
    let mut i = 0;
    let sz = *t.pick(&[1usize, 2, 4, 16, 100]);
    while i < all.len() {
        let n = 1 + t.below(sz);
        let c = all[i..(i + n).min(all.len())].to_vec();
        i += c.len();
        let p = es(w.tree.get_range_proof(c.last().unwrap().0, v), "get_range_proof")?;
        out.push((c, p));
    }
    Ok(out)
}
fn check_restored(db: &Arc<MockTreeStore>, v: u64, m: &Map, extra: &[K]) -> R {
    let w = W {
        db: db.clone(), tree: Tree::new(db.clone()), maps: vec![m.clone()], roots: vec![rootc(m)], batches: vec![],
        universe: vec![], ctr: 0, migration: true };
    ck!(es(w.tree.get_root_hash(v), "get_root_hash of the restored tree")? == rootc(m), "restored root differs");
    let root = rootc(m);
    for k in m.keys().chain(extra.iter()) {
        let (val, p) = es(w.tree.get_with_proof(KeyHash(*k), v), "get_with_proof on the restored tree")?;
        ck!(val.as_ref() == m.get(k), "restored tree maps {} to {:?}", hx(k), val);
        es(p.verify(root, KeyHash(*k), val), "proof of the restored tree")?;
    }
    let it = es(w.tree.iter(v), "iter on the restored tree")?;
    let got = drain(it, m.len())?;
    ck!(got == m.iter().map(|(a, b)| (*a, b.clone())).collect::<Vec<_>>(), "iterating the restored tree");
    ck!(es(w.tree.get_leaf_count(v), "leaf count")? == Some(m.len()), "restored leaf count");
    Ok(())
}
fn restorer(store: &Arc<MockTreeStore>, v: u64, root: RootHash, over: bool) -> Result<JellyfishMerkleRestore<Sha256>, String> {
    if over {
        es(JellyfishMerkleRestore::new_overwrite(store.clone(), v, root, true), "new_overwrite")
    } else {
        es(JellyfishMerkleRestore::new(store.clone(), v, root, true), "JellyfishMerkleRestore::new")
    }
}
fn c17(t: &mut Tape) -> R {
    let (w, v, m) = src(t)?;
    if m.is_empty() {
        return Ok(());
    }
    t.nontrivial = m.len() > 2;
    let over = t.pct(30);
    let store = Arc::new(MockTreeStore::new(over));
    let cs = chunks(t, &w, v, &m)?;
    t.log(format!("{} pairs in chunks of {:?}", m.len(), cs.iter().map(|c| c.0.len()).collect::<Vec<_>>()));
    let mut rs = restorer(&store, v, rootc(&m), over)?;
    for (i, (c, p)) in cs.into_iter().enumerate() {
        es(rs.add_chunk(c, p), &format!("add_chunk {}", i))?;
    }
    if t.pct(50) { es(rs.finish(), "finish")?; } else { es(Box::new(rs).finish_box(), "finish_box")?; }
    let keys = w.probe_keys(t);
    check_restored(&store, v, &m, &keys)
}
fn snapshot(db: &MockTreeStore) -> (BTreeMap<NodeKey, Vec<u8>>, BTreeMap<K, String>) {
    (
        db.nodes().map(|(k, n)| (k, n.try_to_vec().unwrap())).collect(),
        db.value_history().map(|(k, h)| (k.0, format!("{:?}", h))).collect(),
    )
}
// right after resuming: chunks and calls that must be refused without a panic and without a trace
fn prod_resumed(t: &mut Tape, w: &W, v: u64, m: &Map, store: &Arc<MockTreeStore>, root: RootHash, mut rs: JellyfishMerkleRestore<Sha256>) -> Result<JellyfishMerkleRestore<Sha256>, String> {
    if !t.pct(60) {
        return Ok(rs);
    }
    let last = es(store.get_rightmost_leaf(), "get_rightmost_leaf")?.map(|l| l.1.key_hash());
    let n_done = m.keys().filter(|k| last.map_or(false, |l| **k <= l.0)).count();
    let all: Vec<_> = m.iter().map(|(k, x)| (KeyHash(*k), x.clone())).collect();
    let before = snapshot(store);
    let kind = t.below(3);
    let mut bad = vec![];
    if kind == 1 {
        // skips the next pairs
        let from = n_done + 1 + t.below(3);
        if from >= all.len() { return Ok(rs); }
        let n = 1 + t.below(all.len() - from);
        bad = all[from..from + n].to_vec();
    } else if kind == 2 {
        // a key just above the last one stored, then the right ones
        let Some(l) = last else { return Ok(rs) };
        let mut k = l.0;
        if t.pct(50) {
            let b = t.below(256);
            if k[b / 8] & (0x80 >> (b % 8)) != 0 { return Ok(rs); }
            k[b / 8] |= 0x80 >> (b % 8);
            for x in k[b / 8 + 1..].iter_mut() { if t.pct(50) { *x = 0; } }
        } else {
            for x in k.iter_mut().rev() { *x = x.wrapping_add(1); if *x != 0 { break; } }
        }
        if k <= l.0 || m.contains_key(&k) { return Ok(rs); }
        bad = vec![(KeyHash(k), vec![9])];
        bad.extend(all[n_done..].iter().filter(|(x, _)| x.0 > k).take(t.below(3)).cloned());
    }
    if kind != 0 {
        let k = bad.iter().rev().find(|(x, _)| m.contains_key(&x.0)).map_or(all[n_done.min(all.len() - 1)].0, |x| x.0);
        let p = es(w.tree.get_range_proof(k, v), "get_range_proof")?;
        t.log(format!("right after resuming ({} stored): a chunk of kind {} with {} pairs", n_done, kind, bad.len()));
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rs.add_chunk(bad, p))) {
            Ok(Ok(())) => return Err(format!("a bad chunk (kind {}) was accepted after resuming", kind)),
            Ok(Err(_)) => {}
            Err(_) => return Err(format!("add_chunk panicked on a bad chunk (kind {}) after resuming", kind)),
        }
        ck!(snapshot(store) == before, "a rejected chunk wrote to the store");
    }
    if kind == 0 || t.pct(50) {
        t.log(format!("right after resuming ({} stored): finish", n_done));
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rs.finish())) {
            Ok(Ok(())) => return Err("finished right after resuming".into()),
            Ok(Err(_)) => {}
            Err(_) => return Err("finish panicked right after resuming".into()),
        }
        ck!(snapshot(store) == before, "a refused finish wrote to the store");
    }
    restorer(store, v, root, false)
}
fn c18(t: &mut Tape) -> R {
    let (w, v, m) = src(t)?;
    if m.is_empty() {
        return Ok(());
    }
    t.nontrivial = m.len() > 2;
    let root = rootc(&m);
    let store = Arc::new(MockTreeStore::new(false));
    let cs = chunks(t, &w, v, &m)?;
    t.log(format!("{} pairs in chunks of {:?}", m.len(), cs.iter().map(|c| c.0.len()).collect::<Vec<_>>()));
    let mut rs = restorer(&store, v, root, false)?;
    let mut i = 0;
    let mut guard = 0;
    while i < cs.len() {
        guard += 1;
        let (c, p) = cs[i].clone();
        match if guard > 40 { 9 } else { t.below(10) } {
            0 => {
                // interrupted: resume after the last stored leaf
                drop(rs);
                rs = restorer(&store, v, root, false)?;
                rs = prod_resumed(t, &w, v, &m, &store, root, rs)?;
                let last = es(store.get_rightmost_leaf(), "get_rightmost_leaf")?.map(|l| l.1.key_hash());
                let done: Vec<_> = m.iter().filter(|(k, _)| last.map_or(false, |l| **k <= l.0)).count().into_iter_one();
                let n_done = done[0];
                t.log(format!("crash before chunk {}; {} leaves stored", i, n_done));
                // feed the pairs between the last stored leaf and the next chunk again
                let all: Vec<_> = m.iter().map(|(k, x)| (KeyHash(*k), x.clone())).collect();
                let upto: usize = cs[..i].iter().map(|c| c.0.len()).sum();
                if n_done < upto {
                    let c = all[n_done..upto].to_vec();
                    let p = es(w.tree.get_range_proof(c.last().unwrap().0, v), "get_range_proof")?;
                    es(rs.add_chunk(c, p), "add_chunk after a crash")?;
                }
            }
            1 | 2 => {
                // a bad chunk: rejected, nothing written, then resume from scratch
                let mut c = c;
                let mut p = p;
                let what = t.below(8);
                match what {
                    0 => { let j = t.below(c.len()); c[j].1.push(0xEE); }
                    1 => { let j = t.below(c.len()); let b = t.below(256); c[j].0 .0[b / 8] ^= 1 << (b % 8); if m.contains_key(&c[j].0 .0) { continue; } }
                    2 => { if c.len() < 2 { continue; } let j = t.below(c.len() - 1); c.swap(j, j + 1); }
                    3 => { if c.len() < 2 { continue; } let j = t.below(c.len()); c.remove(j); if j == c.len() { /* a shorter chunk with the proof of a later key */ } }
                    4 => {
                        let mut s = p.right_siblings().to_vec();
                        if s.is_empty() { s.push([7; 32]); } else { let j = t.below(s.len().min(256)); s[j][3] ^= 1; }
                        p = mkrange(&s);
                    }
                    5 => { let mut s = p.right_siblings().to_vec(); if s.pop().is_none() { continue; } p = mkrange(&s); }
                    6 => { let mut s = p.right_siblings().to_vec(); let x = if t.pct(50) { PH } else { [3; 32] }; let n = *t.pick(&[1usize, 2, 255, 256, 300]); for _ in 0..n { s.insert(0, x); } p = mkrange(&s); }
                    _ => { let j = t.below(c.len()); let x = c[j].clone(); c.insert(j, x); }
                }
                // a mutation may leave the statement true only if nothing changed
                let before = snapshot(&store);
                let res = rs.add_chunk(c, p);
                t.log(format!("bad chunk kind {} at {}: {}", what, i, if res.is_err() { "rejected" } else { "accepted" }));
                ck!(res.is_err(), "a bad chunk (kind {}) was accepted", what);
                ck!(snapshot(&store) == before, "a rejected chunk wrote to the store");
                drop(rs);
                rs = restorer(&store, v, root, false)?;
                rs = prod_resumed(t, &w, v, &m, &store, root, rs)?;
                let last = es(store.get_rightmost_leaf(), "get_rightmost_leaf")?.map(|l| l.1.key_hash());
                let n_done = m.keys().filter(|k| last.map_or(false, |l| **k <= l.0)).count();
                let all: Vec<_> = m.iter().map(|(k, x)| (KeyHash(*k), x.clone())).collect();
                let upto: usize = cs[..i].iter().map(|c| c.0.len()).sum();
                if n_done < upto {
                    let c = all[n_done..upto].to_vec();
                    let p = es(w.tree.get_range_proof(c.last().unwrap().0, v), "get_range_proof")?;
                    es(rs.add_chunk(c, p), "add_chunk after a rejected chunk")?;
                }
            }
            3 => {
                // too early: must fail and complete nothing
                t.log(format!("early finish before chunk {}", i));
                let fin = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rs.finish()));
                match fin {
                    Ok(Ok(())) => return Err(format!("finished with {} of {} chunks", i, cs.len())),
                    Ok(Err(_)) => {}
                    Err(_) => return Err("finish panicked".into()),
                }
                let tr = Tree::new(store.clone());
                ck!(es(tr.get_root_hash_option(v), "root")?.is_none(), "an early finish left a root node");
                rs = restorer(&store, v, root, false)?;
                rs = prod_resumed(t, &w, v, &m, &store, root, rs)?;
                let last = es(store.get_rightmost_leaf(), "get_rightmost_leaf")?.map(|l| l.1.key_hash());
                let n_done = m.keys().filter(|k| last.map_or(false, |l| **k <= l.0)).count();
                let all: Vec<_> = m.iter().map(|(k, x)| (KeyHash(*k), x.clone())).collect();
                let upto: usize = cs[..i].iter().map(|c| c.0.len()).sum();
                if n_done < upto {
                    let c = all[n_done..upto].to_vec();
                    let p = es(w.tree.get_range_proof(c.last().unwrap().0, v), "get_range_proof")?;
                    es(rs.add_chunk(c, p), "add_chunk after an early finish")?;
                }
            }
            4 => {
                ck!(rs.add_chunk(vec![], p).is_err(), "empty chunk accepted");
            }
            _ => {
                es(rs.add_chunk(c, p), &format!("add_chunk {}", i))?;
                i += 1;
            }
        }
    }
    es(rs.finish(), "finish")?;
    let keys = w.probe_keys(t);
    check_restored(&store, v, &m, &keys)
}
trait One { fn into_iter_one(self) -> Vec<usize>; }
impl One for usize { fn into_iter_one(self) -> Vec<usize> { vec![self] } }

// ---------------------------------------------------------------------- C19
#[cfg(feature = "hooks")]
fn c19(t: &mut Tape) -> R {
    use jmt::verif_hooks::{self as hk, Bytes32Ext, Nibble, NibblePath};
    let k = gen_key(t);
    let mut k2 = if t.pct(60) { k } else { gen_key(t) };
    if t.pct(70) {
        let b = t.below(256);
        k2[b / 8] ^= 1 << (b % 8);
    }
    t.nontrivial = true;
    t.log(format!("{} {}", hx(&k), hx(&k2)));
    let bits: Vec<bool> = (0..256).map(|i| r::bit(&k, i)).collect();
    ck!(k.iter_bits().collect::<Vec<_>>() == bits, "iter_bits");
    ck!(k.iter_bits().rev().collect::<Vec<_>>() == bits.iter().rev().cloned().collect::<Vec<_>>(), "iter_bits.rev");
    ck!(k.iter_bits().len() == 256, "iter_bits.len");
    ck!(<[u8; 32] as Bytes32Ext>::from_bit_iter(bits.clone().into_iter()) == Some(k), "from_bit_iter");
    ck!(<[u8; 32] as Bytes32Ext>::from_bit_iter(bits[1..].to_vec().into_iter()).is_none(), "from_bit_iter accepts 255 bits");
    // interleaved from both ends
    let mut it = k.iter_bits();
    let (mut a, mut b) = (0, 256);
    while a < b {
        if t.pct(50) { ck!(it.next() == Some(bits[a]), "next {}", a); a += 1 } else { b -= 1; ck!(it.next_back() == Some(bits[b]), "next_back {}", b); }
        ck!(it.len() == b - a, "len");
    }
    ck!(it.next().is_none() && it.next_back().is_none(), "bits end");
    let cp = (0..256).take_while(|i| r::bit(&k, *i) == r::bit(&k2, *i)).count();
    ck!(k.common_prefix_bits_len(&k2) == cp, "common_prefix_bits_len {} expected {}", k.common_prefix_bits_len(&k2), cp);
    ck!(k.common_prefix_nibbles_len(&k2) == cp / 4, "common_prefix_nibbles_len");
    for i in 0..64 {
        ck!(u8::from(k.get_nibble(i)) == r::nib(&k, i) && k.nibble(i) == r::nib(&k, i), "nibble {}", i);
    }
    // nibble paths
    let mut p = NibblePath::new(vec![]);
    let mut seq: Vec<u8> = vec![];
    if t.pct(30) {
        let n = t.below(33);
        p = NibblePath::new(k[..n].to_vec());
        seq = (0..2 * n).map(|i| r::nib(&k, i)).collect();
    } else if t.pct(30) {
        let n = 1 + t.below(32);
        let mut b = k[..n].to_vec();
        b[n - 1] &= 0xf0;
        p = NibblePath::new_odd(b);
        seq = (0..2 * n - 1).map(|i| r::nib(&k, i)).collect();
    }
    let n = t.below(30);
    for _ in 0..n {
        if seq.len() < 64 && t.pct(65) {
            let x = t.u8() & 15;
            p.push(Nibble::from(x));
            seq.push(x);
        } else {
            ck!(p.pop().map(u8::from) == seq.pop(), "pop");
        }
        ck!(p.last().map(u8::from) == seq.last().cloned(), "last");
        ck!(p.num_nibbles() == seq.len() && p.is_empty() == seq.is_empty(), "num_nibbles");
    }
    let toks: Vec<Nibble> = seq.iter().map(|x| Nibble::from(*x)).collect();
    ck!(p.nibbles().collect::<Vec<_>>() == toks, "nibbles");
    let q: NibblePath = toks.iter().cloned().collect();
    ck!(q == p, "equal sequences give different paths {:?} {:?}", p, q);
    for i in 0..seq.len() {
        ck!(u8::from(p.get_nibble(i)) == seq[i], "get_nibble {}", i);
    }
    let pb: Vec<bool> = seq.iter().flat_map(|n| (0..4).map(move |i| (n >> (3 - i)) & 1 == 1)).collect();
    ck!(p.bits().collect::<Vec<_>>() == pb, "bits");
    ck!(p.bits().rev().collect::<Vec<_>>() == pb.iter().rev().cloned().collect::<Vec<_>>(), "bits.rev");
    let mut it = p.nibbles();
    let adv = t.below(seq.len() + 1);
    for i in 0..adv { ck!(it.next().map(u8::from) == Some(seq[i]), "next"); }
    ck!(it.visited_nibbles().map(u8::from).collect::<Vec<_>>() == seq[..adv], "visited");
    ck!(it.remaining_nibbles().map(u8::from).collect::<Vec<_>>() == seq[adv..], "remaining");
    ck!(it.bits().collect::<Vec<_>>() == pb[4 * adv..], "remaining bits");
    ck!(it.get_nibble_path() == p, "get_nibble_path");
    ck!(it.num_nibbles() == seq.len(), "iterator num_nibbles");
    ck!(it.is_finished() == (adv == seq.len()), "is_finished");
    {
        let mut rem = it.remaining_nibbles();
        let a2 = t.below(seq.len() - adv + 1);
        for _ in 0..a2 { rem.next(); }
        ck!(rem.visited_nibbles().map(u8::from).collect::<Vec<_>>() == seq[adv..adv + a2], "visited of remaining");
        ck!(rem.get_nibble_path().nibbles().map(u8::from).collect::<Vec<_>>() == seq[adv..], "path of remaining");
    }
    let other: NibblePath = k2.iter().flat_map(|b| [b >> 4, b & 15]).take(t.below(65)).map(Nibble::from).collect();
    let full = NibblePath::new(k.to_vec());
    let (mut x, mut y) = (full.nibbles(), other.nibbles());
    let c = hk::skip_common_prefix(&mut x, &mut y);
    let want = other.nibbles().zip(full.nibbles()).take_while(|(a, b)| a == b).count();
    ck!(c == want, "skip_common_prefix {} expected {}", c, want);
    ck!(x.visited_nibbles().count() == want && y.visited_nibbles().count() == want, "skip_common_prefix leaves the iterators elsewhere");
    let (mut x, mut y) = (full.bits(), other.bits());
    let c = hk::skip_common_prefix(&mut x, &mut y);
    let want = full.bits().zip(other.bits()).take_while(|(a, b)| a == b).count();
    ck!(c == want && x.count() == 256 - want, "skip_common_prefix on bits");
    // nibble ranges
    let depth = t.below(64);
    let cnt = t.below(20);
    let mut ks: BTreeSet<K> = BTreeSet::new();
    for _ in 0..cnt {
        let mut z = k;
        for d in depth..64 {
            let v = if d == depth || t.pct(10) { t.u8() & 15 } else { 3 };
            let b = &mut z[d / 2];
            *b = if d % 2 == 0 { (*b & 0x0f) | v << 4 } else { (*b & 0xf0) | v };
        }
        ks.insert(z);
    }
    let kvs: Vec<_> = ks.iter().map(|k| (KeyHash(*k), jmt::ValueHash([0; 32]))).collect();
    let got = hk::nibble_ranges(&kvs, depth);
    let mut want = vec![];
    let mut i = 0;
    while i < kvs.len() {
        let mut j = i;
        while j + 1 < kvs.len() && r::nib(&kvs[j + 1].0 .0, depth) == r::nib(&kvs[i].0 .0, depth) { j += 1; }
        want.push((i, j));
        i = j + 1;
    }
    ck!(got == want, "nibble ranges {:?} expected {:?}", got, want);
    Ok(())
}
#[cfg(not(feature = "hooks"))]
fn c19(t: &mut Tape) -> R {
    // indirectly: trees over keys that differ late
    let w = world(t, true, 4, true)?;
    for (v, m) in w.maps.iter().enumerate() {
        ck!(w.roots[v] == rootc(m), "root of v{}", v);
    }
    Ok(())
}
// ---------------------------------------------------------------------- C20
fn lone_key(i: u64) -> K { [100 + (i % 4) as u8; 32] }
// the leaf at the root of a tree of one key, at a version
fn lone_leaf(v: u64) -> Result<(NodeKey, jmt::storage::LeafNode), String> {
    let db = Arc::new(MockTreeStore::default());
    let tree = JellyfishMerkleTree::<_, Sha256>::new(db);
    let mut u = tree.put_value_sets(vec![vec![(KeyHash(lone_key(v)), Some(vec![v as u8]))]], 0).map_err(|e| e.to_string())?.1;
    // (versions other than 0 through the encoding of the key)
    let (k, n) = u.node_batch.nodes().iter().next().map(|(k, n)| (k.clone(), n.clone())).ok_or("no node")?;
    let mut b = k.try_to_vec().unwrap();
    b[..8].copy_from_slice(&v.to_le_bytes());
    u.node_batch.clear();
    match n {
        Node::Leaf(l) => Ok((NodeKey::try_from_slice(&b).map_err(|e| e.to_string())?, l)),
        _ => Err("no leaf".into()),
    }
}
fn c20(t: &mut Tape) -> R {
    use jmt::db::Version as V;
    let db = MockTreeStore::default();
    let mut hist: BTreeMap<K, Vec<(u64, Option<Vec<u8>>)>> = BTreeMap::new();
    let mut hm: HashMap<KeyHash, Vec<(V, Option<Vec<u8>>)>> = HashMap::new();
    let mut keys: Vec<K> = (0..4u8).map(|i| [i; 32]).collect();
    let n = 1 + t.below(24);
    let mut ctr = 0;
    t.nontrivial = n > 3;
    for _ in 0..n {
        let k = *t.pick(&keys);
        let ver = match t.below(6) { 0 => u64::MAX - t.below(3) as u64, 1 => 0, _ => t.below(12) as u64 };
        let val = if t.pct(30) { None } else { Some(gen_val(t, &mut ctr)) };
        let last = hist.get(&k).and_then(|h| h.last()).map(|x| x.0);
        let ok = last.map_or(true, |l| ver >= l);
        t.log(format!("put {}@{} = {:?} ({})", k[0], ver, val, ok));
        let before = hm.clone();
        let got = jmt::mock::put_value(&mut hm, V(ver), KeyHash(k), val.clone()).is_ok();
        ck!(got == ok, "put_value at {} after {:?}: accepted = {}", ver, last, got);
        if !ok {
            ck!(hm == before, "a refused write changed the store");
        }
        // the same through the store
        let mut b = NodeBatch::default();
        b.extend(vec![], vec![((ver, KeyHash(k)), val.clone())]);
        let before = snapshot(&db);
        let got = db.write_node_batch(&b).is_ok();
        ck!(got == ok, "write_node_batch at {} after {:?}: accepted = {}", ver, last, got);
        if ok {
            let h = hist.entry(k).or_default();
            if last == Some(ver) { h.pop(); }
            h.push((ver, val));
        } else {
            ck!(snapshot(&db) == before, "a refused write changed the store");
        }
        let as_map: BTreeMap<K, Vec<(u64, Option<Vec<u8>>)>> = hm.iter().map(|(k, h)| (k.0, h.iter().map(|(v, x)| (v.0, x.clone())).collect())).collect();
        ck!(as_map == hist, "history differs");
    }
    // several values at once, with a node: all or nothing
    for step in 0..t.below(6) {
        let (nk, leaf) = lone_leaf(step as u64)?;
        if t.pct(30) {
            let (_, leaf2) = lone_leaf(t.below(12) as u64)?;
            let k = leaf2.key_hash().0;
            let ver = nk.version();
            let fresh = db.get_node_option(&nk).unwrap().is_none();
            let ok = fresh && hist.get(&k).and_then(|h| h.last()).map_or(true, |l| ver >= l.0);
            let val = gen_val(t, &mut ctr);
            let before = snapshot(&db);
            let got = db.put_leaf(nk.clone(), leaf2.clone(), val.clone()).is_ok();
            ck!(got == ok, "put_leaf at {} accepted = {}, expected {}", ver, got, ok);
            if ok {
                let h = hist.entry(k).or_default();
                if h.last().map(|x| x.0) == Some(ver) { h.pop(); }
                h.push((ver, Some(val)));
                ck!(db.get_node_option(&nk).unwrap() == Some(Node::Leaf(leaf2)), "put_leaf stored another node");
            } else {
                ck!(snapshot(&db) == before, "a refused put_leaf changed the store");
            }
            continue;
        }
        if db.get_node_option(&nk).unwrap().is_some() { continue; }
        let mut entries: BTreeMap<(u64, KeyHash), Option<Vec<u8>>> = BTreeMap::new();
        for _ in 0..1 + t.below(4) {
            let k = *t.pick(&keys);
            let base = hist.get(&k).and_then(|h| h.last()).map_or(0, |x| x.0);
            let ver = match t.below(5) { 0 => base, 1 => base.saturating_sub(1), 2 => base.saturating_add(2), _ => base.saturating_add(t.below(5) as u64) };
            let val = if t.pct(30) { None } else { Some(gen_val(t, &mut ctr)) };
            entries.insert((ver, KeyHash(k)), val);
        }
        let ok = entries.keys().all(|(v, k)| hist.get(&k.0).and_then(|h| h.last()).map_or(true, |l| *v >= l.0));
        let mut b = NodeBatch::default();
        b.extend(vec![(nk.clone(), Node::Leaf(leaf.clone()))], entries.clone());
        t.log(format!("batch of {} ({})", entries.len(), ok));
        let before = snapshot(&db);
        let got = if t.pct(50) { db.write_node_batch(&b).is_ok() } else { let mut u = TreeUpdateBatch::default(); u.node_batch = b; VersionedDatabase::update(&db, u).is_ok() };
        ck!(got == ok, "a batch {:?}: accepted = {}", entries.keys().map(|x| (x.0, x.1 .0[0])).collect::<Vec<_>>(), got);
        if ok {
            for ((ver, k), val) in entries {
                let h = hist.entry(k.0).or_default();
                if h.last().map(|x| x.0) == Some(ver) { h.pop(); }
                h.push((ver, val));
            }
            ck!(db.get_node_option(&nk).unwrap() == Some(Node::Leaf(leaf)), "the batch's node is not stored");
        } else {
            ck!(snapshot(&db) == before, "a refused batch changed the store");
        }
    }
    keys.extend((0..12u64).map(|i| lone_key(i)));
    for k in &keys {
        for bound in (0..14u64).chain([u64::MAX - 3, u64::MAX - 2, u64::MAX - 1, u64::MAX]) {
            let want = hist.get(k).and_then(|h| h.iter().filter(|x| x.0 <= bound).last()).and_then(|x| x.1.clone());
            let got = es(db.get_value_option(V(bound), KeyHash(*k)), "get_value_option")?;
            ck!(got == want, "get_value_option({}, {}) = {:?}, expected {:?}", bound, k[0], got, want);
            let got = es(VersionedDatabase::get(&db, V(bound), KeyHash(*k)), "get")?;
            ck!(got == want, "get({}, {}) = {:?}, expected {:?}", bound, k[0], got, want);
        }
    }
    let want = hist.values().filter(|h| h.last().unwrap().1.is_some()).count();
    ck!(db.len() == want && db.is_empty() == (want == 0), "len {} expected {}", db.len(), want);
    let want = hist.values().flatten().map(|x| x.0).max().unwrap_or(0);
    ck!(db.version().0 == want, "version {} expected {}", db.version().0, want);
    let x = t.u64();
    let v = V(x);
    let b: Vec<u8> = v.into();
    ck!(b == x.to_be_bytes() && V::from(b) == v && u64::from(v) == x && V::from(x) == v && V::from(&x) == v, "version conversion of {}", x);
    ck!(format!("{}", v) == x.to_string(), "display");
    Ok(())
}
// ---------------------------------------------------------------------- C21
fn c21(t: &mut Tape) -> R {
    let mig = t.pct(85);
    let w = world(t, mig, 7, true)?;
    for (v, m) in w.maps.iter().enumerate() {
        let c = es(w.tree.get_leaf_count(v as u64), "get_leaf_count")?;
        if mig {
            ck!(c == Some(m.len()), "leaf count of v{} is {:?}, expected {}", v, c, m.len());
        } else {
            ck!(c.is_none(), "leaf count although it is off");
        }
    }
    let latest = w.cur();
    ck!(w.tree.len() == latest.len() && VersionedTrie::is_empty(&w.tree) == latest.is_empty(), "len {} expected {}", w.tree.len(), latest.len());
    // the sets of nodes and leaves the updates created and retired
    let mut store: HashMap<NodeKey, bool> = HashMap::new();
    for (v0, b) in &w.batches {
        let nv = b.node_stats.len() as u64;
        for v in *v0..*v0 + nv {
            let st = &b.node_stats[(v - v0) as usize];
            let new: Vec<_> = b.node_batch.nodes().iter().filter(|(k, _)| k.version() == v).collect();
            let leaf = |n: &Node| matches!(n, Node::Leaf(_));
            for (k, n) in &new {
                store.insert((*k).clone(), leaf(n));
            }
            let stale: Vec<_> = b.stale_node_index_batch.iter().filter(|s| s.stale_since_version == v).collect();
            let nl = new.iter().filter(|(_, n)| leaf(n)).count();
            let mut sl = 0;
            for s in &stale {
                match store.get(&s.node_key) {
                    Some(l) => sl += *l as usize,
                    None => return Err(format!("stale node {:?} was never created", s.node_key)),
                }
            }
            ck!((st.new_nodes, st.new_leaves, st.stale_nodes, st.stale_leaves) == (new.len(), nl, stale.len(), sl),
                "statistics of v{} are {:?}, expected {:?}", v, st, (new.len(), nl, stale.len(), sl));
        }
    }
    Ok(())
}
// ------------------------------------------------------------- fixed cases
fn kb(b: &[u8]) -> K {
    let mut k = [0x11u8; 32];
    k[..b.len()].copy_from_slice(b);
    k
}
fn fx_c12_range() -> R {
    #[cfg(feature = "hooks")]
    {
        use jmt::verif_hooks as hk;
        let rp = mkrange(&vec![[1; 32]; 200]);
        ck!(rp.verify(RootHash([0; 32]), hk::leaf(KeyHash([0; 32]), jmt_vh([0; 32])), vec![[2; 32]; 100]).is_err(), "accepted");
    }
    Ok(())
}
fn fx_c18_early() -> R {
    let mut w = W::new(true);
    let ks: Vec<K> = (0..20u8).map(|i| kb(&[i.wrapping_mul(37), i])).collect();
    let m: Map = ks.iter().map(|k| (*k, vec![k[0]])).collect();
    let (root, b) = es(w.tree.put_value_set(m.iter().map(|(k, v)| (KeyHash(*k), Some(v.clone()))), 0), "put")?;
    es(w.db.write_tree_update_batch(b), "write")?;
    w.maps.push(m.clone());
    let all: Vec<_> = m.iter().map(|(k, x)| (KeyHash(*k), x.clone())).collect();
    for cut in 0..all.len() {
        let store = Arc::new(MockTreeStore::new(false));
        let mut rs = restorer(&store, 0, root, false)?;
        if cut > 0 {
            let c = all[..cut].to_vec();
            let p = es(w.tree.get_range_proof(c[cut - 1].0, 0), "range proof")?;
            es(rs.add_chunk(c, p), "add_chunk")?;
        }
        ck!(rs.finish().is_err(), "finished with {} of {} pairs", cut, all.len());
        ck!(es(Tree::new(store).get_root_hash_option(0), "root")?.is_none(), "early finish left a root");
    }
    // a finished restoration is not resumed
    let store = Arc::new(MockTreeStore::new(false));
    let mut rs = restorer(&store, 0, root, false)?;
    let p = es(w.tree.get_range_proof(all.last().unwrap().0, 0), "range proof")?;
    es(rs.add_chunk(all.clone(), p), "add_chunk")?;
    es(rs.finish(), "finish")?;
    ck!(JellyfishMerkleRestore::<Sha256>::new(store.clone(), 0, root, true).is_err(), "a finished restoration was resumed");
    check_restored(&store, 0, &m, &[])
}

pub fn props() -> Vec<Prop> {
    macro_rules! p {
        ($id:literal, $f:expr, $len:expr, $rule:literal) => { p!($id, $f, $len, $rule, &[]) };
        ($id:literal, $f:expr, $len:expr, $rule:literal, $fx:expr) => {
            Prop { id: $id, check: $f, rule: $rule, max_len: $len, fixed: $fx, known: &[] }
        };
    }
    vec![
        p!("C09", c09, 900, "random histories of update sets through put_value_set, put_value_sets and batch_put_value_sets over keys with shared prefixes of 0..63 nibbles; every read API at every version against a map per version; non-trivial: two versions, one with two keys"),
        p!("C10", c10, 900, "the same histories; every root against an independent sparse Merkle root of the version's map; non-trivial: a version with two keys"),
        p!("C11", c11, 900, "the same histories; a proof per version and key, verified against the independent root; non-trivial: a version with two keys"),
        p!("C12", c12, 600, "genuine proofs of random sets, tampered (siblings dropped, added, replaced, leaf swapped, inner nodes lifted, 0..512 siblings); accepted only when true; non-trivial: at least two keys", &[("range-257", fx_c12_range)]),
        p!("C13", c13, 120, "random children of a sixteen-way node against a four-level reference; all sixteen nibbles; non-trivial: at least two children"),
        p!("C14", c14, 900, "the same histories; exclusion answers against map neighbours, ICS23 proofs against the published spec; non-trivial: a version with two keys"),
        p!("C15", c15, 700, "the same histories; iteration from keys at, just below and just above every key and from every index; non-trivial: a version with two keys"),
        p!("C16", c16, 900, "the same histories, purged at random versions; reachability of stale nodes, then reads, proofs, roots and iteration of the remaining versions; non-trivial: a version with two keys"),
        p!("C17", c17, 900, "random source trees divided into chunks of random sizes, restored by new and new_overwrite; non-trivial: three pairs"),
        p!("C18", c18, 900, "random source trees restored with crashes, tampered chunks and early finishes in between; non-trivial: three pairs", &[("early-finish", fx_c18_early)]),
        p!("C19", c19, 300, "random keys, near-equal keys and push/pop sequences against plain bit and nibble vectors; non-trivial: always"),
        p!("C20", c20, 300, "random writes at random versions against a list per key; non-trivial: four writes"),
        p!("C21", c21, 900, "the same histories; leaf counts and statistics recomputed from the returned batches; non-trivial: a version with two keys"),
    ]
}
