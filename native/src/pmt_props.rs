//! C01..C08: the Patricia trie of /repo/pmt against a map and `pmt_ref`.
use crate::pmt_ref::{self, *};
use crate::tape::*;
use crate::Prop;
use patriecia::{Database, InnerTrie, MemoryDB, OwnedTrieIterator, Trie, TrieError};
use serde_hash::H256;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- database
#[derive(Debug, Clone, Default)]
pub struct FDb {
    pub light: bool,
    pub st: Arc<Mutex<FSt>>,
}
#[derive(Debug, Default)]
pub struct FSt {
    pub m: HashMap<Vec<u8>, Vec<u8>>,
    pub hidden: BTreeSet<Vec<u8>>,
    pub failing: BTreeSet<Vec<u8>>,
    pub dropped: BTreeMap<Vec<u8>, Vec<u8>>,
    pub hits: usize,
}
#[derive(Debug, Clone)]
pub struct FErr;
impl std::fmt::Display for FErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected")
    }
}
impl std::error::Error for FErr {}
impl Database for FDb {
    type Error = FErr;
    fn get(&self, key: &[u8]) -> Result<Option<Vec<u8>>, FErr> {
        let mut s = self.st.lock().unwrap();
        if s.failing.contains(key) {
            s.hits += 1;
            return Err(FErr);
        }
        if s.hidden.contains(key) {
            s.hits += 1;
            return Ok(None);
        }
        Ok(s.m.get(key).cloned())
    }
    fn insert(&self, key: &[u8], value: Vec<u8>) -> Result<(), FErr> {
        self.st.lock().unwrap().m.insert(key.to_vec(), value);
        Ok(())
    }
    fn remove(&self, key: &[u8]) -> Result<(), FErr> {
        let mut s = self.st.lock().unwrap();
        if self.light {
            if let Some(v) = s.m.remove(key) {
                s.dropped.insert(key.to_vec(), v);
            }
        }
        Ok(())
    }
    fn flush(&self) -> Result<(), FErr> {
        Ok(())
    }
    fn len(&self) -> Result<usize, FErr> {
        Ok(self.st.lock().unwrap().m.len())
    }
    fn values(&self) -> Result<Vec<(Vec<u8>, Vec<u8>)>, FErr> {
        Ok(self.st.lock().unwrap().m.iter().map(|(a, b)| (a.clone(), b.clone())).collect())
    }
    fn is_empty(&self) -> Result<bool, FErr> {
        Ok(self.st.lock().unwrap().m.is_empty())
    }
}
impl FDb {
    fn new(light: bool) -> Self {
        FDb { light, st: Default::default() }
    }
}

// --------------------------------------------------------------- generators
const ALPHA: [u8; 8] = [0x00, 0x01, 0x10, 0x11, 0xf0, 0x0f, 0xff, 0x1f];
fn gen_key(t: &mut Tape) -> Vec<u8> {
    match t.below(8) {
        0 => {
            // long keys sharing a prefix
            let mut k = vec![0x11u8; 32];
            let pos = *t.pick(&[31usize, 30, 16, 1, 0, 31, 8]);
            k[pos] = *t.pick(&ALPHA);
            if t.pct(30) {
                k[31] = *t.pick(&ALPHA);
            }
            k
        }
        7 => {
            let n = 1 + t.below(6);
            t.bytes(n)
        }
        _ => {
            let n = t.below(5);
            (0..n).map(|_| *t.pick(&ALPHA)).collect()
        }
    }
}
fn gen_val(t: &mut Tape, ctr: &mut u32, unique: bool) -> Vec<u8> {
    *ctr += 1;
    let n = *t.pick(&[1usize, 2, 3, 5, 20, 28, 29, 30, 31, 32, 33, 40, 60, 1, 40]);
    if unique {
        let mut v = vec![(*ctr >> 8) as u8, *ctr as u8, 7];
        while v.len() < n {
            v.push(0x61);
        }
        v
    } else {
        let b = *t.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0xa0, 0xc0]);
        vec![b; n]
    }
}
fn hx(b: &[u8]) -> String {
    hex(b)
}
fn h256(b: [u8; 32]) -> H256 {
    H256(b)
}

pub struct W<D: Database> {
    pub trie: InnerTrie<D>,
    pub db: Arc<D>,
    pub model: Map,
    pub unique: bool,
    pub ctr: u32,
    pub roots: Vec<(H256, Map)>,
    pub keys: Vec<Vec<u8>>,
}
impl<D: Database> W<D> {
    pub fn new(db: D, unique: bool) -> Self {
        let db = Arc::new(db);
        W { trie: InnerTrie::new(db.clone()), db, model: Map::new(), unique, ctr: 0, roots: vec![], keys: vec![] }
    }
    fn key(&mut self, t: &mut Tape) -> Vec<u8> {
        if !self.keys.is_empty() && t.pct(55) {
            let i = t.below(self.keys.len().min(256));
            let mut k = self.keys[i].clone();
            match t.below(8) {
                0 => {
                    k.push(*t.pick(&ALPHA));
                }
                1 => {
                    k.pop();
                }
                _ => {}
            }
            k
        } else {
            gen_key(t)
        }
    }
    fn insert(&mut self, t: &mut Tape, k: Vec<u8>, v: Vec<u8>) -> Result<(), String> {
        t.log(format!("insert {} -> {}", hx(&k), hx(&v)));
        self.trie.insert(&k, &v).map_err(|e| format!("insert({}) failed: {:?}", hx(&k), e))?;
        if !self.keys.contains(&k) {
            self.keys.push(k.clone());
        }
        self.model.insert(k, v);
        Ok(())
    }
    fn commit(&mut self, t: &mut Tape) -> Result<H256, String> {
        t.log("commit");
        let via_root = t.pct(20);
        let r = if via_root { self.trie.root_hash() } else { self.trie.commit() }.map_err(|e| format!("commit failed: {:?}", e))?;
        self.roots.push((r, self.model.clone()));
        Ok(r)
    }
    /// one random operation, checking what C01 says about its result
    fn step(&mut self, t: &mut Tape) -> Result<(), String> {
        match t.below(20) {
            0..=7 => {
                let k = self.key(t);
                let v = if self.model.contains_key(&k) && t.pct(15) {
                    self.model[&k].clone()
                } else {
                    gen_val(t, &mut self.ctr, self.unique)
                };
                self.insert(t, k, v)?;
            }
            8..=12 => {
                let k = self.key(t);
                t.log(format!("remove {}", hx(&k)));
                let was = self.model.remove(&k).is_some();
                let r = self.trie.remove(&k).map_err(|e| format!("remove({}) failed: {:?}", hx(&k), e))?;
                if r != was {
                    return Err(format!("remove({}) returned {} but the key was {}", hx(&k), r, if was { "present" } else { "absent" }));
                }
            }
            13 | 14 => {
                self.commit(t)?;
            }
            15 => {
                let r = self.commit(t)?;
                t.log("reopen");
                self.trie = if t.pct(50) { self.trie.at_root(r) } else { InnerTrie::new(self.db.clone()).at_root(r) };
            }
            16 => {
                let k = self.key(t);
                self.lookup(&k)?;
            }
            17 => {
                let k = self.key(t);
                t.log(format!("insert empty value at {}", hx(&k)));
                if self.trie.insert(&k, &[]).is_ok() {
                    return Err("inserting an empty value was accepted".into());
                }
            }
            18 => {
                let k = self.key(t);
                t.log(format!("get_proof {}", hx(&k)));
                let _ = self.trie.get_proof(&k).map_err(|e| format!("get_proof failed {:?}", e))?;
            }
            _ => {
                // burst: sixteen-way fan-out under one key
                let base = self.key(t);
                let n = 1 + t.below(4);
                for _ in 0..n {
                    let mut k = base.clone();
                    k.push(t.u8());
                    let v = gen_val(t, &mut self.ctr, self.unique);
                    self.insert(t, k, v)?;
                }
            }
        }
        Ok(())
    }
    fn lookup(&self, k: &[u8]) -> Result<(), String> {
        let g = self.trie.get(k).map_err(|e| format!("get({}) failed: {:?}", hx(k), e))?;
        if g.as_ref() != self.model.get(k) {
            return Err(format!("get({}) = {:?}, expected {:?}", hx(k), g.map(|x| hx(&x)), self.model.get(k).map(|x| hx(x))));
        }
        let c = self.trie.contains(k).map_err(|e| format!("contains({}) failed: {:?}", hx(k), e))?;
        if c != self.model.contains_key(k) {
            return Err(format!("contains({}) = {}", hx(k), c));
        }
        Ok(())
    }
    fn universe(&self, t: &mut Tape) -> Vec<Vec<u8>> {
        let mut u: BTreeSet<Vec<u8>> = self.keys.iter().cloned().collect();
        u.insert(vec![]);
        for k in self.keys.iter() {
            let mut a = k.clone();
            a.push(0x11);
            u.insert(a);
            let mut a = k.clone();
            a.pop();
            u.insert(a);
            if let Some(l) = k.last() {
                let mut a = k.clone();
                *a.last_mut().unwrap() = l ^ 0x01;
                u.insert(a);
                let mut a = k.clone();
                *a.last_mut().unwrap() = l ^ 0x10;
                u.insert(a);
            }
        }
        let _ = &t;
        u.into_iter().collect()
    }
    fn check_all(&self, t: &mut Tape) -> Result<(), String> {
        for k in self.universe(t) {
            self.lookup(&k)?;
        }
        Ok(())
    }
}
fn note(w_model: &Map, t: &mut Tape) {
    if w_model.len() >= 2 {
        t.nontrivial = true;
    }
}
fn contents_at<D: Database>(trie: &InnerTrie<D>, m: &Map, keys: &[Vec<u8>]) -> Result<(), String> {
    for k in keys {
        let g = trie.get(k).map_err(|e| format!("get({}) failed: {:?}", hx(k), e))?;
        if g.as_ref() != m.get(k) {
            return Err(format!("get({}) = {:?}, expected {:?}", hx(k), g.map(|x| hx(&x)), m.get(k).map(|x| hx(x))));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C01
fn with_db(t: &mut Tape, f: &dyn Fn(&mut Tape, DbKind) -> Result<(), String>) -> Result<(), String> {
    let k = match t.below(4) {
        0 => DbKind::Mem,
        1 => DbKind::MemLight,
        2 => DbKind::F,
        _ => DbKind::FLight,
    };
    t.log(format!("database {:?}", k));
    f(t, k)
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum DbKind {
    Mem,
    MemLight,
    F,
    FLight,
}
macro_rules! dispatch {
    ($t:expr, $k:expr, $f:ident) => {
        match $k {
            DbKind::Mem => $f($t, MemoryDB::new(false), false),
            DbKind::MemLight => $f($t, MemoryDB::new(true), true),
            DbKind::F => $f($t, FDb::new(false), false),
            DbKind::FLight => $f($t, FDb::new(true), true),
        }
    };
}
fn c01_run<D: Database>(t: &mut Tape, db: D, light: bool) -> Result<(), String> {
    let mut w = W::new(db, light);
    while !t.done() {
        w.step(t)?;
        if t.pct(10) {
            w.check_all(t)?;
        }
    }
    note(&w.model, t);
    w.check_all(t)
}
fn c01(t: &mut Tape) -> Result<(), String> {
    with_db(t, &|t, k| dispatch!(t, k, c01_run))
}

// ------------------------------------------------------------------ C02
fn c02_run<D: Database>(t: &mut Tape, db: D, light: bool) -> Result<(), String> {
    let mut w = W::new(db, light);
    while !t.done() {
        w.step(t)?;
        if let Some((r, m)) = w.roots.last() {
            if r.as_bytes() != pmt_ref::root(m) {
                return Err(format!("committed root {:?} is not the canonical root {} of {:?}", r, hx(&pmt_ref::root(m)), show(m)));
            }
        }
        w.roots.clear();
    }
    note(&w.model, t);
    let r = w.commit(t)?;
    let exp = pmt_ref::root(&w.model);
    if r.as_bytes() != exp {
        return Err(format!("committed root {:?} is not the canonical root {} of {:?}", r, hx(&exp), show(&w.model)));
    }
    // a fresh trie filled in another order
    let mut f = InnerTrie::new(Arc::new(MemoryDB::new(false)));
    for (k, v) in w.model.iter().rev() {
        f.insert(k, v).map_err(|e| format!("{:?}", e))?;
    }
    let r2 = f.commit().map_err(|e| format!("{:?}", e))?;
    if r2 != r {
        return Err(format!("same contents, different roots {:?} {:?}", r, r2));
    }
    Ok(())
}
fn show(m: &Map) -> Vec<(String, String)> {
    m.iter().map(|(k, v)| (hx(k), hx(v))).collect()
}
fn c02(t: &mut Tape) -> Result<(), String> {
    with_db(t, &|t, k| dispatch!(t, k, c02_run))
}

// ------------------------------------------------------------------ C03
fn c03_run<D: Database>(t: &mut Tape, db: D, light: bool) -> Result<(), String> {
    let mut w = W::new(db, light);
    let mut n = 0;
    while !t.done() {
        w.step(t)?;
        if w.roots.len() > n {
            n = w.roots.len();
            let (r, m) = w.roots[n - 1].clone();
            c03_at(&w, r, &m, t)?;
        }
    }
    let r = w.commit(t)?;
    note(&w.model, t);
    let m = w.model.clone();
    c03_at(&w, r, &m, t)?;
    if !light {
        let u = w.universe(t);
        for (r, m) in &w.roots {
            let v = InnerTrie::new(w.db.clone()).at_root(*r);
            contents_at(&v, m, &u).map_err(|e| format!("earlier root {:?}: {}", r, e))?;
            contents_iter(&v, m)?;
        }
    }
    Ok(())
}
fn contents_iter<D: Database>(v: &InnerTrie<D>, m: &Map) -> Result<(), String> {
    let got: Vec<(Vec<u8>, Vec<u8>)> = v.iter().collect();
    let exp: Vec<(Vec<u8>, Vec<u8>)> = m.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    if got != exp {
        return Err(format!("iteration yields {:?} instead of {:?}", got.iter().map(|x| hx(&x.0)).collect::<Vec<_>>(), exp.iter().map(|x| hx(&x.0)).collect::<Vec<_>>()));
    }
    Ok(())
}
fn needed<D: Database>(db: &D, m: &Map) -> Result<(), String> {
    let (_, raws) = pmt_ref::build(m);
    for raw in raws {
        let h = keccak256(&raw);
        match db.get(&h) {
            Ok(Some(x)) if x == raw => {}
            Ok(None) => return Err(format!("database entry {} needed by the committed trie is gone", hx(&h))),
            x => return Err(format!("database entry {} is {:?}", hx(&h), x.map(|y| y.map(|z| hx(&z))).ok())),
        }
    }
    Ok(())
}
fn c03_at<D: Database>(w: &W<D>, r: H256, m: &Map, t: &mut Tape) -> Result<(), String> {
    let v = InnerTrie::new(w.db.clone()).at_root(r);
    contents_at(&v, m, &w.universe(t)).map_err(|e| format!("reopened at {:?}: {}", r, e))?;
    contents_iter(&v, m)?;
    needed(&*w.db, m)
}
fn c03(t: &mut Tape) -> Result<(), String> {
    with_db(t, &|t, k| dispatch!(t, k, c03_run))
}
fn c03_known_shared() -> Result<(), String> {
    // two identical subtrees (same stored node) under different prefixes; one is
    // changed and committed on a database that physically removes stale entries
    let mut w = W::new(MemoryDB::new(true), false);
    let mut t = Tape::new(&[]);
    let v = vec![0x61u8; 40];
    for p in [0x10u8, 0x20] {
        for s in [0x01u8, 0x02] {
            w.insert(&mut t, vec![p, s], v.clone())?;
        }
    }
    w.commit(&mut t)?;
    w.insert(&mut t, vec![0x10, 0x01], vec![0x62u8; 40])?;
    let r = w.commit(&mut t)?;
    let m = w.model.clone();
    c03_at(&w, r, &m, &mut t)
}

// ------------------------------------------------------------------ C04
fn c04_run<D: Database>(t: &mut Tape, db: D, light: bool) -> Result<(), String> {
    let mut w = W::new(db, light);
    while !t.done() {
        w.step(t)?;
        if t.pct(8) {
            c04_at(&mut w, t)?;
        }
    }
    note(&w.model, t);
    c04_at(&mut w, t)
}
fn c04_at<D: Database>(w: &mut W<D>, t: &mut Tape) -> Result<(), String> {
    let r = w.commit(t)?;
    if w.model.is_empty() {
        return Ok(());
    }
    let mut view = InnerTrie::new(w.db.clone()).at_root(r);
    let other = InnerTrie::new(Arc::new(MemoryDB::new(true)));
    for k in w.universe(t) {
        for (which, p) in [("in place", w.trie.get_proof(&k)), ("opened at its root", view.get_proof(&k))] {
            let p = p.map_err(|e| format!("get_proof({}) {} failed: {:?}", hx(&k), which, e))?;
            let ver = if t.pct(50) { other.verify_proof(r, &k, p.clone()) } else { w.trie.verify_proof(r, &k, p.clone()) };
            match ver {
                Ok(v) if v.as_ref() == w.model.get(&k) => {}
                v => return Err(format!("proof of {} ({}) verifies as {:?}, expected {:?}", hx(&k), which, v, w.model.get(&k))),
            }
        }
    }
    Ok(())
}
fn c04(t: &mut Tape) -> Result<(), String> {
    with_db(t, &|t, k| dispatch!(t, k, c04_run))
}

// ------------------------------------------------------------------ C05
fn small_contents(t: &mut Tape, max: usize) -> (Map, u32) {
    let mut m = Map::new();
    let mut ctr = 0;
    let n = t.below(max + 1);
    let uni = t.pct(50);
    for _ in 0..n {
        let k = gen_key(t);
        let v = gen_val(t, &mut ctr, uni);
        m.insert(k, v);
    }
    (m, ctr)
}
fn garbage_rlp(t: &mut Tape, depth: usize) -> Vec<u8> {
    match t.below(10) {
        0 => vec![0x80],
        1 => {
            let n = t.below(40);
            rlp_str(&t.bytes(n))
        }
        2 => {
            let n = t.below(6);
            t.bytes(n)
        }
        3 if depth > 0 => rlp_list(&(0..17).map(|i| if i == 16 { vec![0x80] } else { garbage_rlp(t, depth - 1) }).collect::<Vec<_>>()),
        4 if depth > 0 => {
            let n = t.below(18);
            rlp_list(&(0..n).map(|_| garbage_rlp(t, depth - 1)).collect::<Vec<_>>())
        }
        _ if depth > 0 => {
            let n = t.below(5);
            let mut k: Vec<u8> = (0..n).map(|_| *t.pick(&ALPHA)).collect();
            if t.pct(80) {
                k.insert(0, *t.pick(&[0x00u8, 0x10, 0x11, 0x20, 0x31, 0x30, 0x0f, 0x25, 0x40, 0xff]));
            }
            let c = garbage_rlp(t, depth - 1);
            rlp_list(&[rlp_str(&k), c])
        }
        _ => rlp_str(&[1, 2, 3]),
    }
}
fn c05(t: &mut Tape) -> Result<(), String> {
    let (m, _) = small_contents(t, 8);
    let (root, raws) = pmt_ref::build(&m);
    let mut keys: Vec<Vec<u8>> = m.keys().cloned().collect();
    for _ in 0..3 {
        keys.push(gen_key(t));
    }
    for k in m.keys() {
        let mut a = k.clone();
        a.push(0);
        keys.push(a);
        let mut a = k.clone();
        a.pop();
        keys.push(a);
    }
    let ver = InnerTrie::new(Arc::new(MemoryDB::new(true)));
    // another genuine trie whose nodes may be mixed in
    let (m2, _) = small_contents(t, 4);
    let (_, raws2) = pmt_ref::build(&m2);
    for _ in 0..4 {
        let mut proof: Vec<Vec<u8>> = raws.clone();
        let edits = t.below(5);
        for _ in 0..edits {
            match t.below(8) {
                0 if !proof.is_empty() => {
                    let i = t.below(proof.len());
                    proof.remove(i);
                }
                1 if !proof.is_empty() => {
                    let i = t.below(proof.len());
                    if !proof[i].is_empty() {
                        let j = t.below(proof[i].len());
                        proof[i][j] ^= 1 << t.below(8);
                    }
                }
                2 if !proof.is_empty() => {
                    let i = t.below(proof.len());
                    let n = t.below(proof[i].len() + 1);
                    proof[i].truncate(n);
                }
                3 => proof.extend(raws2.iter().cloned()),
                4 => proof.push(garbage_rlp(t, 4)),
                5 => {
                    let n = t.below(50);
                    proof.push(t.bytes(n));
                }
                6 => proof.reverse(),
                _ => {
                    // splice a child of one node into another
                    if proof.len() >= 2 {
                        let i = t.below(proof.len());
                        let j = t.below(proof.len());
                        proof[i] = proof[j].clone();
                    }
                }
            }
        }
        let k = t.pick(&keys).clone();
        t.log(format!("genuine root, key {}, proof {:?}", hx(&k), proof.iter().map(|x| hx(x)).collect::<Vec<_>>()));
        t.nontrivial = true;
        match ver.verify_proof(h256(root), &k, proof) {
            Ok(v) => {
                if v.as_ref() != m.get(&k) {
                    return Err(format!("verify_proof accepted {:?} for {} but the trie has {:?}", v, hx(&k), m.get(&k)));
                }
            }
            Err(TrieError::InvalidProof) => {}
            Err(e) => return Err(format!("verify_proof reported {:?} instead of an invalid proof", e)),
        }
        // complete node set must be accepted
        match ver.verify_proof(h256(root), &k, raws.clone()) {
            Ok(v) if v.as_ref() == m.get(&k) => {}
            x => return Err(format!("complete node set rejected: {:?}", x)),
        }
        // adversarial root: the hash of arbitrary bytes
        let g = match t.below(3) {
            0 => garbage_rlp(t, 6),
            1 => {
                let mut g = t.pick(&raws).clone();
                let e = t.below(3);
                for _ in 0..e + 1 {
                    let j = t.below(g.len().max(1)).min(g.len() - 1);
                    g[j] = t.u8();
                }
                g
            }
            _ => {
                let n = t.below(40);
                t.bytes(n)
            }
        };
        let mut proof = raws.clone();
        proof.push(g.clone());
        t.log(format!("root of {}, key {}", hx(&g), hx(&k)));
        match ver.verify_proof(h256(keccak256(&g)), &k, proof) {
            Ok(_) | Err(TrieError::InvalidProof) => {}
            Err(e) => return Err(format!("verify_proof reported {:?} instead of an invalid proof", e)),
        }
    }
    Ok(())
}
fn c05_one(raw: Vec<u8>) -> Result<(), String> {
    let ver = InnerTrie::new(Arc::new(MemoryDB::new(true)));
    for k in [&b""[..], &b"\x00"[..], &b"abc"[..]] {
        match ver.verify_proof(h256(keccak256(&raw)), k, vec![raw.clone()]) {
            Ok(_) | Err(TrieError::InvalidProof) => {}
            Err(e) => return Err(format!("{:?}", e)),
        }
    }
    Ok(())
}
fn c05_empty_path() -> Result<(), String> {
    c05_one(rlp_list(&[rlp_str(&[]), rlp_str(b"v")]))
}
fn c05_bad_flag() -> Result<(), String> {
    c05_one(rlp_list(&[rlp_str(&[0x40, 1]), rlp_str(b"v")]))
}
fn c05_empty_ext() -> Result<(), String> {
    c05_one(rlp_list(&[rlp_str(&[0x00]), rlp_str(&[7; 32])]))
}
fn c05_deep() -> Result<(), String> {
    // an extension nested 200000 levels deep in one proof element
    let mut body: Vec<u8> = vec![0x80];
    let mut lens = vec![];
    let mut len = 1usize;
    for _ in 0..60_000 {
        let hdr = if len + 1 < 56 { 1 } else { 1 + ((len + 1).ilog2() as usize / 8 + 1) };
        lens.push(len + 1);
        len += 1 + hdr;
    }
    let mut out = vec![];
    for l in lens.iter().rev() {
        if *l < 56 {
            out.push(0xc0 + *l as u8);
        } else {
            let be: Vec<u8> = l.to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
            out.push(0xf7 + be.len() as u8);
            out.extend(be);
        }
        out.push(0x10);
    }
    out.append(&mut body);
    c05_one(out)
}
fn c05_all_short() -> Result<(), String> {
    // every one-byte and two-byte string as the only proof element
    for a in 0..=255u8 {
        c05_one(vec![a])?;
        for b in 0..=255u8 {
            c05_one(vec![a, b])?;
        }
    }
    c05_one(vec![])
}

// ------------------------------------------------------------------ C06
fn c06_run<D: Database>(t: &mut Tape, db: D, light: bool) -> Result<(), String> {
    let mut w = W::new(db, light);
    while !t.done() {
        w.step(t)?;
        if t.pct(10) {
            c06_at(&w.trie, &w.model)?;
        }
    }
    note(&w.model, t);
    c06_at(&w.trie, &w.model)?;
    let r = w.commit(t)?;
    c06_at(&w.trie, &w.model)?;
    c06_at(&InnerTrie::new(w.db.clone()).at_root(r), &w.model)
}
fn c06_at<D: Database>(v: &InnerTrie<D>, m: &Map) -> Result<(), String> {
    contents_iter(v, m)?;
    let got: Vec<(Vec<u8>, Vec<u8>)> = OwnedTrieIterator::new(v.clone()).collect();
    let exp: Vec<(Vec<u8>, Vec<u8>)> = m.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    if got != exp {
        return Err("the owning iterator differs from the contents".into());
    }
    if v.values().map_err(|e| format!("{:?}", e))? != exp {
        return Err("values() differs from the contents".into());
    }
    let mut it = v.iter();
    for _ in 0..m.len() {
        it.next();
    }
    for _ in 0..3 {
        if it.next().is_some() {
            return Err("the iterator continues after its end".into());
        }
    }
    Ok(())
}
fn c06(t: &mut Tape) -> Result<(), String> {
    with_db(t, &|t, k| dispatch!(t, k, c06_run))
}

// ------------------------------------------------------------------ C07
fn c07(t: &mut Tape) -> Result<(), String> {
    let light = t.pct(50);
    t.log(format!("light {}", light));
    let mut w = W::new(FDb::new(light), true);
    let pre = 2 + t.below(20);
    for _ in 0..pre {
        w.step(t)?;
    }
    let mut rounds = 0;
    while !t.done() && rounds < 12 {
        rounds += 1;
        let r = w.commit(t)?;
        if t.pct(60) {
            t.log("reopen");
            w.trie = InnerTrie::new(w.db.clone()).at_root(r);
        }
        // some modifications before the faults
        for _ in 0..t.below(3) {
            w.step(t)?;
        }
        let disk: Vec<Vec<u8>> = {
            let mut v: Vec<Vec<u8>> = w.db.st.lock().unwrap().m.keys().cloned().collect();
            v.sort();
            v
        };
        let snapshot = w.model.clone();
        let nh = t.below(4);
        for _ in 0..nh {
            if !disk.is_empty() {
                let k = t.pick(&disk).clone();
                let fail = t.pct(30);
                t.log(format!("{} node {}", if fail { "failing" } else { "missing" }, hx(&k)));
                let mut s = w.db.st.lock().unwrap();
                if fail {
                    s.failing.insert(k);
                } else {
                    s.hidden.insert(k);
                }
            }
        }
        let mut maybe: Option<()> = None;
        for _ in 0..1 + t.below(6) {
            let k = w.key(t);
            w.db.st.lock().unwrap().hits = 0;
            let present = w.model.contains_key(&k);
            let op = t.below(7);
            let hits = |w: &W<FDb>| w.db.st.lock().unwrap().hits;
            let chk = |w: &W<FDb>, e: &TrieError, what: &str| -> Result<(), String> {
                if hits(w) == 0 {
                    return Err(format!("{}({}) failed without a missing node: {:?}", what, hx(&k), e));
                }
                match e {
                    TrieError::MissingTrieNode { node_hash, .. } => {
                        if !w.db.st.lock().unwrap().hidden.contains(node_hash.as_bytes()) {
                            return Err(format!("{} names a node that is not missing", what));
                        }
                        Ok(())
                    }
                    TrieError::Database(_) => Ok(()),
                    e => Err(format!("{}({}) with a missing node reports {:?}", what, hx(&k), e)),
                }
            };
            match op {
                0 => {
                    t.log(format!("get {}", hx(&k)));
                    match w.trie.get(&k) {
                        Ok(v) => {
                            if v.as_ref() != w.model.get(&k) || hits(&w) > 0 {
                                return Err(format!("get({}) = {:?} with a node missing on its path, expected {:?} or an error", hx(&k), v, w.model.get(&k)));
                            }
                        }
                        Err(e) => chk(&w, &e, "get")?,
                    }
                }
                1 => {
                    t.log(format!("contains {}", hx(&k)));
                    match w.trie.contains(&k) {
                        Ok(v) => {
                            if v != present || hits(&w) > 0 {
                                return Err(format!("contains({}) = {} with a node missing on its path", hx(&k), v));
                            }
                        }
                        Err(e) => chk(&w, &e, "contains")?,
                    }
                }
                2 | 3 => {
                    t.log(format!("remove {}", hx(&k)));
                    match w.trie.remove(&k) {
                        Ok(v) => {
                            if v != present || hits(&w) > 0 {
                                return Err(format!("remove({}) = {} but the key was {} (node missing on its path: {})", hx(&k), v, present, hits(&w) > 0));
                            }
                            w.model.remove(&k);
                        }
                        Err(e) => chk(&w, &e, "remove")?,
                    }
                }
                4 => {
                    let v = gen_val(t, &mut w.ctr, true);
                    t.log(format!("insert {} {}", hx(&k), hx(&v)));
                    match w.trie.insert(&k, &v) {
                        Ok(()) => {
                            if hits(&w) > 0 {
                                return Err(format!("insert({}) succeeded with a node missing on its path", hx(&k)));
                            }
                            if !w.keys.contains(&k) {
                                w.keys.push(k.clone());
                            }
                            w.model.insert(k.clone(), v);
                        }
                        Err(e) => chk(&w, &e, "insert")?,
                    }
                }
                6 => {
                    t.log("commit");
                    match w.trie.commit() {
                        Ok(r) => {
                            if r.as_bytes() != pmt_ref::root(&w.model) {
                                return Err(format!("commit while nodes are missing returned {:?}, not the root of the contents", r));
                            }
                        }
                        Err(e) => chk(&w, &e, "commit")?,
                    }
                }
                _ => {
                    t.log(format!("get_proof {}", hx(&k)));
                    match w.trie.get_proof(&k) {
                        Ok(_) => {
                            if hits(&w) > 0 {
                                return Err(format!("get_proof({}) succeeded with a node missing on its path", hx(&k)));
                            }
                        }
                        Err(e) => chk(&w, &e, "get_proof")?,
                    }
                }
            }
            t.nontrivial = true;
            maybe = Some(());
        }
        let _ = (maybe, snapshot);
        {
            let mut s = w.db.st.lock().unwrap();
            s.hidden.clear();
            s.failing.clear();
        }
        t.log("nodes back");
        w.check_all(t)?;
        let r = w.commit(t)?;
        if r.as_bytes() != pmt_ref::root(&w.model) {
            return Err(format!("root after failed operations {:?} is not the root of the contents", r));
        }
        needed(&*w.db, &w.model)?;
        let v = InnerTrie::new(w.db.clone()).at_root(r);
        let u = w.universe(t);
        contents_at(&v, &w.model, &u)?;
    }
    Ok(())
}

fn f_commit_unknown_root() -> Result<(), String> {
    let db = Arc::new(FDb::new(false));
    let mut v = InnerTrie::new(db).at_root(serde_hash::H256::from_slice(&[7u8; 32]));
    match v.commit() {
        Err(TrieError::MissingTrieNode { .. }) => {}
        r => return Err(format!("committing a trie at an unknown root gives {:?}", r.map_err(|e| e.to_string()))),
    }
    match v.get(b"k") {
        Err(TrieError::MissingTrieNode { .. }) => Ok(()),
        r => Err(format!("get at an unknown root gives {:?}", r)),
    }
}

// ------------------------------------------------------------------ C08
fn c08(t: &mut Tape) -> Result<(), String> {
    #[cfg(feature = "hooks")]
    {
        use patriecia::verif_hooks as h;
        let n = t.below(12);
        let raw = t.bytes(n);
        let leaf = t.pct(50);
        let hexs = h::from_raw(&raw, leaf);
        let mut exp: Vec<u8> = raw.iter().flat_map(|b| [b >> 4, b & 15]).collect();
        if leaf {
            exp.push(16);
        }
        if hexs != exp {
            return Err(format!("path of {} is {:?}", hx(&raw), hexs));
        }
        if h::encode_raw(&hexs) != (raw.clone(), leaf) {
            return Err(format!("key of the path of {} is {:?}", hx(&raw), h::encode_raw(&hexs)));
        }
        let n = t.below(70);
        let mut p: Vec<u8> = (0..n).map(|_| t.u8() & 15).collect();
        let leaf = t.pct(50);
        let c0 = pmt_ref::hp(&p, leaf);
        if leaf {
            p.push(16);
        }
        t.log(format!("path {:?}", p));
        let c = h::encode_compact(&p);
        if c != c0 {
            return Err(format!("compact form of {:?} is {}", p, hx(&c)));
        }
        let b = h::from_compact(&c);
        if b != p {
            return Err(format!("{:?} decodes back as {:?}", p, b));
        }
    }
    // nodes: everything a commit writes is the reference encoding, and reading it
    // back reproduces the same contents
    let (m, _) = small_contents(t, 10);
    note(&m, t);
    let db = Arc::new(FDb::new(false));
    let mut tr = InnerTrie::new(db.clone());
    for (k, v) in &m {
        t.log(format!("insert {} {}", hx(k), hx(v)));
        tr.insert(k, v).map_err(|e| format!("{:?}", e))?;
    }
    let r = tr.commit().map_err(|e| format!("{:?}", e))?;
    let (_, raws) = pmt_ref::build(&m);
    needed(&*db, &m)?;
    let have = db.st.lock().unwrap().m.len();
    let distinct: BTreeSet<_> = raws.iter().collect();
    if have != distinct.len() {
        return Err(format!("commit wrote {} entries, the trie has {} nodes", have, distinct.len()));
    }
    let v = InnerTrie::new(db.clone()).at_root(r);
    contents_iter(&v, &m)?;
    // re-committing what was read back writes the same nodes again
    let mut v2 = v.clone();
    for (k, x) in &m {
        v2.insert(k, x).map_err(|e| format!("{:?}", e))?;
    }
    let r2 = v2.commit().map_err(|e| format!("{:?}", e))?;
    if r2 != r || db.st.lock().unwrap().m.len() != have {
        return Err("rewriting the nodes read back gives different nodes".into());
    }
    Ok(())
}
#[cfg(feature = "hooks")]
fn c08_exhaustive() -> Result<(), String> {
    use patriecia::verif_hooks as h;
    let mut seen: HashMap<Vec<u8>, Vec<u8>> = HashMap::new();
    for leaf in [false, true] {
        for n in 0..=4usize {
            for code in 0..16usize.pow(n as u32) {
                let mut p: Vec<u8> = (0..n).map(|i| (code >> (4 * i) & 15) as u8).collect();
                if leaf {
                    p.push(16);
                }
                let c = h::encode_compact(&p);
                if h::from_compact(&c) != p {
                    return Err(format!("{:?} does not round-trip", p));
                }
                if let Some(q) = seen.insert(c.clone(), p.clone()) {
                    return Err(format!("{:?} and {:?} share the encoding {}", p, q, hx(&c)));
                }
            }
        }
    }
    for a in 0..=255u8 {
        for leaf in [false, true] {
            let p = h::from_raw(&[a, 255 - a], leaf);
            if h::encode_raw(&p) != (vec![a, 255 - a], leaf) {
                return Err(format!("key {:02x} does not round-trip", a));
            }
        }
    }
    Ok(())
}
#[cfg(not(feature = "hooks"))]
fn c08_exhaustive() -> Result<(), String> {
    Ok(())
}

// ------------------------------------------------------- fixed histories
fn run_hist(light: bool, ops: &[(&str, &[u8], &[u8])]) -> Result<(), String> {
    let mut w = W::new(FDb::new(light), true);
    let mut t = Tape::new(&[]);
    for (op, k, v) in ops {
        match *op {
            "i" => w.insert(&mut t, k.to_vec(), v.to_vec())?,
            "r" => {
                let was = w.model.remove(*k).is_some();
                let r = w.trie.remove(k).map_err(|e| format!("remove failed {:?}", e))?;
                if r != was {
                    return Err(format!("remove({}) returned {}", hx(k), r));
                }
            }
            "c" => {
                let r = w.commit(&mut t)?;
                if r.as_bytes() != pmt_ref::root(&w.model) {
                    return Err("root is not canonical".into());
                }
                let m = w.model.clone();
                c03_at(&w, r, &m, &mut t)?;
            }
            "o" => {
                let r = w.commit(&mut t)?;
                w.trie = InnerTrie::new(w.db.clone()).at_root(r);
            }
            "p" => {
                w.trie.get_proof(k).map_err(|e| format!("{:?}", e))?;
            }
            _ => unreachable!(),
        }
    }
    w.check_all(&mut t)?;
    c06_at(&w.trie, &w.model)
}
const V40: &[u8] = b"a-value-that-is-longer-than-thirty-two-bytes";
const W40: &[u8] = b"b-value-that-is-longer-than-thirty-two-bytes";
const X40: &[u8] = b"c-value-that-is-longer-than-thirty-two-bytes";
fn f_absent_terminator() -> Result<(), String> {
    run_hist(false, &[("i", b"\x10\x01", b"x"), ("i", b"\x10\x11", b"y"), ("r", b"\x10", b""), ("c", b"", b"")])?;
    run_hist(false, &[("i", b"\x10", b"x"), ("i", b"\x20", b"y"), ("r", b"", b""), ("c", b"", b"")])
}
fn f_absent_remove_light() -> Result<(), String> {
    run_hist(true, &[("i", b"\x10\x01", V40), ("i", b"\x20\x11", W40), ("i", b"\x21\x11", X40), ("o", b"", b""), ("r", b"\x30", b""), ("r", b"\x20\x12", b""), ("c", b"", b"")])
}
fn f_inline_root_light() -> Result<(), String> {
    run_hist(true, &[("i", b"a", b"x"), ("c", b"", b""), ("c", b"", b""), ("o", b"", b""), ("i", b"a", b"x"), ("c", b"", b"")])?;
    run_hist(true, &[("i", b"a", b"x"), ("o", b"", b""), ("i", b"a", b"y"), ("i", b"a", b"x"), ("c", b"", b"")])
}
fn f_empty_key_iter() -> Result<(), String> {
    run_hist(false, &[("i", b"", b"x"), ("i", b"\x10", b"y"), ("c", b"", b"")])
}
fn f_view_proof() -> Result<(), String> {
    run_hist(false, &[("i", b"a", V40), ("i", b"b", W40), ("o", b"", b""), ("p", b"a", b""), ("p", b"zz", b"")])
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", check: c01, rule: "histories of insert/remove/commit/reopen/get_proof over 4 database kinds, ended with >= 2 keys present; every lookup compared with a map", max_len: 420, fixed: &[("absent-terminator", f_absent_terminator), ("empty-key", f_empty_key_iter)], known: &[] },
        Prop { id: "C02", check: c02, rule: "histories ending with >= 2 keys present; every committed root compared with an independent Merkle-Patricia root", max_len: 420, fixed: &[("absent-terminator", f_absent_terminator)], known: &[] },
        Prop { id: "C03", check: c03, rule: "histories ending with >= 2 keys; after every commit the store is reopened at the root, all keys read, and every node the reference trie needs looked up in the store", max_len: 420, fixed: &[("absent-remove-light", f_absent_remove_light), ("inline-root-light", f_inline_root_light)], known: &[("shared-subtree-light", c03_known_shared)] },
        Prop { id: "C04", check: c04, rule: "histories ending with >= 2 keys; proofs of all present and neighbouring absent keys, in place and opened at the root, verified", max_len: 300, fixed: &[("view-proof", f_view_proof)], known: &[] },
        Prop { id: "C05", check: c05, rule: "one mutated / mixed / garbage proof list checked against a genuine root and an adversarial root", max_len: 700, fixed: &[("empty-path", c05_empty_path), ("bad-flag", c05_bad_flag), ("empty-extension", c05_empty_ext), ("all-short-elements", c05_all_short), ("deep-nesting", c05_deep)], known: &[] },
        Prop { id: "C06", check: c06, rule: "histories ending with >= 2 keys; three iteration APIs compared with the sorted contents before and after commit and reopened", max_len: 300, fixed: &[("empty-key", f_empty_key_iter)], known: &[] },
        Prop { id: "C07", check: c07, rule: "at least one operation run while database nodes were missing or failing (or absent keys removed), then contents, root and needed entries compared", max_len: 420, fixed: &[("absent-remove-light", f_absent_remove_light), ("commit-unknown-root", f_commit_unknown_root)], known: &[] },
        Prop { id: "C08", check: c08, rule: "one key, one path and one trie of >= 2 keys; encodings compared with the reference and decoded back", max_len: 240, fixed: &[("exhaustive-short-paths", c08_exhaustive)], known: &[] },
    ]
}
