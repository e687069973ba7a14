//! Reference semantics of the versioned tree, written from the definition of a
//! sparse Merkle tree only; nothing of /repo is used here.
use sha2::{Digest, Sha256};
use std::collections::BTreeMap;

pub type K = [u8; 32];
pub type H = [u8; 32];
pub type Map = BTreeMap<K, Vec<u8>>;
pub const PH: H = *b"SPARSE_MERKLE_PLACEHOLDER_HASH__";

pub fn sha(parts: &[&[u8]]) -> H {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
pub fn leaf_hash(k: &K, vh: &H) -> H {
    sha(&[b"JMT::LeafNode", k, vh])
}
pub fn int_hash(l: &H, r: &H) -> H {
    sha(&[b"JMT::IntrnalNode", l, r])
}
pub fn vhash(v: &[u8]) -> H {
    sha(&[v])
}
pub fn bit(k: &K, i: usize) -> bool {
    (k[i / 8] >> (7 - i % 8)) & 1 == 1
}
pub fn nib(k: &K, i: usize) -> u8 {
    if i % 2 == 0 { k[i / 2] >> 4 } else { k[i / 2] & 15 }
}
fn root_at(s: &[(K, H)], d: usize) -> H {
    match s.len() {
        0 => PH,
        1 => leaf_hash(&s[0].0, &s[0].1),
        _ => {
            let m = s.iter().position(|e| bit(&e.0, d)).unwrap_or(s.len());
            int_hash(&root_at(&s[..m], d + 1), &root_at(&s[m..], d + 1))
        }
    }
}
pub fn hashed(m: &Map) -> Vec<(K, H)> {
    m.iter().map(|(k, v)| (*k, vhash(v))).collect()
}
pub fn root(m: &Map) -> H {
    root_at(&hashed(m), 0)
}
/// the siblings (bottom first) and terminal leaf met on the way to `k`
pub fn path(m: &Map, k: &K) -> (Option<(K, H)>, Vec<H>) {
    let all = hashed(m);
    let mut s = &all[..];
    let mut sib = vec![];
    let mut d = 0;
    while s.len() > 1 {
        let p = s.iter().position(|e| bit(&e.0, d)).unwrap_or(s.len());
        let (l, r) = s.split_at(p);
        if bit(k, d) {
            sib.push(root_at(l, d + 1));
            s = r;
        } else {
            sib.push(root_at(r, d + 1));
            s = l;
        }
        d += 1;
    }
    sib.reverse();
    (s.first().copied(), sib)
}
