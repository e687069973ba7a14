//! Reference semantics of the Patricia trie: the Ethereum (yellow paper,
//! appendix D) root of a set of key-value pairs, computed from the set alone.
//! Own RLP; keccak256 from tiny-keccak. Shares nothing with /repo.
use std::collections::BTreeMap;
use tiny_keccak::{Hasher, Keccak};

pub type Map = BTreeMap<Vec<u8>, Vec<u8>>;

pub fn keccak256(b: &[u8]) -> [u8; 32] {
    let mut k = Keccak::v256();
    k.update(b);
    let mut o = [0u8; 32];
    k.finalize(&mut o);
    o
}
fn rlp_len(n: usize, off: u8) -> Vec<u8> {
    if n < 56 {
        vec![off + n as u8]
    } else {
        let mut be: Vec<u8> = n.to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
        let mut r = vec![off + 55 + be.len() as u8];
        r.append(&mut be);
        r
    }
}
pub fn rlp_str(b: &[u8]) -> Vec<u8> {
    if b.len() == 1 && b[0] < 0x80 {
        return b.to_vec();
    }
    let mut r = rlp_len(b.len(), 0x80);
    r.extend_from_slice(b);
    r
}
pub fn rlp_list(items: &[Vec<u8>]) -> Vec<u8> {
    let body: Vec<u8> = items.concat();
    let mut r = rlp_len(body.len(), 0xc0);
    r.extend(body);
    r
}
pub fn hp(nib: &[u8], leaf: bool) -> Vec<u8> {
    let f = if leaf { 2u8 } else { 0 };
    let mut r = vec![];
    let rest = if nib.len() % 2 == 1 {
        r.push((f + 1) * 16 + nib[0]);
        &nib[1..]
    } else {
        r.push(f * 16);
        nib
    };
    for c in rest.chunks(2) {
        r.push(c[0] * 16 + c[1]);
    }
    r
}
fn nibs(k: &[u8]) -> Vec<u8> {
    k.iter().flat_map(|b| [b >> 4, b & 15]).collect()
}
fn node(items: &[(Vec<u8>, &Vec<u8>)], depth: usize, db: &mut Vec<Vec<u8>>) -> Vec<u8> {
    // raw RLP of the node for these (sorted, distinct) paths from `depth` on
    if items.is_empty() {
        return vec![0x80];
    }
    if items.len() == 1 {
        return rlp_list(&[rlp_str(&hp(&items[0].0[depth..], true)), rlp_str(items[0].1)]);
    }
    let first = &items[0].0[depth..];
    let last = &items[items.len() - 1].0[depth..];
    let cp = first.iter().zip(last.iter()).take_while(|(a, b)| a == b).count();
    if cp > 0 {
        let inner = node(items, depth + cp, db);
        return rlp_list(&[rlp_str(&hp(&first[..cp], false)), cap(inner, db)]);
    }
    let mut v: Vec<Vec<u8>> = vec![];
    for n in 0..16u8 {
        let sub: Vec<(Vec<u8>, &Vec<u8>)> = items.iter().filter(|i| i.0.len() > depth && i.0[depth] == n).cloned().collect();
        let inner = node(&sub, depth + 1, db);
        v.push(cap(inner, db));
    }
    v.push(match items.iter().find(|i| i.0.len() == depth) {
        Some(i) => rlp_str(i.1),
        None => vec![0x80],
    });
    rlp_list(&v)
}
fn cap(raw: Vec<u8>, db: &mut Vec<Vec<u8>>) -> Vec<u8> {
    if raw.len() < 32 {
        raw
    } else {
        let h = keccak256(&raw);
        db.push(raw);
        rlp_str(&h)
    }
}
/// (root, the raw encodings of all hashed nodes including the root)
pub fn build(m: &Map) -> ([u8; 32], Vec<Vec<u8>>) {
    let items: Vec<(Vec<u8>, &Vec<u8>)> = m.iter().map(|(k, v)| (nibs(k), v)).collect();
    let mut db = vec![];
    let raw = node(&items, 0, &mut db);
    let h = keccak256(&raw);
    db.push(raw);
    (h, db)
}
pub fn root(m: &Map) -> [u8; 32] {
    build(m).0
}
