verus! {
// ================================================================ the properties, over the contracts
// what the trie maps a key to
pub open spec fn mp(t: T, k: Seq<u8>) -> Option<Seq<u8>> { tl(t, kp(k)) }
// every path that carries a value is the path of a key
pub open spec fn keyed(t: T) -> bool { forall|p: Seq<u8>| full(p) && #[trigger] tl(t, p) is Some ==> exists|k: Seq<u8>| p == #[trigger] kp(k) }
pub open spec fn good(t: T) -> bool { canon(t) && tok(t) && keyed(t) }
// the trie s is in order and stands for t; nothing it needs is missing
pub open spec fn stands(s: InnerTrie, t: T) -> bool { wf(s.root) && cadb(s.db.m()) && cadb(s.cache.m()) && rep(s.root, t) && good(t) && av(s.dom(), s.root, t) }
pub proof fn kp_inj(a: Seq<u8>, b: Seq<u8>)
    requires kp(a) == kp(b),
    ensures a == b,
{
    assert(unpack(a) =~= kp(a).subrange(0, kp(a).len() - 1));
    assert(unpack(b) =~= kp(b).subrange(0, kp(b).len() - 1));
    c08_key_injective(a, b);
}
// C01: insertion and removal are those of a map
pub proof fn c01_new()
    ensures good(T::Empty), forall|k: Seq<u8>| mp(T::Empty, k) is None,
{ }
pub proof fn c01_insert(t: T, k: Seq<u8>, v: Seq<u8>)
    requires good(t), v.len() > 0,
    ensures good(tins(t, kp(k), v)), forall|x: Seq<u8>| #[trigger] mp(tins(t, kp(k), v), x) == (if x == k { Some(v) } else { mp(t, x) }),
{
    kp_full(k);
    tins_map(t, kp(k), v);
    let t2 = tins(t, kp(k), v);
    canon_tok(t2);
    assert forall|x: Seq<u8>| #[trigger] mp(t2, x) == (if x == k { Some(v) } else { mp(t, x) }) by { kp_full(x); if kp(x) == kp(k) { kp_inj(x, k); } }
    assert forall|p: Seq<u8>| full(p) && #[trigger] tl(t2, p) is Some implies exists|k: Seq<u8>| p == #[trigger] kp(k) by { if p != kp(k) { assert(tl(t, p) is Some); } }
}
pub proof fn c01_remove(t: T, k: Seq<u8>)
    requires good(t),
    ensures good(tdel(t, kp(k))), forall|x: Seq<u8>| #[trigger] mp(tdel(t, kp(k)), x) == (if x == k { None } else { mp(t, x) }),
{
    kp_full(k);
    tdel_map(t, kp(k));
    let t2 = tdel(t, kp(k));
    canon_tok(t2);
    assert forall|x: Seq<u8>| #[trigger] mp(t2, x) == (if x == k { None } else { mp(t, x) }) by { kp_full(x); if kp(x) == kp(k) { kp_inj(x, k); } }
    assert forall|p: Seq<u8>| full(p) && #[trigger] tl(t2, p) is Some implies exists|k: Seq<u8>| p == #[trigger] kp(k) by { assert(tl(t, p) is Some); }
}
// C02: the contents determine the trie, and so its root
pub proof fn c02_canonical(a: T, b: T)
    requires good(a), good(b), forall|k: Seq<u8>| #[trigger] mp(a, k) == mp(b, k),
    ensures a == b, kec(tenc(a)) == kec(tenc(b)),
{
    assert forall|p: Seq<u8>| #[trigger] full(p) implies tl(b, p) == tl(a, p) by {
        if tl(a, p) is Some { let k = choose|k: Seq<u8>| p == #[trigger] kp(k); assert(mp(a, k) == mp(b, k)); }
        else if tl(b, p) is Some { let k = choose|k: Seq<u8>| p == #[trigger] kp(k); assert(mp(a, k) == mp(b, k)); }
    }
    canon_unique(a, b);
}
// C02: the root determines the contents, short of a hash collision
pub proof fn c02_binding(h: Seq<u8>, a: T, b: T)
    requires hk(h, a), hk(h, b),
    ensures a == b,
{
    axiom_no_collision(tenc(a), tenc(b));
    tenc_inj(a, b);
}
pub proof fn tref_inj(a: T, b: T)
    requires tref(a) == tref(b), big(a) ==> hashed(tenc(a)), big(b) ==> hashed(tenc(b)),
    ensures tenc(a) == tenc(b),
{
    axiom_rlp_string(kec(tenc(a)));
    axiom_rlp_string(kec(tenc(b)));
    axiom_kec_len(tenc(a));
    axiom_kec_len(tenc(b));
    if big(a) && big(b) { axiom_no_collision(tenc(a), tenc(b)); }
}
pub proof fn tenc_inj(a: T, b: T)
    requires tok(a), tok(b), kids(a), kids(b), tenc(a) == tenc(b),
    ensures a == b,
    decreases a,
{
    tenc_dec(a);
    tenc_dec(b);
    match (a, b) {
        (T::Ext(q, c), T::Ext(q2, c2)) => { 
            assert(r_data(r_at(tenc(a), 0)->0) == Some(hp(q)));
            assert(r_data(r_at(tenc(b), 0)->0) == Some(hp(q2)));
            assert(q == q2);
            tref_inj(*c, *c2); tenc_inj(*c, *c2);
        },
        (T::Leaf(k, v), T::Leaf(k2, v2)) => {
            assert(r_data(r_at(tenc(a), 0)->0) == Some(hp(k)));
            assert(r_data(r_at(tenc(b), 0)->0) == Some(hp(k2)));
            assert(k == k2);
        },
        (T::Leaf(k, v), T::Ext(q2, c2)) => {
            assert(r_data(r_at(tenc(a), 0)->0) == Some(hp(k)));
            assert(r_data(r_at(tenc(b), 0)->0) == Some(hp(q2)));
            assert(k == q2);
        },
        (T::Ext(q2, c2), T::Leaf(k, v)) => {
            assert(r_data(r_at(tenc(b), 0)->0) == Some(hp(k)));
            assert(r_data(r_at(tenc(a), 0)->0) == Some(hp(q2)));
            assert(k == q2);
        },
        (T::Branch(cs, v), T::Branch(cs2, v2)) => {
            assert forall|i: int| 0 <= i < 16 implies cs[i] == cs2[i] by {
                assert(r_at(tenc(a), i) == Some(tref(cs[i])));
                assert(r_at(tenc(b), i) == Some(tref(cs2[i])));
                tref_inj(cs[i], cs2[i]);
                tenc_inj(cs[i], cs2[i]);
            }
            assert(cs =~= cs2);
        },
        _ => {},
    }
}
// C03: a trie opened at a committed root stands for what was committed
pub proof fn c03_reopened(s: InnerTrie, t: T)
    requires s.root matches Node::Hash(h) && hk(h.hash.v(), t), cadb(s.db.m()), cadb(s.cache.m()), good(t), stored(s.dom(), t),
    ensures stands(s, t), flat(s.root, t),
{ }
// C03: what was stored stays stored while the database only grows
pub proof fn c03_history(d: Set<Seq<u8>>, d2: Set<Seq<u8>>, t: T)
    requires stored(d, t), d.subset_of(d2),
    ensures stored(d2, t),
{ below_mono(d, d2, t); }
pub proof fn stands_avp(s: InnerTrie, t: T, p: Seq<u8>)
    requires stands(s, t),
    ensures avp(s.dom(), s.root, t, p),
{ av_avp(s.dom(), s.root, t, p); }
// C04: the proof produced is one that verification accepts
pub proof fn c04_complete(x: Seq<Vec<u8>>, t: T, p: Seq<u8>)
    requires x.len() == chain(t, p).len(), forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i])@ == tenc(chain(t, p)[i]),
    ensures forall|i: int| 0 <= i < chain(t, p).len() ==> has(x, tenc(#[trigger] chain(t, p)[i])),
{
    assert forall|i: int| 0 <= i < chain(t, p).len() implies has(x, tenc(#[trigger] chain(t, p)[i])) by { assert(x[i]@ == tenc(chain(t, p)[i])); }
}
// C08: a node reads back as itself
pub open spec fn node_eq(a: Node, b: Node) -> bool
    decreases a,
{
    match (a, b) {
        (Node::Empty, Node::Empty) => true,
        (Node::Leaf(x), Node::Leaf(y)) => x.key.v() == y.key.v() && x.value@ == y.value@,
        (Node::Extension(x), Node::Extension(y)) => x.prefix.v() == y.prefix.v() && node_eq(*x.node, *y.node),
        (Node::Branch(x), Node::Branch(y)) => ov(x.value) == ov(y.value) && forall|i: int| 0 <= i < 16 ==> node_eq(*#[trigger] x.children[i], *y.children[i]),
        (Node::Hash(x), Node::Hash(y)) => x.hash.v() == y.hash.v(),
        _ => false,
    }
}
pub proof fn c08_node_roundtrip(a: Node, b: Node, t: T)
    requires rep(a, t), flat(a, t), rep(b, t), flat(b, t), a is Hash <==> b is Hash,
    ensures node_eq(a, b),
    decreases t,
{
    match (a, b) {
        (Node::Extension(x), Node::Extension(y)) => { match t { T::Ext(q, c) => c08_node_roundtrip(*x.node, *y.node, *c), _ => {} } },
        (Node::Branch(x), Node::Branch(y)) => { match t { T::Branch(cs, v) => {
            assert forall|i: int| 0 <= i < 16 implies node_eq(*#[trigger] x.children[i], *y.children[i]) by {
                assert(rep(*x.children[i], cs[i]) && rep(*y.children[i], cs[i]));
                assert(flat(*x.children[i], cs[i]) && flat(*y.children[i], cs[i]));
                c08_node_roundtrip(*x.children[i], *y.children[i], cs[i]);
            }
        }, _ => {} } },
        _ => {},
    }
}
// ---- the public operations composed: each is checked against the contracts of what it calls
// C01 C07: one insertion, seen through lookups of any key
pub fn client_insert(s: &mut InnerTrie, k: &[u8], v: &[u8], x: &[u8], t: Ghost<T>) -> (r: Result<()>)
    requires stands(*old(s), t@), old(s).db.reliable(),
    ensures v@.len() > 0 ==> r is Ok && stands(*final(s), tins(t@, kp(k@), v@)),
        v@.len() == 0 ==> r is Err && stands(*final(s), t@),
{
    let r = s.insert(k, v);
    if v.len() == 0 { return r; }
    proof { c01_insert(t@, k@, v@); stands_avp(*s, tins(t@, kp(k@), v@), kp(x@)); }
    let g = s.get(x);
    assert(mp(tins(t@, kp(k@), v@), x@) == if x@ == k@ { Some(v@) } else { mp(t@, x@) });
    assert(g matches Ok(o) && ov(o) == if x@ == k@ { Some(v@) } else { mp(t@, x@) });
    let c = s.contains(x);
    assert(c matches Ok(b) && b == (g->Ok_0 is Some));
    r
}
pub fn client_remove(s: &mut InnerTrie, k: &[u8], x: &[u8], t: Ghost<T>) -> (r: Result<bool>)
    requires stands(*old(s), t@), old(s).db.reliable(),
    ensures r matches Ok(b) && b == (mp(t@, k@) is Some), stands(*final(s), tdel(t@, kp(k@))),
{
    let r = s.remove(k);
    proof { c01_remove(t@, k@); stands_avp(*s, tdel(t@, kp(k@)), kp(x@)); }
    let g = s.get(x);
    assert(mp(tdel(t@, kp(k@)), x@) == if x@ == k@ { None } else { mp(t@, x@) });
    assert(g matches Ok(o) && ov(o) == if x@ == k@ { None } else { mp(t@, x@) });
    r
}
// C01 C02 C03 C04: commit, reopen, look up, prove, verify
pub fn client_commit(s: &mut InnerTrie, x: &[u8], t: Ghost<T>) -> (r: Result<H256>)
    requires stands(*old(s), t@), old(s).db.reliable(), !old(s).db.light(),
    ensures r matches Ok(h) && h.v() == kec(tenc(t@)) && hk(h.v(), t@) && stored(final(s).dom(), t@), stands(*final(s), t@),
        old(s).dom().subset_of(final(s).dom()),
{
    let r = s.commit();
    match r {
        Ok(h) => {
            proof { stands_avp(*s, t@, kp(x@)); }
            let mut o = s.at_root(h);
            assert(hk(h.v(), t@));
            proof { c03_reopened(o, t@); stands_avp(o, t@, kp(x@)); }
            let g = o.get(x);
            assert(g matches Ok(y) && ov(y) == mp(t@, x@));
            let p = o.get_proof(x);
            match p {
                Ok(y) => {
                    proof { c04_complete(y@, t@, kp(x@)); }
                    let z = s.verify_proof(h, x, y);
                    assert(z matches Ok(w) && ov(w) == mp(t@, x@));
                },
                Err(_) => { assert(false); },
            }
            if !rt_is_empty(&s.root) {
                let mut s2 = s.at_root(h);
                let p2 = s.get_proof(x);
                match p2 {
                    Ok(y) => {
                        proof { c04_complete(y@, t@, kp(x@)); }
                        let z = s.verify_proof(h, x, y);
                        assert(z matches Ok(w) && ov(w) == mp(t@, x@));
                    },
                    Err(_) => { assert(false); },
                }
            }
            Ok(h)
        },
        Err(e) => Err(e),
    }
}
fn rt_is_empty(n: &Node) -> (r: bool) ensures r == (*n is Empty), { match n { Node::Empty => true, _ => false } }
} // verus!
