//@common std::mem::take( ==> rt_take(
//@common std::mem::replace( ==> rt_replace(
verus! {
impl InnerTrie {
    // nothing a reader of the trie could tell apart
    pub open spec fn same_trie(&self, o: &Self) -> bool { self.root == o.root && self.db == o.db && self.passing_keys.s() == o.passing_keys.s() }
//@fn pmt/src/inner.rs <Trie<D> for InnerTrie>::get props C01 C03 C05 C07
//@sig Result<Option<Vec<u8>>> ==> Result<Option<Vec<u8>>>
//@spec
    requires wf(self.root),
    ensures cadb(self.db.m()) ==> forall|t: T| #[trigger] rep(self.root, t) && tok(t) ==> gets(r, t, kp(key@), self.db, self.root),
//@start
    proof { kp_full(key@); sfx_sfx(kp(key@), 0, 0); }
//@end
//@fn pmt/src/inner.rs <Trie<D> for InnerTrie>::contains props C01 C07
//@rewrite? $e.map_or(false, |_| true) ==> $e.is_some()
//@spec
    requires wf(self.root),
    ensures cadb(self.db.m()) ==> forall|t: T| #[trigger] rep(self.root, t) && tok(t) ==>
        (r matches Ok(b) ==> b == (tl(t, kp(key@)) is Some)) && (self.db.reliable() && avp(self.dom(), self.root, t, kp(key@)) ==> r is Ok),
//@start
    proof { kp_full(key@); sfx_sfx(kp(key@), 0, 0); }
//@end
//@fn pmt/src/inner.rs <Trie<D> for InnerTrie>::insert props C01 C02 C07
//@rewrite? TrieError::InvalidData($x) ==> rt_invalid()
//@spec
    requires wf(old(self).root),
    ensures
        final(self).db == old(self).db, final(self).cache == old(self).cache, final(self).gen_keys == old(self).gen_keys, final(self).root_hash == old(self).root_hash,
        wf(final(self).root),
        r is Err ==> final(self).same_trie(old(self)),
        value@.len() == 0 ==> r is Err,
        value@.len() > 0 && cadb(old(self).db.m()) ==> forall|t: T| #[trigger] rep(old(self).root, t) && tok(t) ==> {
            &&& r is Ok ==> rep(final(self).root, tins(t, kp(key@), value@)) && (av(old(self).dom(), old(self).root, t) ==> av(old(self).dom(), final(self).root, tins(t, kp(key@), value@)))
            &&& (old(self).db.reliable() && av(old(self).dom(), old(self).root, t) ==> r is Ok)
        },
//@start
    proof { kp_full(key@); sfx_sfx(kp(key@), 0, 0); }
//@end
//@fn pmt/src/inner.rs <Trie<D> for InnerTrie>::remove props C01 C02 C07
//@spec
    requires wf(old(self).root),
    ensures
        final(self).db == old(self).db, final(self).cache == old(self).cache, final(self).gen_keys == old(self).gen_keys, final(self).root_hash == old(self).root_hash,
        wf(final(self).root),
        r is Err ==> final(self).same_trie(old(self)),
        r == Ok::<bool, TrieError>(false) ==> final(self).passing_keys.s() == old(self).passing_keys.s(),
        cadb(old(self).db.m()) ==> forall|t: T| #[trigger] rep(old(self).root, t) && tok(t) ==> {
            &&& r matches Ok(b) ==> b == (tl(t, kp(key@)) is Some) && rep(final(self).root, tdel(t, kp(key@))) && (av(old(self).dom(), old(self).root, t) ==> av(old(self).dom(), final(self).root, tdel(t, kp(key@))))
            &&& (old(self).db.reliable() && av(old(self).dom(), old(self).root, t) ==> r is Ok)
        },
//@start
    proof { kp_full(key@); sfx_sfx(kp(key@), 0, 0); }
//@end
//@fn pmt/src/inner.rs <Trie<D> for InnerTrie>::commit props C02 C03 C07
//@attr verifier::loop_isolation(false)
//@rewrite? let mut $id_x = Vec::with_capacity(self.cache.len()); ==> let mut $id_x: Vec<Vec<u8>> = Vec::with_capacity(self.cache.len());
//@rewrite? for ($id_k, $id_v) in self.cache.drain() { ==> let rt_entries = self.cache.rt_drain(); for rt_i in 0..rt_entries.len() { let ($id_k, $id_v) = (rt_entries[rt_i].0.rt_to_vec(), rt_entries[rt_i].1.rt_to_vec());
//@rewrite? self.passing_keys.iter().filter(|$id_h| !self.gen_keys.contains(&$id_h.to_vec())).map(|$id_h| $id_h.to_vec()).collect() ==> rt_diff(&self.passing_keys, &self.gen_keys)
//@spec
    requires wf(old(self).root), cadb(old(self).db.m()), cadb(old(self).cache.m()),
    ensures
        final(self).db.light() == old(self).db.light(), final(self).db.reliable() == old(self).db.reliable(),
        wf(final(self).root), cadb(final(self).db.m()), cadb(final(self).cache.m()),
        !old(self).db.light() ==> old(self).dom().subset_of(final(self).dom()),
        r is Err ==> final(self).root == old(self).root,
        r matches Ok(h) ==> final(self).root_hash == h && h.v().len() == 32,
        forall|t: T| #[trigger] rep(old(self).root, t) && tok(t) ==> committed(r, t, *old(self), *final(self)),
//@start
    let ghost g = *self;
    proof { below_grow(); }
//@loop 0
    invariant keys@.len() == rt_i, values@.len() == rt_i,
        forall|j: int| 0 <= j < rt_i ==> #[trigger] keys@[j]@ == rt_entries@[j].0@,
        forall|j: int| 0 <= j < rt_i ==> #[trigger] values@[j]@ == rt_entries@[j].1@,
//@before let mut keys
    let ghost gc = self.cache.m();
    let ghost gd = self.db.m();
    let ghost gall = self.all();
    assert forall|t: T| #[trigger] rep(g.root, t) && tok(t) implies hk(root_hash.v(), t) && (av(g.dom(), g.root, t) ==> stored(gall, t)) by { }
//@before let removed_keys
    assert forall|k: Seq<u8>| gall.contains(k) implies #[trigger] self.dom().contains(k) by {
        if gc.contains_key(k) { let i = choose|i: int| 0 <= i < rt_entries@.len() && (#[trigger] rt_entries@[i]).0@ == k; assert(keys@[i]@ == k); }
    }
    assert(gall.subset_of(self.dom()));
    let ghost g1 = self.db.m();
//@before self.root_hash = root_hash
    assert(!g.db.light() ==> self.db.m() == g1);
    proof { recovered_av(self.db); }
    assert forall|t: T| #[trigger] rep(g.root, t) && tok(t) && !g.db.light() && av(g.dom(), g.root, t) implies stored(self.dom(), t) by { }
//@end
//@fn pmt/src/inner.rs <Trie<D> for InnerTrie>::root_hash props C02 C03 C07
//@spec
    requires wf(old(self).root), cadb(old(self).db.m()), cadb(old(self).cache.m()),
    ensures
        final(self).db.light() == old(self).db.light(), final(self).db.reliable() == old(self).db.reliable(),
        wf(final(self).root), cadb(final(self).db.m()), cadb(final(self).cache.m()),
        !old(self).db.light() ==> old(self).dom().subset_of(final(self).dom()),
        r is Err ==> final(self).root == old(self).root,
        r matches Ok(h) ==> final(self).root_hash == h && h.v().len() == 32,
        forall|t: T| #[trigger] rep(old(self).root, t) && tok(t) ==> committed(r, t, *old(self), *final(self)),
//@end
//@fn pmt/src/inner.rs <Trie<D> for InnerTrie>::get_proof props C04 C07
//@attr verifier::loop_isolation(false)
//@rewrite? Ok($e.into_iter().rev().map(|$id_n| $f).collect()) ==> { let mut rt_out: Vec<Vec<u8>> = Vec::new(); let mut rt_i = $e.len(); while rt_i > 0 { rt_i = rt_i - 1; let $id_n = $e[rt_i].clone(); let rt_x = $f; rt_out.push(rt_x); } Ok(rt_out) }
//@spec
    requires wf(old(self).root),
    ensures
        final(self).same_trie(old(self)), final(self).root_hash == old(self).root_hash,
        cadb(old(self).cache.m()) ==> cadb(final(self).cache.m()),
        cadb(old(self).db.m()) ==> forall|t: T| #[trigger] rep(old(self).root, t) && tok(t) && flat(old(self).root, t) ==> proved(r, t, kp(key@), *old(self)),
//@start
    let ghost g = *self;
    proof { kp_full(key@); sfx_sfx(kp(key@), 0, 0); }
//@loop 0
    invariant enc_frame(g, *self), rt_out@.len() == path@.len() - rt_i, rt_i <= path@.len(),
        cadb(g.db.m()) ==> forall|t: T, j: int| #![trigger rep(g.root, t), rt_out@[j]] rep(g.root, t) && tok(t) && flat(g.root, t) && !(g.root is Empty) && 0 <= j < rt_out@.len() ==> rt_out@[j]@ == tenc(chain(t, kp(key@))[j]),
    decreases rt_i,
//@end
//@fn pmt/src/inner.rs <Trie<D> for InnerTrie>::verify_proof props C04 C05
//@attr verifier::loop_isolation(false)
//@rewrite? Arc::new(MemoryDB::new(true)) ==> Db::rt_new(true)
//@rewrite? let proof_db = $e; ==> let mut proof_db = $e;
//@rewrite? for $id_n in proof.into_iter() { ==> for rt_i in 0..proof.len() { let $id_n = proof[rt_i].rt_to_vec();
//@rewrite? trie.get(key).or(Err($x)) ==> (match trie.get(key) { Ok(x) => Ok(x), Err(_) => Err($x) })
//@spec
    requires root_hash.v().len() == 32,
    ensures
        forall|t: T| #[trigger] hk(root_hash.v(), t) ==> (r matches Ok(o) ==> ov(o) == tl(t, kp(key@))),
        forall|t: T| #[trigger] hk(root_hash.v(), t) && (forall|i: int| 0 <= i < chain(t, kp(key@)).len() ==> has(proof@, tenc(#[trigger] chain(t, kp(key@))[i]))) ==> r is Ok,
//@loop 0
    invariant proof_db.reliable(), cadb(proof_db.m()),
        forall|j: int| 0 <= j < rt_i && (kec(#[trigger] proof@[j]@) == root_hash.v() || proof@[j]@.len() >= 32) ==> proof_db.m().contains_key(kec(proof@[j]@)),
//@before trie.get(key)
    assert(forall|t: T| #[trigger] hk(root_hash.v(), t) ==> rep(trie.root, t));
    assert forall|t: T| #[trigger] hk(root_hash.v(), t) && (forall|i: int| 0 <= i < chain(t, kp(key@)).len() ==> has(proof@, tenc(#[trigger] chain(t, kp(key@))[i]))) implies avp(trie.dom(), trie.root, t, kp(key@)) by {
        let p = kp(key@);
        onp_big(t, p);
        assert forall|i: int| 0 <= i < chain(t, p).len() implies trie.dom().contains(kec(tenc(#[trigger] chain(t, p)[i]))) by {
            let x = tenc(chain(t, p)[i]);
            assert(has(proof@, x));
            let j = choose|j: int| 0 <= j < proof@.len() && (#[trigger] proof@[j])@ == x;
            if i > 0 { assert(chain(t, p)[i] == onp(t, p)[i - 1]); } else { assert(chain(t, p)[0] == t); }
        }
        assert(chain(t, p)[0] == t);
        assert forall|i: int| 0 <= i < onp(t, p).len() implies trie.dom().contains(kec(tenc(#[trigger] onp(t, p)[i]))) by { assert(onp(t, p)[i] == chain(t, p)[i + 1]); }
        onp_pth(trie.dom(), t, p);
    }
//@end
}
// the proof of a path: the trie and its subtries on the path that are referred to by hash
pub open spec fn chain(t: T, p: Seq<u8>) -> Seq<T> { seq![t] + onp(t, p) }
pub proof fn onp_big(t: T, p: Seq<u8>)
    ensures forall|i: int| 0 <= i < onp(t, p).len() ==> big(#[trigger] onp(t, p)[i]),
    decreases t,
{
    match t {
        T::Ext(q, c) => { if is_pfx(q, p) {
            let r = sfx(p, q.len() as int);
            onp_big(*c, r);
            assert forall|i: int| 0 <= i < onp(t, p).len() implies big(#[trigger] onp(t, p)[i]) by { if !big(*c) { assert(onp(t, p)[i] == onp(*c, r)[i]); } else if i > 0 { assert(onp(t, p)[i] == onp(*c, r)[i - 1]); } }
        } },
        T::Branch(cs, v) => { if p.len() > 0 && p[0] < cs.len() {
            let c = cs[p[0] as int];
            let r = sfx(p, 1);
            onp_big(c, r);
            assert forall|i: int| 0 <= i < onp(t, p).len() implies big(#[trigger] onp(t, p)[i]) by { if !big(c) { assert(onp(t, p)[i] == onp(c, r)[i]); } else if i > 0 { assert(onp(t, p)[i] == onp(c, r)[i - 1]); } }
        } },
        _ => {},
    }
}
pub proof fn onp_pth(d: Set<Seq<u8>>, t: T, p: Seq<u8>)
    requires forall|i: int| 0 <= i < onp(t, p).len() ==> d.contains(kec(tenc(#[trigger] onp(t, p)[i]))),
    ensures pth(d, t, p),
    decreases t,
{
    match t {
        T::Ext(q, c) => { if is_pfx(q, p) { 
            let r = sfx(p, q.len() as int);
            if big(*c) { assert(onp(t, p)[0] == *c); }
            assert forall|i: int| 0 <= i < onp(*c, r).len() implies d.contains(kec(tenc(#[trigger] onp(*c, r)[i]))) by { if big(*c) { assert(onp(t, p)[i + 1] == onp(*c, r)[i]); } else { assert(onp(t, p)[i] == onp(*c, r)[i]); } }
            onp_pth(d, *c, r);
        } },
        T::Branch(cs, v) => { if p.len() > 0 && p[0] < cs.len() {
            let c = cs[p[0] as int];
            let r = sfx(p, 1);
            if big(c) { assert(onp(t, p)[0] == c); }
            assert forall|i: int| 0 <= i < onp(c, r).len() implies d.contains(kec(tenc(#[trigger] onp(c, r)[i]))) by { if big(c) { assert(onp(t, p)[i + 1] == onp(c, r)[i]); } else { assert(onp(t, p)[i] == onp(c, r)[i]); } }
            onp_pth(d, c, r);
        } },
        _ => {},
    }
}
pub open spec fn has(proof: Seq<Vec<u8>>, x: Seq<u8>) -> bool { exists|i: int| 0 <= i < proof.len() && (#[trigger] proof[i])@ == x }
pub open spec fn proved(r: Result<Vec<Vec<u8>>>, t: T, p: Seq<u8>, a: InnerTrie) -> bool {
    &&& r matches Ok(x) ==> !(a.root is Empty) ==> x@.len() == chain(t, p).len() && forall|i: int| 0 <= i < x@.len() ==> (#[trigger] x@[i])@ == tenc(chain(t, p)[i])
    &&& a.db.reliable() && avp(a.dom(), a.root, t, p) ==> r is Ok
}
pub open spec fn committed(r: Result<H256>, t: T, a: InnerTrie, b: InnerTrie) -> bool {
    &&& r matches Ok(h) ==> h.v() == kec(tenc(t)) && hashed(tenc(t)) && kids(t) && rep(b.root, t) && flat(b.root, t) && !(b.root is Hash)
            && (!a.db.light() && av(a.dom(), a.root, t) ==> stored(b.dom(), t) && av(b.dom(), b.root, t))
    &&& !a.db.light() && a.db.reliable() && av(a.dom(), a.root, t) ==> r is Ok
}
} // verus!
