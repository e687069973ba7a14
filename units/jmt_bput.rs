// jmt/src/tree.rs: batch_put_value_sets
verus! {
pub type SSeq = Seq<(KeyHash, OwnedValue)>;
// where k is last among the first n
pub open spec fn last_of(s: SSeq, k: Seq<u8>, n: int) -> int
    decreases n,
{ if n <= 0 { -1 } else if s[n - 1].0.0@ == k { n - 1 } else { last_of(s, k, n - 1) } }
pub open spec fn ups(s: SSeq) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> key_lt((#[trigger] s[i]).0.0@, (#[trigger] s[j]).0.0@) }
// the same keys, each with the value it was given last
pub open spec fn same_last(s: SSeq, t: SSeq, k: Seq<u8>) -> bool {
    let a = last_of(s, k, s.len() as int);
    let b = last_of(t, k, t.len() as int);
    (a >= 0 <==> b >= 0) && (a >= 0 ==> s[a] == t[b])
}
pub open spec fn sorted_of(s: SSeq, t: SSeq) -> bool { ups(t) && t.len() <= s.len() && (s.len() > 0 ==> t.len() > 0) && forall|k: Seq<u8>| #[trigger] same_last(s, t, k) }
// into_iter().collect::<BTreeMap<_, _>>().into_iter()
#[verifier::external_body]
pub fn rt_sorted(v: Vec<(KeyHash, OwnedValue)>) -> (r: Vec<(KeyHash, OwnedValue)>)
    ensures sorted_of(v@, r@),
{ unimplemented!() }
// into_iter().map(Some).collect(), (0..n).map(|_| None).collect()
#[verifier::external_body]
pub fn rt_somes<T>(v: Vec<T>) -> (r: Vec<Option<T>>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> (#[trigger] r@[i]) == Some(v@[i]),
{ v.into_iter().map(Some).collect() }
#[verifier::external_body]
pub fn rt_nones<T>(n: usize) -> (r: Vec<Option<T>>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]) is None,
{ (0..n).map(|_| None).collect() }
// an insertion is an update
pub open spec fn somes(s: SSeq) -> USeq { Seq::new(s.len(), |i: int| (s[i].0, Some(s[i].1))) }
pub open spec fn somess(ss: Seq<SSeq>) -> Seq<USeq> { Seq::new(ss.len(), |i: int| somes(ss[i])) }
pub open spec fn kset(m: KV, f: KV, k: Seq<u8>, o: Option<Seq<u8>>) -> bool { match o { Some(x) => f.contains_key(k) && f[k] == x, None => same_key(m, f, k) } }
pub open spec fn hash_at<H: SimpleHasher>(s: SSeq, i: int) -> Option<Seq<u8>> { if i >= 0 { Some(H::dig(s[i].1@)) } else { None } }
pub proof fn last_bound(s: SSeq, k: Seq<u8>, n: int)
    requires n >= 0,
    ensures -1 <= last_of(s, k, n) < n || (n == 0 && last_of(s, k, n) == -1),
    decreases n,
{ if n > 0 { last_bound(s, k, n - 1); } }
pub proof fn fold_last<H: SimpleHasher>(m: KV, s: SSeq, n: int, k: Seq<u8>)
    requires 0 <= n <= s.len(),
    ensures kset(m, fold1::<H>(m, somes(s), n), k, hash_at::<H>(s, last_of(s, k, n))),
    decreases n,
{ if n > 0 { fold_last::<H>(m, s, n - 1, k); last_bound(s, k, n - 1); assert(somes(s)[n - 1] == (s[n - 1].0, Some(s[n - 1].1))); } }
pub open spec fn vset(c: VMap, v: u64, s: SSeq, k: Seq<u8>, i: int) -> bool { (c.contains_key((v, k)) <==> i >= 0) && (i >= 0 ==> c[(v, k)] == Some(s[i].1)) }
pub proof fn vals_last(v: u64, s: SSeq, n: int, k: Seq<u8>)
    requires 0 <= n <= s.len(),
    ensures vset(vals1(v, somes(s), n), v, s, k, last_of(s, k, n)),
    decreases n,
{ if n > 0 { vals_last(v, s, n - 1, k); last_bound(s, k, n - 1); assert(somes(s)[n - 1] == (s[n - 1].0, Some(s[n - 1].1))); } }
pub proof fn vals_ver(v: u64, s: USeq, n: int)
    requires 0 <= n <= s.len(),
    ensures forall|x: (u64, Seq<u8>)| #[trigger] vals1(v, s, n).contains_key(x) ==> x.0 == v,
    decreases n,
{ if n > 0 { vals_ver(v, s, n - 1); assert(vals1(v, s, n) == vals1(v, s, n - 1).insert((v, s[n - 1].0.0@), s[n - 1].1)); } }
// the order of the updates of different keys, and updates that are overridden, do not matter
pub proof fn sorted_same<H: SimpleHasher>(m: KV, v: u64, s: SSeq, t: SSeq)
    requires sorted_of(s, t),
    ensures fold1::<H>(m, somes(s), s.len() as int) == fold1::<H>(m, somes(t), t.len() as int), vals1(v, somes(s), s.len() as int) == vals1(v, somes(t), t.len() as int),
{
    let n = s.len() as int;
    let a = t.len() as int;
    let f = fold1::<H>(m, somes(s), n);
    let g = fold1::<H>(m, somes(t), a);
    assert forall|k: Seq<u8>| #![trigger f.contains_key(k)] #![trigger g.contains_key(k)] (f.contains_key(k) <==> g.contains_key(k)) && (f.contains_key(k) ==> f[k] == g[k]) by {
        fold_last::<H>(m, s, n, k);
        fold_last::<H>(m, t, a, k);
        assert(same_last(s, t, k));
    }
    assert(f =~= g);
    let c = vals1(v, somes(s), n);
    let d = vals1(v, somes(t), a);
    vals_ver(v, somes(s), n);
    vals_ver(v, somes(t), a);
    assert forall|x: (u64, Seq<u8>)| #![trigger c.contains_key(x)] #![trigger d.contains_key(x)] (c.contains_key(x) <==> d.contains_key(x)) && (c.contains_key(x) ==> c[x] == d[x]) by {
        vals_last(v, s, n, x.1);
        vals_last(v, t, a, x.1);
        assert(same_last(s, t, x.1));
        assert(x == (x.0, x.1));
    }
    assert(c =~= d);
}
pub open spec fn hashed_as<H: SimpleHasher>(t: SSeq, kvs: KSeq, n: int) -> bool { n <= t.len() && kvs.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] kvs[i]).0 == t[i].0 && kvs[i].1.0@ == H::dig(t[i].1@) }
pub proof fn fold_ovr<H: SimpleHasher>(m: KV, t: SSeq, kvs: KSeq, n: int)
    requires 0 <= n <= kvs.len(), hashed_as::<H>(t, kvs, kvs.len() as int),
    ensures fold1::<H>(m, somes(t), n) == ovr(m, kvs, n),
    decreases n,
{ if n > 0 { fold_ovr::<H>(m, t, kvs, n - 1); assert(somes(t)[n - 1] == (t[n - 1].0, Some(t[n - 1].1))); assert(kvs[n - 1].0 == t[n - 1].0); } }
// the contents after n sets
pub open spec fn foldn<H: SimpleHasher>(m: KV, ss: Seq<USeq>, n: int) -> KV
    decreases n,
{ if n <= 0 { m } else { fold1::<H>(foldn::<H>(m, ss, n - 1), ss[n - 1], ss[n - 1].len() as int) } }
// there is a precomputed hash for every node this set makes below the root, and it is the right one
pub open spec fn near(us: USeq, q: Seq<u8>) -> bool { exists|i: int| 0 <= i < us.len() && npre(q, (#[trigger] us[i]).0.0@) }
pub open spec fn hashes_for(c: Map<Seq<u8>, [u8; 32]>, f: KV, us: USeq) -> bool {
    forall|q: Seq<u8>| 0 < q.len() <= 64 && nibs16(q) && near(us, q) && many(f, q.drop_last()) ==> #[trigger] c.contains_key(q) && c[q]@ == smt(f, pb(q))
}
pub open spec fn hashes_right<H: SimpleHasher>(hs: Option<Vec<&HashMap<NibblePath, [u8; 32]>>>, m: KV, ss: Seq<USeq>) -> bool {
    hs matches Some(v) ==> (v@.len() == ss.len() && forall|i: int| 0 <= i < ss.len() ==> #[trigger] hashes_for(v@[i]@, foldn::<H>(m, ss, i + 1), ss[i]))
}
pub proof fn hashes_hc(hc: Hc, f: KV, s: SSeq, t: SSeq, kvs: KSeq)
    requires sorted_of(s, t), kvs.len() == t.len(), forall|i: int| 0 <= i < kvs.len() ==> (#[trigger] kvs[i]).0 == t[i].0, hc matches Some(c) ==> hashes_for(c@, f, somes(s)),
    ensures hc_ok(hc, f, kvs, Seq::empty()),
{
    if hc is Some {
        let c = hc->0;
        assert forall|q: Seq<u8>| isp(Seq::empty(), q) && 0 < q.len() <= 64 && nibs16(q) && touches(kvs, q) && many(f, q.drop_last()) implies #[trigger] c@.contains_key(q) && c@[q]@ == smt(f, pb(q)) by {
            let i = choose|i: int| 0 <= i < kvs.len() && npre(q, (#[trigger] kvs[i]).0.0@);
            let k = kvs[i].0.0@;
            assert(t[i].0.0@ == k);
            last_has(t, k, t.len() as int, i);
            assert(same_last(s, t, k));
            let a = last_of(s, k, s.len() as int);
            last_bound(s, k, s.len() as int);
            last_is(s, k, s.len() as int);
            assert(somes(s)[a].0.0@ == k);
            assert(near(somes(s), q));
        }
    }
}
pub proof fn last_has(s: SSeq, k: Seq<u8>, n: int, i: int)
    requires 0 <= i < n, s[i].0.0@ == k,
    ensures last_of(s, k, n) >= 0,
    decreases n,
{ if i < n - 1 { last_has(s, k, n - 1, i); last_bound(s, k, n - 1); } }
pub proof fn last_is(s: SSeq, k: Seq<u8>, n: int)
    ensures last_of(s, k, n) >= 0 ==> s[last_of(s, k, n)].0.0@ == k,
    decreases n,
{ if n > 0 { last_is(s, k, n - 1); } }
pub proof fn rising_of(t: SSeq, kvs: KSeq)
    requires ups(t), kvs.len() == t.len(), forall|i: int| 0 <= i < kvs.len() ==> (#[trigger] kvs[i]).0 == t[i].0,
    ensures rising(kvs), all_pre(kvs, Seq::empty()),
{ assert forall|i: int, j: int| 0 <= i < j < kvs.len() implies key_lt((#[trigger] kvs[i]).0.0@, (#[trigger] kvs[j]).0.0@) by { assert(t[i].0 == kvs[i].0 && t[j].0 == kvs[j].0); } }
pub open spec fn insets(ss: Seq<SSeq>) -> bool { forall|i: int| 0 <= i < ss.len() ==> (#[trigger] ss[i]).len() > 0 }
// what a finished batch leaves
pub proof fn batch_opened<R: TreeReader>(c0: TreeCache<R>, ca: TreeCache<R>, c1: TreeCache<R>, c2: TreeCache<R>, m0: KV, m1: KV, x: (NodeKey, Node))
    requires ready(c0, m0), ca == (TreeCache { value_cache: ca.value_cache, ..c0 }), c1.wf(), c1.same_env(ca), kv_ok(m1), batch_done(c0.ver(), c0.w(), c0.st(), Some(c0.root_node_key.version), Seq::empty(), m1, c1.w(), c1.st(), x),
        c2.wf(), c2 == (TreeCache { root_node_key: x.0, value_cache: c2.value_cache, ..c1 }),
    ensures opened(c2, c0.root_node_key.version, m1), c2.root_node_key.version == c2.ver(),
{
    let rv = c0.root_node_key.version;
    let e = Seq::<u8>::empty();
    let ver = c0.ver();
    ready_opened(c0, m0);
    cache_past(c0);
    local_clean(ver, c0.w(), c0.st(), Some(rv), c1.w(), c1.st(), Some(ver), e);
    local_trans(ver, c0.past(), Set::empty(), Some(rv), c0.w(), c0.st(), Some(rv), c1.w(), c1.st(), Some(ver), e);
    assert(c2.past() == c0.past());
    assert(c2.w() == c1.w() && c2.st() == c1.st());
}
impl<R: TreeReader, H: SimpleHasher> JellyfishMerkleTree<R, H> {
//@fn jmt/src/tree.rs JellyfishMerkleTree::batch_put_value_sets props C09 C10 C16 C21
//@rewrite? $id_h.into_iter().map(Some).collect() ==> rt_somes($id_h)
//@rewrite? (0..$n).map(|_| None).collect() ==> rt_nones($n)
//@rewrite? for ($id_i, ($id_x, $id_y)) in itertools::zip_eq($id_a.into_iter(), $id_b.into_iter()).enumerate() { $st_b } ==> let mut rt_i = rt_iter($id_a); let mut rt_h = rt_iter($id_b); let mut rt_n = 0usize; loop { match rt_i.next() { None => { match rt_h.next() { None => { } Some(_) => { rt_unreachable() } } break; } Some($id_x) => { let $id_y = match rt_h.next() { None => rt_unreachable(), Some(rt_y) => rt_y }; let $id_i = rt_n; $st_b rt_n += 1; } } }
//@rewrite? let $id_d = $id_s.into_iter().collect::<BTreeMap<_, _>>().into_iter().map(|($id_k, $id_v)| { $st_b }).collect::<Vec<_>>(); ==> let mut rt_o = Vec::new(); let mut rt_j = rt_iter(rt_sorted($id_s)); let mut rt_c = 0usize; loop { match rt_j.next() { None => { break; } Some(($id_k, $id_v)) => { let rt_e = { $st_b }; rt_o.push(rt_e); rt_c += 1; } } } let $id_d = rt_o;
//@rewrite? Ok($id_c.into()) ==> let rt_x = $id_c.rt_into(); Ok(rt_x)
//@spec
    requires can_put(self.nodes(), first_version, value_sets@.len() as int), prev_map(self.nodes(), first_version).len() + total(somess(views(value_sets@)), value_sets@.len() as int) < usize::MAX,
        insets(views(value_sets@)), hashes_right::<H>(node_hashes, prev_map(self.nodes(), first_version), somess(views(value_sets@))),
    ensures self.reader.reliable() ==> r is Ok,
        r matches Ok(x) ==> put_sets::<H>(somess(views(value_sets@)), first_version, self.nodes(), x),
//@start
    let ghost vs = value_sets@;
    let ghost vv = views(vs);
    let ghost ss = somess(vv);
    let ghost w = self.nodes();
    let ghost first = first_version;
    let ghost pm = prev_map(w, first);
    let ghost mut h = Seq::<Ver>::empty();
    let ghost nh = node_hashes;
//@before let mut rt_i =
    let ghost hs = hash_sets@;
    proof { assert(value_sets.len() == vs.len()); assert(vs.subrange(0, ss.len() as int) =~= vs); assert(hs.subrange(0, ss.len() as int) =~= hs); start_ready(tree_cache, first, ss.len() as int);
        assert(hs.len() == ss.len() && forall|i: int| 0 <= i < ss.len() ==> ((#[trigger] hs[i]) matches Some(c) ==> hashes_for(c@, foldn::<H>(pm, ss, i + 1), ss[i])));
    }
//@loop 0
    invariant ss.len() <= usize::MAX, rt_n <= ss.len(), rt_i.v@ == vs.subrange(rt_n as int, ss.len() as int), rt_h.v@ == hs.subrange(rt_n as int, ss.len() as int), vv == views(vs), ss == somess(vv), h.len() == rt_n, so_far(h, first, w, tree_cache), folded::<H>(h, ss), tree_cache.frozen_cache.node_cache.values@ == valsn(first, ss, rt_n as int),
        can_put(w, first, ss.len() as int), first == first_version, *tree_cache.reader == *self.reader, hm(h, pm).len() <= pm.len() + total(ss, rt_n as int), pm.len() + total(ss, ss.len() as int) < usize::MAX, pm == prev_map(w, first), hm(h, pm) == foldn::<H>(pm, ss, rt_n as int), insets(vv),
        hs.len() == ss.len(), forall|i: int| 0 <= i < ss.len() ==> ((#[trigger] hs[i]) matches Some(c) ==> hashes_for(c@, foldn::<H>(pm, ss, i + 1), ss[i])),
    ensures rt_n == ss.len(),
    decreases rt_i.v@.len(),
//@loopstart 0
    proof { if rt_n < ss.len() { assert(vs[rt_n as int]@ == vv[rt_n as int]); assert(vv[rt_n as int].len() > 0); } }
//@before let version =
    let ghost c0 = tree_cache;
    let ghost s = value_set@;
    let ghost m0 = hm(h, pm);
    let ghost rt_m = m0;
    let ghost m1 = fold1::<H>(m0, somes(s), s.len() as int);
    let ghost rt_f = m1;
    let ghost rt_v = tree_cache.root_node_key.version;
    proof { ready_opened(tree_cache, rt_m); total_mono(ss, rt_n + 1, ss.len() as int); assert(s == vv[rt_n as int]); assert(somes(s) == ss[rt_n as int]); assert(hash_set == hs[rt_n as int]); }
//@after let mut rt_j = rt_iter(rt_sorted($a));
    let ghost t = rt_j.v@;
    proof { sorted_same::<H>(m0, version, s, t); assert(t.subrange(0, t.len() as int) =~= t); }
//@loop 1
    invariant rt_c <= t.len(), t.len() <= s.len() <= usize::MAX, rt_j.v@ == t.subrange(rt_c as int, t.len() as int), hashed_as::<H>(t, rt_o@, rt_c as int), tree_cache.value_cache@ == vals1(version, somes(t), rt_c as int),
        tree_cache == (TreeCache { value_cache: tree_cache.value_cache, ..c0 }),
    ensures rt_c == t.len(),
    decreases rt_j.v@.len(),
//@before let root_node_key =
    let ghost kvs = deduped_and_sorted_kvs@;
    let ghost c1 = tree_cache;
    proof {
        fold_ovr::<H>(m0, t, kvs, kvs.len() as int);
        rising_of(t, kvs);
        hashes_hc(hash_set, m1, s, t, kvs);
        ovr_facts(m0, kvs, kvs.len() as int);
        assert(c1.wf());
        cache_root(c0, m0);
    }
//@before tree_cache.set_root_node_key($a)
    let ghost cb = tree_cache;
    let ghost x = choose|x: (NodeKey, Node)| #[trigger] batch_done(version, c1.w(), c1.st(), Some(rt_v), Seq::empty(), m1, cb.w(), cb.st(), x) && x.0 == new_root_node_key;
//@before tree_cache.freeze()
    let ghost c2 = tree_cache;
    proof { assert(c1.w() == c0.w() && c1.st() == c0.st()); batch_opened(c0, c1, cb, c2, m0, m1, x); opened_root(c2, rt_v, m1); }
//@before rt_n += 1
    proof {
        one_more(h, first, w, c0, c2, tree_cache, m1);
        h = h.push(ver_of(c2, tree_cache, rt_v, m0, m1));
    }
//@before Ok(rt_x)
    proof { assert(sets_put::<H>(h, ss, first, w, rt_x.0@, rt_x.1)); assert(put_sets::<H>(ss, first, w, rt_x)); }
//@end
}
pub proof fn cache_root<R: TreeReader>(c: TreeCache<R>, m: KV)
    requires ready(c, m),
    ensures rep(c.w(), c.root_node_key.version, Seq::empty(), m), c.root_node_key.p() == Seq::<u8>::empty(),
{ assert(c.root_node_key.p() =~= Seq::<u8>::empty()); if c.nc() == W::empty() { assert(c.w() =~= c.past()); } else { assert forall|k: Seq<u8>| !#[trigger] nund(m, Seq::empty(), k) by { } } }
} // verus!
