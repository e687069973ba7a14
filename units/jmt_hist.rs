// a store over its whole history: every update and every purge leaves it complete
verus! {
// ---------------------------------------------------------------- what writing a batch means for the reader
// the newest value written at or before v by a batch of versions from first on
pub open spec fn newest(vals: VMap, first: u64, v: u64, k: Seq<u8>) -> Option<Option<Seq<u8>>>
    decreases v,
{
    if v < first { None } else if vals.contains_key((v, k)) { Some(ov(vals[(v, k)])) } else if v == 0 { None } else { newest(vals, first, (v - 1) as u64, k) }
}
pub open spec fn wval(o: Option<Option<Seq<u8>>>, old: Option<Seq<u8>>) -> Option<Seq<u8>> { match o { Some(x) => x, None => old } }
pub open spec fn wrote<R: TreeReader>(r0: R, r1: R, first: u64, b: NodeBatch) -> bool {
    &&& r1.nodes() == over(r0.nodes(), b.ns())
    &&& forall|v: u64, k: Seq<u8>| #[trigger] r1.val(v, k) == wval(newest(b.values@, first, v, k), r0.val(v, k))
}
// ---------------------------------------------------------------- a complete store
// the versions low..n are there and complete, and nothing is of a later version
pub open spec fn trees(w: W, low: u64, n: u64) -> bool { forall|v: u64| low <= v < n ==> #[trigger] has_tree(w, v) }
#[verifier::opaque]
pub open spec fn store_ok<R: TreeReader, H: SimpleHasher>(r: R, low: u64, n: u64) -> bool {
    &&& forall|k: NK| #[trigger] r.nodes().contains_key(k) ==> k.0 < n
    &&& trees(r.nodes(), low, n)
    &&& forall|v: u64| low <= v < n ==> #[trigger] vals_ok::<R, H>(r, v, tmap(r.nodes(), v))
    &&& n == 0 ==> low == 0 && forall|v: u64, k: Seq<u8>| #[trigger] r.val(v, k) is None
    &&& n > 0 ==> low < n && forall|v: u64, k: Seq<u8>| v >= n ==> #[trigger] r.val(v, k) == r.val((n - 1) as u64, k)
}
pub proof fn store_reads<R: TreeReader, H: SimpleHasher>(r: R, low: u64, n: u64, v: u64)
    requires store_ok::<R, H>(r, low, n), low <= v < n || v >= n,
    ensures version_ok::<R, H>(r, v),
{ reveal(store_ok); }
pub proof fn store_can_put<R: TreeReader, H: SimpleHasher>(r: R, low: u64, n: u64, j: int)
    requires store_ok::<R, H>(r, low, n), n + j < u64::MAX - 1, j >= 0,
    ensures can_put(r.nodes(), n, j), prev_map(r.nodes(), n) == if n == 0 { KV::empty() } else { tmap(r.nodes(), (n - 1) as u64) },
{ reveal(store_ok); }
pub proof fn step_within(x: Ver, ver: u64)
    requires stepped(x, ver), ver < u64::MAX,
    ensures within(x.w0, x.w1), forall|k: NK| #[trigger] x.w1.contains_key(k) ==> vo(k.0) <= ver || k.0 == ver,
{ reveal(stepped); assert forall|k: NK| #[trigger] x.w0.contains_key(k) implies x.w1.contains_key(k) && x.w1[k] == x.w0[k] by { if x.made.contains_key(k) { assert(vo(k.0) < ver); } } }
pub proof fn chain_within(h: Seq<Ver>, first: u64, w: W, v: u64, m: KV)
    requires chained(h, first, w, v, m), first + h.len() < u64::MAX,
    ensures within(w, hw(h, w)), forall|i: int| 0 <= i < h.len() ==> stepped(#[trigger] h[i], (first + i) as u64) && within(h[i].w1, hw(h, w)),
        forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).m0 == if i == 0 { m } else { h[i - 1].m1 },
    decreases h.len(),
{
    if h.len() > 0 {
        let g = h.drop_last();
        chain_within(g, first, w, v, m);
        step_within(h.last(), (first + h.len() - 1) as u64);
        assert forall|i: int| 0 <= i < h.len() implies stepped(#[trigger] h[i], (first + i) as u64) && within(h[i].w1, hw(h, w)) by { if i < g.len() { assert(g[i] == h[i]); assert(within(g[i].w1, hw(g, w))); } }
        assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i]).m0 == if i == 0 { m } else { h[i - 1].m1 } by { if i < g.len() { assert(g[i] == h[i]); if i > 0 { assert(g[i - 1] == h[i - 1]); } } }
    }
}
pub proof fn tree_more(a: W, b: W, v: u64)
    requires has_tree(a, v), within(a, b),
    ensures has_tree(b, v), tmap(b, v) == tmap(a, v),
{ let m = tmap(a, v); assert(holds(a, v, m)); rep_more(a, b, v, Seq::empty(), m); tmap_is(b, v, m); }
// the versions of a history
pub proof fn chain_trees(h: Seq<Ver>, first: u64, w: W, v: u64, m: KV, i: int)
    requires chained(h, first, w, v, m), first + h.len() < u64::MAX, 0 <= i < h.len(),
    ensures has_tree(hw(h, w), (first + i) as u64), tmap(hw(h, w), (first + i) as u64) == h[i].m1, kv_ok(h[i].m1),
{
    chain_within(h, first, w, v, m);
    assert(stepped(h[i], (first + i) as u64));
    reveal(stepped);
    rep_more(h[i].w1, hw(h, w), (first + i) as u64, Seq::empty(), h[i].m1);
    tmap_is(hw(h, w), (first + i) as u64, h[i].m1);
}
// ---------------------------------------------------------------- values
pub open spec fn agrees<H: SimpleHasher>(x: Option<Seq<u8>>, m: KV, k: Seq<u8>) -> bool { match x { Some(y) => m.contains_key(k) && m[k] == H::dig(y), None => !m.contains_key(k) } }
pub open spec fn alike(m: KV, n: KV, k: Seq<u8>) -> bool { (m.contains_key(k) <==> n.contains_key(k)) && (m.contains_key(k) ==> m[k] == n[k]) }
pub proof fn fold_vals<H: SimpleHasher>(m: KV, v: u64, s: USeq, n: int, k: Seq<u8>)
    requires 0 <= n <= s.len(),
    ensures ({ let c = vals1(v, s, n); let f = fold1::<H>(m, s, n); if c.contains_key((v, k)) { agrees::<H>(ov(c[(v, k)]), f, k) } else { alike(m, f, k) } }),
        forall|y: (u64, Seq<u8>)| #[trigger] vals1(v, s, n).contains_key(y) ==> y.0 == v,
    decreases n,
{ if n > 0 { fold_vals::<H>(m, v, s, n - 1, k); } }
pub proof fn valsn_at(first: u64, ss: Seq<USeq>, n: int, v: u64, k: Seq<u8>)
    requires 0 <= n <= ss.len(), first + n < u64::MAX,
    ensures valsn(first, ss, n).contains_key((v, k)) <==> first <= v < first + n && vals1(v, ss[v - first], ss[v - first].len() as int).contains_key((v, k)),
        valsn(first, ss, n).contains_key((v, k)) ==> valsn(first, ss, n)[(v, k)] == vals1(v, ss[v - first], ss[v - first].len() as int)[(v, k)],
    decreases n,
{ if n > 0 { valsn_at(first, ss, n - 1, v, k); let u = (first + n - 1) as u64; vals1_dom(u, ss[n - 1], ss[n - 1].len() as int); assert(first + n - 1 == u); } }
pub proof fn vals1_dom(v: u64, s: USeq, n: int)
    ensures forall|y: (u64, Seq<u8>)| #[trigger] vals1(v, s, n).contains_key(y) ==> y.0 == v,
    decreases n,
{ if n > 0 { vals1_dom(v, s, n - 1); assert forall|y: (u64, Seq<u8>)| #[trigger] vals1(v, s, n).contains_key(y) implies y.0 == v by { if y != (v, s[n - 1].0.0@) { assert(vals1(v, s, n - 1).contains_key(y)); } } } }
pub proof fn newest_late(vals: VMap, first: u64, u: u64, v: u64, k: Seq<u8>)
    requires u <= v, forall|y: (u64, Seq<u8>)| #[trigger] vals.contains_key(y) ==> y.0 <= u, 
    ensures v >= first ==> u >= first ==> newest(vals, first, v, k) == newest(vals, first, u, k), 
    decreases v,
{ if u < v && v > 0 { newest_late(vals, first, u, (v - 1) as u64, k); } }
// what is written and what the tree holds agree, version by version
pub open spec fn sets_vals<H: SimpleHasher>(h: Seq<Ver>, first: u64, vals: VMap) -> bool {
    &&& forall|y: (u64, Seq<u8>)| #[trigger] vals.contains_key(y) ==> first <= y.0 < first + h.len()
    &&& forall|i: int, k: Seq<u8>| 0 <= i < h.len() ==> #[trigger] val_step::<H>(h[i], (first + i) as u64, vals, k)
}
pub open spec fn val_step<H: SimpleHasher>(x: Ver, v: u64, vals: VMap, k: Seq<u8>) -> bool { if vals.contains_key((v, k)) { agrees::<H>(ov(vals[(v, k)]), x.m1, k) } else { alike(x.m0, x.m1, k) } }
pub proof fn put_vals<H: SimpleHasher>(h: Seq<Ver>, ss: Seq<USeq>, first: u64, w: W, roots: Seq<RootHash>, b: TreeUpdateBatch)
    requires sets_put::<H>(h, ss, first, w, roots, b), first + h.len() < u64::MAX,
    ensures sets_vals::<H>(h, first, b.node_batch.values@),
{
    let vals = b.node_batch.values@;
    assert forall|y: (u64, Seq<u8>)| #[trigger] vals.contains_key(y) implies first <= y.0 < first + h.len() by { valsn_at(first, ss, ss.len() as int, y.0, y.1); }
    assert forall|i: int, k: Seq<u8>| 0 <= i < h.len() implies #[trigger] val_step::<H>(h[i], (first + i) as u64, vals, k) by {
        let v = (first + i) as u64;
        valsn_at(first, ss, ss.len() as int, v, k);
        fold_vals::<H>(h[i].m0, v, ss[i], ss[i].len() as int, k);
    }
}
pub proof fn vals_hold<R: TreeReader, H: SimpleHasher>(r0: R, r1: R, low: u64, first: u64, h: Seq<Ver>, b: NodeBatch, i: int, k: Seq<u8>)
    requires store_ok::<R, H>(r0, low, first), chained(h, first, r0.nodes(), prev_ver(r0.nodes(), first), prev_map(r0.nodes(), first)), first + h.len() < u64::MAX - 1, sets_vals::<H>(h, first, b.values@), wrote(r0, r1, first, b), 0 <= i < h.len(), k.len() == 32,
    ensures agrees::<H>(r1.val((first + i) as u64, k), h[i].m1, k),
    decreases i,
{
    let v = (first + i) as u64;
    chain_within(h, first, r0.nodes(), prev_ver(r0.nodes(), first), prev_map(r0.nodes(), first));
    store_can_put::<R, H>(r0, low, first, h.len() as int);
    assert(val_step::<H>(h[i], v, b.values@, k));
    assert(h[i].m0 == if i == 0 { prev_map(r0.nodes(), first) } else { h[i - 1].m1 });
    reveal(store_ok);
    if !b.values@.contains_key((v, k)) {
        if i > 0 {
            vals_hold::<R, H>(r0, r1, low, first, h, b, i - 1, k);
            assert(r0.val(v, k) == r0.val((v - 1) as u64, k)) by { if first > 0 { if v - 1 >= first { assert(r0.val((v - 1) as u64, k) == r0.val((first - 1) as u64, k)); } assert(r0.val(v, k) == r0.val((first - 1) as u64, k)); } else { assert(r0.val(v, k) is None && r0.val((v - 1) as u64, k) is None); } }
            assert(r1.val(v, k) == wval(newest(b.values@, first, v, k), r0.val(v, k)));
            assert(r1.val((v - 1) as u64, k) == wval(newest(b.values@, first, (v - 1) as u64, k), r0.val((v - 1) as u64, k)));
        } else {
            assert(newest(b.values@, first, v, k) is None) by { if v > 0 { assert(newest(b.values@, first, (v - 1) as u64, k) is None); } }
            assert(r1.val(v, k) == r0.val(v, k));
            if first > 0 {
                assert(vals_ok::<R, H>(r0, (first - 1) as u64, tmap(r0.nodes(), (first - 1) as u64)));
                assert(r0.val(v, k) == r0.val((first - 1) as u64, k));
            }
        }
    } else { assert(r1.val(v, k) == ov(b.values@[(v, k)])); }
}
// ---------------------------------------------------------------- every update leaves a complete store
pub proof fn update_ok<R: TreeReader, H: SimpleHasher>(r0: R, r1: R, low: u64, n: u64, h: Seq<Ver>, roots: Seq<RootHash>, b: TreeUpdateBatch)
    requires store_ok::<R, H>(r0, low, n), reported(h, n, r0.nodes(), roots, b), sets_vals::<H>(h, n, b.node_batch.values@), wrote(r0, r1, n, b.node_batch), n + h.len() < u64::MAX - 1,
    ensures store_ok::<R, H>(r1, low, (n + h.len()) as u64),
        // the new versions hold what they should, with the roots that were reported
        forall|i: int| 0 <= i < h.len() ==> tmap(r1.nodes(), (n + i) as u64) == (#[trigger] h[i]).m1 && roots[i].0@ == smt(h[i].m1, Seq::empty()),
        // and the old ones what they did
        forall|v: u64| low <= v < n ==> #[trigger] tmap(r1.nodes(), v) == tmap(r0.nodes(), v),
        forall|v: u64, k: Seq<u8>| v < n ==> #[trigger] r1.val(v, k) == r0.val(v, k),
{
    let w0 = r0.nodes();
    let w1 = r1.nodes();
    let v0 = prev_ver(w0, n);
    let m0 = prev_map(w0, n);
    let e = (n + h.len()) as u64;
    chain_within(h, n, w0, v0, m0);
    assert(w1 == hw(h, w0));
    assert forall|i: int| 0 <= i < h.len() implies tmap(w1, (n + i) as u64) == (#[trigger] h[i]).m1 && roots[i].0@ == smt(h[i].m1, Seq::empty()) by { chain_trees(h, n, w0, v0, m0, i); assert(told(h[i], (n + i) as u64, roots[i], b.node_stats@[i])); }
    assert forall|v: u64, k: Seq<u8>| v < n implies #[trigger] r1.val(v, k) == r0.val(v, k) by { assert(newest(b.node_batch.values@, n, v, k) is None); }
    assert forall|v: u64| low <= v < n implies #[trigger] tmap(w1, v) == tmap(w0, v) by { reveal(store_ok); assert(has_tree(w0, v)); tree_more(w0, w1, v); }
    update_trees::<R, H>(r0, r1, low, n, h, b.node_batch);
    update_vals::<R, H>(r0, r1, low, n, h, b.node_batch);
    update_late::<R, H>(r0, r1, low, n, h, b.node_batch);
    assert forall|k: NK| #[trigger] w1.contains_key(k) implies k.0 < e by { reveal(store_ok); if b.node_batch.ns().contains_key(k) { } else { assert(w0.contains_key(k)); } }
    assert(store_ok::<R, H>(r1, low, e)) by { reveal(store_ok); }
}
pub open spec fn updates<R: TreeReader, H: SimpleHasher>(r0: R, r1: R, low: u64, n: u64, h: Seq<Ver>, b: NodeBatch) -> bool {
    &&& store_ok::<R, H>(r0, low, n) && wrote(r0, r1, n, b) && n + h.len() < u64::MAX - 1 && sets_vals::<H>(h, n, b.values@)
    &&& chained(h, n, r0.nodes(), prev_ver(r0.nodes(), n), prev_map(r0.nodes(), n)) && r1.nodes() == hw(h, r0.nodes())
}
pub proof fn update_trees<R: TreeReader, H: SimpleHasher>(r0: R, r1: R, low: u64, n: u64, h: Seq<Ver>, b: NodeBatch)
    requires updates::<R, H>(r0, r1, low, n, h, b),
    ensures trees(r1.nodes(), low, (n + h.len()) as u64),
{
    let w0 = r0.nodes();
    let w1 = r1.nodes();
    let v0 = prev_ver(w0, n);
    let m0 = prev_map(w0, n);
    reveal(store_ok);
    chain_within(h, n, w0, v0, m0);
    assert forall|v: u64| low <= v < (n + h.len()) as u64 implies #[trigger] has_tree(w1, v) by { if v < n { assert(has_tree(w0, v)); tree_more(w0, w1, v); } else { chain_trees(h, n, w0, v0, m0, v - n); assert((n + (v - n)) as u64 == v); } }
}
pub proof fn update_vals<R: TreeReader, H: SimpleHasher>(r0: R, r1: R, low: u64, n: u64, h: Seq<Ver>, b: NodeBatch)
    requires updates::<R, H>(r0, r1, low, n, h, b),
    ensures forall|v: u64| low <= v < (n + h.len()) as u64 ==> #[trigger] vals_ok::<R, H>(r1, v, tmap(r1.nodes(), v)),
{
    let w0 = r0.nodes();
    let w1 = r1.nodes();
    let v0 = prev_ver(w0, n);
    let m0 = prev_map(w0, n);
    chain_within(h, n, w0, v0, m0);
    assert forall|v: u64| low <= v < (n + h.len()) as u64 implies #[trigger] vals_ok::<R, H>(r1, v, tmap(w1, v)) by {
        if v < n {
            reveal(store_ok);
            assert(has_tree(w0, v));
            tree_more(w0, w1, v);
            assert(vals_ok::<R, H>(r0, v, tmap(w0, v)));
            assert forall|k: Seq<u8>| #[trigger] r1.val(v, k) == r0.val(v, k) by { assert(newest(b.values@, n, v, k) is None); }
        } else {
            chain_trees(h, n, w0, v0, m0, v - n);
            assert((n + (v - n)) as u64 == v);
            assert(tmap(w1, v) == h[v - n].m1);
            assert forall|k: Seq<u8>| k.len() == 32 implies match #[trigger] r1.val(v, k) { Some(x) => tmap(w1, v).contains_key(k) && tmap(w1, v)[k] == H::dig(x), None => !tmap(w1, v).contains_key(k) } by { vals_hold::<R, H>(r0, r1, low, n, h, b, v - n, k); }
        }
    }
}
pub proof fn update_late<R: TreeReader, H: SimpleHasher>(r0: R, r1: R, low: u64, n: u64, h: Seq<Ver>, b: NodeBatch)
    requires updates::<R, H>(r0, r1, low, n, h, b),
    ensures ({ let e = (n + h.len()) as u64; (e == 0 ==> forall|v: u64, k: Seq<u8>| #[trigger] r1.val(v, k) is None) && (e > 0 ==> low < e && forall|v: u64, k: Seq<u8>| v >= e ==> #[trigger] r1.val(v, k) == r1.val((e - 1) as u64, k)) }),
{
    let e = (n + h.len()) as u64;
    let vals = b.values@;
    reveal(store_ok);
    if e > 0 {
        assert forall|v: u64, k: Seq<u8>| v >= e implies #[trigger] r1.val(v, k) == r1.val((e - 1) as u64, k) by {
            if h.len() > 0 { newest_late(vals, n, (e - 1) as u64, v, k); }
            else { newest_none(vals, n, v, k); newest_none(vals, n, (e - 1) as u64, k); }
            assert(r1.val(v, k) == wval(newest(vals, n, v, k), r0.val(v, k)));
            assert(r1.val((e - 1) as u64, k) == wval(newest(vals, n, (e - 1) as u64, k), r0.val((e - 1) as u64, k)));
            if n > 0 { assert(r0.val(v, k) == r0.val((n - 1) as u64, k)); if e - 1 >= n { assert(r0.val((e - 1) as u64, k) == r0.val((n - 1) as u64, k)); } }
            else { assert(r0.val(v, k) is None && r0.val((e - 1) as u64, k) is None); }
        }
    } else {
        assert forall|v: u64, k: Seq<u8>| #[trigger] r1.val(v, k) is None by { newest_none(vals, n, v, k); assert(r0.val(v, k) is None); }
    }
}
pub proof fn newest_none(vals: VMap, first: u64, v: u64, k: Seq<u8>)
    requires forall|y: (u64, Seq<u8>)| !vals.contains_key(y),
    ensures newest(vals, first, v, k) is None,
    decreases v,
{ if v > 0 { newest_none(vals, first, (v - 1) as u64, k); } }
// put_value_sets (and put_value_set, which is its case of one set) on a complete store
pub proof fn put_ok<R: TreeReader, H: SimpleHasher>(r0: R, r1: R, low: u64, n: u64, h: Seq<Ver>, ss: Seq<USeq>, roots: Seq<RootHash>, b: TreeUpdateBatch)
    requires store_ok::<R, H>(r0, low, n), sets_put::<H>(h, ss, n, r0.nodes(), roots, b), wrote(r0, r1, n, b.node_batch), n + ss.len() < u64::MAX - 1,
    ensures store_ok::<R, H>(r1, low, (n + ss.len()) as u64),
        forall|i: int| 0 <= i < ss.len() ==> tmap(r1.nodes(), (n + i) as u64) == (#[trigger] h[i]).m1 && roots[i].0@ == smt(h[i].m1, Seq::empty())
            && h[i].m1 == fold1::<H>(if i == 0 { if n == 0 { KV::empty() } else { tmap(r0.nodes(), (n - 1) as u64) } } else { h[i - 1].m1 }, ss[i], ss[i].len() as int),
        forall|v: u64| low <= v < n ==> #[trigger] tmap(r1.nodes(), v) == tmap(r0.nodes(), v),
        forall|v: u64, k: Seq<u8>| v < n ==> #[trigger] r1.val(v, k) == r0.val(v, k),
{
    put_vals::<H>(h, ss, n, r0.nodes(), roots, b);
    update_ok::<R, H>(r0, r1, low, n, h, roots, b);
    store_can_put::<R, H>(r0, low, n, h.len() as int);
    chain_within(h, n, r0.nodes(), prev_ver(r0.nodes(), n), prev_map(r0.nodes(), n));
}
} // verus!
