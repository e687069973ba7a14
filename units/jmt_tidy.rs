// pruning: what was reported stale is not reached by any version from then on
verus! {
pub type Stales = Set<(u64, NK)>;
pub open spec fn unreached(w: W, k: NK, t: u64, low: u64, n: u64) -> bool { forall|s: u64| t <= s < n && low <= s ==> #[trigger] walk(w, s, Seq::empty(), k.1) != Some(k.0) }
#[verifier::opaque]
pub open spec fn tid(w: W, x: (u64, NK), low: u64, n: u64) -> bool { x.0 < n && w.contains_key(x.1) && vo(x.1.0) < x.0 && unreached(w, x.1, x.0, low, n) }
#[verifier::opaque]
pub open spec fn tidy(w: W, s: Stales, low: u64, n: u64, rv: u64) -> bool {
    &&& forall|x: (u64, NK)| #[trigger] s.contains(x) ==> tid(w, x, low, n) && x.0 <= rv
    &&& forall|x: (u64, NK), y: (u64, NK)| #[trigger] s.contains(x) && #[trigger] s.contains(y) && x.1 == y.1 ==> x == y
}
// one version later
pub open spec fn later(s0: Stales, s1: Stales, x: Ver, ver: u64) -> bool { forall|y: (u64, NK)| #[trigger] s1.contains(y) <==> s0.contains(y) || (y.0 == ver && x.st.contains(y.1)) }
pub open spec fn spans(w: W, low: u64, n: u64, rv: u64) -> bool {
    &&& forall|k: NK| #[trigger] w.contains_key(k) ==> k.0 < n
    &&& trees(w, low, n) && (n > 0 ==> low <= rv < n)
}
pub proof fn walk_holds(a: W, b: W, s: u64, q: Seq<u8>)
    requires has_tree(a, s), within(a, b),
    ensures walk(b, s, Seq::empty(), q) == walk(a, s, Seq::empty(), q),
{ let m = tmap(a, s); assert(holds(a, s, m)); walk_more(a, b, s, Seq::empty(), m, q); }
// what the new version reaches that is not its own, the version before reached
pub proof fn reach_back(x: Ver, ver: u64, low: u64, k: NK)
    requires stepped(x, ver), ver < u64::MAX, ver > 0, spans(x.w0, low, ver, x.rv), k.0 != ver, walk(x.w1, ver, Seq::empty(), k.1) == Some(k.0),
    ensures walk(x.w0, x.rv, Seq::empty(), k.1) == Some(k.0), !x.st.contains(k),
{
    let e = Seq::<u8>::empty();
    let (a, q) = k;
    step_within(x, ver);
    reveal(stepped);
    reveal(local);
    assert(isp(e, q));
    if x.nv == ver && local(ver, x.w0, Set::empty(), Some(x.rv), x.w1, x.st, Some(ver), e) {
        assert(lq(ver, x.w0, Set::empty(), Some(x.rv), x.w1, x.st, Some(ver), e, q));
        assert(owalk(x.w1, Some(ver), e, q) == Some(a));
        assert(x.st.contains((a, q)) ==> owalk(x.w1, Some(ver), e, q) != Some(a));
    } else {
        assert(x.made.contains_key(root_key(ver)));
        assert(x.w1[root_key(ver)] == x.w0[root_key(x.rv)]);
        assert(rep(x.w0, x.rv, e, x.m0));
        rep_more(x.w0, x.w1, x.rv, e, x.m0);
        walk_more(x.w0, x.w1, x.rv, e, x.m0, q);
        if q.len() == 0 { assert(q =~= e); walk_here(x.w1, ver, e); }
        walk_kid(x.w1, ver, e, q);
        walk_kid(x.w1, x.rv, e, q);
    }
}
pub proof fn stale_new(x: Ver, ver: u64, low: u64, k: NK)
    requires stepped(x, ver), ver < u64::MAX, spans(x.w0, low, ver, x.rv), x.st.contains(k),
    ensures x.w0.contains_key(k), ver > 0, walk(x.w0, x.rv, Seq::empty(), k.1) == Some(k.0), walk(x.w1, ver, Seq::empty(), k.1) != Some(k.0), vo(k.0) < ver,
{
    let e = Seq::<u8>::empty();
    reveal(stepped);
    reveal(local);
    assert(isp(e, k.1));
    assert(lq(ver, x.w0, Set::empty(), Some(x.rv), x.w1, x.st, Some(ver), e, k.1));
    assert(x.st.contains((k.0, k.1)));
    assert(owalk(x.w0, Some(x.rv), e, k.1) == Some(k.0));
    assert(owalk(x.w1, Some(ver), e, k.1) != Some(k.0));
}
pub proof fn tid_step(x: Ver, ver: u64, low: u64, y: (u64, NK))
    requires stepped(x, ver), ver < u64::MAX, spans(x.w0, low, ver, x.rv), tid(x.w0, y, low, ver), y.0 <= x.rv,
    ensures tid(x.w1, y, low, (ver + 1) as u64), !x.st.contains(y.1),
{
    reveal(tid);
    step_within(x, ver);
    let k = y.1;
    let e = Seq::<u8>::empty();
    if ver > 0 {
        assert(walk(x.w0, x.rv, e, k.1) != Some(k.0));
        assert forall|s: u64| y.0 <= s < ver + 1 && low <= s implies #[trigger] walk(x.w1, s, e, k.1) != Some(k.0) by {
            if s < ver { assert(has_tree(x.w0, s)); walk_holds(x.w0, x.w1, s, k.1); assert(walk(x.w0, s, e, k.1) != Some(k.0)); }
            else if walk(x.w1, s, e, k.1) == Some(k.0) { reach_back(x, ver, low, k); }
        }
    }
    if x.st.contains(k) { stale_new(x, ver, low, k); }
}
pub proof fn tidy_step(x: Ver, ver: u64, low: u64, s0: Stales, s1: Stales)
    requires stepped(x, ver), ver < u64::MAX, spans(x.w0, low, ver, x.rv), tidy(x.w0, s0, low, ver, x.rv), later(s0, s1, x, ver), ver > 0 || low == 0,
    ensures tidy(x.w1, s1, low, (ver + 1) as u64, x.nv), spans(x.w1, low, (ver + 1) as u64, x.nv),
{
    let n1 = (ver + 1) as u64;
    step_within(x, ver);
    assert(x.nv == ver || x.nv == x.rv) by { reveal(stepped); }
    assert(spans(x.w1, low, n1, x.nv)) by {
        assert forall|k: NK| #[trigger] x.w1.contains_key(k) implies k.0 < n1 by { reveal(stepped); if x.made.contains_key(k) { } else { assert(x.w0.contains_key(k)); } }
        assert forall|v: u64| low <= v < n1 implies #[trigger] has_tree(x.w1, v) by {
            if v < ver { assert(has_tree(x.w0, v)); tree_more(x.w0, x.w1, v); } else { reveal(stepped); tmap_is(x.w1, ver, x.m1); }
        }
        assert(ver == 0 ==> x.nv == ver) by { reveal(stepped); }
    }
    reveal(tidy);
    assert forall|y: (u64, NK)| #[trigger] s1.contains(y) implies tid(x.w1, y, low, n1) && y.0 <= x.nv by {
        if s0.contains(y) { assert(tid(x.w0, y, low, ver) && y.0 <= x.rv); tid_step(x, ver, low, y); if ver == 0 { reveal(tid); } }
        else {
            assert(y.0 == ver && x.st.contains(y.1));
            stale_new(x, ver, low, y.1);
            reveal(tid);
            assert(x.nv == ver) by { reveal(stepped); }
            assert(unreached(x.w1, y.1, ver, low, n1));
        }
    }
    assert forall|y: (u64, NK), z: (u64, NK)| #[trigger] s1.contains(y) && #[trigger] s1.contains(z) && y.1 == z.1 implies y == z by {
        if s0.contains(y) { tid_step(x, ver, low, y); }
        if s0.contains(z) { tid_step(x, ver, low, z); }
        if s0.contains(y) && s0.contains(z) { } else { assert(y.0 == z.0); }
    }
}
// a whole update
pub open spec fn grown(s0: Stales, s1: Stales, h: Seq<Ver>, first: u64) -> bool { forall|y: (u64, NK)| #[trigger] s1.contains(y) <==> s0.contains(y) || stale_in(h, first, y) }
pub proof fn tidy_chain(h: Seq<Ver>, first: u64, w: W, v: u64, m: KV, low: u64, s0: Stales, s1: Stales)
    requires chained(h, first, w, v, m), first + h.len() < u64::MAX, spans(w, low, first, v), tidy(w, s0, low, first, v), grown(s0, s1, h, first), first > 0 || low == 0,
    ensures tidy(hw(h, w), s1, low, (first + h.len()) as u64, hv_(h, v)), spans(hw(h, w), low, (first + h.len()) as u64, hv_(h, v)),
    decreases h.len(),
{
    if h.len() == 0 { assert(s1 =~= s0); }
    else {
        let g = h.drop_last();
        let x = h.last();
        let u = (first + h.len() - 1) as u64;
        let s = s1.filter(|y: (u64, NK)| s0.contains(y) || stale_in(g, first, y));
        assert forall|y: (u64, NK)| stale_in(g, first, y) implies #[trigger] stale_in(h, first, y) by { assert(g[y.0 - first] == h[y.0 - first]); }
        assert forall|y: (u64, NK)| stale_in(h, first, y) && y.0 != u implies #[trigger] stale_in(g, first, y) by { assert(g[y.0 - first] == h[y.0 - first]); }
        assert(grown(s0, s, g, first)) by { assert forall|y: (u64, NK)| #[trigger] s.contains(y) <==> s0.contains(y) || stale_in(g, first, y) by { if stale_in(g, first, y) { assert(stale_in(h, first, y)); assert(s1.contains(y)); } } }
        tidy_chain(g, first, w, v, m, low, s0, s);
        assert(later(s, s1, x, u)) by { assert forall|y: (u64, NK)| #[trigger] s1.contains(y) <==> s.contains(y) || (y.0 == u && x.st.contains(y.1)) by { if y.0 == u { assert(!stale_in(g, first, y)); assert(h[y.0 - first] == x); assert(stale_in(h, first, y) <==> x.st.contains(y.1)); } else { assert(stale_in(h, first, y) <==> stale_in(g, first, y)); } } }
        tidy_step(x, u, low, s, s1);
    }
}
// ---------------------------------------------------------------- purging
pub open spec fn gone(s: Stales, least: u64, k: NK) -> bool { exists|t: u64| t <= least && #[trigger] s.contains((t, k)) }
pub open spec fn purged(w: W, s: Stales, least: u64, w1: W, s1: Stales) -> bool {
    &&& forall|k: NK| #[trigger] at(w1, k) == if gone(s, least, k) { None } else { at(w, k) }
    &&& forall|x: (u64, NK)| #[trigger] s1.contains(x) <==> s.contains(x) && x.0 > least
}
pub proof fn walk_less(a: W, b: W, v: u64, p: Seq<u8>, m: KV, q: Seq<u8>)
    requires rep(a, v, p, m), forall|r: Seq<u8>| kept(a, b, #[trigger] walk(a, v, p, r), r),
    ensures walk(a, v, p, q) == walk(b, v, p, q),
    decreases q.len() - p.len(),
{
    rep_less(a, b, v, p, m);
    if !isp(p, q) || p.len() >= q.len() { }
    else { match a[(v, p)] {
        Node::Internal(nd) => { let x = q[p.len() as int]; if x < 16 { rep_internal(a, v, p, m); assert(crep(a, v, p, m, nd.cs()[x as int], x as int)); match nd.cs()[x as int] { Some(c) => {
            let px = p.push(x);
            assert forall|r: Seq<u8>| kept(a, b, #[trigger] walk(a, c.version, px, r), r) by {
                walk_in(a, c.version, px, r);
                if walk(a, c.version, px, r) is Some { isp_push(p, x, r); walk_kid(a, v, p, r); assert(walk(a, v, p, r) == walk(a, c.version, px, r)); assert(kept(a, b, walk(a, v, p, r), r)); }
            }
            walk_less(a, b, c.version, px, m, q);
        }, None => { } } } },
        _ => { },
    } }
}
pub open spec fn max64(a: u64, b: u64) -> u64 { if a > b { a } else { b } }
pub open spec fn low_after(low: u64, least: u64, n: u64) -> u64 { if n == 0 { low } else if least >= n { (n - 1) as u64 } else { max64(low, least) } }
pub proof fn purge_keeps(w: W, s: Stales, low: u64, n: u64, rv: u64, least: u64, w1: W, s1: Stales, v: u64, m: KV)
    requires tidy(w, s, low, n, rv), purged(w, s, least, w1, s1), spans(w, low, n, rv), low_after(low, least, n) <= v < n, low <= v, rep(w, v, Seq::empty(), m),
    ensures rep(w1, v, Seq::empty(), m), forall|q: Seq<u8>| #[trigger] walk(w1, v, Seq::empty(), q) == walk(w, v, Seq::empty(), q),
{
    let e = Seq::<u8>::empty();
    assert forall|q: Seq<u8>| kept(w, w1, #[trigger] walk(w, v, e, q), q) by {
        match walk(w, v, e, q) {
            Some(a) => {
                if gone(s, least, (a, q)) {
                    let t = choose|t: u64| t <= least && #[trigger] s.contains((t, (a, q)));
                    reveal(tidy);
                    reveal(tid);
                    let y = (t, (a, q));
                    assert(s.contains(y));
                    assert(tid(w, y, low, n));
                    assert(walk(w, v, e, y.1.1) != Some(y.1.0));
                }
                assert(at(w1, (a, q)) == at(w, (a, q)));
            }
            None => { }
        }
    }
    rep_less(w, w1, v, e, m);
    assert forall|q: Seq<u8>| #[trigger] walk(w1, v, e, q) == walk(w, v, e, q) by { walk_less(w, w1, v, e, m, q); }
}
pub proof fn purge_tidy(w: W, s: Stales, low: u64, n: u64, rv: u64, least: u64, w1: W, s1: Stales)
    requires tidy(w, s, low, n, rv), purged(w, s, least, w1, s1), spans(w, low, n, rv),
    ensures tidy(w1, s1, low_after(low, least, n), n, rv), forall|k: NK| #[trigger] w1.contains_key(k) ==> w.contains_key(k) && w1[k] == w[k],
        forall|v: u64| low_after(low, least, n) <= v < n ==> #[trigger] has_tree(w1, v) && tmap(w1, v) == tmap(w, v),
        // what is to be purged is there
        forall|x: (u64, NK)| #[trigger] s.contains(x) ==> w.contains_key(x.1),
{
    let lo = low_after(low, least, n);
    let e = Seq::<u8>::empty();
    assert forall|k: NK| #[trigger] w1.contains_key(k) implies w.contains_key(k) && w1[k] == w[k] by { assert(at(w1, k) is Some); }
    assert(n > 0 ==> low <= lo);
    assert forall|v: u64| lo <= v < n implies #[trigger] has_tree(w1, v) && tmap(w1, v) == tmap(w, v) by {
        let m = tmap(w, v);
        assert(has_tree(w, v));
        assert(holds(w, v, m));
        purge_keeps(w, s, low, n, rv, least, w1, s1, v, m);
        tmap_is(w1, v, m);
    }
    assert forall|x: (u64, NK)| #[trigger] s.contains(x) implies w.contains_key(x.1) by { reveal(tidy); reveal(tid); assert(tid(w, x, low, n)); }
    assert forall|x: (u64, NK)| #[trigger] s1.contains(x) implies tid(w1, x, lo, n) && x.0 <= rv by {
        reveal(tidy);
        assert(s.contains(x));
        assert(tid(w, x, low, n));
        reveal(tid);
        if gone(s, least, x.1) { let t = choose|t: u64| t <= least && #[trigger] s.contains((t, x.1)); assert(s.contains((t, x.1)) && s.contains(x)); }
        assert(at(w1, x.1) == at(w, x.1));
        assert forall|v: u64| x.0 <= v < n && lo <= v implies #[trigger] walk(w1, v, e, x.1.1) != Some(x.1.0) by {
            let m = tmap(w, v);
            assert(has_tree(w, v));
            assert(holds(w, v, m));
            purge_keeps(w, s, low, n, rv, least, w1, s1, v, m);
            assert(walk(w, v, e, x.1.1) != Some(x.1.0));
        }
    }
    assert forall|x: (u64, NK), y: (u64, NK)| #[trigger] s1.contains(x) && #[trigger] s1.contains(y) && x.1 == y.1 implies x == y by { reveal(tidy); assert(s.contains(x) && s.contains(y)); }
    reveal(tidy);
}
// ---------------------------------------------------------------- the two together: a store with its list of stale nodes
pub open spec fn kept_store<R: TreeReader, H: SimpleHasher>(r: R, s: Stales, low: u64, n: u64) -> bool {
    &&& store_ok::<R, H>(r, low, n) && tidy(r.nodes(), s, low, n, prev(n))
}
pub open spec fn prev(n: u64) -> u64 { if n == 0 { 0 } else { (n - 1) as u64 } }
pub proof fn store_spans<R: TreeReader, H: SimpleHasher>(r: R, low: u64, n: u64)
    requires store_ok::<R, H>(r, low, n),
    ensures spans(r.nodes(), low, n, prev(n)), n > 0 || low == 0,
{ reveal(store_ok); }
pub proof fn tidy_rv(w: W, s: Stales, low: u64, n: u64, rv: u64, rw: u64)
    requires tidy(w, s, low, n, rv), rv <= rw,
    ensures tidy(w, s, low, n, rw),
{ reveal(tidy); }
// an update: the store stays complete and tidy; what it reports stale was reached by the version before it and is not by the new one, and was never reported before
pub proof fn update_kept<R: TreeReader, H: SimpleHasher>(r0: R, s0: Stales, r1: R, s1: Stales, low: u64, n: u64, h: Seq<Ver>, roots: Seq<RootHash>, b: TreeUpdateBatch)
    requires kept_store::<R, H>(r0, s0, low, n), reported(h, n, r0.nodes(), roots, b), sets_vals::<H>(h, n, b.node_batch.values@), wrote(r0, r1, n, b.node_batch), n + h.len() < u64::MAX - 1,
        forall|y: (u64, NK)| #[trigger] s1.contains(y) <==> s0.contains(y) || b.stale_node_index_batch@.contains(y),
    ensures kept_store::<R, H>(r1, s1, low, (n + h.len()) as u64),
        forall|y: (u64, NK)| #[trigger] b.stale_node_index_batch@.contains(y) ==> !s0.contains(y) && n <= y.0 < n + h.len() && r1.nodes().contains_key(y.1) && walk(r1.nodes(), y.0, Seq::empty(), y.1.1) != Some(y.1.0),
{
    let w = r0.nodes();
    let v = prev_ver(w, n);
    update_ok::<R, H>(r0, r1, low, n, h, roots, b);
    store_spans::<R, H>(r0, low, n);
    assert(n == 0 ==> genesis(w, n));
    assert(v == prev(n));
    tidy_chain(h, n, w, v, prev_map(w, n), low, s0, s1);
    tidy_rv(r1.nodes(), s1, low, (n + h.len()) as u64, hv_(h, v), prev((n + h.len()) as u64));
    assert forall|y: (u64, NK)| #[trigger] b.stale_node_index_batch@.contains(y) implies !s0.contains(y) && n <= y.0 < n + h.len() && r1.nodes().contains_key(y.1) && walk(r1.nodes(), y.0, Seq::empty(), y.1.1) != Some(y.1.0) by {
        assert(stale_in(h, n, y));
        reveal(tidy);
        assert(s1.contains(y));
        reveal(tid);
        assert(tid(r1.nodes(), y, low, (n + h.len()) as u64));
        if s0.contains(y) { assert(tid(w, y, low, n)); }
    }
}
// a purge: the versions from the least readable one on stay as they are
pub proof fn purge_kept<R: TreeReader, H: SimpleHasher>(r0: R, s0: Stales, r1: R, s1: Stales, low: u64, n: u64, least: u64)
    requires kept_store::<R, H>(r0, s0, low, n), purged(r0.nodes(), s0, least, r1.nodes(), s1), forall|v: u64, k: Seq<u8>| #[trigger] r1.val(v, k) == r0.val(v, k),
    ensures kept_store::<R, H>(r1, s1, low_after(low, least, n), n), forall|x: (u64, NK)| #[trigger] s0.contains(x) ==> r0.nodes().contains_key(x.1),
        forall|v: u64| low_after(low, least, n) <= v < n ==> #[trigger] tmap(r1.nodes(), v) == tmap(r0.nodes(), v),
{
    let lo = low_after(low, least, n);
    store_spans::<R, H>(r0, low, n);
    purge_tidy(r0.nodes(), s0, low, n, prev(n), least, r1.nodes(), s1);
    assert forall|v: u64| lo <= v < n implies #[trigger] tmap(r1.nodes(), v) == tmap(r0.nodes(), v) by { assert(has_tree(r1.nodes(), v)); }
    assert(store_ok::<R, H>(r1, lo, n)) by {
        reveal(store_ok);
        assert forall|v: u64| lo <= v < n implies #[trigger] has_tree(r1.nodes(), v) by { assert(has_tree(r1.nodes(), v)); }
        assert forall|v: u64| lo <= v < n implies #[trigger] vals_ok::<R, H>(r1, v, tmap(r1.nodes(), v)) by { assert(tmap(r1.nodes(), v) == tmap(r0.nodes(), v)); assert(low <= v); assert(vals_ok::<R, H>(r0, v, tmap(r0.nodes(), v))); }
    }
    assert forall|v: u64| lo <= v < n implies #[trigger] tmap(r1.nodes(), v) == tmap(r0.nodes(), v) by { assert(has_tree(r1.nodes(), v)); }
}
// a new store
pub proof fn new_store<R: TreeReader, H: SimpleHasher>(r: R)
    requires r.nodes() == W::empty(), forall|v: u64, k: Seq<u8>| #[trigger] r.val(v, k) is None,
    ensures kept_store::<R, H>(r, Set::empty(), 0, 0),
{ reveal(store_ok); reveal(tidy); }
} // verus!
