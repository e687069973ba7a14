// jmt/src/tree.rs: inserting sorted batches
//@common self.batch_insert_at($a) ==> self.batch_insert_at($a, Ghost(rt_m), Ghost(rt_f))
//@common self.batch_create_subtree($a) ==> self.batch_create_subtree($a, Ghost(rt_m), Ghost(rt_f))
//@common self.batch_create_subtree_with_existing_leaf($a) ==> self.batch_create_subtree_with_existing_leaf($a, Ghost(rt_m), Ghost(rt_f))
//@common for ($id_l, $id_r) in NibbleRangeIterator::new($a) { $st_b } ==> let mut rt_it = NibbleRangeIterator::new($a); loop { match rt_it.next() { None => { break; } Some(($id_l, $id_r)) => { $st_b } } }
//@common &kvs[$id_l..=$id_r] ==> vstd::slice::slice_subrange(kvs, $id_l, $id_r + 1)
//@common .into() ==> .rt_into()
verus! {
pub type KSeq = Seq<(KeyHash, ValueHash)>;
pub open spec fn ovr(m: KV, s: KSeq, n: int) -> KV
    decreases n,
{ if n <= 0 { m } else { ovr(m, s, n - 1).insert(s[n - 1].0.0@, s[n - 1].1.0@) } }
pub open spec fn rising(s: KSeq) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> key_lt((#[trigger] s[i]).0.0@, (#[trigger] s[j]).0.0@) }
pub open spec fn all_pre(s: KSeq, p: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> npre(p, (#[trigger] s[i]).0.0@) }
pub proof fn ovr_split(m: KV, s: KSeq, a: int, n: int)
    requires 0 <= a, 0 <= n, a + n <= s.len(),
    ensures ovr(ovr(m, s, a), s.subrange(a, a + n), n) == ovr(m, s, a + n),
    decreases n,
{
    let t = s.subrange(a, a + n);
    if n > 0 {
        ovr_split(m, s, a, n - 1);
        ovr_prefix(ovr(m, s, a), s.subrange(a, a + n - 1), t, n - 1);
        assert(t[n - 1] == s[a + n - 1]);
    }
}
pub proof fn ovr_prefix(m: KV, s: KSeq, t: KSeq, n: int)
    requires forall|i: int| 0 <= i < n ==> s[i] == t[i],
    ensures ovr(m, s, n) == ovr(m, t, n),
    decreases n,
{ if n > 0 { ovr_prefix(m, s, t, n - 1); } }
pub proof fn ovr_facts(m: KV, s: KSeq, n: int)
    requires kv_ok(m), 0 <= n,
    ensures kv_ok(ovr(m, s, n)), ovr(m, s, n).len() <= m.len() + n, forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> ovr(m, s, n).contains_key(k), forall|i: int| 0 <= i < n ==> ovr(m, s, n).contains_key((#[trigger] s[i]).0.0@),
    decreases n,
{
    if n > 0 {
        ovr_facts(m, s, n - 1);
        let a = ovr(m, s, n - 1);
        let k = s[n - 1].0.0@;
        let h = s[n - 1].1.0@;
        upd_facts(a, k, Some(h));
        assert(upd(a, k, Some(h)) == ovr(m, s, n));
        assert forall|x: Seq<u8>| #[trigger] m.contains_key(x) implies ovr(m, s, n).contains_key(x) by { assert(a.contains_key(x)); }
    }
}
// updates elsewhere leave what is below q
pub proof fn ovr_away(m: KV, s: KSeq, n: int, q: Seq<u8>)
    requires forall|i: int| 0 <= i < n ==> !npre(q, (#[trigger] s[i]).0.0@),
    ensures agree_below(m, ovr(m, s, n), q),
    decreases n,
{ if n > 0 { ovr_away(m, s, n - 1, q); assert(!npre(q, s[n - 1].0.0@)); } }
// a key that is not updated keeps its value
pub proof fn ovr_other(m: KV, s: KSeq, n: int, k: Seq<u8>)
    requires forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).0.0@ != k,
    ensures same_key(m, ovr(m, s, n), k), ovr(m.remove(k), s, n).insert(k, m[k]) == ovr(m, s, n) || !m.contains_key(k),
    decreases n,
{
    if n > 0 {
        ovr_other(m, s, n - 1, k);
        let x = s[n - 1].0.0@;
        assert(x != k);
        if m.contains_key(k) { assert(ovr(m.remove(k), s, n).insert(k, m[k]) =~= ovr(m.remove(k), s, n - 1).insert(k, m[k]).insert(x, s[n - 1].1.0@)); }
    } else if m.contains_key(k) { assert(m.remove(k).insert(k, m[k]) =~= m); }
}
pub open spec fn same_key(m: KV, n: KV, k: Seq<u8>) -> bool { (m.contains_key(k) <==> n.contains_key(k)) && (m.contains_key(k) ==> m[k] == n[k]) }
pub proof fn ovr_none(m: KV, s: KSeq, n: int, p: Seq<u8>, q: Seq<u8>)
    requires nnone(m, p), isp(p, q), forall|i: int| 0 <= i < n ==> !npre(q, (#[trigger] s[i]).0.0@),
    ensures nnone(ovr(m, s, n), q),
{
    ovr_away(m, s, n, q);
    assert forall|k: Seq<u8>| !#[trigger] nund(ovr(m, s, n), q, k) by { if nund(ovr(m, s, n), q, k) { npre_down(p, q, k); assert(nund(m, p, k)); } }
}
pub proof fn key_lt_ne(a: Seq<u8>, b: Seq<u8>)
    requires key_lt(a, b),
    ensures a != b,
{ let i = choose|i: int| #[trigger] lt_at(a, b, i); assert(lt_at(a, b, i)); }
pub proof fn rising_sub(s: KSeq, a: int, b: int, p: Seq<u8>, x: u8)
    requires rising(s), all_pre(s, p), 0 <= a <= b <= s.len(), forall|i: int| a <= i < b ==> nibn((#[trigger] s[i]).0.0@, p.len() as int) == x,
    ensures rising(s.subrange(a, b)), all_pre(s.subrange(a, b), p.push(x)),
{
    let t = s.subrange(a, b);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies key_lt((#[trigger] t[i]).0.0@, (#[trigger] t[j]).0.0@) by { assert(t[i] == s[a + i] && t[j] == s[a + j]); }
    assert forall|i: int| 0 <= i < t.len() implies npre(p.push(x), (#[trigger] t[i]).0.0@) by { assert(t[i] == s[a + i]); npre_push(p, x, s[a + i].0.0@); }
}
pub proof fn rising_from(s: KSeq, p: Seq<u8>)
    requires rising(s), all_pre(s, p),
    ensures sorted_from(s, p.len() as int),
{
    assert forall|i: int, j: int, n: int| 0 <= i < j < s.len() && 0 <= n < p.len() implies #[trigger] nibn(s[i].0.0@, n) == #[trigger] nibn(s[j].0.0@, n) by { assert(nibn(s[i].0.0@, n) == p[n] && nibn(s[j].0.0@, n) == p[n]); }
}
// two keys below p: then p is not a whole key
pub proof fn many_short(m: KV, p: Seq<u8>)
    requires many(m, p), kv_ok(m), p.len() <= 64,
    ensures p.len() < 64,
{
    let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] two(m, p, a, b);
    if p.len() == 64 {
        assert(m.contains_key(a) && m.contains_key(b));
        npre_isp(p, a);
        npre_isp(p, b);
        isp_eq(p, nibs_of(a));
        isp_eq(p, nibs_of(b));
        nibs_eq(a, b);
    }
}
pub proof fn many_agree(m: KV, n: KV, p: Seq<u8>)
    requires many(m, p), agree_below(m, n, p),
    ensures many(n, p),
{ let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] two(m, p, a, b); assert(two(n, p, a, b)); }
pub proof fn many_two(m: KV, s: KSeq, p: Seq<u8>)
    requires rising(s), all_pre(s, p), s.len() > 1, kv_ok(m),
    ensures many(ovr(m, s, s.len() as int), p),
{
    ovr_facts(m, s, s.len() as int);
    key_lt_ne(s[0].0.0@, s[1].0.0@);
    assert(two(ovr(m, s, s.len() as int), p, s[0].0.0@, s[1].0.0@));
}
pub proof fn many_more(m: KV, s: KSeq, n: int, p: Seq<u8>)
    requires many(m, p), kv_ok(m), n >= 0,
    ensures many(ovr(m, s, n), p),
{ ovr_facts(m, s, n); let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] two(m, p, a, b); assert(two(ovr(m, s, n), p, a, b)); }
// ---------------------------------------------------------------- hashes computed beforehand
pub open spec fn touches(s: KSeq, q: Seq<u8>) -> bool { exists|i: int| 0 <= i < s.len() && npre(q, (#[trigger] s[i]).0.0@) }
pub type Hc<'a> = Option<&'a HashMap<NibblePath, [u8; 32]>>;
// there is one, and the right one, for every node below p that this batch makes on its way to f
pub open spec fn hc_ok(hc: Hc, f: KV, s: KSeq, p: Seq<u8>) -> bool {
    hc matches Some(c) ==> (forall|q: Seq<u8>| isp(p, q) && p.len() < q.len() <= 64 && nibs16(q) && touches(s, q) && many(f, q.drop_last()) ==> #[trigger] c@.contains_key(q) && c@[q]@ == smt(f, pb(q)))
}
pub proof fn hc_down(hc: Hc, f: KV, s: KSeq, p: Seq<u8>, x: u8, a: int, b: int)
    requires hc_ok(hc, f, s, p), 0 <= a <= b <= s.len(),
    ensures hc_ok(hc, f, s.subrange(a, b), p.push(x)),
{
    let t = s.subrange(a, b);
    if hc is Some {
        let c = hc->0;
        assert forall|q: Seq<u8>| isp(p.push(x), q) && p.push(x).len() < q.len() <= 64 && nibs16(q) && touches(t, q) && many(f, q.drop_last()) implies #[trigger] c@.contains_key(q) && c@[q]@ == smt(f, pb(q)) by {
            isp_push(p, x, q);
            let i = choose|i: int| 0 <= i < t.len() && npre(q, (#[trigger] t[i]).0.0@);
            assert(t[i] == s[a + i]);
            assert(touches(s, q));
        }
    }
}
pub open spec fn hc_has(hc: Hc, q: Seq<u8>, h: Seq<u8>) -> bool { hc matches Some(c) ==> c@.contains_key(q) && c@[q]@ == h }
// ---------------------------------------------------------------- one child after another
pub open spec fn batch_done(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, p: Seq<u8>, m: KV, w1: W, s1: Set<NK>, x: (NodeKey, Node)) -> bool {
    &&& x.0.wf() && x.0.nk() == (ver, p) && w1.contains_key((ver, p)) && w1[(ver, p)] == x.1 && !(x.1 is Null) && x.1.wf()
    &&& rep(w1, ver, p, m) && local(ver, w0, s0, ov, w1, s1, Some(ver), p) && outside(w0, s0, w1, s1, p)
}
pub proof fn mid_none(ver: u64, w0: W, s0: Set<NK>, p: Seq<u8>, m: KV, cs: Cs)
    requires clean(ver, w0, s0, None, p), nnone(m, p), cs.len() == 16, vacant(cs, 0, 16),
    ensures mid(ver, w0, s0, None, w0, s0, p, m, cs),
{
    reveal(mid);
    assert forall|i: int| 0 <= i < 16 implies crep(w0, ver, p, m, #[trigger] cs[i], i) by {
        assert(cs[i] is None);
        let q = p.push(i as u8);
        assert forall|z: Seq<u8>| !#[trigger] nund(m, q, z) by { if nund(m, q, z) { npre_push(p, i as u8, z); assert(nund(m, p, z)); } }
    }
    assert forall|i: u8| i < 16 implies #[trigger] lkid(ver, w0, s0, None, w0, s0, cs, p, i) by {
        assert(cs[i as int] is None);
        clean_kid(ver, w0, s0, None, p, i);
        local_same(ver, w0, s0, None, p.push(i));
    }
    clean_here(ver, w0, s0, None, p);
    assert(tip(ver, w0, s0, None, s0, p)) by { assert forall|a: u64| #[trigger] tipq(ver, w0, s0, None, s0, p, a) by { } }
}
pub proof fn mid_old(ver: u64, w0: W, s0: Set<NK>, v: u64, w1: W, s1: Set<NK>, p: Seq<u8>, m: KV, n: InternalNode, k: Seq<u8>)
    requires rep(w0, v, p, m), w0[(v, p)] == Node::Internal(n), clean(ver, w0, s0, Some(v), p), vo(v) <= vo(ver), kv_ok(m), deleted(ver, w0, s0, w1, s1, (v, p)), k.len() == 32, npre(p, k),
    ensures mid(ver, w0, s0, Some(v), w1, s1, p, m, n.cs()),
{
    rep_internal(w0, v, p, m);
    let x = nibn(k, p.len() as int);
    nib16(k, p.len() as int);
    let val = if m.contains_key(k) { Some(m[k]) } else { None };
    assert(upd(m, k, val) =~= m);
    let o = n.cs()[x as int];
    clean_kid(ver, w0, s0, Some(v), p, x);
    local_same(ver, w0, s0, kid(w0, Some(v), p, x), p.push(x));
    assert(kid(w0, Some(v), p, x) == vopt(o));
    assert(crep(w0, v, p, m, o, x as int));
    crep_frame(w0, w0, v, ver, p, m, m, o, x as int);
    assert(n.cs().update(x as int, o) =~= n.cs());
    mid_start(ver, w0, s0, v, w0, s0, w1, s1, p, m, k, val, n, x, o);
}
pub proof fn mid_child(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, w: W, s: Set<NK>, p: Seq<u8>, m: KV, cs: Cs, x: u8)
    requires mid(ver, w0, s0, ov, w, s, p, m, cs), clean(ver, w0, s0, ov, p), x < 16,
    ensures clean(ver, w, s, vopt(cs[x as int]), p.push(x)), crep(w, ver, p, m, cs[x as int], x as int), !w.contains_key((ver, p)), cs.len() == 16,
        cs[x as int] matches Some(c) ==> w.contains_key((c.version, p.push(x))) && !(w[(c.version, p.push(x))] is Null) && rep(w, c.version, p.push(x), m),
        cs[x as int] is None ==> nnone(m, p.push(x)),
{
    reveal(mid);
    assert(lkid(ver, w0, s0, ov, w, s, cs, p, x));
    clean_kid(ver, w0, s0, ov, p, x);
    local_clean(ver, w0, s0, kid(w0, ov, p, x), w, s, vopt(cs[x as int]), p.push(x));
    assert(crep(w, ver, p, m, cs[x as int], x as int));
}
pub open spec fn agree_off(m: KV, n: KV, p: Seq<u8>, x: u8) -> bool { forall|y: u8| y < 16 && y != x ==> agree_below(m, n, #[trigger] p.push(y)) }
pub proof fn mid_more(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, w: W, s: Set<NK>, p: Seq<u8>, m: KV, cs: Cs, x: u8, w2: W, s2: Set<NK>, o: Option<Child>, m2: KV)
    requires mid(ver, w0, s0, ov, w, s, p, m, cs), clean(ver, w0, s0, ov, p), x < 16, olds(ver, w0, w), outside(w, s, w2, s2, p.push(x)), local(ver, w, s, vopt(cs[x as int]), w2, s2, vopt(o), p.push(x)), crep(w2, ver, p, m2, o, x as int), agree_off(m, m2, p, x),
    ensures mid(ver, w0, s0, ov, w2, s2, p, m2, cs.update(x as int, o)),
{
    reveal(mid);
    let c2 = cs.update(x as int, o);
    let px = p.push(x);
    isp_push(p, x, p);
    assert(kids(w2, ver, p, m2, c2)) by {
        assert forall|i: int| 0 <= i < 16 implies crep(w2, ver, p, m2, #[trigger] c2[i], i) by {
            if i != x {
                assert(crep(w, ver, p, m, cs[i], i));
                outside_inside(w, s, w2, s2, p, x, i as u8);
                inside_same(w, s, w2, s2, p.push(i as u8));
                assert(agree_below(m, m2, p.push(i as u8)));
                crep_frame(w, w2, ver, ver, p, m, m2, cs[i], i);
            }
        }
    }
    assert forall|i: u8| i < 16 implies #[trigger] lkid(ver, w0, s0, ov, w2, s2, c2, p, i) by {
        assert(lkid(ver, w0, s0, ov, w, s, cs, p, i));
        if i != x {
            outside_inside(w, s, w2, s2, p, x, i);
            local_then(ver, w0, s0, kid(w0, ov, p, i), w, s, vopt(cs[i as int]), p.push(i), w2, s2);
        } else { local_trans(ver, w0, s0, kid(w0, ov, p, x), w, s, vopt(cs[x as int]), w2, s2, vopt(o), px); }
    }
    assert(tip(ver, w0, s0, ov, s2, p)) by { assert forall|a: u64| #[trigger] tipq(ver, w0, s0, ov, s2, p, a) by { assert(tipq(ver, w0, s0, ov, s, p, a)); assert(same_at(w, s, w2, s2, (a, p))); } }
    assert(rim(w0, s0, w2, s2, p)) by { assert forall|k: NK| isp(p, k.1) && p.len() < k.1.len() && k.1[p.len() as int] >= 16 implies #[trigger] same_at(w0, s0, w2, s2, k) by { assert(same_at(w0, s0, w, s, k)); isp_push(p, x, k.1); assert(same_at(w, s, w2, s2, k)); } }
    isp_self(p);
    isp_self(px);
    isp_push(p, x, px);
    outside_trans(w0, s0, w, s, w2, s2, p, px, p);
    assert(same_at(w, s, w2, s2, (ver, p)));
}
// a node with two keys below it has children fit for an internal node
pub proof fn mid_ok(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, w: W, s: Set<NK>, p: Seq<u8>, m: KV, cs: Cs)
    requires mid(ver, w0, s0, ov, w, s, p, m, cs), many(m, p), kv_ok(m), p.len() < 64,
    ensures node_ok(cs), lknown(cs, 16) <= m.len(), !w.contains_key((ver, p)),
{
    reveal(mid);
    many_not_one(m, p);
    if vacant(cs, 0, 16) { kids_none(w, ver, p, m, cs); }
    if lone(cs, 0, 16) { let j = choose|j: int| #[trigger] sole_leaf(cs, 0, 16, j); kids_lone(w, ver, p, m, cs, j); }
    kids_fit(w, ver, p, m, cs);
}
// the next run of keys: those whose nibble at p is x
pub open spec fn run_at(s: KSeq, p: Seq<u8>, a: int, b: int, x: u8) -> bool {
    &&& 0 <= a < b <= s.len() && x < 16
    &&& forall|i: int| a <= i < b ==> nibn((#[trigger] s[i]).0.0@, p.len() as int) == x
    &&& forall|i: int| 0 <= i < a ==> nibn((#[trigger] s[i]).0.0@, p.len() as int) < x
    &&& forall|i: int| b <= i < s.len() ==> nibn((#[trigger] s[i]).0.0@, p.len() as int) > x
}
// what the maps before, after and at the end have in common
pub proof fn run_maps(m: KV, s: KSeq, p: Seq<u8>, a: int, b: int, x: u8, f: KV)
    requires run_at(s, p, a, b, x), all_pre(s, p), kv_ok(m), agree_below(ovr(m, s, s.len() as int), f, p),
    ensures ovr(ovr(m, s, a), s.subrange(a, b), b - a) == ovr(m, s, b), agree_off(ovr(m, s, a), ovr(m, s, b), p, x), agree_below(ovr(m, s, b), f, p.push(x)), agree_below(m, ovr(m, s, a), p.push(x)),
{
    let t = s.subrange(a, b);
    let n = s.len() as int;
    ovr_split(m, s, a, b - a);
    assert forall|y: u8| y < 16 && y != x implies agree_below(ovr(m, s, a), ovr(m, s, b), #[trigger] p.push(y)) by {
        assert forall|i: int| 0 <= i < b - a implies !npre(p.push(y), (#[trigger] t[i]).0.0@) by { assert(t[i] == s[a + i]); npre_push(p, y, s[a + i].0.0@); }
        ovr_away(ovr(m, s, a), t, b - a, p.push(y));
    }
    let u = s.subrange(b, n);
    ovr_split(m, s, b, n - b);
    assert forall|i: int| 0 <= i < n - b implies !npre(p.push(x), (#[trigger] u[i]).0.0@) by { assert(u[i] == s[b + i]); npre_push(p, x, s[b + i].0.0@); }
    ovr_away(ovr(m, s, b), u, n - b, p.push(x));
    agree_push(ovr(m, s, n), f, p, x);
    assert forall|i: int| 0 <= i < a implies !npre(p.push(x), (#[trigger] s[i]).0.0@) by { npre_push(p, x, s[i].0.0@); }
    ovr_away(m, s, a, p.push(x));
}
// the child that was made has the hash that is used for it
pub proof fn run_hash(ver: u64, w: W, p: Seq<u8>, x: u8, s: KSeq, a: int, b: int, m: KV, f: KV, hc: Hc, n: Node)
    requires rep(w, ver, p.push(x), m), w[(ver, p.push(x))] == n, agree_below(m, f, p.push(x)), hc_ok(hc, f, s, p), many(f, p), run_at(s, p, a, b, x), all_pre(s, p), p.len() < 64, nibs16(p), kv_ok(f),
    ensures hc_has(hc, p.push(x), n.hsh()),
{
    let px = p.push(x);
    rep_frame(w, w, ver, px, m, f);
    assert(nibs16(px)) by { assert forall|i: int| 0 <= i < px.len() implies #[trigger] px[i] < 16 by { if i < p.len() { assert(p[i] < 16); } } }
    rep_smt(w, ver, px, f);
    npre_push(p, x, s[a].0.0@);
    assert(npre(px, s[a].0.0@));
    assert(touches(s, px));
    isp_push(p, x, px);
    isp_self(px);
    assert(px.drop_last() =~= p);
    if hc is Some { assert(hc->0@.contains_key(px)); }
}
// one child more
pub proof fn run_mid(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, w: W, s: Set<NK>, p: Seq<u8>, m: KV, cs: Cs, x: u8, w2: W, s2: Set<NK>, c: Child, n: Node, m2: KV)
    requires mid(ver, w0, s0, ov, w, s, p, m, cs), clean(ver, w0, s0, ov, p), x < 16, olds(ver, w0, w), p.len() < 64, kv_ok(m2), agree_off(m, m2, p, x),
        rep(w2, ver, p.push(x), m2), w2[(ver, p.push(x))] == n, !(n is Null), local(ver, w, s, vopt(cs[x as int]), w2, s2, Some(ver), p.push(x)), outside(w, s, w2, s2, p.push(x)), entry_ok(c, ver, n),
    ensures mid(ver, w0, s0, ov, w2, s2, p, m2, cs.update(x as int, Some(c))),
{
    child_of(w2, ver, p, m2, x, c, n);
    mid_more(ver, w0, s0, ov, w, s, p, m, cs, x, w2, s2, Some(c), m2);
}
pub open spec fn entry_ok(c: Child, ver: u64, n: Node) -> bool {
    &&& c.version == ver && c.hash@ == n.hsh() && (c.node_type is Leaf <==> n is Leaf)
    &&& match c.node_type { NodeType::Leaf => n is Leaf, NodeType::InternalLegacy => n.lc() is None, NodeType::Internal { leaf_count } => n.lc() == Some(leaf_count as int) }
}
// the node above, at last
pub proof fn run_fin(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, w: W, s: Set<NK>, p: Seq<u8>, m: KV, cs: Cs, w1: W, n: InternalNode, x: (NodeKey, Node))
    requires mid(ver, w0, s0, ov, w, s, p, m, cs), clean(ver, w0, s0, ov, p), w1 == w.insert((ver, p), Node::Internal(n)), n.cs() == cs, n.wf(), p.len() < 64, x.0.wf(), x.0.nk() == (ver, p), x.1 == Node::Internal(n),
    ensures batch_done(ver, w0, s0, ov, p, m, w1, s, x),
{ mid_fin(ver, w0, s0, ov, w, s, p, m, cs, w1, n); }
impl<'a, R: TreeReader> TreeCache<'a, R> {
    pub open spec fn batch_pre(&self, version: u64, node_key: NodeKey, kvs: KSeq, depth: usize, hc: Hc, m: KV, f: KV) -> bool {
        let p = node_key.p();
        &&& self.wf() && version == self.ver() && node_key.wf() && depth == p.len() && p.len() <= 64 && nibs16(p)
        &&& kvs.len() > 0 && rising(kvs) && all_pre(kvs, p) && kv_ok(m) && kv_ok(f) && m.len() + kvs.len() < usize::MAX
        &&& agree_below(ovr(m, kvs, kvs.len() as int), f, p) && hc_ok(hc, f, kvs, p)
    }
}
pub open spec fn run_next(it0: NibbleRangeIterator, it1: NibbleRangeIterator, a: int, b: int) -> bool {
    &&& it0.pos == a && a <= b < it0.sorted_kvs@.len() && it1.pos == b + 1
    &&& forall|i: int| a <= i <= b ==> #[trigger] it0.nib(i) == it0.nib(a)
    &&& b + 1 < it0.sorted_kvs@.len() ==> it0.nib(b + 1) > it0.nib(a)
}
// the runs so far had smaller nibbles
pub open spec fn behind(it: NibbleRangeIterator) -> bool { forall|i: int, j: int| 0 <= i < it.pos <= j < it.sorted_kvs@.len() ==> #[trigger] it.nib(i) < #[trigger] it.nib(j) }
pub proof fn run_is(it0: NibbleRangeIterator, it1: NibbleRangeIterator, s: KSeq, p: Seq<u8>, a: int, b: int)
    requires it0.wf(), it0.sorted_kvs@ == s, it0.nibble_idx == p.len(), run_next(it0, it1, a, b), behind(it0), it1.sorted_kvs == it0.sorted_kvs, it1.nibble_idx == it0.nibble_idx, p.len() < 64,
    ensures run_at(s, p, a, b + 1, nibn(s[a].0.0@, p.len() as int)), behind(it1),
{
    let x = nibn(s[a].0.0@, p.len() as int);
    nib16(s[a].0.0@, p.len() as int);
    assert forall|i: int| a <= i < b + 1 implies nibn((#[trigger] s[i]).0.0@, p.len() as int) == x by { assert(it0.nib(i) == it0.nib(a)); }
    assert forall|i: int| 0 <= i < a implies nibn((#[trigger] s[i]).0.0@, p.len() as int) < x by { assert(it0.nib(i) < it0.nib(a)); }
    assert forall|i: int| b + 1 <= i < s.len() implies nibn((#[trigger] s[i]).0.0@, p.len() as int) > x by { assert(it0.nib(b + 1) <= it0.nib(i)); }
    assert forall|i: int, j: int| 0 <= i < it1.pos <= j < it1.sorted_kvs@.len() implies #[trigger] it1.nib(i) < #[trigger] it1.nib(j) by {
        assert(it0.nib(b + 1) <= it0.nib(j));
        if i < a { assert(it0.nib(i) < it0.nib(j)); } else { assert(it0.nib(i) == it0.nib(a)); }
    }
}
pub proof fn less_facts(m: KV, p: Seq<u8>, k: Seq<u8>)
    requires nonly(m, p, k), kv_ok(m),
    ensures nnone(m.remove(k), p), kv_ok(m.remove(k)), m.remove(k).len() <= m.len(),
{
    let mr = m.remove(k);
    assert forall|x: Seq<u8>| !#[trigger] nund(mr, p, x) by { if nund(mr, p, x) { assert(nund(m, p, x)); } }
    assert(mr.dom() =~= m.dom().remove(k));
    assert forall|x: Seq<u8>| #[trigger] mr.contains_key(x) implies x.len() == 32 && mr[x].len() == 32 by { assert(m.contains_key(x)); }
}
pub proof fn ovr_less(m: KV, s: KSeq, n: int, q: Seq<u8>, k: Seq<u8>)
    requires !npre(q, k),
    ensures agree_below(ovr(m.remove(k), s, n), ovr(m, s, n), q),
    decreases n,
{ if n > 0 { ovr_less(m, s, n - 1, q, k); } }
pub proof fn agree_trans(a: KV, b: KV, c: KV, p: Seq<u8>)
    requires agree_below(a, b, p), agree_below(b, c, p),
    ensures agree_below(a, c, p),
{ }
pub proof fn nonly_agree(m: KV, n: KV, p: Seq<u8>, q: Seq<u8>, k: Seq<u8>)
    requires nonly(m, p, k), isp(p, q), npre(q, k), agree_below(m, n, q),
    ensures nonly(n, q, k), n[k] == m[k],
{
    assert(nund(m, p, k));
    assert(m.contains_key(k) && n.contains_key(k));
    assert forall|x: Seq<u8>| #[trigger] nund(n, q, x) implies x == k by { assert(m.contains_key(x)); npre_down(p, q, x); assert(nund(m, p, x)); }
}
// the leaf that was there goes into the first run of its nibble
pub proof fn less_run(m: KV, mr: KV, s: KSeq, p: Seq<u8>, k: Seq<u8>, a: int, b: int, x: u8)
    requires nonly(m, p, k), mr == m.remove(k), run_at(s, p, a, b, x), all_pre(s, p), kv_ok(m), kv_ok(mr), agree_off(ovr(mr, s, a), ovr(mr, s, b), p, x) || agree_off(ovr(m, s, a), ovr(m, s, b), p, x), agree_below(m, ovr(m, s, a), p.push(x)),
    ensures x != nibn(k, p.len() as int) ==> agree_below(ovr(mr, s, b), ovr(m, s, b), p.push(x)),
        x == nibn(k, p.len() as int) ==> nonly(ovr(m, s, a), p.push(x), k) && ovr(m, s, a)[k] == m[k] && (agree_off(ovr(mr, s, a), ovr(mr, s, b), p, x) ==> agree_off(ovr(mr, s, a), ovr(m, s, b), p, x)),
        agree_below(ovr(m, s, b), ovr(m, s, b), p.push(x)),
{
    let px = p.push(x);
    assert(nund(m, p, k));
    npre_push(p, x, k);
    isp_push(p, x, px);
    isp_self(px);
    if x != nibn(k, p.len() as int) { ovr_less(m, s, b, px, k); }
    else {
        nonly_agree(m, ovr(m, s, a), p, px, k);
        if agree_off(ovr(mr, s, a), ovr(mr, s, b), p, x) {
            assert forall|y: u8| y < 16 && y != x implies agree_below(ovr(mr, s, a), ovr(m, s, b), #[trigger] p.push(y)) by {
                npre_push(p, y, k);
                ovr_less(m, s, b, p.push(y), k);
                agree_trans(ovr(mr, s, a), ovr(mr, s, b), ovr(m, s, b), p.push(y));
            }
        }
    }
}
pub proof fn leaf_back(ver: u64, w0: W, s0: Set<NK>, w: W, s: Set<NK>, p: Seq<u8>, m: KV, cs: Cs, x: u8, l: LeafNode, c: Child, m2: KV)
    requires mid(ver, w0, s0, None, w, s, p, m, cs), clean(ver, w0, s0, None, p), x < 16, olds(ver, w0, w), p.len() < 64, cs[x as int] is None, npre(p.push(x), l.k()), npre(p, l.k()), kv_ok(m2), m2 == m.insert(l.k(), l.v()), c.version == ver, c.hash@ == Node::Leaf(l).hsh(), c.node_type is Leaf, nibn(l.k(), p.len() as int) == x,
    ensures mid(ver, w0, s0, None, w.insert((ver, p.push(x)), Node::Leaf(l)), s, p, m2, cs.update(x as int, Some(c))),
{
    let w2 = w.insert((ver, p.push(x)), Node::Leaf(l));
    mid_child(ver, w0, s0, None, w, s, p, m, cs, x);
    leaf_new(ver, w, s, p.push(x), m, w2, l);
    assert(upd(m, l.k(), Some(l.v())) == m2);
    assert(agree_off(m, m2, p, x)) by { assert forall|y: u8| y < 16 && y != x implies agree_below(m, m2, #[trigger] p.push(y)) by { npre_push(p, y, l.k()); } }
    run_mid(ver, w0, s0, None, w, s, p, m, cs, x, w2, s, c, Node::Leaf(l), m2);
}
pub proof fn rep_has(w: W, v: u64, p: Seq<u8>, m: KV)
    requires rep(w, v, p, m),
    ensures w.contains_key((v, p)), w[(v, p)] is Null ==> nnone(m, p),
{ }
pub proof fn rep_has_leaf(w: W, v: u64, p: Seq<u8>, m: KV)
    requires rep(w, v, p, m), w[(v, p)] is Leaf,
    ensures nonly(m, p, w[(v, p)]->Leaf_0.k()), m[w[(v, p)]->Leaf_0.k()] == w[(v, p)]->Leaf_0.v(),
{ }
pub proof fn done_after(ver: u64, w0: W, s0: Set<NK>, v: u64, p: Seq<u8>, m: KV, w1: W, s1: Set<NK>, w2: W, s2: Set<NK>, x: (NodeKey, Node))
    requires local(ver, w0, s0, Some(v), w1, s1, None, p), outside(w0, s0, w1, s1, p), batch_done(ver, w1, s1, None, p, m, w2, s2, x), olds(ver, w0, w1),
    ensures batch_done(ver, w0, s0, Some(v), p, m, w2, s2, x),
{
    local_trans(ver, w0, s0, Some(v), w1, s1, None, w2, s2, Some(ver), p);
    isp_self(p);
    outside_trans(w0, s0, w1, s1, w2, s2, p, p, p);
}
impl<R: TreeReader, H: SimpleHasher> JellyfishMerkleTree<R, H> {
//@fn jmt/src/tree.rs JellyfishMerkleTree::get_hash props C10
//@rewrite? unreachable!($a) ==> rt_unreachable()
//@spec
    requires node_key.wf(), node.wf(), hc_has(*hash_cache, node_key.p(), node.hsh()),
    ensures r@ == node.hsh(),
//@end
//@fn jmt/src/tree.rs JellyfishMerkleTree::batch_create_subtree props C09 C10 C16 C21
//@sig tree_cache: &mut TreeCache<R> ==> tree_cache: &mut TreeCache<R>, Ghost(rt_m): Ghost<KV>, Ghost(rt_f): Ghost<KV>
//@spec
    requires old(tree_cache).batch_pre(version, node_key, kvs@, depth, *hash_cache, rt_m, rt_f), node_key.version == version, nnone(rt_m, node_key.p()), clean(version, old(tree_cache).w(), old(tree_cache).st(), None, node_key.p()),
    ensures r matches Ok(x) && final(tree_cache).wf() && final(tree_cache).same_env(*old(tree_cache))
            && batch_done(version, old(tree_cache).w(), old(tree_cache).st(), None, node_key.p(), ovr(rt_m, kvs@, kvs@.len() as int), final(tree_cache).w(), final(tree_cache).st(), x),
    decreases 64 - depth,
//@start
    let ghost c0 = *tree_cache;
    let ghost w0 = c0.w();
    let ghost s0 = c0.st();
    let ghost p = node_key.p();
    let ghost s = kvs@;
    let ghost m0 = rt_m;
    let ghost n = s.len() as int;
    proof {
        assert(kvs.len() == s.len());
        clean_here(version, w0, s0, None, p);
        cache_old(c0, (version, p));
        if n == 1 {
            reveal_with_fuel(ovr, 2);
            assert(npre(p, s[0].0.0@));
            assert forall|l: LeafNode| l.k() == s[0].0.0@ && l.v() == s[0].1.0@ implies rep(#[trigger] w0.insert((version, p), Node::Leaf(l)), version, p, ovr(m0, s, 1)) && local(version, w0, s0, None, w0.insert((version, p), Node::Leaf(l)), s0, Some(version), p) && outside(w0, s0, w0.insert((version, p), Node::Leaf(l)), s0, p) by {
                leaf_new(version, w0, s0, p, m0, w0.insert((version, p), Node::Leaf(l)), l);
            }
        } else {
            many_two(m0, s, p);
            ovr_facts(m0, s, n);
            many_short(ovr(m0, s, n), p);
            many_agree(ovr(m0, s, n), rt_f, p);
            rising_from(s, p);
        }
    }
//@before let mut rt_it =
    proof { mid_none(version, w0, s0, p, m0, children.cs()); assert(ovr(m0, s, 0) == m0); }
//@loop 0
    invariant
        c0.batch_pre(version, node_key, s, depth, *hash_cache, m0, rt_f), s == kvs@, p == node_key.p(), p.len() < 64, n == s.len(), many(rt_f, p), w0 == c0.w(), s0 == c0.st(), nnone(m0, p), clean(version, w0, s0, None, p), node_key.version == version,
        rt_it.wf(), rt_it.sorted_kvs == kvs, rt_it.nibble_idx == depth, behind(rt_it), children.wf(), tree_cache.wf(), tree_cache.same_env(c0),
        mid(version, w0, s0, None, tree_cache.w(), tree_cache.st(), p, ovr(m0, s, rt_it.pos as int), children.cs()),
        forall|j: int| rt_it.pos <= j < n ==> children.cs()[(#[trigger] rt_it.nib(j)) as int] is None,
    ensures rt_it.pos == n,
    decreases n - rt_it.pos,
//@loopstart 0
    let ghost it0 = rt_it;
//@before let child_index =
    let ghost a = left as int;
    let ghost b = right + 1;
    let ghost c1 = *tree_cache;
    let ghost x = nibn(s[a].0.0@, p.len() as int);
    let ghost rt_m = ovr(m0, s, a);
    proof {
        run_is(it0, rt_it, s, p, a, right as int);
        run_maps(m0, s, p, a, b, x, rt_f);
        rising_sub(s, a, b, p, x);
        hc_down(*hash_cache, rt_f, s, p, x, a, b);
        assert(it0.nib(a) == x);
        assert(children.cs()[x as int] is None);
        mid_child(version, w0, s0, None, c1.w(), c1.st(), p, rt_m, children.cs(), x);
        ovr_facts(m0, s, a);
        ovr_facts(m0, s, b);
        assert forall|i: int| 0 <= i < p.push(x).len() implies #[trigger] p.push(x)[i] < 16 by { if i < p.len() { assert(p[i] < 16); } }
    }
//@before children.insert($a)
    let ghost c2 = *tree_cache;
    let ghost cs1 = children.cs();
    proof {
        run_hash(version, c2.w(), p, x, s, a, b, ovr(m0, s, b), rt_f, *hash_cache, new_child_node);
        cache_olds(c0, c1);
        assert forall|c: Child| entry_ok(c, version, new_child_node) implies mid(version, w0, s0, None, c2.w(), c2.st(), p, ovr(m0, s, b), #[trigger] cs1.update(x as int, Some(c))) by { run_mid(version, w0, s0, None, c1.w(), c1.st(), p, rt_m, cs1, x, c2.w(), c2.st(), c, new_child_node, ovr(m0, s, b)); }
    }
//@loopend 0
    proof { assert forall|j: int| rt_it.pos <= j < n implies children.cs()[(#[trigger] rt_it.nib(j)) as int] is None by { assert(it0.nib(j) > it0.nib(it0.pos as int)); nib16(s[j].0.0@, p.len() as int); } }
//@before let new_internal_node =
    let ghost c3 = *tree_cache;
    proof {
        ovr_facts(m0, s, n);
        many_two(m0, s, p);
        mid_ok(version, w0, s0, None, c3.w(), c3.st(), p, ovr(m0, s, n), children.cs());
        cache_old(c3, (version, p));
        assert forall|x: (NodeKey, Node)| x.0.wf() && x.0.nk() == (version, p) && (x.1 matches Node::Internal(i) && i.cs() == children.cs() && i.wf()) implies #[trigger] batch_done(version, w0, s0, None, p, ovr(m0, s, n), c3.w().insert((version, p), x.1), c3.st(), x) by { run_fin(version, w0, s0, None, c3.w(), c3.st(), p, ovr(m0, s, n), children.cs(), c3.w().insert((version, p), x.1), x.1->Internal_0, x); }
    }
//@end
//@fn jmt/src/tree.rs JellyfishMerkleTree::batch_create_subtree_with_existing_leaf props C09 C10 C16 C21
//@sig tree_cache: &mut TreeCache<R> ==> tree_cache: &mut TreeCache<R>, Ghost(rt_m): Ghost<KV>, Ghost(rt_f): Ghost<KV>
//@spec
    requires old(tree_cache).batch_pre(version, node_key, kvs@, depth, *hash_cache, rt_m, rt_f), node_key.version == version, nonly(rt_m, node_key.p(), existing_leaf_node.k()), rt_m[existing_leaf_node.k()] == existing_leaf_node.v(), clean(version, old(tree_cache).w(), old(tree_cache).st(), None, node_key.p()),
    ensures r matches Ok(x) && final(tree_cache).wf() && final(tree_cache).same_env(*old(tree_cache))
            && batch_done(version, old(tree_cache).w(), old(tree_cache).st(), None, node_key.p(), ovr(rt_m, kvs@, kvs@.len() as int), final(tree_cache).w(), final(tree_cache).st(), x),
    decreases 64 - depth,
//@start
    let ghost c0 = *tree_cache;
    let ghost w0 = c0.w();
    let ghost s0 = c0.st();
    let ghost p = node_key.p();
    let ghost s = kvs@;
    let ghost m0 = rt_m;
    let ghost n = s.len() as int;
    let ghost lk = existing_leaf_node.k();
    let ghost mr = m0.remove(lk);
    proof {
        assert(kvs.len() == s.len());
        assert(nund(m0, p, lk));
        assert(lk.len() == 32);
        less_facts(m0, p, lk);
        clean_here(version, w0, s0, None, p);
        cache_old(c0, (version, p));
        if n == 1 && s[0].0.0@ == lk {
            reveal_with_fuel(ovr, 2);
            assert forall|l: LeafNode| l.k() == s[0].0.0@ && l.v() == s[0].1.0@ implies rep(#[trigger] w0.insert((version, p), Node::Leaf(l)), version, p, ovr(m0, s, 1)) && local(version, w0, s0, None, w0.insert((version, p), Node::Leaf(l)), s0, Some(version), p) && outside(w0, s0, w0.insert((version, p), Node::Leaf(l)), s0, p) by {
                leaf_new(version, w0, s0, p, m0, w0.insert((version, p), Node::Leaf(l)), l);
            }
        } else {
            ovr_facts(m0, s, n);
            if n > 1 { many_two(m0, s, p); } else { assert(npre(p, s[0].0.0@)); assert(two(ovr(m0, s, n), p, lk, s[0].0.0@)); }
            many_short(ovr(m0, s, n), p);
            many_agree(ovr(m0, s, n), rt_f, p);
            rising_from(s, p);
            nib16(lk, p.len() as int);
        }
    }
//@before let mut rt_it =
    let ghost xb = nibn(lk, p.len() as int);
    proof { mid_none(version, w0, s0, p, mr, children.cs()); assert(ovr(mr, s, 0) == mr); }
//@loop 0
    invariant
        c0.batch_pre(version, node_key, s, depth, *hash_cache, m0, rt_f), s == kvs@, p == node_key.p(), p.len() < 64, n == s.len(), many(rt_f, p), many(ovr(m0, s, n), p), w0 == c0.w(), s0 == c0.st(), clean(version, w0, s0, None, p), node_key.version == version,
        lk == existing_leaf_node.k(), m0[lk] == existing_leaf_node.v(), nonly(m0, p, lk), mr == m0.remove(lk), nnone(mr, p), kv_ok(mr), mr.len() <= m0.len(), xb == nibn(lk, p.len() as int), xb < 16, existing_leaf_bucket.v() == xb, npre(p, lk), lk.len() == 32,
        rt_it.wf(), rt_it.sorted_kvs == kvs, rt_it.nibble_idx == depth, behind(rt_it), children.wf(), tree_cache.wf(), tree_cache.same_env(c0),
        mid(version, w0, s0, None, tree_cache.w(), tree_cache.st(), p, ovr(if isolated_existing_leaf { mr } else { m0 }, s, rt_it.pos as int), children.cs()),
        isolated_existing_leaf ==> children.cs()[xb as int] is None && forall|i: int| 0 <= i < rt_it.pos ==> nibn((#[trigger] s[i]).0.0@, p.len() as int) != xb,
        forall|j: int| rt_it.pos <= j < n ==> children.cs()[(#[trigger] rt_it.nib(j)) as int] is None,
    ensures rt_it.pos == n,
    decreases n - rt_it.pos,
//@loopstart 0
    let ghost it0 = rt_it;
    let ghost iso = isolated_existing_leaf;
//@before let child_index =
    let ghost a = left as int;
    let ghost b = right + 1;
    let ghost c1 = *tree_cache;
    let ghost x = nibn(s[a].0.0@, p.len() as int);
    let ghost mc = if iso { mr } else { m0 };
    let ghost rt_m = ovr(if x == xb { m0 } else { mc }, s, a);
    let ghost md = if iso && x != xb { mr } else { m0 };
    proof {
        run_is(it0, rt_it, s, p, a, right as int);
        run_maps(m0, s, p, a, b, x, rt_f);
        run_maps(mc, s, p, a, b, x, ovr(mc, s, n));
        rising_sub(s, a, b, p, x);
        hc_down(*hash_cache, rt_f, s, p, x, a, b);
        assert(it0.nib(a) == x);
        assert(children.cs()[x as int] is None);
        mid_child(version, w0, s0, None, c1.w(), c1.st(), p, ovr(mc, s, a), children.cs(), x);
        ovr_facts(m0, s, a);
        ovr_facts(m0, s, b);
        ovr_facts(mr, s, a);
        ovr_facts(mr, s, b);
        assert forall|i: int| 0 <= i < p.push(x).len() implies #[trigger] p.push(x)[i] < 16 by { if i < p.len() { assert(p[i] < 16); } }
        npre_push(p, x, lk);
        npre_push(p, xb, lk);
        less_run(m0, mr, s, p, lk, a, b, x);
    }
//@before children.insert(child_index, $a)
    let ghost c2 = *tree_cache;
    let ghost cs1 = children.cs();
    proof {
        agree_trans(ovr(md, s, b), ovr(m0, s, b), rt_f, p.push(x));
        run_hash(version, c2.w(), p, x, s, a, b, ovr(md, s, b), rt_f, *hash_cache, new_child_node);
        cache_olds(c0, c1);
        assert forall|c: Child| entry_ok(c, version, new_child_node) implies mid(version, w0, s0, None, c2.w(), c2.st(), p, ovr(md, s, b), #[trigger] cs1.update(x as int, Some(c))) by { run_mid(version, w0, s0, None, c1.w(), c1.st(), p, ovr(mc, s, a), cs1, x, c2.w(), c2.st(), c, new_child_node, ovr(md, s, b)); }
    }
//@loopend 0
    proof { assert forall|j: int| rt_it.pos <= j < n implies children.cs()[(#[trigger] rt_it.nib(j)) as int] is None by { assert(it0.nib(j) > it0.nib(it0.pos as int)); nib16(s[j].0.0@, p.len() as int); } }
//@before if isolated_existing_leaf
    let ghost c3 = *tree_cache;
    let ghost cs3 = children.cs();
    proof {
        npre_push(p, xb, lk);
        if isolated_existing_leaf {
            ovr_facts(mr, s, n);
            ovr_facts(m0, s, n);
            assert forall|i: int| 0 <= i < n implies (#[trigger] s[i]).0.0@ != lk by { assert(nibn(s[i].0.0@, p.len() as int) != xb); }
            ovr_other(m0, s, n, lk);
            mid_child(version, w0, s0, None, c3.w(), c3.st(), p, ovr(mr, s, n), cs3, xb);
            clean_here(version, c3.w(), c3.st(), None, p.push(xb));
            cache_old(c3, (version, p.push(xb)));
            assert forall|l: LeafNode, c: Child| l.k() == lk && l.v() == m0[lk] && c.version == version && c.hash@ == Node::Leaf(l).hsh() && c.node_type is Leaf implies #[trigger] mid(version, w0, s0, None, c3.w().insert((version, p.push(xb)), Node::Leaf(l)), c3.st(), p, ovr(m0, s, n), cs3.update(xb as int, Some(c))) by {
                leaf_back(version, w0, s0, c3.w(), c3.st(), p, ovr(mr, s, n), cs3, xb, l, c, ovr(m0, s, n));
            }
        }
    }
//@before let new_internal_node =
    let ghost c4 = *tree_cache;
    proof {
        ovr_facts(m0, s, n);
        mid_ok(version, w0, s0, None, c4.w(), c4.st(), p, ovr(m0, s, n), children.cs());
        cache_old(c4, (version, p));
        assert forall|x: (NodeKey, Node)| x.0.wf() && x.0.nk() == (version, p) && (x.1 matches Node::Internal(i) && i.cs() == children.cs() && i.wf()) implies #[trigger] batch_done(version, w0, s0, None, p, ovr(m0, s, n), c4.w().insert((version, p), x.1), c4.st(), x) by { run_fin(version, w0, s0, None, c4.w(), c4.st(), p, ovr(m0, s, n), children.cs(), c4.w().insert((version, p), x.1), x.1->Internal_0, x); }
    }
//@end
//@fn jmt/src/tree.rs JellyfishMerkleTree::batch_insert_at props C09 C10 C16 C21
//@sig tree_cache: &mut TreeCache<R> ==> tree_cache: &mut TreeCache<R>, Ghost(rt_m): Ghost<KV>, Ghost(rt_f): Ghost<KV>
//@spec
    requires old(tree_cache).batch_pre(version, node_key, kvs@, depth, *hash_cache, rt_m, rt_f), rep(old(tree_cache).w(), node_key.version, node_key.p(), rt_m), old(tree_cache).w()[node_key.nk()] is Null ==> depth == 0, clean(version, old(tree_cache).w(), old(tree_cache).st(), Some(node_key.version), node_key.p()),
    ensures old(tree_cache).reader.reliable() ==> r is Ok,
        r matches Ok(x) ==> final(tree_cache).wf() && final(tree_cache).same_env(*old(tree_cache))
            && batch_done(version, old(tree_cache).w(), old(tree_cache).st(), Some(node_key.version), node_key.p(), ovr(rt_m, kvs@, kvs@.len() as int), final(tree_cache).w(), final(tree_cache).st(), x),
    decreases 64 - depth,
//@start
    let ghost c0 = *tree_cache;
    let ghost w0 = c0.w();
    let ghost s0 = c0.st();
    let ghost p = node_key.p();
    let ghost v = node_key.version;
    let ghost s = kvs@;
    let ghost m0 = rt_m;
    let ghost n = s.len() as int;
    proof {
        assert(kvs.len() == s.len());
        rep_has(w0, v, p, m0);
        clean_here(version, w0, s0, Some(v), p);
        cache_old(c0, (v, p));
        cache_old(c0, (version, p));
        assert(npre(p, s[0].0.0@));
        assert(s[0].0.0@.len() == 32);
        if w0[(v, p)] is Internal {
            rep_internal(w0, v, p, m0);
            rep_some(w0, v, p, m0);
            many_more(m0, s, n, p);
            ovr_facts(m0, s, n);
            many_agree(ovr(m0, s, n), rt_f, p);
            rising_from(s, p);
        }
        if p.len() == 0 { assert(p =~= Seq::<u8>::empty()); }
    }
//@before let mut children: Children =
    proof { mid_old(version, w0, s0, v, tree_cache.w(), tree_cache.st(), p, m0, internal_node, s[0].0.0@); }
//@before let mut rt_it =
    proof { assert(ovr(m0, s, 0) == m0); }
//@loop 0
    invariant
        c0.batch_pre(version, node_key, s, depth, *hash_cache, m0, rt_f), s == kvs@, p == node_key.p(), p.len() < 64, n == s.len(), many(rt_f, p), many(ovr(m0, s, n), p), w0 == c0.w(), s0 == c0.st(), clean(version, w0, s0, Some(v), p), node_key.version == v,
        rt_it.wf(), rt_it.sorted_kvs == kvs, rt_it.nibble_idx == depth, behind(rt_it), children.wf(), tree_cache.wf(), tree_cache.same_env(c0), internal_node.wf(), c0 == *old(tree_cache),
        mid(version, w0, s0, Some(v), tree_cache.w(), tree_cache.st(), p, ovr(m0, s, rt_it.pos as int), children.cs()),
        forall|j: int| rt_it.pos <= j < n ==> children.cs()[(#[trigger] rt_it.nib(j)) as int] == internal_node.cs()[rt_it.nib(j) as int],
    ensures rt_it.pos == n,
    decreases n - rt_it.pos,
//@loopstart 0
    let ghost it0 = rt_it;
//@before let child_index =
    let ghost a = left as int;
    let ghost b = right + 1;
    let ghost c1 = *tree_cache;
    let ghost x = nibn(s[a].0.0@, p.len() as int);
    let ghost rt_m = ovr(m0, s, a);
    let ghost cs1 = children.cs();
    proof {
        run_is(it0, rt_it, s, p, a, right as int);
        run_maps(m0, s, p, a, b, x, rt_f);
        rising_sub(s, a, b, p, x);
        hc_down(*hash_cache, rt_f, s, p, x, a, b);
        assert(it0.nib(a) == x);
        assert(children.cs()[x as int] == internal_node.cs()[x as int]);
        mid_child(version, w0, s0, Some(v), c1.w(), c1.st(), p, rt_m, children.cs(), x);
        ovr_facts(m0, s, a);
        ovr_facts(m0, s, b);
        assert forall|i: int| 0 <= i < p.push(x).len() implies #[trigger] p.push(x)[i] < 16 by { if i < p.len() { assert(p[i] < 16); } }
    }
//@before children.insert(child_index, $a)
    let ghost c2 = *tree_cache;
    proof {
        run_hash(version, c2.w(), p, x, s, a, b, ovr(m0, s, b), rt_f, *hash_cache, new_child_node);
        cache_olds(c0, c1);
        assert forall|c: Child| entry_ok(c, version, new_child_node) implies mid(version, w0, s0, Some(v), c2.w(), c2.st(), p, ovr(m0, s, b), #[trigger] cs1.update(x as int, Some(c))) by { run_mid(version, w0, s0, Some(v), c1.w(), c1.st(), p, rt_m, cs1, x, c2.w(), c2.st(), c, new_child_node, ovr(m0, s, b)); }
    }
//@loopend 0
    proof { assert forall|j: int| rt_it.pos <= j < n implies children.cs()[(#[trigger] rt_it.nib(j)) as int] == internal_node.cs()[rt_it.nib(j) as int] by { assert(it0.nib(j) > it0.nib(it0.pos as int)); nib16(s[j].0.0@, p.len() as int); } }
//@before let new_internal_node =
    let ghost c3 = *tree_cache;
    proof {
        ovr_facts(m0, s, n);
        mid_ok(version, w0, s0, Some(v), c3.w(), c3.st(), p, ovr(m0, s, n), children.cs());
        cache_old(c3, (version, p));
        assert forall|x: (NodeKey, Node)| x.0.wf() && x.0.nk() == (version, p) && (x.1 matches Node::Internal(i) && i.cs() == children.cs() && i.wf()) implies #[trigger] batch_done(version, w0, s0, Some(v), p, ovr(m0, s, n), c3.w().insert((version, p), x.1), c3.st(), x) by { run_fin(version, w0, s0, Some(v), c3.w(), c3.st(), p, ovr(m0, s, n), children.cs(), c3.w().insert((version, p), x.1), x.1->Internal_0, x); }
    }
//@before self.batch_create_subtree_with_existing_leaf($a)
    let ghost w1 = tree_cache.w();
    let ghost s1 = tree_cache.st();
    proof {
        tip_gone(version, w0, s0, v, p, w1, s1);
        clean_gone(version, w0, s0, v, p, w1, s1);
        cache_olds(c0, *tree_cache);
        rep_has_leaf(w0, v, p, m0);
        assert forall|w2: W, s2: Set<NK>, x: (NodeKey, Node)| #[trigger] batch_done(version, w1, s1, None, p, ovr(m0, s, n), w2, s2, x) implies batch_done(version, w0, s0, Some(v), p, ovr(m0, s, n), w2, s2, x) by { done_after(version, w0, s0, v, p, ovr(m0, s, n), w1, s1, w2, s2, x); }
    }
//@before self.batch_create_subtree(NodeKey::new_empty_path($a), $b)
    let ghost w1 = tree_cache.w();
    let ghost s1 = tree_cache.st();
    proof {
        assert(p =~= Seq::<u8>::empty());
        if v == version { assert(w1 == w0.remove((v, p))); }
        tip_gone(version, w0, s0, v, p, w1, s1);
        clean_gone(version, w0, s0, v, p, w1, s1);
        cache_olds(c0, *tree_cache);
        assert forall|w2: W, s2: Set<NK>, x: (NodeKey, Node)| #[trigger] batch_done(version, w1, s1, None, p, ovr(m0, s, n), w2, s2, x) implies batch_done(version, w0, s0, Some(v), p, ovr(m0, s, n), w2, s2, x) by { done_after(version, w0, s0, v, p, ovr(m0, s, n), w1, s1, w2, s2, x); }
    }
//@end
}
} // verus!
