// jmt/src/iterator.rs: iteration in key order (C15)
//@common node_key.version().into() ==> node_key.version()
//@common root_node_key.version().into() ==> root_node_key.version()
verus! {
// ---------------------------------------------------------------- one level of the stack
pub open spec fn lz(x: u16) -> int { vstd::std_specs::bits::u16_leading_zeros(x) as int }
pub open spec fn one16(x: u8) -> u16 { 1u16 << (x as u16) }
pub proof fn one_bits(x: u8)
    requires x < 16,
    ensures one16(x) != 0, forall|i: int| 0 <= i < 16 ==> #[trigger] bit16(one16(x), i) == (i == x), tz(one16(x)) == x, lz(one16(x)) == 15 - x,
{
    let e = x as u16;
    let n = 1u16 << e;
    assert(n != 0) by (bit_vector) requires e < 16, n == 1u16 << e;
    assert forall|i: int| 0 <= i < 16 implies #[trigger] bit16(n, i) == (i == x) by { let f = i as u16; assert(((n >> f) & 1 == 1) == (f == e)) by (bit_vector) requires e < 16, f < 16, n == 1u16 << e; }
    tz_facts(n);
    assert(bit16(n, tz(n)));
    lz_facts(n);
}
pub proof fn lz_facts(x: u16)
    requires x != 0,
    ensures 0 <= lz(x) < 16, bit16(x, 15 - lz(x)), forall|i: int| 15 - lz(x) < i < 16 ==> !#[trigger] bit16(x, i),
{
    vstd::std_specs::bits::axiom_u16_leading_zeros(x);
    let l = vstd::std_specs::bits::u16_leading_zeros(x);
    assert forall|i: int| 15 - lz(x) < i < 16 implies !#[trigger] bit16(x, i) by { assert((x >> (i as u16)) & 1u16 == 0u16); }
    let e = (15 - l) as u16;
    assert((x >> e) & 1 == 0 || (x >> e) & 1 == 1) by (bit_vector);
}
pub proof fn tz_low(x: u16)
    requires x != 0,
    ensures 0 <= tz(x) < 16, bit16(x, tz(x)), forall|i: int| 0 <= i < tz(x) ==> !#[trigger] bit16(x, i),
{
    tz_facts(x);
    vstd::std_specs::bits::axiom_u16_trailing_zeros(x);
    assert forall|i: int| 0 <= i < tz(x) implies !#[trigger] bit16(x, i) by { assert((x >> (i as u16)) & 1u16 == 0u16); }
}
pub proof fn one_and(m: u16, x: u8)
    requires x < 16,
    ensures (one16(x) & m == 0) <==> !bit16(m, x as int),
{ let e = x as u16; assert(((1u16 << e) & m == 0) <==> !((m >> e) & 1 == 1)) by (bit_vector) requires e < 16; }
pub proof fn one_shl(x: u8)
    requires x < 15,
    ensures one16(x) << 1 == one16((x + 1) as u8),
{ let e = x as u16; let f = (e + 1) as u16; assert((1u16 << e) << 1 == 1u16 << f) by (bit_vector) requires e < 15, f == e + 1; }
pub proof fn one_le(m: u16, x: u8, i: int)
    requires x <= i < 16, bit16(m, i),
    ensures m >= one16(x),
{ let e = x as u16; let f = i as u16; assert(m >= (1u16 << e)) by (bit_vector) requires e <= f, f < 16, (m >> f) & 1 == 1; }
// there is no child from nibble a on, up to before b
pub open spec fn gap(cs: Cs, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> (#[trigger] cs[i]) is None }
//@type jmt/src/iterator.rs NodeVisitInfo
impl NodeVisitInfo {
    // the next child to visit
    pub open spec fn nx(&self) -> u8 { tz(self.next_child_to_visit) as u8 }
    pub open spec fn cs(&self) -> Cs { self.node.cs() }
    pub open spec fn wf(&self) -> bool {
        &&& self.node_key.wf() && self.node.wf() && self.node_key.p().len() < 64
        &&& self.cs().len() == 16 && ebits(self.cs(), self.children_bitmap, 0, 16)
        &&& self.nx() < 16 && self.next_child_to_visit == one16(self.nx()) && self.cs()[self.nx() as int] is Some
    }
    pub open spec fn last(&self) -> bool { gap(self.cs(), self.nx() + 1, 16) }
//@fn jmt/src/iterator.rs NodeVisitInfo::new props C15
//@spec
    requires node_key.wf(), node.wf(), node_key.p().len() < 64,
    ensures r.wf(), r.node_key == node_key, r.node == node, gap(r.cs(), 0, r.nx() as int),
//@before rt_assert($a)
    proof {
        let c = node.cs();
        let k = choose|k: int| 0 <= k < 16 && (#[trigger] c[k]) is Some;
        assert(bit16(children_bitmap, k));
        zero16(children_bitmap);
        tz_low(children_bitmap);
        let x = tz(children_bitmap) as u8;
        one_bits(x);
        assert forall|i: int| 0 <= i < x implies (#[trigger] c[i]) is None by { assert(!bit16(children_bitmap, i)); }
    }
//@end
//@fn jmt/src/iterator.rs NodeVisitInfo::new_next_child_to_visit props C15
//@spec
    requires node_key.wf(), node.wf(), node_key.p().len() < 64, next_child_to_visit.v() < 16, !gap(node.cs(), next_child_to_visit.v() as int, 16),
    ensures r.wf(), r.node_key == node_key, r.node == node, gap(r.cs(), next_child_to_visit.v() as int, r.nx() as int), r.nx() >= next_child_to_visit.v(),
//@start
    let ghost x0 = next_child_to_visit.v();
    let ghost mut x: u8 = x0;
    let ghost c = node.cs();
//@before rt_assert($a)
    proof {
        one_and(children_bitmap, x);
        let k = choose|k: int| x0 <= k < 16 && !((#[trigger] c[k]) is None);
        assert(bit16(children_bitmap, k));
        one_le(children_bitmap, x0, k);
    }
//@loop 0
    invariant c == node.cs(), c.len() == 16, ebits(c, children_bitmap, 0, 16), x0 <= x < 16, next_child_to_visit == one16(x), gap(c, x0 as int, x as int), !gap(c, x0 as int, 16), (next_child_to_visit & children_bitmap == 0) == (c[x as int] is None),
    ensures c[x as int] is Some,
    decreases 16 - x,
//@loopstart 0
    proof { if x == 15 { assert(gap(c, x0 as int, 16)); } one_shl(x); x = (x + 1) as u8; one_and(children_bitmap, x); }
//@afterloop 0
    proof { one_bits(x); }
//@end
//@fn jmt/src/iterator.rs NodeVisitInfo::is_rightmost props C15
//@spec
    requires self.wf(),
    ensures r == self.last(),
//@start
    proof {
        let x = self.nx();
        let m = self.children_bitmap;
        one_bits(x);
        assert(bit16(m, x as int));
        zero16(m);
        lz_facts(m);
        let t = 15 - lz(m);
        assert(self.cs()[t] is Some);
        assert forall|i: int| x + 1 <= i < 16 && t == x implies (#[trigger] self.cs()[i]) is None by { assert(!bit16(m, i)); }
    }
//@end
//@fn jmt/src/iterator.rs NodeVisitInfo::advance props C15
//@spec
    requires old(self).wf(), !old(self).last(),
    ensures moved(*old(self), *final(self)),
//@start
    let ghost a = *self;
    let ghost c = self.cs();
    let ghost mut x: u8 = a.nx();
    proof { if x == 15 { assert(gap(c, 16, 16)); } }
//@before while $a
    proof { one_shl(x); x = (x + 1) as u8; one_and(self.children_bitmap, x); }
//@loop 0
    invariant c == self.cs(), c == a.cs(), a.wf(), !a.last(), self.node == a.node, self.node_key == a.node_key, self.children_bitmap == a.children_bitmap, a.nx() < x < 16, self.next_child_to_visit == one16(x), gap(c, a.nx() + 1, x as int), (self.next_child_to_visit & self.children_bitmap == 0) == (c[x as int] is None),
    ensures c[x as int] is Some,
    decreases 16 - x,
//@loopstart 0
    proof { if x == 15 { assert(gap(c, a.nx() + 1, 16)); } one_shl(x); x = (x + 1) as u8; one_and(self.children_bitmap, x); }
//@afterloop 0
    proof { one_bits(x); }
//@end
}
pub open spec fn moved(a: NodeVisitInfo, b: NodeVisitInfo) -> bool { a.wf() && b.wf() && b.node_key == a.node_key && b.node == a.node && b.nx() > a.nx() && gap(a.cs(), a.nx() + 1, b.nx() as int) }
// ---------------------------------------------------------------- the stack
// derived PartialOrd on keys: lexicographic
pub open spec fn kcmp(a: Seq<u8>, b: Seq<u8>) -> core::cmp::Ordering { if key_lt(a, b) { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
impl PartialOrd for KeyHash { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> (r: Option<core::cmp::Ordering>) { self.0.partial_cmp(&o.0) } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for KeyHash { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(kcmp(self.0@, o.0@)) } }
pub type St = Seq<NodeVisitInfo>;
// the path and the version of the next node to visit
pub open spec fn top(s: St) -> Seq<u8> { if s.len() == 0 { Seq::empty() } else { s.last().node_key.p().push(s.last().nx()) } }
pub open spec fn topv(s: St, v: u64) -> u64 { if s.len() == 0 { v } else { s.last().cs()[s.last().nx() as int]->0.version } }
pub open spec fn stack_ok(w: W, v: u64, s: St) -> bool
    decreases s.len(),
{ s.len() > 0 ==> stack_ok(w, v, s.drop_last()) && s.last().wf() && s.last().node_key.nk() == (topv(s.drop_last(), v), top(s.drop_last())) && at(w, s.last().node_key.nk()) == Some(Node::Internal(s.last().node)) }
pub proof fn stack_rep(w: W, v: u64, m: KV, s: St)
    requires holds(w, v, m), stack_ok(w, v, s),
    ensures rep(w, topv(s, v), top(s), m), top(s).len() == s.len(), s.len() <= 64, s.len() > 0 ==> !(w[(topv(s, v), top(s))] is Null) && w[root_key(v)] is Internal,
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        stack_rep(w, v, m, t);
        let e = s.last();
        rep_internal(w, topv(t, v), top(t), m);
        assert(crep(w, topv(t, v), top(t), m, e.cs()[e.nx() as int], e.nx() as int));
        if t.len() == 0 { assert(top(t) =~= Seq::<u8>::empty()); }
    }
}
// keys that come after everything at or below q
pub open spec fn past(q: Seq<u8>, k: Seq<u8>) -> bool
    decreases q.len(),
{ q.len() > 0 && (past(q.drop_last(), k) || (npre(q.drop_last(), k) && nibn(k, q.len() - 1) > q.last())) }
pub open spec fn onward(q: Seq<u8>, k: Seq<u8>) -> bool { past(q, k) || npre(q, k) }
pub proof fn past_push(q: Seq<u8>, x: u8, k: Seq<u8>)
    ensures past(q.push(x), k) <==> past(q, k) || (npre(q, k) && nibn(k, q.len() as int) > x),
        onward(q.push(x), k) <==> past(q, k) || (npre(q, k) && nibn(k, q.len() as int) >= x),
{ assert(q.push(x).drop_last() =~= q); npre_push(q, x, k); }
pub proof fn past_more(q: Seq<u8>, a: Seq<u8>, k: Seq<u8>)
    requires past(q, k), npre(q, a), q.len() <= 64,
    ensures nless(a, k), !npre(q, k),
    decreases q.len(),
{
    let t = q.drop_last();
    assert(t.push(q.last()) =~= q);
    npre_push(t, q.last(), a);
    npre_push(t, q.last(), k);
    if past(t, k) { past_more(t, a, k); }
    else { assert forall|j: int| 0 <= j < t.len() implies #[trigger] nibn(a, j) == nibn(k, j) by { assert(nibn(a, j) == t[j] && nibn(k, j) == t[j]); } assert(nlt_at(a, k, t.len() as int)); }
}
// keys that come before everything at or below q
pub proof fn not_onward(q: Seq<u8>, a: Seq<u8>, k: Seq<u8>)
    requires !onward(q, k), onward(q, a), q.len() <= 64,
    ensures nless(k, a),
    decreases q.len(),
{
    if q.len() == 0 { }
    else {
        let t = q.drop_last();
        assert(t.push(q.last()) =~= q);
        past_push(t, q.last(), a);
        past_push(t, q.last(), k);
        if npre(t, k) {
            if past(t, a) { past_more(t, k, a); }
            else { assert forall|j: int| 0 <= j < t.len() implies #[trigger] nibn(k, j) == nibn(a, j) by { assert(nibn(a, j) == t[j] && nibn(k, j) == t[j]); } assert(nlt_at(k, a, t.len() as int)); }
        } else { not_onward(t, a, k); }
    }
}
pub open spec fn cleaned(a: St, b: St) -> bool
    decreases a.len(),
{
    if a.len() == 0 { b.len() == 0 }
    else if a.last().last() { cleaned(a.drop_last(), b) }
    else { b.len() == a.len() && b.drop_last() == a.drop_last() && moved(a.last(), b.last()) }
}
pub open spec fn all_wf(s: St) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf() }
pub proof fn stack_wf(w: W, v: u64, s: St)
    requires stack_ok(w, v, s),
    ensures all_wf(s),
    decreases s.len(),
{ if s.len() > 0 { stack_wf(w, v, s.drop_last()); assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).wf() by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } } } }
// what is still to be visited once the next node is done with
pub proof fn clean_past(w: W, v: u64, m: KV, a: St, b: St)
    requires holds(w, v, m), stack_ok(w, v, a), cleaned(a, b),
    ensures stack_ok(w, v, b), b.len() <= a.len(), forall|k: Seq<u8>| #![trigger past(top(a), k)] #![trigger onward(top(b), k)] m.contains_key(k) ==> (past(top(a), k) <==> b.len() > 0 && onward(top(b), k)),
    decreases a.len(),
{
    if a.len() > 0 {
        let t = a.drop_last();
        let e = a.last();
        let q = top(t);
        stack_rep(w, v, m, t);
        rep_internal(w, topv(t, v), q, m);
        if e.last() {
            clean_past(w, v, m, t, b);
            assert forall|k: Seq<u8>| m.contains_key(k) implies (#[trigger] past(top(a), k) <==> b.len() > 0 && onward(top(b), k)) by {
                past_push(q, e.nx(), k);
                assert(past(q, k) <==> b.len() > 0 && onward(top(b), k));
                gap_none(w, topv(t, v), q, m, e.cs(), e.nx() + 1, 16, k);
            }
        } else {
            let f = b.last();
            assert forall|k: Seq<u8>| m.contains_key(k) implies (#[trigger] past(top(a), k) <==> b.len() > 0 && onward(top(b), k)) by {
                past_push(q, e.nx(), k);
                past_push(q, f.nx(), k);
                gap_none(w, topv(t, v), q, m, e.cs(), e.nx() + 1, f.nx() as int, k);
            }
        }
    }
}
pub proof fn gap_none(w: W, v: u64, q: Seq<u8>, m: KV, cs: Cs, a: int, b: int, k: Seq<u8>)
    requires rep(w, v, q, m), kv_ok(m), m.contains_key(k), 0 <= a, b <= 16, gap(cs, a, b), w[(v, q)] matches Node::Internal(n) && n.cs() == cs,
    ensures npre(q, k) ==> !(a <= nibn(k, q.len() as int) < b) && nibn(k, q.len() as int) < 16,
{
    rep_internal(w, v, q, m);
    nib16(k, q.len() as int);
    let x = nibn(k, q.len() as int);
    if npre(q, k) && a <= x < b { npre_push(q, x, k); assert(crep(w, v, q, m, cs[x as int], x as int)); assert(nund(m, q.push(x), k)); }
}
// ---------------------------------------------------------------- the iterator
//@type jmt/src/iterator.rs JellyfishMerkleIterator R: TreeReader + VersionedDatabase ==> R: TreeReader
// a pair is shown as some stored leaf that agrees with the contents has it
pub open spec fn shown_at<R: TreeReader>(r: R, m: KV, k: Seq<u8>, x: Seq<u8>, nk: NK) -> bool { at(r.nodes(), nk) matches Some(Node::Leaf(l)) && l.k() == k && m[k] == l.v() && r.val(nk.0, k) == Some(x) }
pub open spec fn shown<R: TreeReader>(r: R, m: KV, k: Seq<u8>, x: Seq<u8>) -> bool { m.contains_key(k) && exists|nk: NK| #[trigger] shown_at(r, m, k, x, nk) }
// every leaf has its value
pub open spec fn leaf_vals<R: TreeReader>(r: R) -> bool { forall|nk: NK| #[trigger] r.nodes().contains_key(nk) ==> (r.nodes()[nk] matches Node::Leaf(l) ==> r.val(nk.0, l.k()) is Some) }
// the parents of the least key of a stack
impl<R: TreeReader> JellyfishMerkleIterator<R> {
    pub open spec fn nodes(&self) -> W { self.reader.nodes() }
    pub open spec fn wf(&self, m: KV) -> bool {
        &&& holds(self.nodes(), self.version, m) && stack_ok(self.nodes(), self.version, self.parent_stack@) && leaf_vals(*self.reader)
        &&& self.nodes()[root_key(self.version)] is Null ==> self.done
    }
    // what is still to come
    pub open spec fn left(&self, m: KV, k: Seq<u8>) -> bool {
        m.contains_key(k) && !self.done && (self.parent_stack@.len() > 0 || self.nodes()[root_key(self.version)] is Leaf) && onward(top(self.parent_stack@), k)
    }
    pub open spec fn same_tree(&self, o: &Self) -> bool { self.reader == o.reader && self.version == o.version }
//@fn jmt/src/iterator.rs JellyfishMerkleIterator::cleanup_stack props C15
//@rewrite? parent_stack.last_mut() ==> rt_last_mut(parent_stack)
//@spec
    requires all_wf(old(parent_stack)@),
    ensures cleaned(old(parent_stack)@, final(parent_stack)@),
//@start
    let ghost s0 = parent_stack@;
//@loop 0
    invariant_except_break all_wf(parent_stack@), forall|b: St| #[trigger] cleaned(parent_stack@, b) ==> cleaned(s0, b),
    ensures cleaned(s0, parent_stack@),
    decreases parent_stack.len(),
//@loopstart 0
    let ghost a = parent_stack@;
    proof { if a.len() == 0 { assert(cleaned(a, a)); } }
//@after parent_stack.pop()
    assert(parent_stack@.len() == a.len() - 1);
    assert(parent_stack@ =~= a.drop_last());
    assert(a.last().last());
    assert forall|b: St| #[trigger] cleaned(parent_stack@, b) implies cleaned(s0, b) by { assert(cleaned(a, b)); }
    assert(all_wf(parent_stack@)) by { assert forall|i: int| 0 <= i < parent_stack@.len() implies (#[trigger] parent_stack@[i]).wf() by { assert(a[i].wf()); } }
//@after info.advance()
    assert(parent_stack@.drop_last() =~= a.drop_last());
    assert(cleaned(a, parent_stack@));
//@end
//@fn jmt/src/iterator.rs JellyfishMerkleIterator::new props C15
//@spec
    requires version_there(*reader, version), leaf_vals(*reader),
    ensures r matches Ok(it) ==> it.reader == reader && it.version == version && it.wf(tmap(reader.nodes(), version))
            && starts(it, tmap(reader.nodes(), version), starting_key.0@),
        r is Err ==> !reader.reliable(),
//@start
    let ghost w = reader.nodes();
    let ghost m = tmap(w, version);
    let ghost st = starting_key.0@;
    proof { assert(holds(w, version, m)); }
//@loop 0
    invariant_except_break nibble_iter.rest() =~= nibs_of(st).subrange(parent_stack@.len() as int, 64),
    invariant w == reader.nodes(), m == tmap(w, version), st == starting_key.0@, st.len() == 32, holds(w, version, m), leaf_vals(*reader), !done,
        nibble_path.wf(), nibble_path.v() =~= nibs_of(st), nibble_iter.wf(), nibble_iter.nibble_path == nibble_path,
        stack_ok(w, version, parent_stack@), current_node_key.wf(), current_node_key.nk() == (topv(parent_stack@, version), top(parent_stack@)), npre(top(parent_stack@), st),
    ensures at(w, current_node_key.nk()) matches Some(n) && !(n is Internal),
    decreases 64 - parent_stack@.len(),
//@loopstart 0
    let ghost s0 = parent_stack@;
    proof { stack_rep(w, version, m, s0); stack_wf(w, version, s0); }
//@before match internal_node.child($a)
    let ghost x = nibn(st, s0.len() as int);
    proof { assert(child_index.v() == x); nib16(st, s0.len() as int); rep_internal(w, topv(s0, version), top(s0), m); npre_push(top(s0), x, st); }
//@after parent_stack.push(NodeVisitInfo::new_next_child_to_visit(current_node_key.clone(), $a))
    proof { push_ok(w, version, s0, parent_stack@.last()); assert(parent_stack@ =~= s0.push(parent_stack@.last())); }
//@after let (bitmap, _) = internal_node.generate_bitmaps()
    proof { lz_up(internal_node.cs(), bitmap, x); }
//@after parent_stack.push(NodeVisitInfo::new_next_child_to_visit(current_node_key, $a))
    proof { let e = parent_stack@.last(); assert(parent_stack@ =~= s0.push(e)); assert(e.cs()[e.nx() as int] is Some); start_gap(w, version, m, s0, st, e);  assert forall|k: Seq<u8>| #[trigger] from(m, st, k) <==> m.contains_key(k) && onward(top(parent_stack@), k) by { if m.contains_key(k) { assert(onward(top(parent_stack@), k) <==> from(m, st, k)); } } }
//@after Self::cleanup_stack(&mut parent_stack)
    proof { start_skip(w, version, m, s0, st, internal_node); clean_past(w, version, m, s0, parent_stack@);
        assert(w[root_key(version)] is Internal);
        let ps = parent_stack@;
        assert forall|k: Seq<u8>| #[trigger] from(m, st, k) <==> m.contains_key(k) && ps.len() > 0 && onward(top(ps), k) by { if m.contains_key(k) { assert(past(top(s0), k) <==> from(m, st, k)); assert(past(top(s0), k) <==> ps.len() > 0 && onward(top(ps), k)); } } }
//@afterloop 0
    let ghost s1 = parent_stack@;
    proof { stack_rep(w, version, m, s1); stack_wf(w, version, s1); assert(s1.len() == 0 ==> top(s1) =~= Seq::<u8>::empty());
        match w[(topv(s1, version), top(s1))] { Node::Null => { assert(nnone(m, Seq::empty())); assert forall|k: Seq<u8>| !#[trigger] m.contains_key(k) by { assert(!nund(m, Seq::empty(), k)); } } _ => { } } }
//@before if leaf_node.key_hash() < starting_key
    proof { start_leaf(w, version, m, s1, st, leaf_node); if !key_lt(leaf_node.k(), st) { assert forall|k: Seq<u8>| #[trigger] from(m, st, k) <==> m.contains_key(k) && onward(top(s1), k) by { } } }
//@before if parent_stack.is_empty()
    proof { clean_past(w, version, m, s1, parent_stack@);
        assert forall|k: Seq<u8>| parent_stack@.len() == 0 implies !#[trigger] from(m, st, k) by { if from(m, st, k) { assert(past(top(s1), k)); } }
        assert forall|k: Seq<u8>| parent_stack@.len() > 0 implies (#[trigger] from(m, st, k) <==> m.contains_key(k) && onward(top(parent_stack@), k)) by { if m.contains_key(k) { assert(past(top(s1), k) <==> from(m, st, k)); } } }
//@tail
    proof { if let Ok(it) = &r {
        let ps = it.parent_stack@;
        assert(stack_ok(w, version, ps));
        assert(w[root_key(version)] is Null ==> it.done);
        assert(it.done ==> forall|k: Seq<u8>| !#[trigger] from(m, st, k));
        assert(!it.done ==> ps.len() > 0 || w[root_key(version)] is Leaf);
        assert(!it.done ==> forall|k: Seq<u8>| #[trigger] from(m, st, k) <==> m.contains_key(k) && onward(top(ps), k));
    } }
//@end
//@fn jmt/src/iterator.rs JellyfishMerkleIterator::skip_leaves props C15
//@spec
    requires internal_node.wf(), lsum(internal_node.cs(), 16) matches Some(n) && *old(leaves_skipped) + n <= usize::MAX && target_leaf_idx < *old(leaves_skipped) + n, *old(leaves_skipped) <= target_leaf_idx,
    ensures r matches Ok(x) && x.0.v() < 16 && skipped(internal_node.cs(), *old(leaves_skipped), *final(leaves_skipped), target_leaf_idx, x.0.v(), *x.1),
//@start
    let ghost cs = internal_node.cs();
    let ghost s0 = *leaves_skipped;
    let ghost mut gi: int = next_some(cs, 0);
    proof { sum_start(cs, 0); assert forall|v: Seq<(Nibble, &Child)>| #[trigger] is_items(cs, v, 16) implies v.len() == cnt(cs, 16) by { reveal(is_items); } }
//@loop 0 it
    invariant 0 <= gi <= 16, it.seq().len() == cnt(cs, 16), cs == internal_node.cs(), is_items(cs, it.seq(), 16), (lsum(cs, 16) matches Some(n) && s0 + n <= usize::MAX && target_leaf_idx < s0 + n), *leaves_skipped <= target_leaf_idx,
        cnt(cs, gi) == it.index@, lsum(cs, gi) == Some(*leaves_skipped - s0), gi < 16 ==> cs[gi] is Some, gi == next_some(cs, gi), s0 == *old(leaves_skipped),
//@loopstart 0
    proof { items_at(cs, it.seq(), gi); cnt_mono(cs, gi, 16); lknown_mono(cs, gi + 1, 16); lknown_mono(cs, 0, gi); lknown_mono(cs, gi, gi + 1); }
    let ghost g0 = gi;
    proof { sum_start(cs, gi + 1); gi = next_some(cs, gi + 1); }
//@before return Ok(($a, $b))
    proof { assert(skipped(cs, s0, *leaves_skipped, target_leaf_idx, nibble.v(), *child)); }
//@afterloop 0
    proof { cnt_mono(cs, gi, 16); if gi < 16 { items_len(cs, 16, gi); } }
//@end
//@fn jmt/src/iterator.rs JellyfishMerkleIterator::new_by_index props C15
//@rewrite? for $id_d in 0..=ROOT_NIBBLE_HEIGHT { ==> for $id_d in 0..ROOT_NIBBLE_HEIGHT + 1 {
//@spec
    requires version_there(*reader, version), leaf_vals(*reader),
    ensures r matches Ok(it) ==> it.reader == reader && it.version == version && it.wf(tmap(reader.nodes(), version))
            && from_index(it, tmap(reader.nodes(), version), start_idx as int),
        r is Err ==> !reader.reliable(),
//@start
    let ghost w = reader.nodes();
    let ghost m = tmap(w, version);
    proof { assert(holds(w, version, m)); rep_count(w, version, Seq::empty(), m); nset_root(m); if w[root_key(version)] is Internal { rep_internal(w, version, Seq::empty(), m); } before_none(m); }
//@after let total_leaves = $a
    proof { if start_idx >= total_leaves { assert(leasts(m, m.dom(), start_idx as int)); } }
    assert(total_leaves == m.len());
//@loop 0 it
    invariant w == reader.nodes(), m == tmap(w, version), holds(w, version, m), leaf_vals(*reader), m.len() <= usize::MAX, start_idx < m.len(),
        stack_ok(w, version, parent_stack@), parent_stack@.len() == it.index@, current_node_key.wf(), current_node_key.nk() == (topv(parent_stack@, version), top(parent_stack@)),
        at(w, current_node_key.nk()) == Some(current_node), current_node.wf(),
        ahead_of(m, top(parent_stack@), leaves_skipped as int, start_idx as int),
//@loopstart 0
    let ghost s0 = parent_stack@;
    proof { stack_rep(w, version, m, s0); rep_count(w, topv(s0, version), top(s0), m); index_leaf(w, version, m, s0, start_idx as int); if current_node is Internal { rep_internal(w, topv(s0, version), top(s0), m); } }
//@after let next_node_key = $a
    let ghost x = nibble.v();
    proof { index_down(w, version, m, s0, internal_node, x, leaves_skipped as int, start_idx as int); }
//@after parent_stack.push($a)
    proof { let e = parent_stack@.last(); assert(e.nx() == x); push_ok(w, version, s0, e); assert(parent_stack@ =~= s0.push(e)); }
//@afterloop 0
    proof { stack_rep(w, version, m, parent_stack@); }
//@end
//@fn jmt/src/iterator.rs <Iterator for JellyfishMerkleIterator>::next props C15
//@sig Option<Self::Item> ==> Option<Result<(KeyHash, OwnedValue)>>
//@spec
    requires old(self).wf(tmap(old(self).nodes(), old(self).version)),
    ensures gives(*old(self), *final(self), tmap(old(self).nodes(), old(self).version), r),
//@start
    let ghost w = self.nodes();
    let ghost v = self.version;
    let ghost m = tmap(w, v);
    let ghost i0 = *self;
    proof { stack_rep(w, v, m, self.parent_stack@);
        if !self.done && self.parent_stack@.len() == 0 { assert(top(self.parent_stack@) =~= Seq::<u8>::empty()); if let Some(Node::Leaf(l)) = at(w, root_key(v)) { single(*self, m, l); } } }
//@loop 0
    invariant i0 == *old(self), w == self.nodes(), v == self.version, m == tmap(w, v), self.same_tree(&i0), self.wf(m), self.parent_stack@.len() > 0, !self.done, i0.wf(m),
        forall|k: Seq<u8>| #[trigger] self.left(m, k) <==> i0.left(m, k),
    decreases 64 - self.parent_stack@.len(),
//@loopstart 0
    let ghost s0 = self.parent_stack@;
    let ghost b0 = *self;
    proof { if let Some(Node::Leaf(l)) = at(w, (topv(s0, v), top(s0))) { assert(self.nodes().contains_key((topv(s0, v), top(s0)))); assert(self.reader.val(topv(s0, v), l.k()) is Some); } }
    proof { stack_rep(w, v, m, s0); stack_wf(w, v, s0); }
//@after self.parent_stack.push(visit_info)
    proof { push_first(w, v, m, s0, visit_info); assert(self.parent_stack@ =~= s0.push(visit_info)); assert forall|k: Seq<u8>| #[trigger] self.left(m, k) <==> i0.left(m, k) by { assert(b0.left(m, k) <==> i0.left(m, k)); } }
//@after Self::cleanup_stack(&mut self.parent_stack)
    proof { leaf_least(w, v, m, s0, leaf_node); clean_past(w, v, m, s0, self.parent_stack@);
        let k0 = leaf_node.k();
        assert(b0.left(m, k0) <==> i0.left(m, k0));
        assert(shown_at(*self.reader, m, k0, value@, (topv(s0, v), top(s0))));
        assert forall|k: Seq<u8>| #[trigger] self.left(m, k) <==> i0.left(m, k) && k != k0 by { assert(b0.left(m, k) <==> i0.left(m, k)); if m.contains_key(k) { assert(past(top(s0), k) <==> onward(top(s0), k) && k != k0); } }
        assert forall|k: Seq<u8>| #[trigger] i0.left(m, k) && k != k0 implies key_lt(k0, k) by { assert(b0.left(m, k) <==> i0.left(m, k)); assert(past(top(s0), k) <==> onward(top(s0), k) && k != k0); }
        assert(self.same_tree(&i0)); assert(self.wf(m)); assert(i0.left(m, k0)); assert(ret.0.0@ == k0 && ret.1@ == value@); assert(shown(*i0.reader, m, k0, ret.1@));
    }
//@end
}
pub open spec fn skipped(cs: Cs, s0: usize, s1: usize, target: usize, x: u8, c: Child) -> bool {
    cs[x as int] == Some(c) && (lsum(cs, x as int) matches Some(a) && s1 == s0 + a) && s1 <= target && (lcount(c) matches Some(b) && target < s1 + b)
}
pub proof fn items_at(cs: Cs, v: Seq<(Nibble, &Child)>, i: int)
    requires is_items(cs, v, 16),
    ensures 0 <= i < 16 && cs[i] is Some ==> 0 <= cnt(cs, i) < v.len() && v[cnt(cs, i)].0.v() == i && cs[i] == Some(*v[cnt(cs, i)].1), v.len() == cnt(cs, 16),
{ reveal(is_items); }
pub proof fn items_len(cs: Cs, n: int, i: int)
    requires 0 <= i < n, cs[i] is Some,
    ensures cnt(cs, i) < cnt(cs, n),
{ cnt_mono(cs, i, n); }
// the i least keys
pub open spec fn leasts(m: KV, s: Set<Seq<u8>>, i: int) -> bool {
    &&& s.subset_of(m.dom()) && s.len() == if i < m.len() { i } else { m.len() as int }
    &&& forall|a: Seq<u8>, b: Seq<u8>| #![trigger s.contains(a), m.contains_key(b)] s.contains(a) && m.contains_key(b) && !s.contains(b) ==> key_lt(a, b)
}
pub open spec fn all_but<R: TreeReader>(it: JellyfishMerkleIterator<R>, m: KV, s: Set<Seq<u8>>) -> bool { forall|k: Seq<u8>| #[trigger] it.left(m, k) <==> m.contains_key(k) && !s.contains(k) }
pub open spec fn from_index<R: TreeReader>(it: JellyfishMerkleIterator<R>, m: KV, i: int) -> bool { exists|s: Set<Seq<u8>>| #[trigger] leasts(m, s, i) && all_but(it, m, s) }
pub open spec fn before(m: KV, q: Seq<u8>) -> Set<Seq<u8>> { m.dom().filter(|k: Seq<u8>| !onward(q, k)) }
pub open spec fn ahead_of(m: KV, q: Seq<u8>, n: int, i: int) -> bool { before(m, q).len() == n && n <= i < n + nset(m, q).len() }
pub proof fn before_none(m: KV)
    ensures before(m, Seq::empty()) =~= Set::empty(), before(m, Seq::empty()).len() == 0,
{ assert forall|k: Seq<u8>| !#[trigger] before(m, Seq::empty()).contains(k) by { assert(npre(Seq::empty(), k)); } assert(before(m, Seq::empty()) =~= Set::empty()); }
pub proof fn before_leasts(m: KV, q: Seq<u8>, i: int)
    requires kv_ok(m), q.len() <= 64, before(m, q).len() == i, i <= m.len(),
    ensures leasts(m, before(m, q), i),
{
    let s = before(m, q);
    assert forall|a: Seq<u8>, b: Seq<u8>| #![trigger s.contains(a), m.contains_key(b)] s.contains(a) && m.contains_key(b) && !s.contains(b) implies key_lt(a, b) by {
        not_onward(q, b, a); key_lt_nibs(a, b);
    }
}
pub proof fn before_push(m: KV, q: Seq<u8>, x: u8)
    requires kv_ok(m), q.len() < 64, x < 16,
    ensures before(m, q.push(x)).len() == before(m, q).len() + below(m, q, x as int).len(),
{
    let a = before(m, q);
    let b = below(m, q, x as int);
    assert forall|k: Seq<u8>| #[trigger] before(m, q.push(x)).contains(k) <==> a.union(b).contains(k) by { past_push(q, x, k); if past(q, k) && npre(q, k) { past_more(q, k, k); } }
    assert(before(m, q.push(x)) =~= a.union(b));
    assert(a.disjoint(b)) by { assert forall|k: Seq<u8>| !(a.contains(k) && b.contains(k)) by { } }
    vstd::set_lib::lemma_set_disjoint_lens(a, b);
}
// arrived at the leaf with an index
pub proof fn index_leaf(w: W, v: u64, m: KV, s: St, i: int)
    requires holds(w, v, m), stack_ok(w, v, s), w.contains_key((topv(s, v), top(s))),
    ensures before(m, top(s)).len() + nset(m, top(s)).len() <= m.len(), w[(topv(s, v), top(s))] is Leaf ==> nset(m, top(s)).len() == 1 && (before(m, top(s)).len() == i && i < m.len() ==> leasts(m, before(m, top(s)), i)) && (s.len() == 0 ==> w[root_key(v)] is Leaf),
        w[(topv(s, v), top(s))] is Null ==> nset(m, top(s)).len() == 0,
{
    stack_rep(w, v, m, s);
    rep_count(w, topv(s, v), top(s), m);
    if s.len() == 0 { assert(top(s) =~= Seq::<u8>::empty()); }
    let a = before(m, top(s));
    let b = nset(m, top(s));
    assert(a.disjoint(b)) by { assert forall|k: Seq<u8>| !(a.contains(k) && b.contains(k)) by { } }
    vstd::set_lib::lemma_set_disjoint_lens(a, b);
    assert(a.union(b).subset_of(m.dom()));
    vstd::set_lib::lemma_len_subset(a.union(b), m.dom());
    if before(m, top(s)).len() == i && i < m.len() { before_leasts(m, top(s), i); }
}
pub proof fn index_down(w: W, v: u64, m: KV, s: St, n: InternalNode, x: u8, k: int, i: int)
    requires holds(w, v, m), stack_ok(w, v, s), top_is(w, v, s, Node::Internal(n)), s.len() < 64, x < 16, n.cs()[x as int] is Some,
        k == before(m, top(s)).len() + lsum(n.cs(), x as int)->0, k <= i, lcount(n.cs()[x as int]->0) matches Some(b) && i < k + b,
    ensures ahead_of(m, top(s).push(x), k, i),
{
    stack_rep(w, v, m, s);
    let q = top(s);
    rep_internal(w, topv(s, v), q, m);
    kids_count(w, topv(s, v), q, m, n.cs(), x as int);
    before_push(m, q, x);
    assert(crep(w, topv(s, v), q, m, n.cs()[x as int], x as int));
    rep_count(w, n.cs()[x as int]->0.version, q.push(x), m);
}
// a tree of one leaf
pub proof fn single<R: TreeReader>(it: JellyfishMerkleIterator<R>, m: KV, l: LeafNode)
    requires it.wf(m), !it.done, it.parent_stack@.len() == 0, at(it.nodes(), root_key(it.version)) == Some(Node::Leaf(l)),
    ensures it.left(m, l.k()), forall|k: Seq<u8>| #[trigger] it.left(m, k) ==> k == l.k(),
        it.reader.val(it.version, l.k()) is Some, forall|x: Seq<u8>| #![trigger shown(*it.reader, m, l.k(), x)] it.reader.val(it.version, l.k()) == Some(x) ==> shown(*it.reader, m, l.k(), x),
{
    let s = it.parent_stack@;
    assert(top(s) =~= Seq::<u8>::empty());
    leaf_least(it.nodes(), it.version, m, s, l);
    assert(forall|k: Seq<u8>| !#[trigger] past(Seq::<u8>::empty(), k));
    assert forall|k: Seq<u8>| #[trigger] it.left(m, k) implies k == l.k() by { assert(!past(top(s), k)); }
    assert(it.nodes().contains_key(root_key(it.version)));
    assert forall|x: Seq<u8>| #![trigger shown(*it.reader, m, l.k(), x)] it.reader.val(it.version, l.k()) == Some(x) implies shown(*it.reader, m, l.k(), x) by { assert(shown_at(*it.reader, m, l.k(), x, root_key(it.version))); }
}
impl<R: TreeReader, H: SimpleHasher> JellyfishMerkleTree<R, H> {
//@fn jmt/src/tree.rs <VersionedTrie<R,H> for JellyfishMerkleTree>::iter props C15
//@spec
    requires version_there(*self.reader, version), leaf_vals(*self.reader),
    ensures r matches Ok(it) ==> it.reader == self.reader && it.version == version && it.wf(tmap(self.nodes(), version)) && (forall|k: Seq<u8>| #[trigger] it.left(tmap(self.nodes(), version), k) <==> tmap(self.nodes(), version).contains_key(k)),
        r is Err ==> !self.reader.reliable(),
//@tail
    proof { if let Ok(it) = &r {
        let m = tmap(self.nodes(), version);
        let s = choose|s: Set<Seq<u8>>| #[trigger] leasts(m, s, 0) && all_but(*it, m, s);
        assert(s =~= Set::empty());
        assert forall|k: Seq<u8>| #[trigger] it.left(m, k) <==> m.contains_key(k) by { assert(!s.contains(k)); }
    } }
//@end
}
pub open spec fn starts<R: TreeReader>(it: JellyfishMerkleIterator<R>, m: KV, st: Seq<u8>) -> bool { forall|k: Seq<u8>| it.left(m, k) <==> #[trigger] from(m, st, k) }
pub open spec fn version_there<R: TreeReader>(r: R, v: u64) -> bool { has_tree(r.nodes(), v) }
// one step of an iterator: the least pair that is left, and then the others
pub open spec fn gives<R: TreeReader>(a: JellyfishMerkleIterator<R>, b: JellyfishMerkleIterator<R>, m: KV, r: Option<Result<(KeyHash, OwnedValue)>>) -> bool {
    &&& b.same_tree(&a) && b.wf(m)
    &&& match r {
        None => (forall|k: Seq<u8>| !#[trigger] a.left(m, k)) && (forall|k: Seq<u8>| !#[trigger] b.left(m, k)),
        Some(Ok(x)) => a.left(m, x.0.0@) && shown(*a.reader, m, x.0.0@, x.1@)
            && (forall|k: Seq<u8>| #[trigger] a.left(m, k) && k != x.0.0@ ==> key_lt(x.0.0@, k)) && (forall|k: Seq<u8>| #[trigger] b.left(m, k) <==> a.left(m, k) && k != x.0.0@),
        Some(Err(_)) => !a.reader.reliable(),
    }
}
// <[T]>::last_mut
pub fn rt_last_mut<T>(v: &mut Vec<T>) -> (r: Option<&mut T>)
    ensures old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@,
        old(v)@.len() > 0 ==> (r matches Some(x) && *x == old(v)@.last() && final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(x))),
{ let n = v.len(); if n == 0 { None } else { Some(&mut v[n - 1]) } }
pub proof fn cut(q: Seq<u8>, st: Seq<u8>, k: Seq<u8>)
    requires npre(q, st), q.len() <= 64,
    ensures past(q, k) ==> nless(st, k) && !nless(k, st) && k != st, !onward(q, k) ==> nless(k, st),
{
    if past(q, k) { past_more(q, st, k); nless_not_both(st, k); }
    if !onward(q, k) { not_onward(q, st, k); }
}
pub open spec fn top_is(w: W, v: u64, s: St, n: Node) -> bool { at(w, (topv(s, v), top(s))) == Some(n) }
pub proof fn push_ok(w: W, v: u64, s: St, e: NodeVisitInfo)
    requires stack_ok(w, v, s), e.wf(), e.node_key.nk() == (topv(s, v), top(s)), top_is(w, v, s, Node::Internal(e.node)),
    ensures stack_ok(w, v, s.push(e)), top(s.push(e)) == top(s).push(e.nx()), topv(s.push(e), v) == e.cs()[e.nx() as int]->0.version,
{ assert(s.push(e).drop_last() =~= s); }
// going down to the first child
pub proof fn push_first(w: W, v: u64, m: KV, s: St, e: NodeVisitInfo)
    requires holds(w, v, m), stack_ok(w, v, s), e.wf(), e.node_key.nk() == (topv(s, v), top(s)), top_is(w, v, s, Node::Internal(e.node)), gap(e.cs(), 0, e.nx() as int),
    ensures stack_ok(w, v, s.push(e)), forall|k: Seq<u8>| m.contains_key(k) ==> (#[trigger] onward(top(s.push(e)), k) <==> onward(top(s), k)),
{
    push_ok(w, v, s, e);
    stack_rep(w, v, m, s);
    assert forall|k: Seq<u8>| m.contains_key(k) implies (#[trigger] onward(top(s.push(e)), k) <==> onward(top(s), k)) by {
        past_push(top(s), e.nx(), k);
        gap_none(w, topv(s, v), top(s), m, e.cs(), 0, e.nx() as int, k);
    }
}
// a leaf is the least of what is left
pub proof fn leaf_least(w: W, v: u64, m: KV, s: St, l: LeafNode)
    requires holds(w, v, m), stack_ok(w, v, s), top_is(w, v, s, Node::Leaf(l)),
    ensures m.contains_key(l.k()), m[l.k()] == l.v(), onward(top(s), l.k()),
        forall|k: Seq<u8>| m.contains_key(k) ==> (#[trigger] past(top(s), k) <==> onward(top(s), k) && k != l.k()) && (past(top(s), k) ==> key_lt(l.k(), k)),
{
    stack_rep(w, v, m, s);
    let q = top(s);
    assert(nund(m, q, l.k()));
    assert forall|k: Seq<u8>| m.contains_key(k) implies (#[trigger] past(q, k) <==> onward(q, k) && k != l.k()) && (past(q, k) ==> key_lt(l.k(), k)) by {
        if past(q, k) { past_more(q, l.k(), k); nless_not_both(l.k(), k); key_lt_nibs(l.k(), k); }
        if npre(q, k) { assert(nund(m, q, k)); }
        if past(q, l.k()) { past_more(q, l.k(), l.k()); }
    }
}
pub open spec fn from(m: KV, st: Seq<u8>, k: Seq<u8>) -> bool { m.contains_key(k) && !key_lt(k, st) }
pub proof fn start_gap(w: W, v: u64, m: KV, s: St, st: Seq<u8>, e: NodeVisitInfo)
    requires holds(w, v, m), stack_ok(w, v, s), st.len() == 32, npre(top(s), st), s.len() < 64, e.wf(), e.node_key.nk() == (topv(s, v), top(s)), top_is(w, v, s, Node::Internal(e.node)),
        gap(e.cs(), nibn(st, s.len() as int) as int, e.nx() as int), nibn(st, s.len() as int) < e.nx(),
    ensures stack_ok(w, v, s.push(e)), forall|k: Seq<u8>| m.contains_key(k) ==> (#[trigger] onward(top(s.push(e)), k) <==> from(m, st, k)),
{
    push_ok(w, v, s, e);
    stack_rep(w, v, m, s);
    let q = top(s);
    assert forall|k: Seq<u8>| m.contains_key(k) implies (#[trigger] onward(top(s.push(e)), k) <==> from(m, st, k)) by {
        past_push(q, e.nx(), k);
        cut(q, st, k);
        key_lt_nibs(k, st);
        start_at(q, st, k);
        gap_none(w, topv(s, v), q, m, e.cs(), nibn(st, s.len() as int) as int, e.nx() as int, k);
    }
}
// keys below q against the start, when they differ at once
pub proof fn start_at(q: Seq<u8>, st: Seq<u8>, k: Seq<u8>)
    requires npre(q, st), q.len() < 64,
    ensures npre(q, k) && nibn(k, q.len() as int) < nibn(st, q.len() as int) ==> nless(k, st), npre(q, k) && nibn(k, q.len() as int) > nibn(st, q.len() as int) ==> !nless(k, st),
{
    if npre(q, k) {
        assert forall|j: int| 0 <= j < q.len() implies #[trigger] nibn(k, j) == nibn(st, j) by { assert(nibn(k, j) == q[j] && nibn(st, j) == q[j]); }
        if nibn(k, q.len() as int) < nibn(st, q.len() as int) { assert(nlt_at(k, st, q.len() as int)); }
        if nibn(k, q.len() as int) > nibn(st, q.len() as int) { assert forall|j: int| 0 <= j < q.len() implies #[trigger] nibn(st, j) == nibn(k, j) by { assert(nibn(k, j) == nibn(st, j)); } assert(nlt_at(st, k, q.len() as int)); nless_not_both(st, k); }
    }
}
pub proof fn start_skip(w: W, v: u64, m: KV, s: St, st: Seq<u8>, n: InternalNode)
    requires holds(w, v, m), stack_ok(w, v, s), st.len() == 32, npre(top(s), st), s.len() < 64, top_is(w, v, s, Node::Internal(n)), gap(n.cs(), nibn(st, s.len() as int) as int, 16),
    ensures forall|k: Seq<u8>| m.contains_key(k) ==> (#[trigger] past(top(s), k) <==> from(m, st, k)),
{
    stack_rep(w, v, m, s);
    let q = top(s);
    assert forall|k: Seq<u8>| m.contains_key(k) implies (#[trigger] past(q, k) <==> from(m, st, k)) by {
        cut(q, st, k);
        key_lt_nibs(k, st);
        start_at(q, st, k);
        gap_none(w, topv(s, v), q, m, n.cs(), nibn(st, s.len() as int) as int, 16, k);
    }
}
pub proof fn start_leaf(w: W, v: u64, m: KV, s: St, st: Seq<u8>, l: LeafNode)
    requires holds(w, v, m), stack_ok(w, v, s), st.len() == 32, npre(top(s), st), s.len() <= 64, top_is(w, v, s, Node::Leaf(l)),
    ensures key_lt(l.k(), st) ==> forall|k: Seq<u8>| m.contains_key(k) ==> (#[trigger] past(top(s), k) <==> from(m, st, k)),
        !key_lt(l.k(), st) ==> forall|k: Seq<u8>| m.contains_key(k) ==> (#[trigger] onward(top(s), k) <==> from(m, st, k)),
{
    stack_rep(w, v, m, s);
    let q = top(s);
    leaf_least(w, v, m, s, l);
    assert forall|k: Seq<u8>| m.contains_key(k) implies (key_lt(l.k(), st) ==> (past(q, k) <==> from(m, st, k))) && (!key_lt(l.k(), st) ==> (onward(q, k) <==> from(m, st, k))) by {
        assert(past(q, k) <==> onward(q, k) && k != l.k());
        cut(q, st, k);
        key_lt_nibs(k, st);
        if npre(q, k) { assert(nund(m, q, k)); }
    }
}
pub proof fn lz_up(cs: Cs, b: u16, x: u8)
    requires ebits(cs, b, 0, 16), cs.len() == 16, x < 16, !vacant(cs, 0, 16), cs[x as int] is None,
    ensures 0 <= lz(b) <= 15, x < 15 - lz(b) <==> !gap(cs, x as int, 16),
{
    let k = choose|k: int| 0 <= k < 16 && (#[trigger] cs[k]) is Some;
    assert(bit16(b, k));
    zero16(b);
    lz_facts(b);
    let t = 15 - lz(b);
    assert(cs[t] is Some);
    if x >= t { assert forall|i: int| x <= i < 16 implies (#[trigger] cs[i]) is None by { assert(i > t ==> !bit16(b, i)); } }
}
} // verus!
