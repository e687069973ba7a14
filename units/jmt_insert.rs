// jmt/src/tree.rs: one put
//@common self.insert_at($a) ==> self.insert_at($a, Ghost(rt_m))
//@common self.insert_at_internal_node($a) ==> self.insert_at_internal_node($a, Ghost(rt_m))
//@common self.insert_at_leaf_node($a) ==> self.insert_at_leaf_node($a, Ghost(rt_m))
//@common $id_it.next().expect($m) ==> (match $id_it.next() { Some(rt_x) => rt_x, None => rt_unreachable() })
//@common $id_it.pop().expect($m) ==> (match $id_it.pop() { Some(rt_x) => rt_x, None => rt_unreachable() })
verus! {
//@type jmt/src/tree.rs PutResult
pub trait RtInto<T>: Sized { spec fn to(self) -> T; fn rt_into(self) -> (r: T) ensures r == self.to(); }
impl RtInto<Node> for InternalNode { open spec fn to(self) -> Node { Node::Internal(self) } fn rt_into(self) -> (r: Node) { Node::rt_of_internal(self) } }
impl RtInto<Children> for InternalNode { open spec fn to(self) -> Children { self.children } fn rt_into(self) -> (r: Children) { rt_children(self) } }
impl RtInto<Node> for LeafNode { open spec fn to(self) -> Node { Node::Leaf(self) } fn rt_into(self) -> (r: Node) { Node::rt_of_leaf(self) } }
// an iterator over what a Vec holds
pub struct RtIter<T> { pub v: Vec<T> }
pub fn rt_iter<T>(v: Vec<T>) -> (r: RtIter<T>) ensures r.v == v, { RtIter { v } }
impl<T> RtIter<T> {
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self).v@.len() == 0 ==> r is None && final(self).v@ == old(self).v@, old(self).v@.len() > 0 ==> r == Some(old(self).v@[0]) && final(self).v@ == old(self).v@.remove(0),
    { if self.v.len() == 0 { None } else { Some(self.v.remove(0)) } }
}
pub fn drop<T>(x: T) { }
// <[u8; 32]>::try_from(&[u8])
#[verifier::external_body]
pub fn rt_key32(b: &[u8]) -> (r: [u8; 32])
    requires b@.len() == 32,
    ensures r@ == b@,
{ b.try_into().unwrap() }
pub proof fn items_front(cs: Cs, v: Seq<(Nibble, &Child)>)
    requires is_items(cs, v, 16), cs.len() == 16,
    ensures v.len() == 0 ==> vacant(cs, 0, 16), v.len() > 0 ==> v[0].0.v() < 16 && cs[v[0].0.v() as int] == Some(*v[0].1) && !vacant(cs, 0, 16), v.len() == 1 ==> sole(cs, 0, 16, v[0].0.v() as int), v.len() > 1 ==> !lone(cs, 0, 16),
{
    reveal(is_items);
    cnt_vacant(cs, 16);
    if v.len() > 0 { assert(v[0].0.v() < 16); cnt_sole(cs, 16, v[0].0.v() as int); }
    if lone(cs, 0, 16) { let j = choose|k: int| #[trigger] sole_leaf(cs, 0, 16, k); assert(sole(cs, 0, 16, j)); cnt_sole(cs, 16, j); }
}
pub open spec fn hv(o: Option<ValueHash>) -> Option<Seq<u8>> { match o { Some(x) => Some(x.0@), None => None } }
// the path of a key, as far as p
pub open spec fn on_path(it: NibbleIterator, p: Seq<u8>) -> bool { it.wf() && it.start == 0 && it.pos.end == 64 && it.nibble_path.num_nibbles == 64 && it.pos.start == p.len() && it.nibble_path.bytes@.len() == 32 && isp(p, nibs_of(it.nibble_path.bytes@)) }
pub open spec fn key_of(it: NibbleIterator) -> Seq<u8> { it.nibble_path.bytes@ }
// what is at (v, p): the pairs of m below p, or nothing at all for an emptied root
pub open spec fn orep(ver: u64, w: W, v: u64, p: Seq<u8>, m: KV) -> bool { rep(w, v, p, m) || (p.len() == 0 && v == ver && !w.contains_key((v, p)) && nnone(m, p)) }
pub open spec fn put_done(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, p: Seq<u8>, m: KV, k: Seq<u8>, val: Option<Seq<u8>>, w1: W, s1: Set<NK>, r: PutResult<(NodeKey, Node)>) -> bool {
    match r {
        PutResult::NotChanged => val is None && !m.contains_key(k) && s1 == s0 && (w1 == w0 || (p.len() == 0 && ov == Some(ver) && w0.contains_key((ver, p)) && w0[(ver, p)] is Null && w1 == w0.remove((ver, p)))),
        PutResult::Updated(x) => x.0.wf() && x.0.nk() == (ver, p) && w1.contains_key((ver, p)) && w1[(ver, p)] == x.1 && !(x.1 is Null) && rep(w1, ver, p, upd(m, k, val))
            && local(ver, w0, s0, ov, w1, s1, Some(ver), p) && outside(w0, s0, w1, s1, p),
        PutResult::Removed => val is None && nnone(upd(m, k, val), p) && local(ver, w0, s0, ov, w1, s1, None, p) && outside(w0, s0, w1, s1, p),
    }
}
impl<'a, R: TreeReader> TreeCache<'a, R> {
    pub open spec fn put_pre(&self, version: u64, node_key: NodeKey, it: NibbleIterator, m: KV) -> bool {
        &&& self.wf() && version == self.ver() && node_key.wf() && on_path(it, node_key.p())
        &&& orep(version, self.w(), node_key.version, node_key.p(), m) && kv_ok(m) && m.len() < usize::MAX
        &&& clean(version, self.w(), self.st(), Some(node_key.version), node_key.p())
    }
}
pub proof fn cache_old<R: TreeReader>(c: TreeCache<R>, k: NK)
    requires c.wf(),
    ensures c.w().contains_key(k) ==> vo(k.0) <= vo(c.ver()), c.w().contains_key(k) && k.0 != c.ver() ==> c.past().contains_key(k) && !c.nc().contains_key(k), c.nc().contains_key(k) ==> c.w().contains_key(k),
{ if c.past().contains_key(k) { assert(vo(k.0) < c.ver()); } if c.nc().contains_key(k) { assert(k.0 == c.ver()); } }
pub proof fn cache_olds<R: TreeReader>(c: TreeCache<R>, d: TreeCache<R>)
    requires c.wf(), d.wf(), d.same_env(c),
    ensures olds(c.ver(), c.w(), d.w()),
{ assert forall|k: NK| k.0 != c.ver() implies #[trigger] at(d.w(), k) == at(c.w(), k) by { if c.nc().contains_key(k) { } if d.nc().contains_key(k) { } } }
pub proof fn upd_facts(m: KV, k: Seq<u8>, v: Option<Seq<u8>>)
    requires kv_ok(m), k.len() == 32, v matches Some(h) ==> h.len() == 32,
    ensures kv_ok(upd(m, k, v)), upd(m, k, v).len() <= m.len() + 1,
{
    assert forall|x: Seq<u8>| #[trigger] upd(m, k, v).contains_key(x) implies x.len() == 32 && upd(m, k, v)[x].len() == 32 by { if x != k { assert(m.contains_key(x)); } }
    match v { Some(h) => { assert(m.insert(k, h).dom() =~= m.dom().insert(k)); }, None => { assert(m.remove(k).dom() =~= m.dom().remove(k)); } }
}
pub proof fn nibs_eq(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == b.len(), nibs_of(a) == nibs_of(b),
    ensures a == b,
{
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        let x = a[i];
        let y = b[i];
        assert((2 * i) / 2 == i && (2 * i + 1) / 2 == i && (2 * i) % 2 == 0 && (2 * i + 1) % 2 == 1);
        assert(nibs_of(a)[2 * i] == nibn(a, 2 * i) && nibs_of(b)[2 * i] == nibn(b, 2 * i) && nibs_of(a)[2 * i + 1] == nibn(a, 2 * i + 1) && nibs_of(b)[2 * i + 1] == nibn(b, 2 * i + 1));
        assert(x / 16 == y / 16 && x % 16 == y % 16);
        assert(x == (x / 16) * 16 + x % 16 && y == (y / 16) * 16 + y % 16) by (nonlinear_arith);
    }
    assert(a =~= b);
}
pub proof fn leaf_swap(ver: u64, w0: W, s0: Set<NK>, v: u64, p: Seq<u8>, m: KV, w1: W, s1: Set<NK>, k: Seq<u8>, h: Seq<u8>)
    requires clean(ver, w0, s0, Some(v), p), local(ver, w0, s0, Some(v), w1, s1, None, p), outside(w0, s0, w1, s1, p), olds(ver, w0, w1), nnone(m, p) || nonly(m, p, k), npre(p, k),
    ensures forall|n: Node| (n matches Node::Leaf(l) && l.k() == k && l.v() == h) ==> swapped(ver, w0, s0, v, p, upd(m, k, Some(h)), #[trigger] w1.insert((ver, p), n), s1),
{
    clean_gone(ver, w0, s0, v, p, w1, s1);
    assert forall|n: Node| (n matches Node::Leaf(l) && l.k() == k && l.v() == h) implies swapped(ver, w0, s0, v, p, upd(m, k, Some(h)), #[trigger] w1.insert((ver, p), n), s1) by {
        let w2 = w1.insert((ver, p), n);
        leaf_new(ver, w1, s1, p, m, w2, n->Leaf_0);
        local_trans(ver, w0, s0, Some(v), w1, s1, None, w2, s1, Some(ver), p);
        isp_self(p);
        outside_trans(w0, s0, w1, s1, w2, s1, p, p, p);
    }
}
pub open spec fn swapped(ver: u64, w0: W, s0: Set<NK>, v: u64, p: Seq<u8>, m: KV, w: W, s: Set<NK>) -> bool { rep(w, ver, p, m) && local(ver, w0, s0, Some(v), w, s, Some(ver), p) && outside(w0, s0, w, s, p) }
pub proof fn pre_lcpn(a: Seq<u8>, b: Seq<u8>)
    requires isp(a, b),
    ensures forall|n: int| #[trigger] lcpn(a, b, n) ==> n == a.len(),
{ assert forall|n: int| #[trigger] lcpn(a, b, n) implies n == a.len() by { if n < a.len() { assert(a[n] == b[n]); } } }
pub proof fn npre_isp(p: Seq<u8>, k: Seq<u8>)
    requires npre(p, k), k.len() == 32, p.len() <= 64,
    ensures isp(p, nibs_of(k)),
{ assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] == nibs_of(k)[i] by { assert(nibn(k, i) == p[i]); } }
pub open spec fn tail_of(k: Seq<u8>, p: Seq<u8>) -> Seq<u8> { nibs_of(k).subrange(p.len() as int, 64) }
pub open spec fn head_of(k: Seq<u8>, n: int) -> Seq<u8> { nibs_of(k).subrange(0, n) }
pub proof fn split_same(k: Seq<u8>, k2: Seq<u8>, p: Seq<u8>, n: int)
    requires k.len() == 32, k2.len() == 32, isp(p, nibs_of(k)), isp(p, nibs_of(k2)), lcpn(tail_of(k, p), tail_of(k2, p), n), n == 64 - p.len(),
    ensures k == k2,
{
    assert forall|i: int| 0 <= i < 64 implies nibs_of(k)[i] == nibs_of(k2)[i] by { if i < p.len() { assert(p[i] == nibs_of(k)[i] && p[i] == nibs_of(k2)[i]); } else { assert(tail_of(k, p)[i - p.len()] == tail_of(k2, p)[i - p.len()]); } }
    assert(nibs_of(k) =~= nibs_of(k2));
    nibs_eq(k, k2);
}
pub open spec fn split_at(k: Seq<u8>, k2: Seq<u8>, p: Seq<u8>, c: Seq<u8>) -> bool {
    &&& c.len() < 64 && isp(p, c) && nibs16(c) && npre(c, k) && npre(c, k2)
    &&& nibn(k, c.len() as int) != nibn(k2, c.len() as int) && nibn(k, c.len() as int) < 16 && nibn(k2, c.len() as int) < 16
    &&& npre(c.push(nibn(k, c.len() as int)), k) && npre(c.push(nibn(k2, c.len() as int)), k2) && k != k2
}
pub proof fn split_facts(k: Seq<u8>, k2: Seq<u8>, p: Seq<u8>, n: int)
    requires k.len() == 32, k2.len() == 32, isp(p, nibs_of(k)), isp(p, nibs_of(k2)), lcpn(tail_of(k, p), tail_of(k2, p), n), n < 64 - p.len(),
    ensures split_at(k, k2, p, head_of(k, p.len() + n)), tail_of(k, p)[n] == nibn(k, p.len() + n), tail_of(k2, p)[n] == nibn(k2, p.len() + n),
{
    let d = p.len() + n;
    let c = head_of(k, d);
    assert forall|i: int| 0 <= i < d implies nibn(k, i) == #[trigger] c[i] && nibn(k2, i) == c[i] && c[i] < 16 by {
        nib16(k, i);
        assert(c[i] == nibs_of(k)[i]);
        if i < p.len() { assert(p[i] == nibs_of(k)[i] && p[i] == nibs_of(k2)[i]); } else { assert(tail_of(k, p)[i - p.len()] == tail_of(k2, p)[i - p.len()]); }
    }
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] == c[i] by { assert(p[i] == nibs_of(k)[i]); }
    nib16(k, d);
    nib16(k2, d);
    assert(tail_of(k, p)[n] == nibs_of(k)[d] && tail_of(k2, p)[n] == nibs_of(k2)[d]);
    npre_push(c, nibn(k, d), k);
    npre_push(c, nibn(k2, d), k2);
}
pub proof fn npre_down(p: Seq<u8>, q: Seq<u8>, k: Seq<u8>)
    requires isp(p, q), npre(q, k),
    ensures npre(p, k),
{ assert forall|i: int| 0 <= i < p.len() implies nibn(k, i) == #[trigger] p[i] by { assert(p[i] == q[i]); assert(nibn(k, i) == q[i]); } }
pub proof fn two_down(m: KV, p: Seq<u8>, q: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires isp(p, q), only_two(m, p, a, b),
    ensures only_two(m, q, a, b),
{ assert forall|y: Seq<u8>| #[trigger] nund(m, q, y) implies y == a || y == b by { npre_down(p, q, y); assert(nund(m, p, y)); } }
pub proof fn split_keys(m: KV, k: Seq<u8>, k2: Seq<u8>, h: Seq<u8>, p: Seq<u8>, c: Seq<u8>)
    requires split_at(k, k2, p, c), nonly(m, p, k2),
    ensures ({ let m1 = upd(m, k, Some(h)); let d = c.len() as int; nonly(m1, c.push(nibn(k, d)), k) && nonly(m1, c.push(nibn(k2, d)), k2) && only_two(m1, p, k2, k) && only_two(m1, c, k2, k) && m1[k] == h && m1[k2] == m[k2] }),
{
    let m1 = upd(m, k, Some(h));
    let d = c.len() as int;
    let x = nibn(k, d);
    let y = nibn(k2, d);
    assert(nund(m, p, k2));
    assert(only_two(m1, p, k2, k)) by { assert forall|z: Seq<u8>| #[trigger] nund(m1, p, z) implies z == k2 || z == k by { if z != k { assert(nund(m, p, z)); } } }
    two_down(m1, p, c, k2, k);
    assert(nonly(m1, c.push(x), k)) by { assert forall|z: Seq<u8>| #[trigger] nund(m1, c.push(x), z) implies z == k by { npre_push(c, x, z); assert(nund(m1, c, z)); } }
    assert(nonly(m1, c.push(y), k2)) by { assert forall|z: Seq<u8>| #[trigger] nund(m1, c.push(y), z) implies z == k2 by { npre_push(c, y, z); assert(nund(m1, c, z)); } }
}
pub proof fn leaf_here(ver: u64, w: W, v: u64, p: Seq<u8>, m: KV, l: LeafNode)
    requires orep(ver, w, v, p, m), w.contains_key((v, p)), w[(v, p)] == Node::Leaf(l), kv_ok(m),
    ensures nonly(m, p, l.k()), nund(m, p, l.k()), npre(p, l.k()), m.contains_key(l.k()), m[l.k()] == l.v(), l.k().len() == 32,
{ assert(nund(m, p, l.k())); }
pub proof fn isp_sub(p: Seq<u8>, q: Seq<u8>)
    requires isp(p, q),
    ensures q.subrange(0, p.len() as int) == p, p.len() <= q.len(),
{ assert(q.subrange(0, p.len() as int) =~= p); }
pub proof fn not_there(m: KV, p: Seq<u8>, k: Seq<u8>, k2: Seq<u8>)
    requires nonly(m, p, k2), npre(p, k), k != k2,
    ensures !m.contains_key(k),
{ if m.contains_key(k) { assert(nund(m, p, k)); } }
pub proof fn path_all(np: NibblePath)
    requires np.wf(),
    ensures np.v().len() == np.num_nibbles, np.num_nibbles <= 64, np.bytes@.len() == 32 && np.num_nibbles == 64 ==> np.v() == nibs_of(np.bytes@),
{ if np.bytes@.len() == 32 && np.num_nibbles == 64 { assert(np.v() =~= nibs_of(np.bytes@)); } }
pub proof fn rep_has(w: W, v: u64, p: Seq<u8>, m: KV)
    requires rep(w, v, p, m),
    ensures w.contains_key((v, p)),
{ }
pub proof fn it_start(it: NibbleIterator, p: Seq<u8>)
    requires on_path(it, p),
    ensures it.seen() == p, it.seen().len() == p.len(), p.len() <= 64, it.rest() == tail_of(key_of(it), p), it.all().len() == 64,
{
    let k = key_of(it);
    path_all(*it.nibble_path);
    isp_sub(p, nibs_of(k));
    assert(it.seen() =~= p);
    assert(it.rest() =~= tail_of(k, p));
}
pub proof fn tail_is(k: Seq<u8>, p: Seq<u8>)
    requires k.len() == 32, p.len() <= 64,
    ensures nibs_of(k).len() == 64, tail_of(k, p) == nibs_of(k).subrange(p.len() as int, 64), tail_of(k, p).len() == 64 - p.len(),
{ }
pub proof fn lcpn_len(a: Seq<u8>, b: Seq<u8>, n: int)
    requires lcpn(a, b, n),
    ensures 0 <= n <= a.len(), n <= b.len(),
{ }
pub proof fn it_after(it: NibbleIterator, k: Seq<u8>, p: Seq<u8>, n: int)
    requires it.wf(), it.start == 0, it.nibble_path.num_nibbles == 64, it.nibble_path.bytes@ == k, k.len() == 32, p.len() <= 64, 0 <= n <= 64 - p.len(), it.all().len() == 64, it.rest() == tail_of(k, p).subrange(n, 64 - p.len()),
    ensures it.pos.end == 64, it.pos.start == p.len() + n, it.seen() == head_of(k, p.len() + n), it.seen().len() == p.len() + n, it.rest().len() == 64 - p.len() - n, n < 64 - p.len() ==> it.rest()[0] == nibn(k, p.len() + n),
{
    path_all(*it.nibble_path);
    tail_is(k, p);
    assert(it.all().len() == it.pos.end);
    assert(it.rest().len() == 64 - p.len() - n);
    assert(it.rest().len() == it.pos.end - it.pos.start);
    assert(it.pos.start == p.len() + n);
    assert(it.seen() =~= head_of(k, p.len() + n));
}
pub proof fn nibs_none(s: Seq<u8>)
    requires s.len() == 0,
    ensures nibs_of(s) == Seq::<u8>::empty(),
{ assert(nibs_of(s) =~= Seq::<u8>::empty()); }
pub proof fn nibs_ext(k: Seq<u8>)
    ensures forall|z: Seq<u8>| z =~= k ==> #[trigger] nibs_of(z) == nibs_of(k),
{ }
pub proof fn chain_step(p: Seq<u8>, cur: Seq<u8>, c: Seq<u8>, m1: KV, k: Seq<u8>, k2: Seq<u8>)
    requires isp(p, c), isp(cur, c), p.len() < cur.len(), nibs16(c), npre(c, k), npre(c, k2), only_two(m1, p, k2, k),
    ensures ({ let par = cur.drop_last(); isp(p, par) && isp(par, c) && nibs16(par) && cur.last() < 16 && par.push(cur.last()) == cur && only_two(m1, par, k2, k) && npre(cur, k) && npre(cur, k2) }),
{
    let par = cur.drop_last();
    assert(isp(p, par)) by { assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] == par[i] by { assert(p[i] == c[i]); assert(cur[i] == c[i]); } }
    assert(isp(par, c)) by { assert forall|i: int| 0 <= i < par.len() implies #[trigger] par[i] == c[i] by { assert(cur[i] == c[i]); } }
    assert(nibs16(par)) by { assert forall|i: int| 0 <= i < par.len() implies #[trigger] par[i] < 16 by { assert(c[i] < 16); assert(cur[i] == c[i]); } }
    assert(cur.last() == c[cur.len() - 1] && c[cur.len() - 1] < 16);
    assert(par.push(cur.last()) =~= cur);
    two_down(m1, p, par, k2, k);
    npre_down(cur, c, k);
    npre_down(cur, c, k2);
}
impl<R: TreeReader, H: SimpleHasher> JellyfishMerkleTree<R, H> {
//@fn jmt/src/tree.rs JellyfishMerkleTree::create_leaf_node props C09 C10
//@rewrite? $id_it.get_nibble_path().bytes().try_into().expect($m) ==> rt_key32($id_it.get_nibble_path().bytes())
//@spec
    requires old(tree_cache).wf(), node_key.wf(), node_key.version == old(tree_cache).ver(), nibble_iter.wf(), nibble_iter.start == 0, nibble_iter.pos.end == 64, nibble_iter.nibble_path.num_nibbles == 64, nibble_iter.nibble_path.bytes@.len() == 32,
    ensures !old(tree_cache).nc().contains_key(node_key.nk()) ==> r is Ok,
        r matches Ok(x) ==> x.0.wf() && x.0.nk() == node_key.nk() && (x.1 matches Node::Leaf(l) && l.k() == key_of(*nibble_iter) && l.v() == value_hash.0@)
            && final(tree_cache).wf() && final(tree_cache).same_env(*old(tree_cache)) && final(tree_cache).nc() == old(tree_cache).nc().insert(node_key.nk(), x.1) && final(tree_cache).st() == old(tree_cache).st()
            && final(tree_cache).w() == old(tree_cache).w().insert(node_key.nk(), x.1),
//@start
    proof {
        assert(nibble_iter.all() =~= nibble_iter.nibble_path.v());
        assert forall|q: NibblePath| q.wf() && #[trigger] q.v() == nibble_iter.nibble_path.v() implies q.bytes@ == nibble_iter.nibble_path.bytes@ by { path_canonical(q, *nibble_iter.nibble_path); }
    }
//@end
//@fn jmt/src/tree.rs JellyfishMerkleTree::insert_at_leaf_node props C09 C10 C16 C21
//@attr verifier::spinoff_prover
//@sig tree_cache: &mut TreeCache<R> ==> tree_cache: &mut TreeCache<R>, Ghost(rt_m): Ghost<KV>
//@rewrite? nibble_iter.visited_nibbles().collect::<NibblePath>() ==> { let mut rt_a = nibble_iter.visited_nibbles(); let mut rt_p = NibblePath::new(Vec::new()); loop { match rt_a.next() { Some(rt_x) => rt_p.push(rt_x), None => break, } } rt_p }
//@rewrite? .into() ==> .rt_into()
//@spec
    requires old(tree_cache).put_pre(version, node_key, *old(nibble_iter), rt_m), old(tree_cache).w().contains_key(node_key.nk()), old(tree_cache).w()[node_key.nk()] == Node::Leaf(existing_leaf_node),
    ensures old(tree_cache).reader.reliable() ==> r is Ok,
        r matches Ok(x) ==> final(tree_cache).wf() && final(tree_cache).same_env(*old(tree_cache))
            && put_done(version, old(tree_cache).w(), old(tree_cache).st(), Some(node_key.version), node_key.p(), rt_m, key_of(*old(nibble_iter)), hv(value_hash), final(tree_cache).w(), final(tree_cache).st(), x),
//@start
    hide(TreeCache::w); hide(TreeCache::past); hide(TreeCache::wf); hide(NibblePath::v); hide(NibblePath::wf); hide(NibbleIterator::seen); hide(NibbleIterator::rest); hide(NibbleIterator::all); hide(head_of); hide(tail_of); hide(nibs_of); hide(lcpn); hide(rep); hide(npre); hide(nonly); hide(only_two); hide(isp); hide(nibs16); hide(kv_ok); hide(nnone);
    let ghost c0 = *tree_cache;
    let ghost w0 = tree_cache.w();
    let ghost s0 = tree_cache.st();
    let ghost k = key_of(*nibble_iter);
    let ghost p = node_key.p();
    let ghost v = node_key.version;
    let ghost val = hv(value_hash);
    let ghost k2 = existing_leaf_node.k();
    let ghost m1 = upd(rt_m, k, val);
    let ghost np = nibble_iter.nibble_path;
    proof {
        leaf_here(version, w0, v, p, rt_m, existing_leaf_node);
        nibs_npre(k, p);
        npre_isp(p, k2);
        clean_here(version, w0, s0, Some(v), p);
        cache_old(*tree_cache, (v, p));
        cache_old(*tree_cache, (version, p));
        upd_facts(rt_m, k, val);
        pre_lcpn(p, nibs_of(k2));
        it_start(*nibble_iter, p);
        tail_is(k, p);
        tail_is(k2, p);
    }
//@before rt_assert(visited_nibble_iter.is_finished
    proof { nibs_ext(k2); assert(existing_leaf_nibble_path.v() == nibs_of(k2)); assert(lcpn(p, nibs_of(k2), p.len() as int)); assert(existing_leaf_nibble_iter.rest() == nibs_of(k2).subrange(p.len() as int, 64)); assert(visited_nibble_iter.rest().len() == 0); assert(existing_leaf_nibble_iter.rest() == tail_of(k2, p)); }
//@after let num_common_nibbles_below_internal =
    let ghost n = num_common_nibbles_below_internal as int;
    let ghost c = head_of(k, p.len() + n);
    proof {
        assert(lcpn(tail_of(k, p), tail_of(k2, p), n));
        lcpn_len(tail_of(k, p), tail_of(k2, p), n);
        it_after(*nibble_iter, k, p, n);
        nibs_none(Seq::empty());
    }
//@loop 0
    invariant rt_p.wf(), rt_a.wf(), nibble_iter.wf(), nibble_iter.seen().len() <= 64, rt_p.num_nibbles + rt_a.rest().len() == nibble_iter.seen().len(), rt_p.v() + rt_a.rest() =~= nibble_iter.seen(),
    ensures rt_p.wf(), rt_p.v() == nibble_iter.seen(),
    decreases rt_a.rest().len(),
//@after tree_cache.delete_node(&node_key, $b)
    proof {
        let w1 = tree_cache.w();
        let s1 = tree_cache.st();
        split_same(k, k2, p, n);
        tip_gone(version, w0, s0, v, p, w1, s1);
        cache_olds(c0, *tree_cache);
        cache_old(*tree_cache, (version, p));
        only_new(rt_m, p, k, Seq::empty());
        if val is Some { leaf_swap(version, w0, s0, v, p, rt_m, w1, s1, k, val->0); }
    }
//@before let existing_leaf_index =
    let ghost w1 = tree_cache.w();
    let ghost s1 = tree_cache.st();
    let ghost x2 = nibn(k2, c.len() as int);
    let ghost x1 = nibn(k, c.len() as int);
    proof {
        tip_gone(version, w0, s0, v, p, w1, s1);
        clean_gone(version, w0, s0, v, p, w1, s1);
        cache_olds(c0, *tree_cache);
        split_facts(k, k2, p, n);
        split_keys(rt_m, k, k2, val->0, p, c);
        clean_down(version, w1, s1, p, c);
        clean_kid(version, w1, s1, None, c, x1);
        clean_kid(version, w1, s1, None, c, x2);
        built_leaf(version, w1, s1, c.push(x2), m1, existing_leaf_node);
        clean_here(version, w1, s1, None, c.push(x1));
        cache_old(*tree_cache, (version, c.push(x2)));
    }
//@before let (_, new_leaf_node) =
    let ghost w2 = tree_cache.w();
    proof { assert(c.push(x2) != c.push(x1)) by { assert(c.push(x2).last() == x2 && c.push(x1).last() == x1); } cache_old(*tree_cache, (version, c.push(x1))); }
//@before let internal_node = InternalNode::new_migration
    let ghost cs = children.cs();
    let ghost w3 = tree_cache.w();
    proof {
        olds_step(version, w1, w2, (version, c.push(x2)));
        built_two(version, w1, s1, w2, w3, c, m1, x2, x1, existing_leaf_node, new_leaf_node->Leaf_0, cs);
        cache_old(*tree_cache, (version, c));
    }
//@before for _i in
    proof { mid_fin(version, w1, s1, None, w3, s1, c, m1, cs, tree_cache.w(), next_internal_node); isp_self(c); }
//@loop 1
    invariant common_nibble_path.wf(), common_nibble_path.v().len() == p.len() + n - _i, isp(common_nibble_path.v(), c), isp(p, c), c.len() == p.len() + n, c.len() < 64,
        node_key.wf(), node_key.nk() == (version, common_nibble_path.v()), n == num_common_nibbles_below_internal,
        built(version, w1, s1, tree_cache.w(), common_nibble_path.v(), m1, Node::Internal(next_internal_node)), tree_cache.wf(), tree_cache.same_env(c0), tree_cache.st() == s1, version == c0.ver(),
        clean(version, w1, s1, None, p), nibs16(c), npre(c, k), npre(c, k2), only_two(m1, p, k2, k), kv_ok(m1), m1.len() <= usize::MAX,
        c0.reader.reliable() || true,
//@loopstart 1
    let ghost cur = common_nibble_path.v();
    let ghost par = cur.drop_last();
    let ghost wa = tree_cache.w();
    proof {
        chain_step(p, cur, c, m1, k, k2);
        clean_down(version, w1, s1, p, par);
    }
//@before let internal_node = InternalNode::new(children)
    proof {
        built_up(version, w1, s1, wa, par, m1, cur.last(), next_internal_node, children.cs(), k2, k);
        cache_old(*tree_cache, (version, par));
    }
    let ghost cs1 = children.cs();
//@loopend 1
    proof { mid_fin(version, w1, s1, None, wa, s1, par, m1, cs1, tree_cache.w(), next_internal_node); }
//@before Ok(PutResult::Updated((node_key, next_internal_node
    proof {
        isp_two(p, common_nibble_path.v(), c);
        isp_eq(p, common_nibble_path.v());
        let w4 = tree_cache.w();
        rep_has(w4, version, p, m1);
        cache_olds(c0, *tree_cache);
        local_trans(version, w0, s0, Some(v), w1, s1, None, w4, s1, Some(version), p);
        isp_self(p);
        outside_trans(w0, s0, w1, s1, w4, s1, p, p, p);
    }
//@before Ok(PutResult::NotChanged)
    proof { split_facts(k, k2, p, n); not_there(rt_m, p, k, k2); }
//@end
//@fn jmt/src/tree.rs JellyfishMerkleTree::insert_at_internal_node props C09 C10 C16 C21
//@sig tree_cache: &mut TreeCache<R> ==> tree_cache: &mut TreeCache<R>, Ghost(rt_m): Ghost<KV>
//@rewrite? let mut $id_i = children.iter(); ==> let mut $id_i = rt_iter(children.iter());
//@rewrite? .into() ==> .rt_into()
//@spec
    requires old(tree_cache).put_pre(version, node_key, *old(nibble_iter), rt_m), old(tree_cache).w().contains_key(node_key.nk()), old(tree_cache).w()[node_key.nk()] == Node::Internal(internal_node),
    ensures old(tree_cache).reader.reliable() ==> r is Ok,
        r matches Ok(x) ==> final(tree_cache).wf() && final(tree_cache).same_env(*old(tree_cache))
            && put_done(version, old(tree_cache).w(), old(tree_cache).st(), Some(node_key.version), node_key.p(), rt_m, key_of(*old(nibble_iter)), hv(value), final(tree_cache).w(), final(tree_cache).st(), x),
    decreases 64 - node_key.p().len(), 0int,
//@start
    let ghost c0 = *tree_cache;
    let ghost w0 = tree_cache.w();
    let ghost s0 = tree_cache.st();
    let ghost k = key_of(*nibble_iter);
    let ghost p = node_key.p();
    let ghost v = node_key.version;
    let ghost val = hv(value);
    let ghost x = nibn(k, p.len() as int);
    let ghost px = p.push(x);
    let ghost m1 = upd(rt_m, k, val);
    let ghost kv = kid(w0, Some(v), p, x);
    proof {
        rep_internal(w0, v, p, rt_m);
        nib16(k, p.len() as int);
        assert(nibs_of(k)[p.len() as int] == x);
        isp_push(p, x, nibs_of(k));
        nibs_npre(k, p);
        npre_push(p, x, k);
        assert(crep(w0, v, p, rt_m, internal_node.cs()[x as int], x as int));
        clean_kid(version, w0, s0, Some(v), p, x);
        clean_here(version, w0, s0, kv, px);
        clean_here(version, w0, s0, Some(v), p);
        cache_old(*tree_cache, (v, p));
        cache_old(*tree_cache, (version, px));
        upd_facts(rt_m, k, val);
        assert(nibble_iter.rest()[0] == x);
    }
//@before let mut children: Children =
    let ghost res = result;
    let ghost w1 = tree_cache.w();
    let ghost s1 = tree_cache.st();
    proof {
        if internal_node.cs()[x as int] is None {
            if val is None { assert(!nund(rt_m, px, k)); }
            else { let l = w1[(version, px)]->Leaf_0; leaf_new(version, w0, s0, px, rt_m, w1, l); assert(upd(rt_m, l.k(), Some(l.v())) == m1); }
        }
        assert(put_done(version, w0, s0, kv, px, rt_m, k, val, w1, s1, res));
        if !(res is NotChanged) {
            isp_push(p, x, p);
            assert(same_at(w0, s0, w1, s1, (v, p)));
        }
    }
//@before tree_cache.delete_node(&node_key, $b);
    let ghost cs = children.cs();
    let ghost o = cs[x as int];
    proof {
        assert(cs =~= internal_node.cs().update(x as int, o));
        if res is Updated { child_of(w1, version, p, m1, x, o->0, w1[(version, px)]); }
        assert(crep(w1, version, p, m1, o, x as int));
        assert(vopt(o) == (if res is Updated { Some(version) } else { None::<u64> }));
    }
//@before let mut it =
    let ghost w2 = tree_cache.w();
    let ghost s2 = tree_cache.st();
    proof {
        mid_start(version, w0, s0, v, w1, s1, w2, s2, p, rt_m, k, val, internal_node, x, o);
        mid_kids(version, w0, s0, Some(v), w2, s2, p, m1, cs);
        kids_fit(w2, version, p, m1, cs);
        cache_olds(c0, *tree_cache);
        cache_old(*tree_cache, (version, p));
    }
//@after let mut it = rt_iter(children.iter())
    proof { items_front(cs, it.v@); }
//@before let child_key =
    let ghost j = child_nibble.v() as int;
    let ghost ck = (child.version, p.push(j as u8));
    proof { assert(sole(cs, 0, 16, j)); mid_lone_old(version, w0, s0, Some(v), w2, s2, p, m1, cs, j); assert(p.push(j as u8) == p.push(child_nibble.v())); }
//@before node_key.set_version(version); $id_a.put_node($id_b.clone(), child_node.clone())
    let ghost w3 = tree_cache.w();
    let ghost s3 = tree_cache.st();
    proof { mid_lone(version, w0, s0, Some(v), w2, s2, p, m1, cs, j, w3, s3, w3.insert((version, p), child_node), child_node->Leaf_0); cache_old(*tree_cache, (version, p)); }
//@before Ok(PutResult::Updated((node_key, new_internal_node
    proof { let w3 = tree_cache.w(); mid_fin(version, w0, s0, Some(v), w2, s2, p, m1, cs, w3, w3[(version, p)]->Internal_0); }
//@before Ok(PutResult::Removed)
    proof { mid_empty(version, w0, s0, Some(v), w2, s2, p, m1, cs); if val is Some { assert(nund(m1, p, k)); } }
//@end
//@fn jmt/src/tree.rs JellyfishMerkleTree::insert_at props C09 C10 C16
//@sig tree_cache: &mut TreeCache<R> ==> tree_cache: &mut TreeCache<R>, Ghost(rt_m): Ghost<KV>
//@rewrite? tree_cache.get_node_option($a)?.map(|$id_n| $f).unwrap_or($d) ==> (match tree_cache.get_node_option($a)? { Some($id_n) => $f, None => $d })
//@spec
    requires old(tree_cache).put_pre(version, node_key, *old(nibble_iter), rt_m),
    ensures old(tree_cache).reader.reliable() ==> r is Ok,
        r matches Ok(x) ==> final(tree_cache).wf() && final(tree_cache).same_env(*old(tree_cache))
            && put_done(version, old(tree_cache).w(), old(tree_cache).st(), Some(node_key.version), node_key.p(), rt_m, key_of(*old(nibble_iter)), hv(value), final(tree_cache).w(), final(tree_cache).st(), x),
    decreases 64 - node_key.p().len(), 1int,
//@start
    let ghost w0 = tree_cache.w();
    let ghost s0 = tree_cache.st();
    let ghost k = key_of(*nibble_iter);
    let ghost p = node_key.p();
    let ghost v = node_key.version;
    proof { clean_here(version, w0, s0, Some(v), p); cache_old(*tree_cache, (v, p)); cache_old(*tree_cache, (version, p)); nibs_npre(k, p); if p.len() == 0 { assert(p =~= Seq::<u8>::empty()); } }
//@tail
    proof { if r is Ok && (orep(version, w0, v, p, rt_m)) && (!w0.contains_key((v, p)) || w0[(v, p)] is Null) {
        let w2 = tree_cache.w();
        let w1 = if v == version { w0.remove((v, p)) } else { w0 };
        assert(w0.contains_key((v, p)) || w1 =~= w0);
        tip_gone(version, w0, s0, v, p, w1, s0);
        assert(npre(p, k));
        if value is Some {
            let l = w2[(version, p)]->Leaf_0;
            assert(w2 =~= w1.insert((version, p), Node::Leaf(l)));
            clean_gone(version, w0, s0, v, p, w1, s0);
            leaf_new(version, w1, s0, p, rt_m, w2, l);
            olds_step(version, w0, w1, (version, p));
            local_trans(version, w0, s0, Some(v), w1, s0, None, w2, s0, Some(version), p);
            isp_self(p);
            outside_trans(w0, s0, w1, s0, w2, s0, p, p, p);
        } else { assert(!nund(rt_m, p, k)); }
    } }
//@end
}
pub proof fn olds_step(ver: u64, w0: W, w1: W, k: NK)
    requires k.0 == ver, w1 == w0 || w1 == w0.remove(k) || exists|n: Node| w1 == w0.insert(k, n),
    ensures olds(ver, w0, w1),
{ assert forall|x: NK| x.0 != ver implies #[trigger] at(w1, x) == at(w0, x) by { } }
pub proof fn clean_gone(ver: u64, w0: W, s0: Set<NK>, v: u64, p: Seq<u8>, w1: W, s1: Set<NK>)
    requires clean(ver, w0, s0, Some(v), p), local(ver, w0, s0, Some(v), w1, s1, None, p),
    ensures clean(ver, w1, s1, None, p),
{ local_clean(ver, w0, s0, Some(v), w1, s1, None, p); }
} // verus!
