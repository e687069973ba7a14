//@common HashMap::new() ==> ByteMap::new()
//@common HashSet::new() ==> ByteSet::new()
//@common .map_err($c) ==>
//@common .to_vec() ==> .rt_to_vec()
verus! {
//@const pmt/src/inner.rs HASHED_LENGTH
//@const pmt/src/common.rs Key
//@const pmt/src/common.rs Value
//@const pmt/src/common.rs OwnedValue
//@type pmt/src/inner.rs InnerTrie <D> where D: Database, ==> ;; Arc<D> ==> Db ;; HashMap<Vec<u8>, Vec<u8>> ==> ByteMap ;; HashSet<Vec<u8>> ==> ByteSet
// the path of a key
pub open spec fn kp(k: Seq<u8>) -> Seq<u8> { with_term(unpack(k), true) }
pub proof fn kp_full(k: Seq<u8>)
    ensures full(kp(k)),
{ }
pub open spec fn val(o: Option<Node>) -> Node { o->0 }
// <[u8]>::to_vec
pub trait RtVec {
    spec fn rtv(&self) -> Seq<u8>;
    fn rt_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.rtv();
}
impl RtVec for [u8] {
    open spec fn rtv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn rt_to_vec(&self) -> (r: Vec<u8>) { self.to_vec() }
}
impl RtVec for Vec<u8> {
    open spec fn rtv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn rt_to_vec(&self) -> (r: Vec<u8>) { self.to_vec() }
}
// <[u8]>::first
#[verifier::external_body]
pub fn rt_first(s: &[u8]) -> (r: Option<u8>)
    ensures s@.len() == 0 ==> r is None, s@.len() > 0 ==> r == Some(s@[0]), { s.first().copied() }
pub proof fn flag_bits(f: u8)
    ensures f >> 4 == f / 16,
{ assert(f >> 4 == f / 16) by (bit_vector); }
pub proof fn path_kinds(p: Seq<u8>)
    requires path_ok(p),
    ensures has_term(p) ==> full(p), !has_term(p) ==> nibbly(p),
{ }
// a position on the path of a key
pub proof fn path_facts(path: Seq<u8>, i: int)
    requires full(path), 0 <= i < path.len(),
    ensures full(sfx(path, i)), sfx(path, i).len() == path.len() - i, forall|n: int| 0 <= n <= path.len() - i ==> #[trigger] sfx(sfx(path, i), n) == sfx(path, i + n),
        sfx(path, i)[0] != 16 ==> i + 1 < path.len() && sfx(path, i)[0] < 16,
{
    assert forall|n: int| 0 <= n <= path.len() - i implies #[trigger] sfx(sfx(path, i), n) == sfx(path, i + n) by { sfx_sfx(path, i, n); }
}
pub proof fn ext_facts(p: Seq<u8>, q: Seq<u8>)
    requires full(p), nibbly(q),
    ensures forall|n: int| #[trigger] lcp_is(p, q, n) ==> n == lcp(p, q) && 0 <= n < p.len() && n <= q.len() && (is_pfx(q, p) <==> n == q.len()) && full(sfx(p, n)),
{
    nibbly_lcp(p, q);
    assert forall|n: int| #[trigger] lcp_is(p, q, n) implies n == lcp(p, q) by { lcp_unique(p, q, n); }
}
pub proof fn leaf_facts(p: Seq<u8>, k: Seq<u8>)
    requires full(p), full(k),
    ensures forall|n: int| #[trigger] lcp_is(p, k, n) ==> n == lcp(p, k) && 0 <= n <= k.len() && n <= p.len() && (n == k.len() <==> p == k) && (n == p.len() <==> p == k),
{
    full_lcp(p, k);
    assert forall|n: int| #[trigger] lcp_is(p, k, n) implies n == lcp(p, k) by { lcp_unique(p, k, n); }
}
pub proof fn nib_len(p: &Nibbles)
    ensures p.v().len() <= usize::MAX,
{ assert(p.hex_data.len() == p.v().len()); }
pub proof fn recovered(db: Db, p: Seq<u8>)
    ensures forall|n: Node, t: T| #[trigger] rep(n, t) && !(n is Hash) && pth(db.m().dom(), t, p) ==> avp(db.m().dom(), n, t, p),
{
    assert forall|n: Node, t: T| #[trigger] rep(n, t) && !(n is Hash) && pth(db.m().dom(), t, p) implies avp(db.m().dom(), n, t, p) by { pth_avp(db.m().dom(), n, t, p); }
}
// the children of a node represent the children of the trie
pub proof fn rep_kids(n: Node)
    ensures forall|t: T| #[trigger] rep(n, t) ==> (match n {
        Node::Extension(e) => (match t { T::Ext(q, c) => e.prefix.v() == q && repc(*e.node, *c), _ => false }),
        Node::Branch(b) => (match t { T::Branch(cs, v) => cs.len() == 16 && forall|i: int| 0 <= i < 16 ==> repc(*#[trigger] b.children[i], cs[i]), _ => false }),
        _ => true }),
{ }
pub open spec fn enc_frame(a: InnerTrie, b: InnerTrie) -> bool {
    &&& a.db == b.db && a.root == b.root && a.root_hash == b.root_hash && a.passing_keys == b.passing_keys
    &&& a.cache.m().dom().subset_of(b.cache.m().dom())
    &&& cadb(a.cache.m()) ==> cadb(b.cache.m())
}
pub open spec fn written(r: EncodedNode, n: Node, t: T, a: InnerTrie, b: InnerTrie) -> bool {
    &&& kids(t)
    &&& match r {
        EncodedNode::Inline(x) => x@ == tenc(t) && !big(t) && !(n is Hash),
        EncodedNode::Hash(h) => h.v() == kec(tenc(t)) && hashed(tenc(t)) && (big(t) || n is Hash) && h.v().len() == 32,
    }
    &&& av(a.dom(), n, t) ==> below(b.all(), t) && (r is Hash ==> b.all().contains(kec(tenc(t))))
}
pub proof fn below_grow()
    ensures forall|d: Set<Seq<u8>>, d2: Set<Seq<u8>>, t: T| #[trigger] below(d, t) && d.subset_of(d2) ==> #[trigger] below(d2, t),
{
    assert forall|d: Set<Seq<u8>>, d2: Set<Seq<u8>>, t: T| #[trigger] below(d, t) && d.subset_of(d2) implies #[trigger] below(d2, t) by { below_mono(d, d2, t); }
}
pub open spec fn eref(t: T) -> Seq<u8> { if big(t) { rs(kec(tenc(t))) } else { tenc(t) } }
// the shape of the encoding of what a node represents
pub proof fn enc_shape(n: Node)
    ensures forall|t: T| #[trigger] rep(n, t) ==> (match t {
        T::Leaf(k, v) => tenc(t) == rl(Seq::empty().push(rs(hp(k))).push(rs(v))),
        T::Ext(q, c) => tenc(t) == rl(Seq::empty().push(rs(hp(q))).push(eref(*c))),
        T::Branch(cs, v) => tenc(t) == rl(benc(t)) && (cs.len() == 16 ==> benc(t).len() == 17 && benc(t)[16] == bval(v) && forall|i: int| 0 <= i < 16 ==> #[trigger] benc(t)[i] == eref(cs[i])),
        _ => true }),
{
    assert forall|t: T| #[trigger] rep(n, t) implies (match t {
        T::Leaf(k, v) => tenc(t) == rl(Seq::empty().push(rs(hp(k))).push(rs(v))),
        T::Ext(q, c) => tenc(t) == rl(Seq::empty().push(rs(hp(q))).push(eref(*c))),
        T::Branch(cs, v) => tenc(t) == rl(benc(t)) && (cs.len() == 16 ==> benc(t).len() == 17 && benc(t)[16] == bval(v) && forall|i: int| 0 <= i < 16 ==> #[trigger] benc(t)[i] == eref(cs[i])),
        _ => true }) by {
        match t {
            T::Leaf(k, v) => { assert(seq![rs(hp(k)), rs(v)] =~= Seq::empty().push(rs(hp(k))).push(rs(v))); },
            T::Ext(q, c) => { assert(tref(*c) == eref(*c)); assert(seq![rs(hp(q)), tref(*c)] =~= Seq::empty().push(rs(hp(q))).push(eref(*c))); },
            T::Branch(cs, v) => { assert forall|i: int| 0 <= i < 16 && cs.len() == 16 implies #[trigger] benc(t)[i] == eref(cs[i]) by { assert(tref(cs[i]) == eref(cs[i])); } },
            _ => {},
        }
    }
}
pub proof fn wf_paths(n: Node)
    requires wf(n),
    ensures match n { Node::Leaf(l) => path_ok(l.key.v()), Node::Extension(e) => path_ok(e.prefix.v()), _ => true },
{ }
pub open spec fn at_frame(a: InnerTrie, b: InnerTrie) -> bool {
    &&& a.db == b.db && a.root == b.root && a.root_hash == b.root_hash && a.cache == b.cache && a.gen_keys == b.gen_keys
}
pub open spec fn inserted(r: Result<Node>, n: Node, t: T, p: Seq<u8>, v: Seq<u8>, db: Db) -> bool {
    &&& (r matches Ok(m) ==> rep(m, tins(t, p, v)) && (av(db.m().dom(), n, t) ==> av(db.m().dom(), m, tins(t, p, v))))
    &&& (db.reliable() && av(db.m().dom(), n, t) ==> r is Ok)
}
pub proof fn node_paths(p: Seq<u8>, n: Node)
    requires full(p), wf(n),
    ensures match n {
        Node::Leaf(l) => forall|i: int| #[trigger] lcp_is(p, l.key.v(), i) ==> i == lcp(p, l.key.v()) && 0 <= i <= l.key.v().len() && i <= p.len() && (i == l.key.v().len() <==> p == l.key.v()) && (i == p.len() <==> p == l.key.v()),
        Node::Extension(e) => forall|i: int| #[trigger] lcp_is(p, e.prefix.v(), i) ==> i == lcp(p, e.prefix.v()) && 0 <= i < p.len() && i <= e.prefix.v().len() && (is_pfx(e.prefix.v(), p) <==> i == e.prefix.v().len()) && full(sfx(p, i)),
        _ => true },
{
    match n { Node::Leaf(l) => leaf_facts(p, l.key.v()), Node::Extension(e) => ext_facts(p, e.prefix.v()), _ => {} }
}
pub proof fn recovered_av(db: Db)
    ensures forall|n: Node, t: T| #[trigger] rep(n, t) && !(n is Hash) && below(db.m().dom(), t) ==> av(db.m().dom(), n, t),
{
    assert forall|n: Node, t: T| #[trigger] rep(n, t) && !(n is Hash) && below(db.m().dom(), t) implies av(db.m().dom(), n, t) by { below_av(db.m().dom(), n, t); }
}
// the shape of the trie after an insertion
pub open spec fn insd(t: T, p: Seq<u8>, v: Seq<u8>) -> T {
    match t {
        T::Empty => T::Leaf(p, v),
        T::Leaf(k, ov) => if p == k { T::Leaf(k, v) } else if lcp(p, k) == 0 { fork(k, ov, p, v, 0) } else { T::Ext(pfx(p, lcp(p, k)), Box::new(fork(k, ov, p, v, lcp(p, k)))) },
        T::Branch(cs, ov) => if p[0] == 16 { T::Branch(cs, Some(v)) } else { T::Branch(cs.update(p[0] as int, tins(cs[p[0] as int], sfx(p, 1), v)), ov) },
        T::Ext(q, c) => if lcp(p, q) == 0 { tins(unext(q, *c), p, v) } else if lcp(p, q) == q.len() { T::Ext(q, Box::new(tins(*c, sfx(p, lcp(p, q)), v))) }
            else { T::Ext(pfx(q, lcp(p, q)), Box::new(tins(T::Ext(sfx(q, lcp(p, q)), c), sfx(p, lcp(p, q)), v))) },
    }
}
pub proof fn ins_shape(n: Node, p: Seq<u8>, v: Seq<u8>)
    requires full(p), wf(n),
    ensures forall|t: T| #[trigger] rep(n, t) && tok(t) ==> tins(t, p, v) == insd(t, p, v),
{
    assert forall|t: T| #[trigger] rep(n, t) && tok(t) implies tins(t, p, v) == insd(t, p, v) by {
        match t {
            T::Leaf(k, ov) => { full_lcp(p, k); lcp_props(p, k); },
            T::Ext(q, c) => { nibbly_lcp(p, q); lcp_props(p, q); },
            _ => {},
        }
    }
}
pub open spec fn is_leaf(n: Node, k: Seq<u8>, v: Seq<u8>) -> bool { n matches Node::Leaf(l) && l.key.v() == k && l.value@ == v }
pub open spec fn is_fork(b: BranchNode, k: Seq<u8>, o: Seq<u8>, p: Seq<u8>, v: Seq<u8>, m: int) -> bool {
    &&& forall|j: int| 0 <= j < 16 && j != k[m] && j != p[m] ==> *#[trigger] b.children[j] == Node::Empty
    &&& k[m] < 16 ==> is_leaf(*b.children[k[m] as int], sfx(k, m + 1), o)
    &&& p[m] < 16 ==> is_leaf(*b.children[p[m] as int], sfx(p, m + 1), v)
    &&& ov(b.value) == (if k[m] == 16 { Some(o) } else if p[m] == 16 { Some(v) } else { None })
}
pub open spec fn fork_ok(n2: Node, n: Node, p: Seq<u8>, v: Seq<u8>, m: int, d: Set<Seq<u8>>) -> bool {
    match (n, n2) { (Node::Leaf(l), Node::Branch(b)) => p != l.key.v() && is_fork(b, l.key.v(), l.value@, p, v, m) ==>
        wf(n2) && rep(n2, fork(l.key.v(), l.value@, p, v, m)) && av(d, n2, fork(l.key.v(), l.value@, p, v, m)), _ => true }
}
pub proof fn fork_rep(n: Node, p: Seq<u8>, v: Seq<u8>, d: Set<Seq<u8>>)
    requires full(p), wf(n),
    ensures n matches Node::Leaf(l) ==> forall|n2: Node, m: int| #![trigger lcp_is(p, l.key.v(), m), wf(n2)] #![trigger rep(n2, fork(l.key.v(), l.value@, p, v, m))] lcp_is(p, l.key.v(), m) ==> fork_ok(n2, n, p, v, m, d),
{
    match n { Node::Leaf(l) => {
        let k = l.key.v();
        let o = l.value@;
        leaf_facts(p, k);
        assert forall|n2: Node, m: int| #![trigger lcp_is(p, l.key.v(), m), wf(n2)] #![trigger rep(n2, fork(l.key.v(), l.value@, p, v, m))] lcp_is(p, l.key.v(), m) implies fork_ok(n2, n, p, v, m, d) by {
            if p != k { match n2 { Node::Branch(b) => { if is_fork(b, k, o, p, v, m) {
                reveal_with_fuel(rep, 3);
                reveal_with_fuel(av, 3);
                reveal_with_fuel(wf, 3);
                let t = fork(k, o, p, v, m);
                assert(k[m] != p[m]);
                assert(k[m] <= 16 && p[m] <= 16);
                assert(t is Branch);
                assert(t->Branch_0.len() == 16);
                assert forall|j: int| 0 <= j < 16 implies (wf(*#[trigger] b.children[j]) && rep(*b.children[j], t->Branch_0[j]) && av(d, *b.children[j], t->Branch_0[j]) && !(*b.children[j] is Hash)) by {
                    if j == k[m] { assert(full(sfx(k, m + 1))); } else if j == p[m] { assert(full(sfx(p, m + 1))); }
                }
            } }, _ => {} } }
        }
    }, _ => {} }
}
pub open spec fn is_unext(b: BranchNode, q: Seq<u8>, sub: Node) -> bool {
    &&& b.value is None
    &&& forall|j: int| 0 <= j < 16 && j != q[0] ==> *#[trigger] b.children[j] == Node::Empty
    &&& if q.len() == 1 { *b.children[q[0] as int] == sub } else { *b.children[q[0] as int] matches Node::Extension(e) && e.prefix.v() == sfx(q, 1) && *e.node == sub }
}
pub open spec fn unext_ok(n2: Node, n: Node, t: T, d: Set<Seq<u8>>) -> bool {
    match (n, n2) { (Node::Extension(e), Node::Branch(b)) => is_unext(b, e.prefix.v(), *e.node) ==>
        (match t { T::Ext(q, c) => rep(n2, unext(q, *c)) && tok(unext(q, *c)) && (av(d, n, t) ==> av(d, n2, unext(q, *c))), _ => false }), _ => true }
}
pub proof fn unext_rep(n: Node, d: Set<Seq<u8>>)
    requires wf(n),
    ensures
        n matches Node::Extension(e) ==> forall|b: BranchNode| is_unext(b, e.prefix.v(), *e.node) ==> #[trigger] wf(Node::Branch(b)),
        n matches Node::Extension(e) ==> forall|n2: Node, t: T| #![trigger wf(n2), rep(n, t)] rep(n, t) && tok(t) ==> unext_ok(n2, n, t, d),
{
    match n { Node::Extension(e) => {
        let q = e.prefix.v();
        assert(q[0] < 16);
        assert(q.len() > 1 ==> nibbly(sfx(q, 1)));
        assert forall|b: BranchNode| is_unext(b, e.prefix.v(), *e.node) implies #[trigger] wf(Node::Branch(b)) by {
            reveal_with_fuel(wf, 3);
            assert forall|j: int| 0 <= j < 16 implies wf(*#[trigger] b.children[j]) by { }
        }
        assert forall|n2: Node, t: T| rep(n, t) && tok(t) implies #[trigger] unext_ok(n2, n, t, d) by {
            match n2 { Node::Branch(b) => { if is_unext(b, q, *e.node) {
                reveal_with_fuel(rep, 3);
                reveal_with_fuel(av, 3);
                match t { T::Ext(q, c) => {
                    unext_tl(q, *c, seq![16u8]);
                    let u = unext(q, *c);
                    assert(u is Branch && u->Branch_0.len() == 16);
                    assert forall|j: int| 0 <= j < 16 implies (rep(*#[trigger] b.children[j], u->Branch_0[j]) && (av(d, n, t) ==> av(d, *b.children[j], u->Branch_0[j])) && (*b.children[j] is Hash ==> big(u->Branch_0[j]))) by { }
                }, _ => {} }
            } }, _ => {} }
        }
    }, _ => {} }
}
pub open spec fn split_ok(n2: Node, n: Node, t: T, m: int, d: Set<Seq<u8>>) -> bool {
    match (n, n2) { (Node::Extension(e), Node::Extension(e2)) => 0 < m < e.prefix.v().len() && *e2.node == *e.node && e2.prefix.v() == sfx(e.prefix.v(), m) ==>
        (match t { T::Ext(q, c) => rep(n2, T::Ext(sfx(q, m), c)) && tok(T::Ext(sfx(q, m), c)) && (av(d, n, t) ==> av(d, n2, T::Ext(sfx(q, m), c))), _ => false }), _ => true }
}
pub proof fn split_rep(n: Node, p: Seq<u8>, d: Set<Seq<u8>>)
    requires wf(n),
    ensures n matches Node::Extension(e) ==> forall|n2: Node, m: int, t: T| #[trigger] lcp_is(p, e.prefix.v(), m) && #[trigger] wf(n2) && #[trigger] rep(n, t) && tok(t) ==> split_ok(n2, n, t, m, d),
{
    match n { Node::Extension(e) => {
        assert forall|n2: Node, m: int, t: T| #[trigger] lcp_is(p, e.prefix.v(), m) && #[trigger] wf(n2) && #[trigger] rep(n, t) && tok(t) implies split_ok(n2, n, t, m, d) by { }
    }, _ => {} }
}
pub open spec fn deleted(r: Result<(Node, bool)>, n: Node, t: T, p: Seq<u8>, db: Db) -> bool {
    &&& (r matches Ok(x) ==> x.1 == (tl(t, p) is Some) && rep(x.0, tdel(t, p)) && (av(db.m().dom(), n, t) ==> av(db.m().dom(), x.0, tdel(t, p))))
    &&& (db.reliable() && av(db.m().dom(), n, t) ==> r is Ok)
}
pub open spec fn degend(r: Result<Node>, n: Node, t: T, db: Db) -> bool {
    &&& (r matches Ok(m) ==> rep(m, tdeg(t)) && (av(db.m().dom(), n, t) ==> av(db.m().dom(), m, tdeg(t))))
    &&& (db.reliable() && av(db.m().dom(), n, t) ==> r is Ok)
}
// a node whose large subtries are all referred to by hash, as those read from the database are
pub open spec fn flat(n: Node, t: T) -> bool
    decreases t,
{
    match n {
        Node::Extension(e) => match t { T::Ext(q, c) => (big(*c) ==> *e.node is Hash) && flat(*e.node, *c), _ => false },
        Node::Branch(b) => match t { T::Branch(cs, v) => cs.len() == 16 && forall|i: int| 0 <= i < 16 ==> (big(cs[i]) ==> *#[trigger] b.children[i] is Hash) && flat(*b.children[i], cs[i]), _ => false },
        _ => true,
    }
}
// the subtries below t on the path p that a reference by hash leads to, outermost first
pub open spec fn onp(t: T, p: Seq<u8>) -> Seq<T>
    decreases t,
{
    match t {
        T::Ext(q, c) => if is_pfx(q, p) { (if big(*c) { seq![*c] } else { Seq::empty() }) + onp(*c, sfx(p, q.len() as int)) } else { Seq::empty() },
        T::Branch(cs, v) => if p.len() > 0 && p[0] < cs.len() { (if big(cs[p[0] as int]) { seq![cs[p[0] as int]] } else { Seq::empty() }) + onp(cs[p[0] as int], sfx(p, 1)) } else { Seq::empty() },
        _ => Seq::empty(),
    }
}
pub open spec fn onpn(n: Node, t: T, p: Seq<u8>) -> Seq<T> { (if n is Hash { seq![t] } else { Seq::empty() }) + onp(t, p) }
pub open spec fn pathed(r: Result<Vec<Node>>, n: Node, t: T, p: Seq<u8>, db: Db) -> bool {
    &&& (r matches Ok(x) ==> x@.len() == onpn(n, t, p).len() && forall|i: int| 0 <= i < x@.len() ==> rep(#[trigger] x@[i], onpn(n, t, p)[x@.len() - 1 - i]))
    &&& (db.reliable() && avp(db.m().dom(), n, t, p) ==> r is Ok)
}
// ---- deletion
pub proof fn tdege_idem(q: Seq<u8>, c: T)
    ensures tdeg(tdege(q, c)) == tdege(q, c),
    decreases c,
{
    match c { T::Ext(q2, c2) => tdege_idem(q + q2, *c2), _ => {} }
}
pub proof fn tdeg_idem(t: T)
    ensures tdeg(tdeg(t)) == tdeg(t),
{
    match t {
        T::Branch(cs, v) => { if none_used(cs) && v is Some { } else if (exists|i: int| only(cs, i)) && v is None { tdege_idem(seq![the_only(cs) as u8], cs[the_only(cs)]); } },
        T::Ext(q, c) => tdege_idem(q, *c),
        _ => {},
    }
}
// what is left before the node is simplified
pub open spec fn delmid(t: T, p: Seq<u8>) -> T {
    match t {
        T::Leaf(k, v) => T::Empty,
        T::Branch(cs, v) => if p[0] == 16 { T::Branch(cs, None) } else { T::Branch(cs.update(p[0] as int, tdel(cs[p[0] as int], sfx(p, 1))), v) },
        T::Ext(q, c) => T::Ext(q, Box::new(tdel(*c, sfx(p, q.len() as int)))),
        _ => t,
    }
}
pub proof fn del_shape(n: Node, p: Seq<u8>)
    requires full(p),
    ensures forall|t: T| #[trigger] rep(n, t) && tok(t) ==> tok(tdel(t, p)) && (tl(t, p) is None ==> tdel(t, p) == t) && (tl(t, p) is Some ==> tdeg(tdel(t, p)) == tdel(t, p) && tdel(t, p) == tdeg(delmid(t, p)) && tok(delmid(t, p))),
{
    assert forall|t: T| #[trigger] rep(n, t) && tok(t) implies tok(tdel(t, p)) && (tl(t, p) is None ==> tdel(t, p) == t) && (tl(t, p) is Some ==> tdeg(tdel(t, p)) == tdel(t, p) && tdel(t, p) == tdeg(delmid(t, p)) && tok(delmid(t, p))) by {
        tdel_map(t, p);
        if tl(t, p) is Some {
            match t {
                T::Leaf(k, v) => { assert(tdel(t, p) is Empty); },
                T::Branch(cs, v) => { if p[0] == 16 { tdeg_idem(T::Branch(cs, None)); assert(tok(T::Branch(cs, None))); assert(tdel(t, p) == tdeg(T::Branch(cs, None))); } else { assert(full(sfx(p, 1))); tdel_map(cs[p[0] as int], sfx(p, 1)); tdeg_idem(delmid(t, p)); } },
                T::Ext(q, c) => { nibbly_lcp(p, q); assert(full(sfx(p, q.len() as int))); tdel_map(*c, sfx(p, q.len() as int)); tdeg_idem(delmid(t, p)); },
                _ => {},
            }
        } else { assert(tdel(t, p) == t); }
    }
}
pub open spec fn del_ok(n2: Node, n: Node, t: T, p: Seq<u8>, d: Set<Seq<u8>>) -> bool {
    match (n, n2, t) {
        (Node::Branch(b), Node::Branch(b2), T::Branch(cs, v)) =>
            if p[0] == 16 { b2.children == b.children && b2.value is None ==> rep(n2, delmid(t, p)) && (av(d, n, t) ==> av(d, n2, delmid(t, p))) }
            else { (forall|j: int| 0 <= j < 16 && j != p[0] ==> #[trigger] b2.children[j] == b.children[j]) && b2.value == b.value && rep(*b2.children[p[0] as int], tdel(cs[p[0] as int], sfx(p, 1))) && !(*b2.children[p[0] as int] is Hash)
                ==> rep(n2, delmid(t, p)) && (av(d, n, t) && av(d, *b2.children[p[0] as int], tdel(cs[p[0] as int], sfx(p, 1))) ==> av(d, n2, delmid(t, p))) },
        (Node::Extension(e), Node::Extension(e2), T::Ext(q, c)) =>
            e2.prefix == e.prefix && rep(*e2.node, tdel(*c, sfx(p, q.len() as int))) && !(*e2.node is Hash) ==> rep(n2, delmid(t, p)) && (av(d, *e2.node, tdel(*c, sfx(p, q.len() as int))) ==> av(d, n2, delmid(t, p))),
        _ => true,
    }
}
pub proof fn del_rep(n: Node, p: Seq<u8>, d: Set<Seq<u8>>)
    requires full(p), wf(n),
    ensures forall|n2: Node, t: T| #![trigger wf(n2), rep(n, t)] rep(n, t) && tok(t) ==> del_ok(n2, n, t, p, d),
{
    assert forall|n2: Node, t: T| rep(n, t) && tok(t) implies #[trigger] del_ok(n2, n, t, p, d) by {
        match (n, n2, t) {
            (Node::Branch(b), Node::Branch(b2), T::Branch(cs, v)) => {
                let m = delmid(t, p)->Branch_0;
                if p[0] == 16 {
                    assert forall|j: int| 0 <= j < 16 && b2.children == b.children implies (rep(*#[trigger] b2.children[j], m[j]) && (*b2.children[j] is Hash ==> big(m[j])) && (av(d, n, t) ==> av(d, *b2.children[j], m[j]))) by { assert(rep(*b.children[j], cs[j])); }
                } else {
                    let i = p[0] as int;
                    if (forall|j: int| 0 <= j < 16 && j != p[0] ==> #[trigger] b2.children[j] == b.children[j]) && b2.value == b.value && rep(*b2.children[i], tdel(cs[i], sfx(p, 1))) && !(*b2.children[i] is Hash) {
                        assert forall|j: int| 0 <= j < 16 implies (rep(*#[trigger] b2.children[j], m[j]) && (*b2.children[j] is Hash ==> big(m[j]))) by { if j != i { assert(rep(*b.children[j], cs[j])); } }
                        if av(d, n, t) && av(d, *b2.children[i], tdel(cs[i], sfx(p, 1))) {
                            assert forall|j: int| #![trigger b2.children[j]] #![trigger m[j]] 0 <= j < 16 implies av(d, *b2.children[j], m[j]) by { if j != i { assert(av(d, *b.children[j], cs[j])); } }
                        }
                    }
                }
            },
            _ => {},
        }
    }
}
// ---- simplification
pub open spec fn only_child(b: BranchNode, i: int) -> bool {
    &&& 0 <= i < 16 && !(*b.children[i] is Empty)
    &&& forall|j: int| 0 <= j < 16 && j != i ==> *#[trigger] b.children[j] is Empty
}
pub open spec fn deg_ok(n2: Node, n: Node, t: T, d: Set<Seq<u8>>) -> bool {
    match (n, n2, t) {
        (Node::Extension(e), Node::Extension(e2), T::Ext(q, c)) => {
            &&& (match (*e.node, *c) { (Node::Extension(s), T::Ext(q2, c2)) => e2.prefix.v() == q + s.prefix.v() && *e2.node == *s.node ==>
                    rep(n2, T::Ext(q + q2, c2)) && tok(T::Ext(q + q2, c2)) && (av(d, n, t) ==> av(d, n2, T::Ext(q + q2, c2))) && tdeg(T::Ext(q + q2, c2)) == tdeg(t), _ => true })
            &&& (*e.node is Hash && e2.prefix.v() == q && rep(*e2.node, *c) && !(*e2.node is Hash) ==> rep(n2, t) && (av(d, n, t) ==> av(d, n2, t)))
        },
        (Node::Branch(b), Node::Extension(e2), T::Branch(cs, v)) => v is None ==> forall|i: int| #[trigger] only_child(b, i) && e2.prefix.v() == seq![i as u8] && *e2.node == *b.children[i] ==>
                rep(n2, T::Ext(seq![i as u8], Box::new(cs[i]))) && tok(T::Ext(seq![i as u8], Box::new(cs[i]))) && (av(d, n, t) ==> av(d, n2, T::Ext(seq![i as u8], Box::new(cs[i])))) && tdeg(T::Ext(seq![i as u8], Box::new(cs[i]))) == tdeg(t),
        _ => true,
    }
}
pub proof fn empties(b: BranchNode, t: T)
    requires rep(Node::Branch(b), t),
    ensures match t { T::Branch(cs, v) => cs.len() == 16 && (forall|i: int| #[trigger] used(cs, i) <==> 0 <= i < 16 && !(*b.children[i] is Empty)), _ => false },
{
    axiom_rlp_string(Seq::empty());
    match t { T::Branch(cs, v) => {
        assert forall|i: int| #[trigger] used(cs, i) <==> 0 <= i < 16 && !(*b.children[i] is Empty) by { if 0 <= i < 16 { assert(rep(*b.children[i], cs[i])); assert(tenc(T::Empty).len() == 1); } }
    }, _ => {} }
}
// what an extension leads to
pub proof fn ext_child(n: Node, d: Set<Seq<u8>>)
    ensures forall|t: T| #[trigger] rep(n, t) ==> (match (n, t) {
        (Node::Extension(e), T::Ext(q, c)) => (match *e.node {
            Node::Empty => *c is Empty,
            Node::Leaf(l) => (match *c { T::Leaf(k, v) => l.key.v() == k && l.value@ == v, _ => false }),
            Node::Extension(s) => (match *c { T::Ext(q2, c2) => s.prefix.v() == q2, _ => false }),
            Node::Branch(_) => *c is Branch,
            Node::Hash(h) => av(d, n, t) ==> d.contains(kec(tenc(*c))),
        }), (Node::Extension(e), _) => false, _ => true }),
{
    reveal_with_fuel(rep, 3);
    reveal_with_fuel(av, 3);
}
pub proof fn deg_rep(n: Node, d: Set<Seq<u8>>)
    requires wf(n),
    ensures forall|n2: Node, t: T| #![trigger wf(n2), rep(n, t)] rep(n, t) && tok(t) ==> deg_ok(n2, n, t, d),
        forall|t: T| #[trigger] rep(n, t) && tok(t) ==> (match (n, t) { (Node::Branch(b), T::Branch(cs, v)) => (forall|i: int| #[trigger] used(cs, i) <==> 0 <= i < 16 && !(*b.children[i] is Empty)), _ => true }),
{
    assert forall|t: T| #[trigger] rep(n, t) && tok(t) implies (match (n, t) { (Node::Branch(b), T::Branch(cs, v)) => (forall|i: int| #[trigger] used(cs, i) <==> 0 <= i < 16 && !(*b.children[i] is Empty)), _ => true }) by {
        match n { Node::Branch(b) => empties(b, t), _ => {} }
    }
    assert forall|n2: Node, t: T| rep(n, t) && tok(t) implies #[trigger] deg_ok(n2, n, t, d) by {
        match (n, n2, t) {
            (Node::Extension(e), Node::Extension(e2), T::Ext(q, c)) => {
                reveal_with_fuel(rep, 3);
                reveal_with_fuel(av, 3);
                reveal_with_fuel(tok, 3);
                if *e.node is Hash && e2.prefix.v() == q && rep(*e2.node, *c) && !(*e2.node is Hash) && av(d, n, t) { below_av(d, *e2.node, *c); }
            },
            (Node::Branch(b), Node::Extension(e2), T::Branch(cs, v)) => {
                empties(b, t);
                assert forall|i: int| v is None && #[trigger] only_child(b, i) && e2.prefix.v() == seq![i as u8] && *e2.node == *b.children[i] implies
                    rep(n2, T::Ext(seq![i as u8], Box::new(cs[i]))) && tok(T::Ext(seq![i as u8], Box::new(cs[i]))) && (av(d, n, t) ==> av(d, n2, T::Ext(seq![i as u8], Box::new(cs[i])))) && tdeg(T::Ext(seq![i as u8], Box::new(cs[i]))) == tdeg(t) by {
                    assert(used(cs, i));
                    assert(only(cs, i));
                    assert(the_only(cs) == i);
                    assert(rep(*b.children[i], cs[i]));
                    if av(d, n, t) { assert(av(d, *b.children[i], cs[i])); }
                }
            },
            _ => {},
        }
    }
}
pub open spec fn dec(data: Seq<u8>, t: T) -> bool { tok(t) && kids(t) && data == tenc(t) }
pub open spec fn decc(data: Seq<u8>, t: T) -> bool { tok(t) && kids(t) && data == tref(t) && (big(t) ==> hashed(tenc(t))) }
// the trie the bytes stored under a hash stand for
pub open spec fn hk(key: Seq<u8>, t: T) -> bool { tok(t) && kids(t) && hashed(tenc(t)) && kec(tenc(t)) == key }
impl InnerTrie {
    pub open spec fn all(&self) -> Set<Seq<u8>> { self.db.m().dom().union(self.cache.m().dom()) }
    pub open spec fn dom(&self) -> Set<Seq<u8>> { self.db.m().dom() }
//@fn pmt/src/inner.rs InnerTrie::new props C01 C03
//@sig Arc<D> ==> Db
//@rewrite? &rlp::NULL_RLP ==> &rt_null_rlp()
//@spec
    ensures r.root is Empty, r.db == db, r.root_hash.v() == kec(rs(Seq::empty())), r.cache.m() == Map::<Seq<u8>, Seq<u8>>::empty(),
//@end
//@fn pmt/src/inner.rs InnerTrie::at_root props C03 C05
//@spec
    ensures r.root == (Node::Hash(HashNode { hash: root_hash })), r.db == self.db, r.root_hash == root_hash, r.cache.m() == Map::<Seq<u8>, Seq<u8>>::empty(),
//@end
//@fn pmt/src/inner.rs InnerTrie::decode_node props C03 C05
//@attr verifier::loop_isolation(false)
//@rewrite? $id_x.first().map_or(false, |$id_f| $e) ==> (match rt_first($id_x) { Some($id_f) => $e, None => false })
//@rewrite? let mut nodes: [Box<Node>; 16] = Default::default(); ==> let mut nodes: [Box<Node>; 16] = rt_children();
//@rewrite? TrieError::InvalidData($x) ==> rt_invalid()
//@spec
    ensures
        r matches Ok(n) ==> wf(n),
        forall|t: T| #[trigger] dec(data@, t) ==> (r matches Ok(n) && rep(n, t) && !(n is Hash) && flat(n, t)),
        forall|h: Seq<u8>| h.len() == 32 && data@ == #[trigger] rs(h) ==> (r matches Ok(Node::Hash(x)) && x.hash.v() == h),
    decreases data@.len(), 0nat,
//@start
    assert forall|h: Seq<u8>| h.len() == 32 && data@ == #[trigger] rs(h) implies r_proto(data@) == Some(GP::Data(32)) && r_data(data@) == Some(h) && r_is_data(data@) && r_size(data@) == 32 by { axiom_rlp_string(h); }
    assert forall|t: T| #[trigger] dec(data@, t) implies (match t {
            T::Empty => r_proto(data@) == Some(GP::Data(0)),
            T::Leaf(k, v) => r_proto(data@) == Some(GP::List(2)) && r_at(data@, 0) == Some(rs(hp(k))) && r_data(rs(hp(k))) == Some(hp(k)) && full_ok(k) && has_term(k)
                && r_at(data@, 1) == Some(rs(v)) && r_data(rs(v)) == Some(v),
            T::Ext(q, c) => r_proto(data@) == Some(GP::List(2)) && r_at(data@, 0) == Some(rs(hp(q))) && r_data(rs(hp(q))) == Some(hp(q)) && full_ok(q) && !has_term(q) && q.len() > 0
                && r_at(data@, 1) == Some(tref(*c)) && decc(tref(*c), *c),
            T::Branch(cs, v) => r_proto(data@) == Some(GP::List(17)) && (forall|i: int| 0 <= i < 16 ==> #[trigger] r_at(data@, i) == Some(tref(cs[i])) && decc(tref(cs[i]), cs[i]))
                && r_at(data@, 16) == Some(bval(v)) && r_is_empty(bval(v)) == (v is None) && (v matches Some(x) ==> r_data(bval(v)) == Some(x)),
        }) by { tenc_dec(t); }
    assert forall|f: u8| #![auto] f >> 4 == f / 16 by { flag_bits(f); }
//@loop 0
    invariant data@ == r.v(),
        forall|j: int| 0 <= j < 16 ==> wf(*#[trigger] nodes[j]),
        forall|t: T| #[trigger] dec(data@, t) ==> (match t { T::Branch(cs, v) => cs.len() == 16 && (forall|j: int| 0 <= j < 16 ==> #[trigger] r_at(data@, j) == Some(tref(cs[j])) && decc(tref(cs[j]), cs[j])) && (forall|j: int| 0 <= j < i ==> repc(*#[trigger] nodes[j], cs[j]) && (big(cs[j]) ==> *nodes[j] is Hash) && flat(*nodes[j], cs[j])), _ => false }),
    decreases 16 - i,
//@end
//@fn pmt/src/inner.rs InnerTrie::decode_child props C03 C05
//@rewrite? TrieError::InvalidData($x) ==> rt_invalid()
//@spec
    ensures
        rr matches Ok(n) ==> wf(n),
        forall|t: T| #[trigger] decc(r.v(), t) ==> (rr matches Ok(n) && repc(n, t) && (big(t) ==> n is Hash) && flat(n, t)),
    decreases r.v().len(), 1nat,
//@ret rr
//@start
    assert forall|t: T| #[trigger] decc(r.v(), t) implies (!big(t) ==> dec(r.v(), t)) && (big(t) ==> r.v() == rs(kec(tenc(t))) && !r_is_list(r.v()) && kec(tenc(t)).len() == 32) && (r_is_list(r.v()) ==> r.v().len() < 32) by { tenc_dec(t); axiom_kec_len(tenc(t)); }
//@end
//@fn pmt/src/inner.rs InnerTrie::recover_from_db props C03 C05 C07
//@rewrite? TrieError::InvalidData($x) ==> rt_invalid()
//@spec
    ensures
        r matches Ok(None) ==> !self.dom().contains(key.v()),
        r matches Ok(Some(n)) ==> wf(n) && !(n is Hash),
        cadb(self.db.m()) ==> forall|t: T| #[trigger] hk(key.v(), t) ==> (r matches Ok(Some(n)) ==> rep(n, t) && flat(n, t)) && (self.db.reliable() ==> (if self.dom().contains(key.v()) { r matches Ok(Some(n)) } else { r matches Ok(None) })),
//@start
    assert forall|t: T| cadb(self.db.m()) && self.dom().contains(key.v()) && #[trigger] hk(key.v(), t) implies dec(self.db.m()[key.v()], t) by { axiom_no_collision(self.db.m()[key.v()], tenc(t)); }
//@end
//@fn pmt/src/inner.rs InnerTrie::get_at props C01 C03 C05 C07
//@rewrite? &leaf.key == partial ==> rt_nib_eq(&leaf.key, partial)
//@rewrite? partial == &leaf.key ==> rt_nib_eq(partial, &leaf.key)
//@spec
    requires wf(*source_node), path_index < path.v().len(), full(path.v()),
    ensures cadb(self.db.m()) ==> forall|t: T| #[trigger] rep(*source_node, t) && tok(t) ==> gets(r, t, sfx(path.v(), path_index as int), self.db, *source_node),
    decreases path.v().len() - path_index, nrank(*source_node),
//@start
    proof { path_facts(path.v(), path_index as int); nib_len(path); rep_kids(*source_node); }
//@end
//@fn pmt/src/inner.rs InnerTrie::get_extension_node props C01
//@spec
    requires wf(Node::Extension(*node)), path_index < path.v().len(), full(path.v()),
    ensures cadb(self.db.m()) ==> forall|t: T| #[trigger] rep(Node::Extension(*node), t) && tok(t) ==> gets(r, t, sfx(path.v(), path_index as int), self.db, Node::Extension(*node)),
    decreases path.v().len() - path_index, 1nat,
//@start
    proof { path_facts(path.v(), path_index as int); nib_len(path); ext_facts(sfx(path.v(), path_index as int), node.prefix.v()); rep_kids(Node::Extension(*node)); }
//@end
//@fn pmt/src/inner.rs InnerTrie::get_hash_node props C01 C03
//@rewrite? .ok_or_else(|| $e) ==> .ok_or($e)
//@spec
    requires path_index < path.v().len(), full(path.v()),
    ensures cadb(self.db.m()) ==> forall|t: T| #[trigger] rep(Node::Hash(*node), t) && tok(t) ==> gets(r, t, sfx(path.v(), path_index as int), self.db, Node::Hash(*node)),
    decreases path.v().len() - path_index, 3nat,
//@start
    proof { recovered(self.db, sfx(path.v(), path_index as int)); }
    assert forall|t: T| #[trigger] rep(Node::Hash(*node), t) && tok(t) implies hk(node.hash.v(), t) by { }
//@end
//@fn pmt/src/inner.rs InnerTrie::write_node props C02 C03
//@spec
    requires wf(*to_encode),
    ensures enc_frame(*old(self), *final(self)),
        forall|t: T| #[trigger] rep(*to_encode, t) ==> written(r, *to_encode, t, *old(self), *final(self)),
    decreases *to_encode, 1nat,
//@start
    proof { below_grow(); }
//@end
//@fn pmt/src/inner.rs InnerTrie::encode_raw props C02 C03
//@attr verifier::loop_isolation(false)
//@rewrite? rlp::NULL_RLP.rt_to_vec() ==> rt_null_rlp()
//@rewrite? rlp::NULL_RLP.to_vec() ==> rt_null_rlp()
//@spec
    requires wf(*node), !(*node is Hash),
    ensures enc_frame(*old(self), *final(self)),
        forall|t: T| #[trigger] rep(*node, t) ==> r@ == tenc(t) && kids(t) && (av(old(self).dom(), *node, t) ==> below(final(self).all(), t)),
    decreases *node, 0nat,
//@start
    proof { rep_kids(*node); wf_paths(*node); below_grow(); enc_shape(*node); }
//@loop 0
    invariant enc_frame(*old(self), *self), stream.n() == 17, stream.its().len() == i,
        forall|t: T| #[trigger] rep(*node, t) ==> stream.its() == benc(t).subrange(0, i as int),
        forall|t: T, j: int| #![trigger rep(*node, t), t->Branch_0[j]] rep(*node, t) && 0 <= j < i ==> (big(t->Branch_0[j]) ==> hashed(tenc(t->Branch_0[j]))) && kids(t->Branch_0[j])
            && (av(old(self).dom(), *node, t) ==> (big(t->Branch_0[j]) ==> self.all().contains(kec(tenc(t->Branch_0[j])))) && below(self.all(), t->Branch_0[j])),
//@loopend 0
    assert forall|t: T| #[trigger] rep(*node, t) implies stream.its() == benc(t).subrange(0, i + 1) by { assert(stream.its() =~= benc(t).subrange(0, i + 1)); }
//@afterloop 0
    assert forall|t: T| #[trigger] rep(*node, t) implies benc(t) == benc(t).subrange(0, 16).push(bval(t->Branch_1)) by { assert(benc(t) =~= benc(t).subrange(0, 16).push(bval(t->Branch_1))); }
//@end
//@fn pmt/src/inner.rs InnerTrie::insert_at props C01 C02 C07
//@rewrite? $id_x.borrow_mut() ==> &mut *$id_x
//@rewrite? children: Default::default() ==> children: rt_children()
//@rewrite? .ok_or_else(|| $e) ==> .ok_or($e)
//@spec
    requires wf(*old(n)), path_index < path.v().len(), full(path.v()), value@.len() > 0,
    ensures at_frame(*old(self), *final(self)),
        r matches Ok(m) ==> wf(m) && !(m is Hash),
        cadb(old(self).db.m()) ==> forall|t: T| #[trigger] rep(*old(n), t) && tok(t) ==> inserted(r, *old(n), t, sfx(path.v(), path_index as int), value@, old(self).db),
    decreases path.v().len() - path_index, nrank(*old(n)),
//@start
    proof { path_facts(path.v(), path_index as int); nib_len(path); rep_kids(*n); node_paths(sfx(path.v(), path_index as int), *n); recovered_av(self.db); ins_shape(*n, sfx(path.v(), path_index as int), value@);
        fork_rep(*n, sfx(path.v(), path_index as int), value@, self.dom()); unext_rep(*n, self.dom()); split_rep(*n, sfx(path.v(), path_index as int), self.dom()); }
    assert forall|t: T| #[trigger] rep(*n, t) && tok(t) && (*n) is Hash implies hk((*n)->Hash_0.hash.v(), t) by { }
    let ghost gp = sfx(path.v(), path_index as int);
    let ghost gn = *n;
    let ghost gv = value@;
//@before if match_index == 0 { return Ok
    assert(is_fork(branch, gn->Leaf_0.key.v(), gn->Leaf_0.value@, gp, gv, match_index as int));
    assert(fork_ok(Node::Branch(branch), gn, gp, gv, match_index as int, self.dom()));
    assert(rep(Node::Branch(branch), fork(gn->Leaf_0.key.v(), gn->Leaf_0.value@, gp, gv, match_index as int)));
//@after let mut new_ext =
    assert(forall|t: T| rep(gn, t) && tok(t) ==> split_ok(new_ext, gn, t, match_index as int, self.dom()));
//@before return self.insert_at(&mut node, path, path_index, value)
    assert(is_unext(node->Branch_0, gn->Extension_0.prefix.v(), *gn->Extension_0.node));
    assert(wf(node));
    assert(forall|t: T| rep(gn, t) && tok(t) ==> unext_ok(node, gn, t, self.dom()));
//@end
//@fn pmt/src/inner.rs InnerTrie::delete_at props C01 C02 C07
//@rewrite? $id_x.borrow_mut() ==> &mut *$id_x
//@rewrite? &leaf.key == partial ==> rt_nib_eq(&leaf.key, partial)
//@rewrite? .ok_or_else(|| $e) ==> .ok_or($e)
//@spec
    requires wf(*old(old_node)), path_index < path.v().len(), full(path.v()),
    ensures at_frame(*old(self), *final(self)),
        r matches Ok(x) ==> wf(x.0) && (x.1 ==> !(x.0 is Hash)) && (!x.1 ==> *final(old_node) == *old(old_node)),
        cadb(old(self).db.m()) ==> forall|t: T| #[trigger] rep(*old(old_node), t) && tok(t) ==> deleted(r, *old(old_node), t, sfx(path.v(), path_index as int), old(self).db),
    decreases path.v().len() - path_index, nrank(*old(old_node)),
//@start
    proof { path_facts(path.v(), path_index as int); nib_len(path); rep_kids(*old_node); node_paths(sfx(path.v(), path_index as int), *old_node); recovered_av(self.db); }
    assert forall|t: T| #[trigger] rep(*old_node, t) && tok(t) && (*old_node) is Hash implies hk((*old_node)->Hash_0.hash.v(), t) by { }
    proof { del_shape(*old_node, sfx(path.v(), path_index as int)); del_rep(*old_node, sfx(path.v(), path_index as int), self.dom()); }
    let ghost gn = *old_node;
    let ghost gp = sfx(path.v(), path_index as int);
//@before if deleted { Ok((self
    assert(deleted ==> forall|t: T| rep(gn, t) && tok(t) ==> del_ok(new_node, gn, t, gp, self.dom()));
//@before if deleted { *borrow_branch
    assert(!deleted ==> borrow_branch.children =~= gn->Branch_0.children);
//@end
//@fn pmt/src/inner.rs InnerTrie::degenerate props C02 C07
//@attr verifier::exec_allows_no_decreases_clause
//@attr verifier::loop_isolation(false)
//@rewrite? for ($id_i, $id_n) in $e.iter().enumerate() { ==> for $id_i in 0..$e.len() { let $id_n = &$e[$id_i];
//@rewrite? Node::Empty => continue, _ => $e, } } ==> Node::Empty => {} _ => $e, } }
//@rewrite? let mut used_indexs = Vec::new() ==> let mut used_indexs: Vec<usize> = Vec::new()
//@rewrite? Nibbles::from_raw(&[], true) ==> Nibbles::from_raw(Vec::new().as_slice(), true)
//@spec
    requires wf(n), !(n is Hash),
    ensures at_frame(*old(self), *final(self)),
        r matches Ok(x) ==> wf(x) && (!(n is Hash) ==> !(x is Hash)),
        cadb(old(self).db.m()) ==> forall|t: T| #[trigger] rep(n, t) && tok(t) ==> degend(r, n, t, old(self).db),
//@start
    let ghost gn = n;
    proof { rep_kids(n); ext_child(n, self.dom()); if gn is Extension { rep_kids(*gn->Extension_0.node); } recovered_av(self.db); deg_rep(n, self.dom()); reveal_with_fuel(wf, 3); }
    assert(with_term(unpack(Seq::empty()), true) =~= seq![16u8]);
    assert forall|t: T| #[trigger] rep(n, t) && tok(t) implies (match (n, t) { (Node::Extension(e), T::Ext(q, c)) => (*e.node) is Hash ==> hk((*e.node)->Hash_0.hash.v(), *c), _ => true }) by { }
//@loop 0
    invariant forall|a: int, b: int| 0 <= a < b < used_indexs@.len() ==> used_indexs@[a] < used_indexs@[b],
        forall|a: int| 0 <= a < used_indexs@.len() ==> 0 <= #[trigger] used_indexs@[a] < index && !(*branch.children[used_indexs@[a] as int] is Empty),
        forall|j: int| 0 <= j < index && !(*#[trigger] branch.children[j] is Empty) ==> exists|a: int| 0 <= a < used_indexs@.len() && used_indexs@[a] == j,
//@loopstart 0
    let ghost u0 = used_indexs@;
//@loopend 0
    assert forall|j: int| 0 <= j < index + 1 && !(*#[trigger] branch.children[j] is Empty) implies exists|a: int| 0 <= a < used_indexs@.len() && used_indexs@[a] == j by {
        if j == index { assert(used_indexs@[used_indexs@.len() - 1] == j); } else { let a = choose|a: int| 0 <= a < u0.len() && u0[a] == j; assert(used_indexs@[a] == j); }
    }
//@afterloop 0
    assert(used_indexs@.len() == 0 ==> forall|j: int| 0 <= j < 16 ==> *#[trigger] branch.children[j] is Empty);
    assert(used_indexs@.len() == 1 ==> only_child(*branch, used_indexs@[0] as int));
    assert(used_indexs@.len() >= 2 ==> used_indexs@[0] != used_indexs@[1] && !(*branch.children[used_indexs@[0] as int] is Empty) && !(*branch.children[used_indexs@[1] as int] is Empty));
    assert forall|t: T| #[trigger] rep(gn, t) && tok(t) implies (match t { T::Branch(cs, v) =>
            (used_indexs@.len() == 0 ==> none_used(cs)) && (used_indexs@.len() >= 2 || (used_indexs@.len() == 0 && v is None) || (used_indexs@.len() == 1 && v is Some) ==> tdeg(t) == t), _ => false }) by {
        match t { T::Branch(cs, v) => {
            if used_indexs@.len() == 1 { assert(used(cs, used_indexs@[0] as int)); }
            if used_indexs@.len() >= 2 {
                let a = used_indexs@[0] as int; let b = used_indexs@[1] as int;
                assert(used(cs, a) && used(cs, b));
                assert forall|i: int| !only(cs, i) by { }
            }
        }, _ => {} }
    }
//@before self.degenerate(new_node)
    assert(new_node->Extension_0.prefix.v() =~= seq![used_indexs@[0] as u8]);
    assert(forall|t: T| rep(gn, t) && tok(t) ==> deg_ok(new_node, gn, t, self.dom()));
//@before self.degenerate(new_n)
    assert(forall|t: T| rep(gn, t) && tok(t) ==> deg_ok(new_n, gn, t, self.dom()));
//@before self.degenerate(n)
    assert(forall|t: T| rep(gn, t) && tok(t) ==> deg_ok(n, gn, t, self.dom()));
//@end
//@fn pmt/src/inner.rs InnerTrie::get_path_at props C04 C07
//@spec
    requires wf(*source_node), path_index < path.v().len(), full(path.v()),
    ensures
        r matches Ok(x) ==> forall|i: int| 0 <= i < x@.len() ==> wf(#[trigger] x@[i]) && !(x@[i] is Hash),
        cadb(self.db.m()) ==> forall|t: T| #[trigger] rep(*source_node, t) && tok(t) && flat(*source_node, t) ==> pathed(r, *source_node, t, sfx(path.v(), path_index as int), self.db),
    decreases path.v().len() - path_index, nrank(*source_node),
//@start
    proof { path_facts(path.v(), path_index as int); nib_len(path); rep_kids(*source_node); node_paths(sfx(path.v(), path_index as int), *source_node); recovered(self.db, sfx(path.v(), path_index as int)); }
    assert forall|t: T| #[trigger] rep(*source_node, t) && tok(t) && (*source_node) is Hash implies hk((*source_node)->Hash_0.hash.v(), t) by { }
//@end
}
pub open spec fn gets(r: Result<Option<Vec<u8>>>, t: T, p: Seq<u8>, db: Db, n: Node) -> bool {
    &&& (r matches Ok(o) ==> ov(o) == tl(t, p))
    &&& (db.reliable() && avp(db.m().dom(), n, t, p) ==> r is Ok)
}
}
