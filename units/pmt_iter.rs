// pmt/src/trie_iterator.rs: iteration in key order (C06)
verus! {
// ---------------------------------------------------------------- the contents of a trie, in the order of their paths
pub type It = (Seq<u8>, Seq<u8>);
pub open spec fn items(t: T, b: Seq<u8>) -> Seq<It>
    decreases t, 17nat,
{
    match t {
        T::Empty => Seq::empty(),
        T::Leaf(k, v) => seq![(b + nibs(k), v)],
        T::Ext(q, c) => items(*c, b + q),
        T::Branch(cs, v) => own(v, b) + kfrom(t, 0, b),
    }
}
pub open spec fn own(v: Option<Seq<u8>>, b: Seq<u8>) -> Seq<It> { match v { Some(x) => seq![(b, x)], None => Seq::empty() } }
// the contents of the children of a branch from child i on
pub open spec fn kfrom(t: T, i: int, b: Seq<u8>) -> Seq<It>
    decreases t, (if i < 0 || i > 16 { 0int } else { 16 - i }),
{
    match t {
        T::Branch(cs, v) => if 0 <= i < 16 && i < cs.len() { items(cs[i], b.push(i as u8)) + kfrom(t, i + 1, b) } else { Seq::empty() },
        _ => Seq::empty(),
    }
}
// ---------------------------------------------------------------- steps a walk over a trie takes
pub open spec fn steps(t: T) -> nat
    decreases t, 17nat,
{
    match t {
        T::Empty => 2,
        T::Leaf(k, v) => 2,
        T::Ext(q, c) => (steps(*c) + 5) as nat,
        T::Branch(cs, v) => (ksteps(t, 0) + 1) as nat,
    }
}
pub open spec fn ksteps(t: T, i: int) -> nat
    decreases t, (if i < 0 || i > 16 { 0int } else { 16 - i }),
{
    match t {
        T::Branch(cs, v) => if 0 <= i < 16 && i < cs.len() { (steps(cs[i]) + 4 + ksteps(t, i + 1)) as nat } else { 2 },
        _ => 2,
    }
}
// ---------------------------------------------------------------- the stack
//@type pmt/src/trie_iterator.rs TraceStatus
//@type pmt/src/trie_iterator.rs TraceNode
//@type pmt/src/trie_iterator.rs TrieIterator , D> ==> > ;; where D: Database, ==> ;; InnerTrie<D> ==> InnerTrie
//@type pmt/src/trie_iterator.rs OwnedTrieIterator <D> where D: Database, ==> ;; InnerTrie<D> ==> InnerTrie
impl Clone for TraceStatus { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
impl Clone for TraceNode { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
// last().cloned(), last_mut().unwrap()
pub fn rt_last(s: &Vec<TraceNode>) -> (r: Option<TraceNode>) ensures s@.len() == 0 ==> r is None, s@.len() > 0 ==> r == Some(s@.last()), { if s.len() == 0 { None } else { Some(s[s.len() - 1].clone()) } }
#[verifier::external_body]
pub fn rt_last_mut(s: &mut Vec<TraceNode>) -> (r: &mut TraceNode)
    requires old(s)@.len() > 0,
    ensures *r == old(s)@.last(), final(s)@ == old(s)@.drop_last().push(*final(r)),
{ s.last_mut().unwrap() }
pub open spec fn next_status(s: TraceStatus, n: Node) -> TraceStatus {
    match s {
        TraceStatus::Start => TraceStatus::Doing,
        TraceStatus::Doing => if n is Branch { TraceStatus::Child(0) } else { TraceStatus::End },
        TraceStatus::Child(i) => if i < 15 { TraceStatus::Child((i + 1) as u8) } else { TraceStatus::End },
        TraceStatus::End => TraceStatus::End,
    }
}
impl TraceNode {
//@fn pmt/src/trie_iterator.rs <From<Node> for TraceNode>::from props C06
//@spec
    ensures r.node == node, r.status is Start,
//@end
//@fn pmt/src/trie_iterator.rs TraceNode::advance props C06
//@spec
    ensures final(self).node == old(self).node, final(self).status == next_status(old(self).status, old(self).node),
//@end
}
pub type Fs = Seq<TraceNode>;
pub type Ts = Seq<T>;
// the status says what is to be done next on the frame
// the part of the path that a frame adds to that of the frame below it
pub open spec fn fext(f: TraceNode, t: T) -> Seq<u8> {
    match f.status {
        TraceStatus::Child(i) => if i == 0 { Seq::empty() } else { seq![(i - 1) as u8] },
        TraceStatus::End => match t { T::Leaf(k, v) => k, T::Ext(q, c) => q, T::Branch(..) => seq![15u8], T::Empty => Seq::empty() },
        _ => Seq::empty(),
    }
}
// a frame stands for the trie t, as far as it has been visited
pub open spec fn fok(f: TraceNode, t: T, d: Set<Seq<u8>>) -> bool {
    &&& rep(f.node, t) && tok(t) && av(d, f.node, t)
    &&& match f.status {
        TraceStatus::Child(i) => i < 16 && t is Branch && !(f.node is Hash),
        TraceStatus::End => !(t is Empty) && !(f.node is Hash),
        _ => true,
    }
}
// a frame below the top: what is above it is a child of it
pub open spec fn mid(f: TraceNode, t: T) -> bool { match f.status { TraceStatus::End => t is Ext || t is Branch, TraceStatus::Child(i) => i > 0, _ => false } }
// what is left to visit of a frame whose node has the path b
pub open spec fn frem(f: TraceNode, t: T, b: Seq<u8>) -> Seq<It> {
    match f.status {
        TraceStatus::Child(i) => kfrom(t, i as int, b),
        TraceStatus::End => Seq::empty(),
        _ => items(t, b),
    }
}
pub open spec fn fwork(f: TraceNode, t: T) -> nat {
    match f.status {
        TraceStatus::Start => (steps(t) + if f.node is Hash { 3nat } else { 1nat }) as nat,
        TraceStatus::Doing => (steps(t) + if f.node is Hash { 2nat } else { 0nat }) as nat,
        TraceStatus::Child(i) => ksteps(t, i as int),
        TraceStatus::End => 1,
    }
}
pub open spec fn base(fs: Fs, ts: Ts) -> Seq<u8>
    decreases fs.len(),
{ if fs.len() == 0 { Seq::empty() } else { base(fs.drop_last(), ts.drop_last()) + fext(fs.last(), ts.last()) } }
pub open spec fn rem(fs: Fs, ts: Ts) -> Seq<It>
    decreases fs.len(),
{ if fs.len() == 0 { Seq::empty() } else { frem(fs.last(), ts.last(), base(fs.drop_last(), ts.drop_last())) + rem(fs.drop_last(), ts.drop_last()) } }
pub open spec fn work(fs: Fs, ts: Ts) -> nat
    decreases fs.len(),
{ if fs.len() == 0 { 0 } else { fwork(fs.last(), ts.last()) + work(fs.drop_last(), ts.drop_last()) } }
pub open spec fn lower(fs: Fs, ts: Ts, d: Set<Seq<u8>>) -> bool
    decreases fs.len(),
{ fs.len() == ts.len() && (fs.len() > 0 ==> fok(fs.last(), ts.last(), d) && mid(fs.last(), ts.last()) && lower(fs.drop_last(), ts.drop_last(), d)) }
pub open spec fn stack(fs: Fs, ts: Ts, d: Set<Seq<u8>>) -> bool { fs.len() == ts.len() && (fs.len() > 0 ==> fok(fs.last(), ts.last(), d) && lower(fs.drop_last(), ts.drop_last(), d)) }
pub open spec fn readable(s: InnerTrie) -> bool { cadb(s.db.m()) && s.db.reliable() }
// the state of an iterator, over the tries its stack stands for
pub open spec fn iter_at(s: InnerTrie, n: Seq<u8>, fs: Fs, ts: Ts) -> bool { stack(fs, ts, s.dom()) && n == base(fs, ts) }
pub open spec fn iter_ok(s: InnerTrie, n: Seq<u8>, fs: Fs) -> bool { readable(s) && exists|ts: Ts| #[trigger] iter_at(s, n, fs, ts) }
pub open spec fn iter_ts(s: InnerTrie, n: Seq<u8>, fs: Fs) -> Ts { choose|ts: Ts| #[trigger] iter_at(s, n, fs, ts) }
// what is still to come
pub open spec fn iter_rem(s: InnerTrie, n: Seq<u8>, fs: Fs) -> Seq<It> { rem(fs, iter_ts(s, n, fs)) }
impl<'a> TrieIterator<'a> {
    pub closed spec fn ok(&self) -> bool { iter_ok(*self.trie, self.nibble.v(), self.nodes@) }
    pub closed spec fn todo(&self) -> Seq<It> { iter_rem(*self.trie, self.nibble.v(), self.nodes@) }
}
impl OwnedTrieIterator {
    pub closed spec fn ok(&self) -> bool { iter_ok(self.trie, self.nibble.v(), self.nodes@) }
    pub closed spec fn todo(&self) -> Seq<It> { iter_rem(self.trie, self.nibble.v(), self.nodes@) }
}
// a node stands for one trie only
pub proof fn rep_unique(n: Node, a: T, b: T)
    requires rep(n, a), rep(n, b), tok(a), tok(b),
    ensures a == b,
    decreases a,
{
    match n {
        Node::Extension(e) => { match (a, b) { (T::Ext(q, c), T::Ext(q2, c2)) => { rep_unique(*e.node, *c, *c2); }, _ => {} } },
        Node::Branch(x) => { match (a, b) { (T::Branch(cs, v), T::Branch(cs2, v2)) => {
            assert forall|i: int| 0 <= i < 16 implies cs[i] == cs2[i] by { assert(repc(*x.children[i], cs[i]) && repc(*x.children[i], cs2[i])); assert(tok(cs[i]) && tok(cs2[i])); rep_unique(*x.children[i], cs[i], cs2[i]); }
            assert(cs =~= cs2);
        }, _ => {} } },
        Node::Hash(h) => { axiom_no_collision(tenc(a), tenc(b)); tenc_inj(a, b); },
        _ => {},
    }
}
pub proof fn lower_unique(fs: Fs, a: Ts, b: Ts, d: Set<Seq<u8>>)
    requires lower(fs, a, d), lower(fs, b, d),
    ensures a == b,
    decreases fs.len(),
{
    if fs.len() > 0 {
        lower_unique(fs.drop_last(), a.drop_last(), b.drop_last(), d);
        rep_unique(fs.last().node, a.last(), b.last());
        assert(a =~= a.drop_last().push(a.last()));
        assert(b =~= b.drop_last().push(b.last()));
    } else { assert(a =~= b); }
}
pub proof fn iter_is(s: InnerTrie, n: Seq<u8>, fs: Fs, ts: Ts)
    requires readable(s), iter_at(s, n, fs, ts),
    ensures iter_ok(s, n, fs), iter_ts(s, n, fs) == ts, iter_rem(s, n, fs) == rem(fs, ts),
{
    let o = iter_ts(s, n, fs);
    assert(iter_at(s, n, fs, o));
    if fs.len() > 0 {
        lower_unique(fs.drop_last(), ts.drop_last(), o.drop_last(), s.dom());
        rep_unique(fs.last().node, ts.last(), o.last());
        assert(ts =~= ts.drop_last().push(ts.last()));
        assert(o =~= o.drop_last().push(o.last()));
    } else { assert(ts =~= o); }
}
pub proof fn lower_base(fs: Fs, ts: Ts, d: Set<Seq<u8>>)
    requires lower(fs, ts, d),
    ensures nibbly(base(fs, ts)),
    decreases fs.len(),
{ if fs.len() > 0 { lower_base(fs.drop_last(), ts.drop_last(), d); } }
// the iterator just made
pub proof fn iter_new(s: InnerTrie, n: Seq<u8>, fs: Fs, t: T)
    requires readable(s), rep(s.root, t), tok(t), av(s.dom(), s.root, t), n.len() == 0, fs.len() == 1, fs[0].node == s.root, fs[0].status is Start,
    ensures iter_ok(s, n, fs), iter_rem(s, n, fs) == items(t, Seq::empty()),
{
    let ts = seq![t];
    assert(fs.drop_last() =~= Seq::<TraceNode>::empty());
    assert(ts.drop_last() =~= Seq::<T>::empty());
    assert(n =~= Seq::<u8>::empty());
    assert(base(fs, ts) =~= Seq::<u8>::empty()) by { reveal_with_fuel(base, 3); }
    assert(lower(fs.drop_last(), ts.drop_last(), s.dom()));
    assert(base(fs.drop_last(), ts.drop_last()) == Seq::<u8>::empty());
    assert(rem(fs, ts) =~= items(t, Seq::empty())) by { reveal_with_fuel(rem, 3); }
    iter_is(s, n, fs, ts);
}
// ---------------------------------------------------------------- the steps of the walk

pub open spec fn adv(f: TraceNode) -> TraceNode { TraceNode { node: f.node, status: next_status(f.status, f.node) } }
pub proof fn on_top(lo: Fs, lt: Ts, f: TraceNode, t: T, d: Set<Seq<u8>>)
    ensures base(lo.push(f), lt.push(t)) == base(lo, lt) + fext(f, t), rem(lo.push(f), lt.push(t)) == frem(f, t, base(lo, lt)) + rem(lo, lt),
        work(lo.push(f), lt.push(t)) == fwork(f, t) + work(lo, lt), lower(lo.push(f), lt.push(t), d) <==> fok(f, t, d) && mid(f, t) && lower(lo, lt, d) && lo.len() == lt.len(),
        stack(lo.push(f), lt.push(t), d) <==> fok(f, t, d) && lower(lo, lt, d) && lo.len() == lt.len(),
{
    assert(lo.push(f).drop_last() =~= lo);
    assert(lt.push(t).drop_last() =~= lt);
}
pub proof fn lower_stack(fs: Fs, ts: Ts, d: Set<Seq<u8>>)
    requires lower(fs, ts, d),
    ensures stack(fs, ts, d),
{ }
pub proof fn split_top(fs: Fs)
    requires fs.len() > 0,
    ensures fs == fs.drop_last().push(fs.last()),
{ assert(fs =~= fs.drop_last().push(fs.last())); }
// one step leads from (n, fs) to (n1, fs1) and leaves the rest of the walk r1
pub open spec fn goes(s: InnerTrie, n: Seq<u8>, fs: Fs, n1: Seq<u8>, fs1: Fs, got: Seq<It>) -> bool {
    iter_ok(s, n1, fs1) && iter_rem(s, n, fs) =~= got + iter_rem(s, n1, fs1) && iter_work(s, n1, fs1) < iter_work(s, n, fs)
}
pub open spec fn iter_work(s: InnerTrie, n: Seq<u8>, fs: Fs) -> nat { work(fs, iter_ts(s, n, fs)) }
pub open spec fn x_of(t: T) -> Option<Seq<u8>> { match t { T::Branch(cs, v) => v, _ => None } }
pub open spec fn made(f: TraceNode, n: Node) -> bool { f.node == n && f.status is Start }
// what one turn of the loop does, when it does not return
pub open spec fn turn(n0: Seq<u8>, fs0: Fs, n1: Seq<u8>, fs1: Fs) -> bool {
    let lo = fs0.drop_last();
    let f = fs0.last();
    let f1 = adv(f);
    match (f.status, f.node) {
        (_, Node::Empty) => n1 =~= n0 && fs1 =~= lo,
        (TraceStatus::Start, _) => n1 =~= n0 && fs1 =~= lo.push(f1),
        (TraceStatus::End, Node::Leaf(l)) => n1 =~= n0.subrange(0, n0.len() - l.key.v().len()) && fs1 =~= lo,
        (TraceStatus::End, Node::Extension(e)) => n1 =~= n0.subrange(0, n0.len() - e.prefix.v().len()) && fs1 =~= lo,
        (TraceStatus::End, Node::Branch(b)) => n1 =~= n0.drop_last() && fs1 =~= lo,
        (TraceStatus::Doing, Node::Extension(e)) => n1 =~= n0 + e.prefix.v() && fs1.len() == lo.len() + 2 && made(fs1.last(), *e.node) && fs1 =~= lo.push(f1).push(fs1.last()),
        (TraceStatus::Doing, Node::Hash(h)) => n1 =~= n0 && fs1.len() == lo.len() + 1 && fs1.last().status is Start && !(fs1.last().node is Hash) && (forall|t: T| #[trigger] hk(h.hash.v(), t) ==> rep(fs1.last().node, t)) && fs1 =~= lo.push(fs1.last()),
        (TraceStatus::Child(i), Node::Branch(b)) => n1 =~= (if i == 0 { n0 } else { n0.drop_last() }).push(i) && fs1.len() == lo.len() + 2 && i < 16 && made(fs1.last(), *b.children[i as int]) && fs1 =~= lo.push(f1).push(fs1.last()),
        _ => false,
    }
}
pub open spec fn hashed_at(h: Seq<u8>, s: InnerTrie) -> bool { s.dom().contains(h) && exists|t: T| #[trigger] hk(h, t) }
// what holds when a turn begins, after the frame on top has moved on
pub open spec fn turn_pre(s: InnerTrie, n: Seq<u8>, fs: Fs) -> bool {
    let f = fs.last();
    let fs1 = fs.drop_last().push(adv(f));
    match (f.status, f.node) {
        (TraceStatus::Start, _) => true,
        (_, Node::Empty) => f.status is Doing,
        (TraceStatus::End, Node::Leaf(l)) => l.key.v().len() <= n.len(),
        (TraceStatus::End, Node::Extension(e)) => e.prefix.v().len() <= n.len(),
        (TraceStatus::End, Node::Branch(b)) => n.len() > 0,
        (TraceStatus::Doing, Node::Leaf(l)) => path_ok(n + l.key.v()) && goes(s, n, fs, n + l.key.v(), fs1, seq![(nibs(n + l.key.v()), l.value@)]),
        (TraceStatus::Doing, Node::Branch(b)) => path_ok(n) && goes(s, n, fs, n, fs1, match b.value { Some(v) => seq![(nibs(n), v@)], None => Seq::empty() }),
        (TraceStatus::Doing, Node::Hash(h)) => hashed_at(h.hash.v(), s),
        (TraceStatus::Doing, Node::Extension(_)) => true,
        (TraceStatus::Child(i), Node::Branch(b)) => i < 16 && (i > 0 ==> n.len() > 0),
        _ => false,
    }
}
proof fn sub_add(b: Seq<u8>, k: Seq<u8>)
    ensures (b + k).subrange(0, (b + k).len() - k.len()) == b, k.len() == 1 ==> (b + k).drop_last() == b, k.len() == 1 ==> b + k == b.push(k[0]), b + Seq::<u8>::empty() == b,
{
    assert((b + k).subrange(0, (b + k).len() - k.len()) =~= b);
    if k.len() == 1 { assert((b + k).drop_last() =~= b); assert(b + k =~= b.push(k[0])); }
    assert(b + Seq::<u8>::empty() =~= b);
}
proof fn it_at(s: InnerTrie, n: Seq<u8>, fs: Fs) -> (ts: Ts)
    requires iter_ok(s, n, fs), fs.len() > 0,
    ensures ts == iter_ts(s, n, fs), ts.len() == fs.len(), iter_rem(s, n, fs) == frem(fs.last(), ts.last(), base(fs.drop_last(), ts.drop_last())) + rem(fs.drop_last(), ts.drop_last()),
        iter_work(s, n, fs) == fwork(fs.last(), ts.last()) + work(fs.drop_last(), ts.drop_last()), n == base(fs.drop_last(), ts.drop_last()) + fext(fs.last(), ts.last()),
        fok(fs.last(), ts.last(), s.dom()), lower(fs.drop_last(), ts.drop_last(), s.dom()), nibbly(base(fs.drop_last(), ts.drop_last())), readable(s),
{
    let ts = iter_ts(s, n, fs);
    assert(iter_at(s, n, fs, ts));
    lower_base(fs.drop_last(), ts.drop_last(), s.dom());
    ts
}
// to a state over the tries ts1
proof fn goes_to(s: InnerTrie, n: Seq<u8>, fs: Fs, n1: Seq<u8>, fs1: Fs, ts1: Ts, got: Seq<It>)
    requires iter_ok(s, n, fs), iter_at(s, n1, fs1, ts1), iter_rem(s, n, fs) =~= got + rem(fs1, ts1), work(fs1, ts1) < iter_work(s, n, fs),
    ensures goes(s, n, fs, n1, fs1, got),
{ iter_is(s, n1, fs1, ts1); }
pub proof fn begins(s: InnerTrie, n: Seq<u8>, fs: Fs)
    requires iter_ok(s, n, fs), fs.len() > 0,
    ensures turn_pre(s, n, fs),
{
    let ts = it_at(s, n, fs);
    let lo = fs.drop_last();
    let lt = ts.drop_last();
    let f = fs.last();
    let t = ts.last();
    let b = base(lo, lt);
    let f1 = adv(f);
    let d = s.dom();
    match (f.status, f.node) {
        (TraceStatus::Doing, Node::Leaf(l)) => {
            on_top(lo, lt, f1, t, d);
            sub_add(b, l.key.v());
            sub_add(b, Seq::empty());
            let k = l.key.v();
            assert(nibs(b + k) =~= b + nibs(k));
            goes_to(s, n, fs, n + k, lo.push(f1), lt.push(t), seq![(nibs(n + k), l.value@)]);
        },
        (TraceStatus::Doing, Node::Branch(x)) => {
            on_top(lo, lt, f1, t, d);
            sub_add(b, Seq::empty());
            assert(!has_term(b));
            assert(ov(x.value) == x_of(t));
            goes_to(s, n, fs, n, lo.push(f1), lt.push(t), match x.value { Some(v) => seq![(nibs(n), v@)], None => Seq::empty() });
        },
        (TraceStatus::Doing, Node::Hash(h)) => { assert(hk(h.hash.v(), t)); },
        _ => {},
    }
}
pub proof fn turns(s: InnerTrie, n: Seq<u8>, fs: Fs, n1: Seq<u8>, fs1: Fs)
    requires iter_ok(s, n, fs), fs.len() > 0, turn(n, fs, n1, fs1),
    ensures goes(s, n, fs, n1, fs1, Seq::empty()),
{
    let ts = it_at(s, n, fs);
    let lo = fs.drop_last();
    let lt = ts.drop_last();
    let f = fs.last();
    let t = ts.last();
    let b = base(lo, lt);
    let f1 = adv(f);
    let d = s.dom();
    sub_add(b, fext(f, t));
    match (f.status, f.node) {
        (_, Node::Empty) => { assert(fs1 == lo); lower_stack(lo, lt, d); goes_to(s, n, fs, n1, fs1, lt, Seq::empty()); },
        (TraceStatus::Start, _) => { on_top(lo, lt, f1, t, d); assert(fs1 == lo.push(f1)); goes_to(s, n, fs, n1, fs1, lt.push(t), Seq::empty()); },
        (TraceStatus::End, Node::Leaf(l)) => { assert(fs1 == lo); lower_stack(lo, lt, d); goes_to(s, n, fs, n1, fs1, lt, Seq::empty()); },
        (TraceStatus::End, Node::Extension(e)) => { assert(fs1 == lo); lower_stack(lo, lt, d); goes_to(s, n, fs, n1, fs1, lt, Seq::empty()); },
        (TraceStatus::End, Node::Branch(x)) => { assert(fs1 == lo); lower_stack(lo, lt, d); goes_to(s, n, fs, n1, fs1, lt, Seq::empty()); },
        (TraceStatus::Doing, Node::Extension(e)) => {
            match t { T::Ext(q, c) => {
                let g = fs1.last();
                on_top(lo, lt, f1, t, d);
                on_top(lo.push(f1), lt.push(t), g, *c, d);
                assert(fs1 == lo.push(f1).push(g));
                sub_add(b, Seq::empty());
                sub_add(b + q, Seq::empty());
                goes_to(s, n, fs, n1, fs1, lt.push(t).push(*c), Seq::empty());
            }, _ => {} }
        },
        (TraceStatus::Doing, Node::Hash(h)) => {
            let g = fs1.last();
            assert(hk(h.hash.v(), t));
            assert(rep(g.node, t));
            below_av(d, g.node, t);
            on_top(lo, lt, g, t, d);
            assert(fs1 == lo.push(g));
            goes_to(s, n, fs, n1, fs1, lt.push(t), Seq::empty());
        },
        (TraceStatus::Child(i), Node::Branch(x)) => {
            match t { T::Branch(cs, v) => {
                let g = fs1.last();
                let c = cs[i as int];
                on_top(lo, lt, f1, t, d);
                on_top(lo.push(f1), lt.push(t), g, c, d);
                assert(fs1 == lo.push(f1).push(g));
                assert(repc(*x.children[i as int], c) && tok(c) && av(d, *x.children[i as int], c));
                sub_add(b, Seq::empty());
                sub_add(b, seq![i]);
                sub_add(b.push(i), Seq::empty());
                assert(fext(f1, t) =~= seq![i]);
                assert(n1 == b.push(i));
                assert(kfrom(t, i as int, b) == items(c, b.push(i)) + kfrom(t, i + 1, b));
                assert(ksteps(t, i as int) == steps(c) + 4 + ksteps(t, i + 1));
                assert(i == 15 ==> kfrom(t, i + 1, b) =~= Seq::<It>::empty());
                goes_to(s, n, fs, n1, fs1, lt.push(t).push(c), Seq::empty());
            }, _ => {} }
        },
        _ => {},
    }
}
pub proof fn iter_end(s: InnerTrie, n: Seq<u8>, fs: Fs)
    requires iter_ok(s, n, fs), fs.len() == 0,
    ensures iter_rem(s, n, fs) == Seq::<It>::empty(),
{ }
impl<'a> TrieIterator<'a> {
//@fn pmt/src/trie_iterator.rs TrieIterator::new props C06
//@sig <D> ==>
//@rewrite? trie.root().into() ==> TraceNode::from(trie.root())
//@spec
    requires readable(*trie),
    ensures forall|t: T| #[trigger] rep(trie.root, t) && tok(t) && av(trie.dom(), trie.root, t) ==> r.ok() && r.todo() == items(t, Seq::empty()),
//@tail
    assert forall|t: T| #[trigger] rep(trie.root, t) && tok(t) && av(trie.dom(), trie.root, t) implies r.ok() && r.todo() == items(t, Seq::empty()) by { iter_new(*trie, r.nibble.v(), r.nodes@, t); }
//@end
//@fn pmt/src/trie_iterator.rs <Iterator for TrieIterator>::next props C06
//@sig Option<Self::Item> ==> Option<(Vec<u8>, Vec<u8>)>
//@rewrite? self.nodes.last().cloned() ==> rt_last(&self.nodes)
//@rewrite? self.nodes.last_mut().unwrap() ==> rt_last_mut(&mut self.nodes)
//@rewrite? (*$e.clone()).into() ==> TraceNode::from(*$e.clone())
//@rewrite? $id_n.into() ==> TraceNode::from($id_n)
//@spec
    requires old(self).ok(),
    ensures final(self).ok(), final(self).trie == old(self).trie,
        old(self).todo().len() == 0 ==> r is None && final(self).todo() == old(self).todo(),
        old(self).todo().len() > 0 ==> r is Some && (r->0).0@ == pack(old(self).todo()[0].0) && (r->0).1@ == old(self).todo()[0].1 && final(self).todo() == old(self).todo().drop_first(),
//@loop 0
    invariant self.ok(), self.trie == old(self).trie, self.todo() == old(self).todo(), old(self).ok(),
    decreases iter_work(*self.trie, self.nibble.v(), self.nodes@),
//@loopstart 0
    let ghost n0 = self.nibble.v();
    let ghost fs0 = self.nodes@;
    proof { if fs0.len() > 0 { begins(*self.trie, n0, fs0); } else { iter_end(*self.trie, n0, fs0); } }
//@loopend 0
    proof { turns(*self.trie, n0, fs0, self.nibble.v(), self.nodes@); }
//@end
}
impl OwnedTrieIterator {
//@fn pmt/src/trie_iterator.rs OwnedTrieIterator::new props C06
//@sig <D> ==>
//@rewrite? trie.root().into() ==> TraceNode::from(trie.root())
//@spec
    requires readable(trie),
    ensures forall|t: T| #[trigger] rep(trie.root, t) && tok(t) && av(trie.dom(), trie.root, t) ==> r.ok() && r.todo() == items(t, Seq::empty()),
//@tail
    assert forall|t: T| #[trigger] rep(trie.root, t) && tok(t) && av(trie.dom(), trie.root, t) implies r.ok() && r.todo() == items(t, Seq::empty()) by { iter_new(trie, r.nibble.v(), r.nodes@, t); }
//@end
//@fn pmt/src/trie_iterator.rs <Iterator for OwnedTrieIterator>::next props C06
//@sig Option<Self::Item> ==> Option<(Vec<u8>, Vec<u8>)>
//@rewrite? self.nodes.last().cloned() ==> rt_last(&self.nodes)
//@rewrite? self.nodes.last_mut().unwrap() ==> rt_last_mut(&mut self.nodes)
//@rewrite? (*$e.clone()).into() ==> TraceNode::from(*$e.clone())
//@rewrite? $id_n.into() ==> TraceNode::from($id_n)
//@spec
    requires old(self).ok(),
    ensures final(self).ok(), final(self).trie == old(self).trie,
        old(self).todo().len() == 0 ==> r is None && final(self).todo() == old(self).todo(),
        old(self).todo().len() > 0 ==> r is Some && (r->0).0@ == pack(old(self).todo()[0].0) && (r->0).1@ == old(self).todo()[0].1 && final(self).todo() == old(self).todo().drop_first(),
//@loop 0
    invariant self.ok(), self.trie == old(self).trie, self.todo() == old(self).todo(), old(self).ok(),
    decreases iter_work(self.trie, self.nibble.v(), self.nodes@),
//@loopstart 0
    let ghost n0 = self.nibble.v();
    let ghost fs0 = self.nodes@;
    proof { if fs0.len() > 0 { begins(self.trie, n0, fs0); } else { iter_end(self.trie, n0, fs0); } }
//@loopend 0
    proof { turns(self.trie, n0, fs0, self.nibble.v(), self.nodes@); }
//@end
}
impl InnerTrie {
//@fn pmt/src/inner.rs InnerTrie::root props C06
//@spec
    ensures r == self.root,
//@end
//@fn pmt/src/inner.rs InnerTrie::iter props C06
//@sig TrieIterator<D> ==> TrieIterator<'_>
//@spec
    requires readable(*self),
    ensures forall|t: T| #[trigger] rep(self.root, t) && tok(t) && av(self.dom(), self.root, t) ==> r.ok() && r.todo() == items(t, Seq::empty()),
//@end
//@fn pmt/src/inner.rs InnerTrie::values props C06
//@rewrite? $e.collect() ==> rt_collect($e)
//@spec
    requires readable(*self), exists|t: T| #[trigger] rep(self.root, t) && tok(t) && av(self.dom(), self.root, t),
    ensures forall|t: T| #[trigger] rep(self.root, t) && tok(t) && av(self.dom(), self.root, t) ==> (r matches Ok(x) && lists(x@, items(t, Seq::empty()))),
//@end
}
// Iterator::collect: next until None
pub fn rt_collect(it: TrieIterator<'_>) -> (r: Vec<(Vec<u8>, Vec<u8>)>)
    requires it.ok(),
    ensures lists(r@, it.todo()),
{
    let mut it = it;
    let ghost all = it.todo();
    let mut r: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
    loop
        invariant it.ok(), r@.len() <= all.len(), it.todo() == all.subrange(r@.len() as int, all.len() as int), lists(r@, all.subrange(0, r@.len() as int)),
        ensures lists(r@, all),
        decreases it.todo().len(),
    {
        let ghost n = r@.len() as int;
        match it.next() {
            Some(x) => {
                r.push(x);
                assert(it.todo() =~= all.subrange(n + 1, all.len() as int));
                assert(all.subrange(0, n + 1) =~= all.subrange(0, n).push(all[n]));
            },
            None => { assert(all.subrange(0, n) =~= all); break; },
        }
    }
    r
}
// the pairs x are the contents l, path for key
pub open spec fn lists(x: Seq<(Vec<u8>, Vec<u8>)>, l: Seq<It>) -> bool { x.len() == l.len() && forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i]).0@ == pack(l[i].0) && x[i].1@ == l[i].1 }
// ---------------------------------------------------------------- the contents are those of the map, in order
// derived Ord of byte strings
pub open spec fn lex_at(a: Seq<u8>, b: Seq<u8>, i: int) -> bool { 0 <= i <= a.len() && i < b.len() && (i < a.len() ==> a[i] < b[i]) && forall|j: int| 0 <= j < i ==> a[j] == b[j] }
pub open spec fn lex(a: Seq<u8>, b: Seq<u8>) -> bool { exists|i: int| #[trigger] lex_at(a, b, i) }
pub open spec fn sorted(l: Seq<It>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> lex((#[trigger] l[i]).0, (#[trigger] l[j]).0) }
// x is a path below b whose next nibble is at least n (-1: none is needed)
pub open spec fn under(x: Seq<u8>, b: Seq<u8>, n: int) -> bool { b.len() <= x.len() && (forall|j: int| 0 <= j < b.len() ==> x[j] == b[j]) && nibbly(sfx(x, b.len() as int)) && (n >= 0 ==> b.len() < x.len() && x[b.len() as int] >= n) }
pub open spec fn all_under(l: Seq<It>, b: Seq<u8>, n: int) -> bool { forall|i: int| 0 <= i < l.len() ==> under((#[trigger] l[i]).0, b, n) }
pub proof fn items_under(t: T, b: Seq<u8>)
    requires tok(t),
    ensures all_under(items(t, b), b, -1),
    decreases t, 17nat,
{
    let l = items(t, b);
    match t {
        T::Leaf(k, v) => { assert(sfx(l[0].0, b.len() as int) =~= nibs(k)); },
        T::Ext(q, c) => {
            items_under(*c, b + q);
            assert forall|i: int| 0 <= i < l.len() implies under((#[trigger] l[i]).0, b, -1) by {
                let x = l[i].0;
                assert forall|j: int| 0 <= j < b.len() implies x[j] == b[j] by { assert((b + q)[j] == b[j]); }
                assert forall|j: int| 0 <= j < sfx(x, b.len() as int).len() implies sfx(x, b.len() as int)[j] < 16 by {
                    if j < q.len() { assert(x[b.len() + j] == (b + q)[b.len() + j]); } else { assert(sfx(x, (b + q).len() as int)[j - q.len()] < 16); }
                }
            }
        },
        T::Branch(cs, v) => {
            kids_under(t, 0, b);
            assert forall|i: int| 0 <= i < l.len() implies under((#[trigger] l[i]).0, b, -1) by {
                let o = own(v, b);
                if i < o.len() { assert(l[i] == o[i]); assert(sfx(b, b.len() as int).len() == 0); } else { assert(l[i] == kfrom(t, 0, b)[i - o.len()]); }
            }
        },
        _ => {},
    }
}
pub proof fn child_under(x: Seq<u8>, b: Seq<u8>, i: u8)
    requires under(x, b.push(i), -1), i < 16,
    ensures under(x, b, i as int), x[b.len() as int] == i,
{
    assert(x[b.len() as int] == b.push(i)[b.len() as int]);
    assert forall|j: int| 0 <= j < b.len() implies x[j] == b[j] by { assert(b.push(i)[j] == b[j]); }
    assert forall|j: int| 0 <= j < sfx(x, b.len() as int).len() implies sfx(x, b.len() as int)[j] < 16 by { if j > 0 { assert(sfx(x, b.push(i).len() as int)[j - 1] < 16); } }
}
pub proof fn kids_under(t: T, i: int, b: Seq<u8>)
    requires tok(t), t is Branch, 0 <= i <= 16,
    ensures all_under(kfrom(t, i, b), b, i),
    decreases t, 16 - i,
{
    match t { T::Branch(cs, v) => {
        if i < 16 {
            assert(tok(cs[i]));
            items_under(cs[i], b.push(i as u8));
            kids_under(t, i + 1, b);
            let l = kfrom(t, i, b);
            let h = items(cs[i], b.push(i as u8));
            assert forall|j: int| 0 <= j < l.len() implies under((#[trigger] l[j]).0, b, i) by {
                if j < h.len() { assert(l[j] == h[j]); child_under(h[j].0, b, i as u8); } else { assert(l[j] == kfrom(t, i + 1, b)[j - h.len()]); }
            }
        }
    }, _ => {} }
}
pub proof fn items_sorted(t: T, b: Seq<u8>)
    requires tok(t),
    ensures sorted(items(t, b)),
    decreases t, 17nat,
{
    match t {
        T::Ext(q, c) => items_sorted(*c, b + q),
        T::Branch(cs, v) => {
            kids_sorted(t, 0, b);
            kids_under(t, 0, b);
            let l = items(t, b);
            let o = own(v, b);
            let k = kfrom(t, 0, b);
            assert forall|i: int, j: int| 0 <= i < j < l.len() implies lex((#[trigger] l[i]).0, (#[trigger] l[j]).0) by {
                assert(l[j] == k[j - o.len()]);
                if i < o.len() { assert(l[i] == o[i]); assert(lex_at(l[i].0, l[j].0, b.len() as int)); } else { assert(l[i] == k[i - o.len()]); }
            }
        },
        _ => {},
    }
}
pub proof fn kids_sorted(t: T, i: int, b: Seq<u8>)
    requires tok(t), t is Branch, 0 <= i <= 16,
    ensures sorted(kfrom(t, i, b)),
    decreases t, 16 - i,
{
    match t { T::Branch(cs, v) => {
        if i < 16 {
            assert(tok(cs[i]));
            items_sorted(cs[i], b.push(i as u8));
            items_under(cs[i], b.push(i as u8));
            kids_sorted(t, i + 1, b);
            kids_under(t, i + 1, b);
            let l = kfrom(t, i, b);
            let h = items(cs[i], b.push(i as u8));
            let g = kfrom(t, i + 1, b);
            assert forall|x: int, y: int| 0 <= x < y < l.len() implies lex((#[trigger] l[x]).0, (#[trigger] l[y]).0) by {
                if y < h.len() { assert(l[x] == h[x] && l[y] == h[y]); }
                else if x < h.len() {
                    assert(l[x] == h[x] && l[y] == g[y - h.len()]);
                    child_under(h[x].0, b, i as u8);
                    assert(under(g[y - h.len()].0, b, i + 1));
                    assert(lex_at(l[x].0, l[y].0, b.len() as int));
                }
                else { assert(l[x] == g[x - h.len()] && l[y] == g[y - h.len()]); }
            }
        }
    }, _ => {} }
}
// the trie maps the path p, seen from b, to v
pub open spec fn listed(l: Seq<It>, x: Seq<u8>, v: Seq<u8>) -> bool { exists|i: int| 0 <= i < l.len() && #[trigger] l[i] == (x, v) }
pub proof fn listed_add(a: Seq<It>, b: Seq<It>, x: Seq<u8>, v: Seq<u8>)
    ensures listed(a + b, x, v) <==> listed(a, x, v) || listed(b, x, v),
{
    let l = a + b;
    if listed(a, x, v) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == (x, v); assert(l[i] == (x, v)); }
    if listed(b, x, v) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == (x, v); assert(l[a.len() + i] == (x, v)); }
    if listed(l, x, v) { let i = choose|i: int| 0 <= i < l.len() && #[trigger] l[i] == (x, v); if i < a.len() { assert(a[i] == (x, v)); } else { assert(b[i - a.len()] == (x, v)); } }
}
// a full path q, less its terminator, seen from b
pub open spec fn from_base(b: Seq<u8>, q: Seq<u8>) -> Seq<u8> { b + q.drop_last() }
pub proof fn same_full(a: Seq<u8>, q: Seq<u8>, b: Seq<u8>)
    requires full(a), full(q), b + nibs(a) == from_base(b, q),
    ensures a == q,
{
    assert((b + nibs(a)).len() == b.len() + a.len() - 1);
    assert(from_base(b, q).len() == b.len() + q.len() - 1);
    assert(a.len() == q.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == q[i] by { if i < a.len() - 1 { assert((b + nibs(a))[b.len() + i] == nibs(a)[i]); assert(from_base(b, q)[b.len() + i] == q.drop_last()[i]); } }
    assert(a =~= q);
}
pub proof fn items_map(t: T, b: Seq<u8>, q: Seq<u8>, v: Seq<u8>)
    requires tok(t), full(q),
    ensures listed(items(t, b), from_base(b, q), v) <==> tl(t, q) == Some(v),
    decreases t, 17nat,
{
    let l = items(t, b);
    let x = from_base(b, q);
    match t {
        T::Empty => {},
        T::Leaf(k, w) => {
            if k == q { assert(nibs(q) =~= q.drop_last()); assert(l[0] == (x, w)); }
            if listed(l, x, v) { same_full(k, q, b); }
        },
        T::Ext(p, c) => {
            if is_pfx(p, q) {
                nibbly_lcp(q, p);
                let q2 = sfx(q, p.len() as int);
                items_map(*c, b + p, q2, v);
                assert(from_base(b + p, q2) =~= x) by {
                    assert forall|j: int| 0 <= j < p.len() implies p[j] == q[j] by { assert(pfx(q, p.len() as int)[j] == p[j]); }
                }
            } else if listed(l, x, v) {
                items_under(*c, b + p);
                let i = choose|i: int| 0 <= i < l.len() && #[trigger] l[i] == (x, v);
                assert(under(l[i].0, b + p, -1));
                assert(pfx(q, p.len() as int) =~= p) by { assert forall|j: int| 0 <= j < p.len() implies q[j] == p[j] by { assert(x[b.len() + j] == (b + p)[b.len() + j]); assert(x[b.len() + j] == q.drop_last()[j]); } }
            }
        },
        T::Branch(cs, w) => {
            kids_map(t, 0, b, q, v);
            listed_add(own(w, b), kfrom(t, 0, b), x, v);
            let o = own(w, b);
            if q[0] == 16 {
                assert(x =~= b);
                if w is Some { assert(o[0] == (b, w->0)); }
            } else {
                assert(x.len() > b.len());
                if listed(o, x, v) { assert(false); }
            }
        },
    }
}
pub proof fn kids_map(t: T, i: int, b: Seq<u8>, q: Seq<u8>, v: Seq<u8>)
    requires tok(t), t is Branch, 0 <= i <= 16, full(q),
    ensures listed(kfrom(t, i, b), from_base(b, q), v) <==> q[0] != 16 && q[0] >= i && tl(t, q) == Some(v),
    decreases t, 16 - i,
{
    let x = from_base(b, q);
    match t { T::Branch(cs, w) => {
        if i < 16 {
            let h = items(cs[i], b.push(i as u8));
            let g = kfrom(t, i + 1, b);
            assert(tok(cs[i]));
            kids_map(t, i + 1, b, q, v);
            listed_add(h, g, x, v);
            if q[0] == i {
                full_sfx(q, 1);
                items_map(cs[i], b.push(i as u8), sfx(q, 1), v);
                assert(from_base(b.push(i as u8), sfx(q, 1)) =~= x);
            } else if listed(h, x, v) {
                let k = choose|k: int| 0 <= k < h.len() && #[trigger] h[k] == (x, v);
                items_under(cs[i], b.push(i as u8));
                child_under(h[k].0, b, i as u8);
                assert(x[b.len() as int] == i);
                assert(q.drop_last()[0] == i);
            }
        }
    }, _ => {} }
}
// every path listed is that of a key
pub proof fn items_keyed(t: T, i: int)
    requires tok(t), keyed(t), 0 <= i < items(t, Seq::empty()).len(),
    ensures items(t, Seq::empty())[i].0 == unpack(pack(items(t, Seq::empty())[i].0)),
{
    let l = items(t, Seq::empty());
    let x = l[i].0;
    let v = l[i].1;
    items_under(t, Seq::empty());
    assert(under(x, Seq::empty(), -1));
    let q = x.push(16);
    assert(sfx(x, 0) =~= x);
    assert(full(q)) by { assert forall|j: int| 0 <= j < q.len() - 1 implies q[j] < 16 by { assert(sfx(x, 0)[j] < 16); } }
    assert(from_base(Seq::empty(), q) =~= x);
    assert(l[i] == (x, v));
    assert(listed(l, x, v));
    items_map(t, Seq::empty(), q, v);
    let k = choose|k: Seq<u8>| q == #[trigger] kp(k);
    assert(kp(k).drop_last() =~= unpack(k));
    assert(x =~= unpack(k));
    c08_key_roundtrip(k, true);
    assert(nibs(with_term(unpack(k), true)) =~= unpack(k));
}
// order of paths is order of keys
pub proof fn lex_unpack(a: Seq<u8>, b: Seq<u8>)
    requires lex(unpack(a), unpack(b)),
    ensures lex(a, b),
{
    let i = choose|i: int| #[trigger] lex_at(unpack(a), unpack(b), i);
    let m = i / 2;
    assert forall|j: int| 0 <= j < m implies a[j] == b[j] by {
        assert(unpack(a)[2 * j] == unpack(b)[2 * j] && unpack(a)[2 * j + 1] == unpack(b)[2 * j + 1]);
        let p = a[j]; let r = b[j];
        assert(p / 16 == r / 16 && p % 16 == r % 16);
    }
    if m < a.len() {
        let p = a[m]; let r = b[m];
        if i % 2 == 0 { assert(p / 16 < r / 16); } else { assert(unpack(a)[2 * m] == unpack(b)[2 * m]); assert(p / 16 == r / 16 && p % 16 < r % 16); }
        assert(p < r);
    }
    assert(lex_at(a, b, m));
}
// C06: what the iterator lists is the contents, each key once, in ascending order
pub proof fn c06_lists(x: Seq<(Vec<u8>, Vec<u8>)>, t: T)
    requires good(t), lists(x, items(t, Seq::empty())),
    ensures
        forall|i: int, j: int| 0 <= i < j < x.len() ==> lex((#[trigger] x[i]).0@, (#[trigger] x[j]).0@),
        forall|i: int| 0 <= i < x.len() ==> mp(t, (#[trigger] x[i]).0@) == Some(x[i].1@),
        forall|k: Seq<u8>| (#[trigger] mp(t, k)) is Some ==> exists|i: int| 0 <= i < x.len() && (#[trigger] x[i]).0@ == k,
{
    let l = items(t, Seq::empty());
    items_sorted(t, Seq::empty());
    assert forall|i: int| 0 <= i < x.len() implies l[i].0 == unpack((#[trigger] x[i]).0@) by { items_keyed(t, i); }
    assert forall|i: int, j: int| 0 <= i < j < x.len() implies lex((#[trigger] x[i]).0@, (#[trigger] x[j]).0@) by {
        assert(lex(l[i].0, l[j].0));
        lex_unpack(x[i].0@, x[j].0@);
    }
    assert forall|k: Seq<u8>, v: Seq<u8>| (#[trigger] listed(l, unpack(k), v)) <==> mp(t, k) == Some(v) by {
        kp_full(k);
        items_map(t, Seq::empty(), kp(k), v);
        assert(from_base(Seq::empty(), kp(k)) =~= unpack(k));
    }
    assert forall|i: int| 0 <= i < x.len() implies mp(t, (#[trigger] x[i]).0@) == Some(x[i].1@) by { assert(l[i] == (unpack(x[i].0@), x[i].1@)); assert(listed(l, unpack(x[i].0@), x[i].1@)); }
    assert forall|k: Seq<u8>| (#[trigger] mp(t, k)) is Some implies exists|i: int| 0 <= i < x.len() && (#[trigger] x[i]).0@ == k by {
        let v = mp(t, k)->0;
        assert(listed(l, unpack(k), v));
        let i = choose|i: int| 0 <= i < l.len() && #[trigger] l[i] == (unpack(k), v);
        assert(x[i].0@ == k) by { c08_key_roundtrip(k, true); c08_key_injective(x[i].0@, k); }
    }
}
// a trie in order lists its contents, in memory or reopened at a committed root
pub fn client_values(s: &InnerTrie, t: Ghost<T>) -> (r: Result<Vec<(Vec<u8>, Vec<u8>)>>)
    requires stands(*s, t@), s.db.reliable(),
    ensures r matches Ok(x) && (forall|i: int, j: int| 0 <= i < j < x@.len() ==> lex((#[trigger] x@[i]).0@, (#[trigger] x@[j]).0@))
        && (forall|k: Seq<u8>| (#[trigger] mp(t@, k)) is Some ==> exists|i: int| 0 <= i < x@.len() && (#[trigger] x@[i]).0@ == k)
        && (forall|i: int| 0 <= i < x@.len() ==> mp(t@, (#[trigger] x@[i]).0@) == Some(x@[i].1@)),
{
    let r = s.values();
    proof { c06_lists(r->Ok_0@, t@); }
    r
}
} // verus!
