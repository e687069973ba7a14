verus! {
// ================================================================ encoding of the mathematical trie
// Yellow Paper appendix D: c(J, i), n(J, i)
pub open spec fn tenc(t: T) -> Seq<u8>
    decreases t, 1nat,
{
    match t {
        T::Empty => rs(Seq::empty()),
        T::Leaf(k, v) => rl(seq![rs(hp(k)), rs(v)]),
        T::Ext(q, c) => rl(seq![rs(hp(q)), tref(*c)]),
        T::Branch(cs, v) => rl(benc(t)),
    }
}
// the 17 items of a branch
pub open spec fn benc(t: T) -> Seq<Seq<u8>>
    decreases t, 0nat,
{
    match t {
        T::Branch(cs, v) => Seq::new(cs.len(), |i: int| if 0 <= i < cs.len() { tref(cs[i]) } else { Seq::empty() }).push(bval(v)),
        _ => Seq::empty(),
    }
}
pub open spec fn bval(v: Option<Seq<u8>>) -> Seq<u8> { rs(match v { Some(x) => x, None => Seq::empty() }) }
pub open spec fn big(t: T) -> bool { tenc(t).len() >= 32 }
pub open spec fn tref(t: T) -> Seq<u8>
    decreases t, 2nat,
{
    if tenc(t).len() < 32 { tenc(t) } else { rs(kec(tenc(t))) }
}
// every node below t that goes to the database under its hash has been hashed
pub open spec fn kids(t: T) -> bool
    decreases t,
{
    match t {
        T::Ext(q, c) => (big(*c) ==> hashed(tenc(*c))) && kids(*c),
        T::Branch(cs, v) => forall|i: int| #![trigger cs[i]] 0 <= i < cs.len() ==> (big(cs[i]) ==> hashed(tenc(cs[i]))) && kids(cs[i]),
        _ => true,
    }
}
// the database entries under the keys of d hold everything below t
pub open spec fn below(d: Set<Seq<u8>>, t: T) -> bool
    decreases t,
{
    match t {
        T::Ext(q, c) => (big(*c) ==> d.contains(kec(tenc(*c)))) && below(d, *c),
        T::Branch(cs, v) => forall|i: int| #![trigger cs[i]] 0 <= i < cs.len() ==> (big(cs[i]) ==> d.contains(kec(tenc(cs[i])))) && below(d, cs[i]),
        _ => true,
    }
}
pub open spec fn stored(d: Set<Seq<u8>>, t: T) -> bool { d.contains(kec(tenc(t))) && below(d, t) }
// a database that is addressed by content
pub open spec fn cadb(m: Map<Seq<u8>, Seq<u8>>) -> bool {
    forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> kec(m[k]) == k && hashed(m[k])
}

// ================================================================ nodes represent tries
// what no-panic and termination need of a node, whatever bytes it came from
pub open spec fn wf(n: Node) -> bool
    decreases n,
{
    match n {
        Node::Leaf(l) => full(l.key.v()),
        Node::Extension(e) => e.prefix.v().len() > 0 && nibbly(e.prefix.v()) && wf(*e.node),
        Node::Branch(b) => forall|i: int| 0 <= i < 16 ==> wf(*#[trigger] b.children[i]),
        _ => true,
    }
}
pub open spec fn rep(n: Node, t: T) -> bool
    decreases t,
{
    match n {
        Node::Empty => t is Empty,
        Node::Leaf(l) => t matches T::Leaf(k, v) && l.key.v() == k && l.value@ == v,
        Node::Extension(e) => match t { T::Ext(q, c) => e.prefix.v() == q && rep(*e.node, *c) && (*e.node is Hash ==> big(*c)), _ => false },
        Node::Branch(b) => match t {
            T::Branch(cs, v) => cs.len() == 16 && ov(b.value) == v && forall|i: int| 0 <= i < 16 ==> rep(*#[trigger] b.children[i], cs[i]) && (*b.children[i] is Hash ==> big(cs[i])),
            _ => false },
        Node::Hash(h) => h.hash.v() == kec(tenc(t)) && hashed(tenc(t)) && kids(t),
    }
}
// as a child: only nodes of at least 32 bytes are referred to by hash
pub open spec fn repc(n: Node, t: T) -> bool { rep(n, t) && (n is Hash ==> big(t)) }
// everything the node refers to is in the database
pub open spec fn av(d: Set<Seq<u8>>, n: Node, t: T) -> bool
    decreases t,
{
    match n {
        Node::Hash(h) => stored(d, t),
        Node::Extension(e) => match t { T::Ext(q, c) => av(d, *e.node, *c), _ => false },
        Node::Branch(b) => match t { T::Branch(cs, v) => cs.len() == 16 && forall|i: int| #![trigger b.children[i]] #![trigger cs[i]] 0 <= i < 16 ==> av(d, *b.children[i], cs[i]), _ => false },
        _ => true,
    }
}
pub open spec fn nrank(n: Node) -> nat { match n { Node::Hash(_) => 4, Node::Extension(_) => 2, _ => 0 } }

pub proof fn rep_wf(n: Node, t: T)
    requires rep(n, t), tok(t),
    ensures wf(n),
    decreases t,
{
    match n {
        Node::Extension(e) => { match t { T::Ext(q, c) => rep_wf(*e.node, *c), _ => {} } },
        Node::Branch(b) => { match t { T::Branch(cs, v) => { assert forall|i: int| 0 <= i < 16 implies wf(*#[trigger] b.children[i]) by { assert(repc(*b.children[i], cs[i])); assert(tok(cs[i])); rep_wf(*b.children[i], cs[i]); } }, _ => {} } },
        _ => {},
    }
}
// a node just read from the database: what it refers to is what lies below the trie
pub proof fn below_av(d: Set<Seq<u8>>, n: Node, t: T)
    requires rep(n, t), !(n is Hash), below(d, t),
    ensures av(d, n, t),
    decreases t,
{
    reveal_with_fuel(av, 2);
    match n {
        Node::Extension(e) => { match t { T::Ext(q, c) => { if !(*e.node is Hash) { below_av(d, *e.node, *c); } }, _ => {} } },
        Node::Branch(b) => { match t { T::Branch(cs, v) => {
            assert forall|i: int| 0 <= i < 16 implies av(d, *#[trigger] b.children[i], cs[i]) by {
                assert(repc(*b.children[i], cs[i]));
                if !(*b.children[i] is Hash) { below_av(d, *b.children[i], cs[i]); }
            } }, _ => {} } },
        _ => {},
    }
}
pub proof fn below_mono(d: Set<Seq<u8>>, d2: Set<Seq<u8>>, t: T)
    requires below(d, t), d.subset_of(d2),
    ensures below(d2, t),
    decreases t,
{
    match t {
        T::Ext(q, c) => below_mono(d, d2, *c),
        T::Branch(cs, v) => { assert forall|i: int| #![trigger cs[i]] 0 <= i < cs.len() implies (big(cs[i]) ==> d2.contains(kec(tenc(cs[i])))) && below(d2, cs[i]) by { below_mono(d, d2, cs[i]); } },
        _ => {},
    }
}
pub proof fn av_mono(d: Set<Seq<u8>>, d2: Set<Seq<u8>>, n: Node, t: T)
    requires av(d, n, t), d.subset_of(d2),
    ensures av(d2, n, t),
    decreases t,
{
    match n {
        Node::Hash(h) => below_mono(d, d2, t),
        Node::Extension(e) => { match t { T::Ext(q, c) => av_mono(d, d2, *e.node, *c), _ => {} } },
        Node::Branch(b) => { match t { T::Branch(cs, v) => { assert forall|i: int| #![trigger b.children[i]] #![trigger cs[i]] 0 <= i < 16 implies av(d2, *b.children[i], cs[i]) by { assert(av(d, *b.children[i], cs[i])); av_mono(d, d2, *b.children[i], cs[i]); } }, _ => {} } },
        _ => {},
    }
}
// encodings are RLP items
pub proof fn tenc_item(t: T)
    ensures item(tenc(t)), item(tref(t)),
    decreases t,
{
    axiom_rlp_string(kec(tenc(t)));
    match t {
        T::Empty => axiom_rlp_string(Seq::empty()),
        T::Leaf(k, v) => { axiom_rlp_string(hp(k)); axiom_rlp_string(v); axiom_rlp_list(seq![rs(hp(k)), rs(v)]); },
        T::Ext(q, c) => { axiom_rlp_string(hp(q)); tenc_item(*c); axiom_rlp_list(seq![rs(hp(q)), tref(*c)]); },
        T::Branch(cs, v) => {
            axiom_rlp_string(match v { Some(x) => x, None => Seq::empty() });
            let its = benc(t);
            assert forall|i: int| 0 <= i < its.len() implies item(#[trigger] its[i]) by { if i < cs.len() { tenc_item(cs[i]); } }
            axiom_rlp_list(its);
        },
    }
}
} // verus!
