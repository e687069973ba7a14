verus! {
// ================================================================ what one path of a trie needs
pub open spec fn pth(d: Set<Seq<u8>>, t: T, p: Seq<u8>) -> bool
    decreases t,
{
    match t {
        T::Ext(q, c) => is_pfx(q, p) ==> (big(*c) ==> d.contains(kec(tenc(*c)))) && pth(d, *c, sfx(p, q.len() as int)),
        T::Branch(cs, v) => p.len() > 0 && p[0] < cs.len() ==> (big(cs[p[0] as int]) ==> d.contains(kec(tenc(cs[p[0] as int])))) && pth(d, cs[p[0] as int], sfx(p, 1)),
        _ => true,
    }
}
// everything the node refers to on the path p is in the database
pub open spec fn avp(d: Set<Seq<u8>>, n: Node, t: T, p: Seq<u8>) -> bool
    decreases t,
{
    match n {
        Node::Hash(h) => d.contains(kec(tenc(t))) && pth(d, t, p),
        Node::Extension(e) => match t { T::Ext(q, c) => is_pfx(q, p) ==> avp(d, *e.node, *c, sfx(p, q.len() as int)), _ => false },
        Node::Branch(b) => match t { T::Branch(cs, v) => cs.len() == 16 && (p.len() > 0 && p[0] < 16 ==> avp(d, *b.children[p[0] as int], cs[p[0] as int], sfx(p, 1))), _ => false },
        _ => true,
    }
}
pub proof fn below_pth(d: Set<Seq<u8>>, t: T, p: Seq<u8>)
    requires below(d, t),
    ensures pth(d, t, p),
    decreases t,
{
    match t {
        T::Ext(q, c) => below_pth(d, *c, sfx(p, q.len() as int)),
        T::Branch(cs, v) => { if p.len() > 0 && p[0] < cs.len() { below_pth(d, cs[p[0] as int], sfx(p, 1)); } },
        _ => {},
    }
}
pub proof fn av_avp(d: Set<Seq<u8>>, n: Node, t: T, p: Seq<u8>)
    requires av(d, n, t),
    ensures avp(d, n, t, p),
    decreases t,
{
    match n {
        Node::Hash(h) => below_pth(d, t, p),
        Node::Extension(e) => { match t { T::Ext(q, c) => av_avp(d, *e.node, *c, sfx(p, q.len() as int)), _ => {} } },
        Node::Branch(b) => { match t { T::Branch(cs, v) => { if p.len() > 0 && p[0] < 16 { assert(av(d, *b.children[p[0] as int], cs[p[0] as int])); av_avp(d, *b.children[p[0] as int], cs[p[0] as int], sfx(p, 1)); } }, _ => {} } },
        _ => {},
    }
}
pub proof fn pth_avp(d: Set<Seq<u8>>, n: Node, t: T, p: Seq<u8>)
    requires rep(n, t), !(n is Hash), pth(d, t, p),
    ensures avp(d, n, t, p),
    decreases t,
{
    reveal_with_fuel(avp, 2);
    match n {
        Node::Extension(e) => { match t { T::Ext(q, c) => { if is_pfx(q, p) && !(*e.node is Hash) { pth_avp(d, *e.node, *c, sfx(p, q.len() as int)); } }, _ => {} } },
        Node::Branch(b) => { match t { T::Branch(cs, v) => {
            if p.len() > 0 && p[0] < 16 {
                let i = p[0] as int;
                assert(repc(*b.children[i], cs[i]));
                if !(*b.children[i] is Hash) { pth_avp(d, *b.children[i], cs[i], sfx(p, 1)); }
            } }, _ => {} } },
        _ => {},
    }
}
// what the decoder meets when it reads the encoding of a sound trie
pub open spec fn full_ok(k: Seq<u8>) -> bool { hp_flag_ok(hp(k)) && unhp(hp(k)) == k }
pub proof fn tenc_dec(t: T)
    requires tok(t),
    ensures
        match t {
            T::Empty => r_proto(tenc(t)) == Some(GP::Data(0)),
            T::Leaf(k, v) => r_proto(tenc(t)) == Some(GP::List(2)) && r_at(tenc(t), 0) == Some(rs(hp(k))) && r_data(rs(hp(k))) == Some(hp(k)) && full_ok(k) && has_term(k)
                && r_at(tenc(t), 1) == Some(rs(v)) && r_data(rs(v)) == Some(v),
            T::Ext(q, c) => r_proto(tenc(t)) == Some(GP::List(2)) && r_at(tenc(t), 0) == Some(rs(hp(q))) && r_data(rs(hp(q))) == Some(hp(q)) && full_ok(q) && !has_term(q)
                && r_at(tenc(t), 1) == Some(tref(*c)),
            T::Branch(cs, v) => r_proto(tenc(t)) == Some(GP::List(17)) && (forall|i: int| 0 <= i < 16 ==> #[trigger] r_at(tenc(t), i) == Some(tref(cs[i])))
                && r_at(tenc(t), 16) == Some(bval(v)) && r_is_empty(bval(v)) == (v is None) && (v matches Some(x) ==> r_data(bval(v)) == Some(x)),
        },
        !r_is_list(rs(kec(tenc(t)))),
{
    axiom_rlp_string(kec(tenc(t)));
    tenc_item(t);
    match t {
        T::Empty => axiom_rlp_string(Seq::empty()),
        T::Leaf(k, v) => { axiom_rlp_string(hp(k)); axiom_rlp_string(v); axiom_rlp_list(seq![rs(hp(k)), rs(v)]); c08_compact_roundtrip(k);
            assert(r_at(rl(seq![rs(hp(k)), rs(v)]), 0) == Some(seq![rs(hp(k)), rs(v)][0]));
            assert(r_at(rl(seq![rs(hp(k)), rs(v)]), 1) == Some(seq![rs(hp(k)), rs(v)][1]));
        },
        T::Ext(q, c) => { axiom_rlp_string(hp(q)); tenc_item(*c); let s = seq![rs(hp(q)), tref(*c)]; axiom_rlp_list(s); c08_compact_roundtrip(q);
            assert(r_at(rl(s), 0) == Some(s[0]));
            assert(r_at(rl(s), 1) == Some(s[1]));
        },
        T::Branch(cs, v) => {
            axiom_rlp_string(match v { Some(x) => x, None => Seq::empty() });
            let its = benc(t);
            assert forall|i: int| 0 <= i < its.len() implies item(#[trigger] its[i]) by { if i < cs.len() { tenc_item(cs[i]); } }
            axiom_rlp_list(its);
            assert forall|i: int| 0 <= i < 16 implies #[trigger] r_at(tenc(t), i) == Some(tref(cs[i])) by { assert(r_at(rl(its), i) == Some(its[i])); }
            assert(r_at(rl(its), 16) == Some(its[16]));
        },
    }
}
} // verus!
