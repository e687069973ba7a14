verus! {
// ================================================================ deletion, as a map
pub open spec fn del(t: T, t2: T, p: Seq<u8>) -> bool {
    forall|k: Seq<u8>| #[trigger] full(k) ==> tl(t2, k) == (if k == p { None } else { tl(t, k) })
}
pub open spec fn same(t: T, t2: T) -> bool { forall|k: Seq<u8>| #[trigger] full(k) ==> tl(t2, k) == tl(t, k) }
// gluing a prefix onto a subtree
pub proof fn tdege_props(q: Seq<u8>, c: T)
    requires q.len() > 0, nibbly(q), tok(c),
    ensures tok(tdege(q, c)), same(T::Ext(q, Box::new(c)), tdege(q, c)), !(tdege(q, c) is Empty),
        canon(c) && !(c is Empty) ==> canon(tdege(q, c)),
    decreases c,
{
    let t = T::Ext(q, Box::new(c));
    match c {
        T::Ext(q2, c2) => {
            let qq = q + q2;
            assert(nibbly(qq));
            tdege_props(qq, *c2);
            assert(pfx(qq, q.len() as int) =~= q);
            assert(sfx(qq, q.len() as int) =~= q2);
            assert forall|k: Seq<u8>| #[trigger] full(k) implies tl(tdege(q, c), k) == tl(t, k) by {
                ext_split_tl(qq, *c2, q.len() as int, k);
            }
        },
        T::Leaf(k2, v) => {
            let kk = q + k2;
            reveal_with_fuel(tl, 3);
            assert forall|k: Seq<u8>| #[trigger] full(k) implies tl(T::Leaf(kk, v), k) == tl(t, k) by {
                if is_pfx(q, k) {
                    assert(k =~= q + sfx(k, q.len() as int));
                    if sfx(k, q.len() as int) == k2 { }
                    if k == kk { assert(sfx(kk, q.len() as int) =~= k2); }
                } else if k == kk {
                    assert(pfx(kk, q.len() as int) =~= q);
                }
            }
        },
        _ => {},
    }
}
pub proof fn tdeg_props(t: T)
    requires tok(t),
    ensures tok(tdeg(t)), same(t, tdeg(t)),
        // a branch with children already canonical and at least one entry becomes canonical
        t matches T::Branch(cs, v) ==> (forall|i: int| 0 <= i < 16 ==> canon(#[trigger] cs[i])) && (v is Some || exists|i: int| used(cs, i)) ==> canon(tdeg(t)) && !(tdeg(t) is Empty),
        t matches T::Ext(q, c) ==> canon(*c) && !(*c is Empty) ==> canon(tdeg(t)) && !(tdeg(t) is Empty),
{
    match t {
        T::Branch(cs, v) => {
            if none_used(cs) && v is Some {
                assert(tdeg(t) == T::Leaf(seq![16u8], v->0));
                assert(full(seq![16u8]));
                assert forall|k: Seq<u8>| #[trigger] full(k) implies tl(tdeg(t), k) == tl(t, k) by {
                    if k[0] == 16 { assert(k =~= seq![16u8]); }
                    else { assert(k.len() > 1); assert(!used(cs, k[0] as int)); reveal_with_fuel(tl, 3); }
                }
            } else if (exists|i: int| only(cs, i)) && v is None {
                let i = the_only(cs);
                assert(only(cs, i));
                assert(used(cs, i));
                let q = seq![i as u8];
                assert(nibbly(q));
                tdege_props(q, cs[i]);
                assert forall|k: Seq<u8>| #[trigger] full(k) implies tl(tdeg(t), k) == tl(t, k) by {
                    reveal_with_fuel(tl, 3);
                    if k[0] == 16 {
                        if is_pfx(q, k) { assert(pfx(k, 1)[0] == q[0]); }
                    } else {
                        assert(k.len() > 1);
                        if k[0] == i { assert(pfx(k, 1) =~= q); }
                        else {
                            assert(!used(cs, k[0] as int));
                            if is_pfx(q, k) { assert(pfx(k, 1)[0] == q[0]); }
                        }
                    }
                }
            } else {
                if (forall|i: int| 0 <= i < 16 ==> canon(#[trigger] cs[i])) && (v is Some || exists|i: int| used(cs, i)) {
                    if v is Some {
                        let i = choose|i: int| used(cs, i);
                        assert(used(cs, i));
                    } else {
                        let i = choose|i: int| used(cs, i);
                        assert(used(cs, i));
                        assert(!only(cs, i));
                        let j = choose|j: int| #[trigger] used(cs, j) && j != i;
                        assert(used(cs, j) && j != i);
                        if i < j { assert(used(cs, i) && used(cs, j)); } else { assert(used(cs, j) && used(cs, i)); }
                    }
                    assert(two(cs, v));
                }
            }
        },
        T::Ext(q, c) => tdege_props(q, *c),
        _ => {},
    }
}
pub proof fn tdel_map(t: T, p: Seq<u8>)
    requires tok(t), full(p),
    ensures tok(tdel(t, p)), del(t, tdel(t, p), p),
        canon(t) ==> canon(tdel(t, p)),
        canon(t) && t is Branch ==> !(tdel(t, p) is Empty),
    decreases t,
{
    let r = tdel(t, p);
    if tl(t, p) is None { } else {
        match t {
            T::Empty => {},
            T::Leaf(k, v) => {},
            T::Branch(cs, v) => {
                if p[0] == 16 {
                    let u = T::Branch(cs, None);
                    tdeg_props(u);
                    assert(p =~= seq![16u8]);
                    assert forall|k: Seq<u8>| #[trigger] full(k) implies tl(r, k) == (if k == p { None } else { tl(t, k) }) by {
                        assert(tl(r, k) == tl(u, k));
                        if k[0] == 16 { assert(k =~= seq![16u8]); }
                    }
                    if canon(t) {
                        if v is None { }
                        assert(two(cs, v));
                        let i = choose|i: int| used(cs, i);
                        assert(used(cs, i));
                    }
                } else {
                    let i = p[0] as int;
                    assert(p.len() > 1);
                    full_sfx(p, 1);
                    let c2 = tdel(cs[i], sfx(p, 1));
                    tdel_map(cs[i], sfx(p, 1));
                    let cs2 = cs.update(i, c2);
                    let u = T::Branch(cs2, v);
                    tdeg_props(u);
                    assert forall|k: Seq<u8>| #[trigger] full(k) implies tl(r, k) == (if k == p { None } else { tl(t, k) }) by {
                        assert(tl(r, k) == tl(u, k));
                        if k[0] != 16 {
                            full_sfx(k, 1);
                            if k[0] == p[0] {
                                assert(k =~= seq![k[0]] + sfx(k, 1));
                                assert(p =~= seq![p[0]] + sfx(p, 1));
                            }
                        }
                    }
                    if canon(t) {
                        if v is None {
                            let (a, b) = choose|a: int, b: int| a < b && #[trigger] used(cs, a) && #[trigger] used(cs, b);
                            assert(used(cs, a) && used(cs, b));
                            let o = if a == i { b } else { a };
                            assert(used(cs2, o));
                        }
                    }
                }
            },
            T::Ext(q, c) => {
                let n = q.len() as int;
                nibbly_lcp(p, q);
                full_sfx(p, n);
                let c2 = tdel(*c, sfx(p, n));
                tdel_map(*c, sfx(p, n));
                let u = T::Ext(q, Box::new(c2));
                tdeg_props(u);
                assert forall|k: Seq<u8>| #[trigger] full(k) implies tl(r, k) == (if k == p { None } else { tl(t, k) }) by {
                    assert(tl(r, k) == tl(u, k));
                    if is_pfx(q, k) {
                        nibbly_lcp(k, q);
                        assert(full(sfx(k, n)));
                        if sfx(k, n) == sfx(p, n) { assert(k =~= q + sfx(k, n)); assert(p =~= q + sfx(p, n)); }
                    }
                }
            },
        }
    }
}

// ================================================================ canonical tries are unique
// a canonical non-empty trie holds something
pub proof fn has_key(t: T) -> (p: Seq<u8>)
    requires canon(t), !(t is Empty),
    ensures full(p), tl(t, p) is Some,
    decreases t, 0nat,
{
    match t {
        T::Empty => seq![16u8],
        T::Leaf(k, v) => k,
        T::Ext(q, c) => {
            let p = has_key(*c);
            let r = q + p;
            assert(pfx(r, q.len() as int) =~= q);
            assert(sfx(r, q.len() as int) =~= p);
            r
        },
        T::Branch(cs, v) => {
            if v is Some { seq![16u8] } else {
                let i = choose|i: int| used(cs, i);
                assert(used(cs, i));
                child_key(cs, v, i)
            }
        },
    }
}
pub proof fn child_key(cs: Seq<T>, v: Option<Seq<u8>>, i: int) -> (p: Seq<u8>)
    requires cs.len() == 16, used(cs, i), canon(cs[i]),
    ensures full(p), p[0] == i, tl(T::Branch(cs, v), p) is Some,
    decreases cs[i], 1nat,
{
    let p = has_key(cs[i]);
    let r = seq![i as u8] + p;
    assert(sfx(r, 1) =~= p);
    r
}
// a canonical branch holds two keys that differ in their first symbol
pub proof fn branch_keys(t: T) -> (r: (Seq<u8>, Seq<u8>))
    requires canon(t), t is Branch,
    ensures full(r.0), full(r.1), r.0[0] != r.1[0], tl(t, r.0) is Some, tl(t, r.1) is Some,
{
    match t {
        T::Branch(cs, v) => {
            if v is Some && exists|i: int| used(cs, i) {
                let i = choose|i: int| used(cs, i);
                (seq![16u8], child_key(cs, v, i))
            } else {
                let (i, j) = choose|i: int, j: int| i < j && #[trigger] used(cs, i) && #[trigger] used(cs, j);
                (child_key(cs, v, i), child_key(cs, v, j))
            }
        },
        _ => (seq![16u8], seq![16u8]),
    }
}
pub proof fn under(q: Seq<u8>, c: T, p: Seq<u8>)
    requires q.len() > 0, nibbly(q), full(p),
    ensures full(q + p), tl(T::Ext(q, Box::new(c)), q + p) == tl(c, p),
{
    assert(pfx(q + p, q.len() as int) =~= q);
    assert(sfx(q + p, q.len() as int) =~= p);
}
pub proof fn ext_prefixes(q: Seq<u8>, c: T, q2: Seq<u8>, c2: T)
    requires canon(T::Ext(q, Box::new(c))), canon(T::Ext(q2, Box::new(c2))), same(T::Ext(q, Box::new(c)), T::Ext(q2, Box::new(c2))),
    ensures q2.len() <= q.len(), pfx(q, q2.len() as int) == q2,
{
    let (a, b) = branch_keys(c);
    under(q, c, a);
    under(q, c, b);
    let n = q2.len() as int;
    let ka = q + a;
    let kb = q + b;
    assert(is_pfx(q2, ka) && is_pfx(q2, kb));
    if n > q.len() {
        assert(pfx(ka, n)[q.len() as int] == a[0]);
        assert(pfx(kb, n)[q.len() as int] == b[0]);
    } else {
        assert(pfx(q, n) =~= pfx(ka, n));
    }
}
pub proof fn canon_unique(a: T, b: T)
    requires canon(a), canon(b), same(a, b),
    ensures a == b,
    decreases a,
{
    if a is Empty { if !(b is Empty) { let p = has_key(b); assert(full(p)); } }
    else if b is Empty { let p = has_key(a); assert(full(p)); }
    else {
        match (a, b) {
            (T::Leaf(k, v), T::Leaf(k2, v2)) => { assert(full(k)); assert(tl(b, k) == tl(a, k)); },
            (T::Leaf(k, v), _) => {
                let (x, y) = two_keys(b);
                assert(full(x) && full(y));
            },
            (_, T::Leaf(k, v)) => {
                let (x, y) = two_keys(a);
                assert(full(x) && full(y));
            },
            (T::Ext(q, c), T::Ext(q2, c2)) => {
                ext_prefixes(q, *c, q2, *c2);
                assert(same(b, a));
                ext_prefixes(q2, *c2, q, *c);
                assert(pfx(q, q.len() as int) =~= q);
                assert forall|k: Seq<u8>| #[trigger] full(k) implies tl(*c2, k) == tl(*c, k) by {
                    under(q, *c, k);
                    under(q, *c2, k);
                }
                canon_unique(*c, *c2);
            },
            (T::Ext(q, c), T::Branch(cs, v)) => {
                let (x, y) = branch_keys(b);
                assert(full(x) && full(y));
                assert(pfx(x, q.len() as int)[0] == q[0]);
                assert(pfx(y, q.len() as int)[0] == q[0]);
            },
            (T::Branch(cs, v), T::Ext(q, c)) => {
                let (x, y) = branch_keys(a);
                assert(full(x) && full(y));
                assert(pfx(x, q.len() as int)[0] == q[0]);
                assert(pfx(y, q.len() as int)[0] == q[0]);
            },
            (T::Branch(cs, v), T::Branch(cs2, v2)) => {
                let e = seq![16u8];
                assert(full(e));
                assert(tl(a, e) == v && tl(b, e) == v2);
                assert forall|i: int| 0 <= i < 16 implies cs[i] == cs2[i] by {
                    assert forall|k: Seq<u8>| #[trigger] full(k) implies tl(cs2[i], k) == tl(cs[i], k) by {
                        let p = seq![i as u8] + k;
                        assert(full(p));
                        assert(sfx(p, 1) =~= k);
                        assert(tl(a, p) == tl(b, p));
                    }
                    canon_unique(cs[i], cs2[i]);
                }
                assert(cs =~= cs2);
            },
            _ => {},
        }
    }
}
pub proof fn two_keys(t: T) -> (r: (Seq<u8>, Seq<u8>))
    requires canon(t), t is Ext || t is Branch,
    ensures full(r.0), full(r.1), r.0 != r.1, tl(t, r.0) is Some, tl(t, r.1) is Some,
{
    match t {
        T::Ext(q, c) => {
            let (a, b) = branch_keys(*c);
            under(q, *c, a);
            under(q, *c, b);
            assert((q + a)[q.len() as int] != (q + b)[q.len() as int]);
            (q + a, q + b)
        },
        _ => branch_keys(t),
    }
}
} // verus!
