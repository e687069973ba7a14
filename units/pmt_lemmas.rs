verus! {
// ================================================================ insertion, as a map
pub open spec fn upd(t: T, t2: T, p: Seq<u8>, v: Seq<u8>) -> bool {
    forall|k: Seq<u8>| #[trigger] full(k) ==> tl(t2, k) == (if k == p { Some(v) } else { tl(t, k) })
}
pub proof fn canon_tok(t: T)
    requires canon(t),
    ensures tok(t),
    decreases t,
{
    match t {
        T::Ext(q, c) => canon_tok(*c),
        T::Branch(cs, v) => { assert forall|i: int| 0 <= i < 16 implies tok(#[trigger] cs[i]) by { canon_tok(cs[i]); } },
        _ => {},
    }
}
// reading through the branch an extension stands for
pub proof fn unext_tl(q: Seq<u8>, c: T, k: Seq<u8>)
    requires q.len() > 0, nibbly(q), full(k), tok(c),
    ensures tl(unext(q, c), k) == tl(T::Ext(q, Box::new(c)), k), tok(unext(q, c)),
{
    reveal_with_fuel(tl, 4);
    reveal_with_fuel(tok, 4);
    reveal_with_fuel(canon, 4);
    let i = q[0] as int;
    assert(q[0] < 16);
    let n = if q.len() == 1 { c } else { T::Ext(sfx(q, 1), Box::new(c)) };
    let cs = empty16().update(i, n);
    assert(unext(q, c) == T::Branch(cs, None));
    assert(tok(n)) by { if q.len() != 1 { assert(nibbly(sfx(q, 1))); } }
    if k[0] == 16 {
        if is_pfx(q, k) { assert(pfx(k, q.len() as int)[0] == q[0]); }
    } else if k[0] != q[0] {
        assert(k.len() > 1);
        assert(cs[k[0] as int] is Empty);
        if is_pfx(q, k) { assert(pfx(k, q.len() as int)[0] == q[0]); }
    } else {
        assert(k.len() > 1);
        if q.len() == 1 {
            assert(pfx(k, 1) =~= q);
        } else {
            let q1 = sfx(q, 1);
            let k1 = sfx(k, 1);
            if is_pfx(q, k) {
                assert(pfx(k1, q1.len() as int) =~= q1) by {
                    assert forall|j: int| 0 <= j < q1.len() implies pfx(k1, q1.len() as int)[j] == q1[j] by {
                        assert(pfx(k, q.len() as int)[j + 1] == q[j + 1]);
                    }
                }
                sfx_sfx(k, 1, q1.len() as int);
            } else if is_pfx(q1, k1) {
                assert(pfx(k, q.len() as int) =~= q) by {
                    assert forall|j: int| 0 <= j < q.len() implies pfx(k, q.len() as int)[j] == q[j] by {
                        if j > 0 { assert(pfx(k1, q1.len() as int)[j - 1] == q1[j - 1]); }
                    }
                }
            }
        }
    }
}
// an extension split in two reads the same
pub proof fn ext_split_tl(q: Seq<u8>, c: T, m: int, k: Seq<u8>)
    requires 0 < m < q.len(), nibbly(q), full(k),
    ensures tl(T::Ext(q, Box::new(c)), k) == tl(T::Ext(pfx(q, m), Box::new(T::Ext(sfx(q, m), Box::new(c)))), k),
{
    reveal_with_fuel(tl, 4);
    reveal_with_fuel(tok, 4);
    reveal_with_fuel(canon, 4);
    let a = pfx(q, m);
    let b = sfx(q, m);
    let n = q.len() as int;
    if is_pfx(q, k) {
        assert(pfx(k, m) =~= a) by { assert forall|j: int| 0 <= j < m implies pfx(k, m)[j] == a[j] by { assert(pfx(k, n)[j] == q[j]); } }
        assert(pfx(sfx(k, m), n - m) =~= b) by { assert forall|j: int| 0 <= j < n - m implies pfx(sfx(k, m), n - m)[j] == b[j] by { assert(pfx(k, n)[j + m] == q[j + m]); } }
        sfx_sfx(k, m, n - m);
    } else if is_pfx(a, k) && is_pfx(b, sfx(k, m)) {
        assert(pfx(k, n) =~= q) by {
            assert forall|j: int| 0 <= j < n implies pfx(k, n)[j] == q[j] by {
                if j < m { assert(pfx(k, m)[j] == a[j]); } else { assert(pfx(sfx(k, m), n - m)[j - m] == b[j - m]); }
            }
        }
    }
}
// replacing what an extension leads to
pub proof fn ext_upd(q: Seq<u8>, c: T, c2: T, p: Seq<u8>, v: Seq<u8>)
    requires q.len() > 0, nibbly(q), full(p), is_pfx(q, p), upd(c, c2, sfx(p, q.len() as int), v),
    ensures upd(T::Ext(q, Box::new(c)), T::Ext(q, Box::new(c2)), p, v),
{
    let n = q.len() as int;
    assert forall|k: Seq<u8>| #[trigger] full(k) implies tl(T::Ext(q, Box::new(c2)), k) == (if k == p { Some(v) } else { tl(T::Ext(q, Box::new(c)), k) }) by {
        if is_pfx(q, k) {
            nibbly_lcp(k, q);
            assert(full(sfx(k, n)));
            if sfx(k, n) == sfx(p, n) { assert(k =~= q + sfx(k, n)); assert(p =~= q + sfx(p, n)); }
        }
    }
}
pub proof fn fork_props(k: Seq<u8>, ov: Seq<u8>, p: Seq<u8>, v: Seq<u8>, m: int)
    requires full(k), full(p), k != p, m == lcp(p, k), ov.len() > 0, v.len() > 0,
    ensures
        m < k.len(), m < p.len(),
        canon(fork(k, ov, p, v, m)), fork(k, ov, p, v, m) is Branch,
        forall|x: Seq<u8>| #[trigger] full(x) ==> tl(fork(k, ov, p, v, m), x) == (if x == sfx(p, m) { Some(v) } else if x == sfx(k, m) { Some(ov) } else { None }),
{
    reveal_with_fuel(tl, 2);
    reveal_with_fuel(tok, 2);
    reveal_with_fuel(canon, 2);
    full_lcp(p, k);
    lcp_props(p, k);
    let a = k[m] as int;
    let b = p[m] as int;
    assert(k[m] != p[m]);
    let la = T::Leaf(sfx(k, m + 1), ov);
    let lb = T::Leaf(sfx(p, m + 1), v);
    let f = fork(k, ov, p, v, m);
    let b1 = bput(T::Branch(empty16(), None), a, la);
    if a != 16 { full_sfx(k, m + 1); }
    if b != 16 { full_sfx(p, m + 1); }
    if a == 16 { assert(m == k.len() - 1); }
    if b == 16 { assert(m == p.len() - 1); }
    match f {
        T::Branch(cs, val) => {
            if a == 16 { assert(used(cs, b)); assert(val == Some(ov)); }
            else if b == 16 { assert(used(cs, a)); assert(val == Some(v)); }
            else { assert(used(cs, a) && used(cs, b)); if a < b { assert(used(cs, a) && used(cs, b)); } else { assert(used(cs, b) && used(cs, a)); } }
            assert(two(cs, val));
            assert(canon(la) || a == 16);
            assert(canon(lb) || b == 16);
            assert forall|x: Seq<u8>| #[trigger] full(x) implies tl(f, x) == (if x == sfx(p, m) { Some(v) } else if x == sfx(k, m) { Some(ov) } else { None }) by {
                let kk = sfx(k, m);
                let pp = sfx(p, m);
                assert(kk[0] == k[m] && pp[0] == p[m]);
                if x[0] == 16 {
                    assert(x =~= seq![16u8]);
                    if a == 16 { assert(kk =~= seq![16u8]); }
                    if b == 16 { assert(pp =~= seq![16u8]); }
                } else {
                    assert(x =~= seq![x[0]] + sfx(x, 1));
                    assert(kk =~= seq![k[m]] + sfx(k, m + 1));
                    assert(pp =~= seq![p[m]] + sfx(p, m + 1));
                    if x == kk { sfx_sfx(k, m, 1); }
                    if x == pp { sfx_sfx(p, m, 1); }
                }
            }
        },
        _ => {},
    }
}
pub proof fn tins_map(t: T, p: Seq<u8>, v: Seq<u8>)
    requires tok(t), full(p), v.len() > 0,
    ensures tok(tins(t, p, v)), upd(t, tins(t, p, v), p, v), !(tins(t, p, v) is Empty),
        canon(t) ==> canon(tins(t, p, v)),
        (t is Ext || t is Branch) ==> (tins(t, p, v) is Ext || tins(t, p, v) is Branch),
        t is Branch ==> tins(t, p, v) is Branch,
    decreases p.len(), rank(t),
{
    let r = tins(t, p, v);
    match t {
        T::Empty => {},
        T::Leaf(k, ov) => {
            let m = lcp(p, k);
            full_lcp(p, k);
            if m != k.len() {
                lcp_props(p, k);
                fork_props(k, ov, p, v, m);
                let f = fork(k, ov, p, v, m);
                canon_tok(f);
                sfx_sfx(p, 0, 0);
                sfx_sfx(k, 0, 0);
                if m > 0 {
                    let q = pfx(p, m);
                    assert(nibbly(q));
                    assert(pfx(k, m) =~= q) by { assert forall|j: int| 0 <= j < m implies pfx(k, m)[j] == q[j] by { assert(p[j] == k[j]); } }
                    assert forall|x: Seq<u8>| #[trigger] full(x) implies tl(r, x) == (if x == p { Some(v) } else { tl(t, x) }) by {
                        if is_pfx(q, x) {
                            nibbly_lcp(x, q);
                            assert(full(sfx(x, m)));
                            assert(x =~= q + sfx(x, m));
                            assert(p =~= q + sfx(p, m));
                            assert(k =~= q + sfx(k, m));
                        }
                    }
                }
            }
        },
        T::Branch(cs, ov) => {
            if p[0] == 16 {
                assert(p =~= seq![16u8]);
                assert forall|x: Seq<u8>| #[trigger] full(x) implies tl(r, x) == (if x == p { Some(v) } else { tl(t, x) }) by {
                    if x[0] == 16 { assert(x =~= seq![16u8]); }
                }
                if canon(t) {
                    if ov is None { let (i, j) = choose|i: int, j: int| i < j && #[trigger] used(cs, i) && #[trigger] used(cs, j); assert(used(cs, i)); }
                    assert(two(cs, Some(v)));
                }
            } else {
                let i = p[0] as int;
                assert(p.len() > 1);
                full_sfx(p, 1);
                let c2 = tins(cs[i], sfx(p, 1), v);
                tins_map(cs[i], sfx(p, 1), v);
                let cs2 = cs.update(i, c2);
                assert(r == T::Branch(cs2, ov));
                assert forall|x: Seq<u8>| #[trigger] full(x) implies tl(r, x) == (if x == p { Some(v) } else { tl(t, x) }) by {
                    if x[0] != 16 {
                        full_sfx(x, 1);
                        if x[0] == p[0] {
                            assert(x =~= seq![x[0]] + sfx(x, 1));
                            assert(p =~= seq![p[0]] + sfx(p, 1));
                        }
                    }
                }
                if canon(t) {
                    if ov is Some { let a = choose|a: int| used(cs, a); assert(used(cs2, a)); }
                    else if exists|a: int, b: int| a < b && #[trigger] used(cs, a) && #[trigger] used(cs, b) {
                        let (a, b) = choose|a: int, b: int| a < b && #[trigger] used(cs, a) && #[trigger] used(cs, b);
                        assert(used(cs2, a) && used(cs2, b));
                    }
                    assert(two(cs2, ov));
                }
            }
        },
        T::Ext(q, c) => {
            let m = lcp(p, q);
            nibbly_lcp(p, q);
            if m <= 0 || m > p.len() {
                let u = unext(q, *c);
                assert forall|x: Seq<u8>| #[trigger] full(x) implies tl(u, x) == tl(t, x) by { unext_tl(q, *c, x); }
                unext_tl(q, *c, p);
                tins_map(u, p, v);
                if canon(t) {
                    // u itself has a single entry; inserting p, which differs at once, adds the second
                    lcp_props(p, q);
                    assert(p[0] != q[0]);
                    unext_canon(q, *c, p, v);
                }
            } else if m == q.len() {
                full_sfx(p, m);
                tins_map(*c, sfx(p, m), v);
                ext_upd(q, *c, tins(*c, sfx(p, m), v), p, v);
                assert(r == T::Ext(q, Box::new(tins(*c, sfx(p, m), v))));
            } else {
                let e = T::Ext(sfx(q, m), c);
                full_sfx(p, m);
                assert(nibbly(sfx(q, m)));
                tins_map(e, sfx(p, m), v);
                let n = tins(e, sfx(p, m), v);
                lcp_props(p, q);
                assert(pfx(p, m) =~= pfx(q, m)) by { assert forall|j: int| 0 <= j < m implies pfx(p, m)[j] == pfx(q, m)[j] by { assert(p[j] == q[j]); } }
                assert(nibbly(pfx(q, m)));
                ext_upd(pfx(q, m), e, n, p, v);
                assert forall|x: Seq<u8>| #[trigger] full(x) implies tl(r, x) == (if x == p { Some(v) } else { tl(t, x) }) by {
                    ext_split_tl(q, *c, m, x);
                }
                if canon(t) {
                    // the rest of the extension and the rest of p differ at once
                    let p1 = sfx(p, m);
                    let q1 = sfx(q, m);
                    assert(p1[0] != q1[0]) by { assert(p[m] != q[m]); }
                    assert(lcp(p1, q1) == 0);
                    assert(n == tins(unext(q1, *c), p1, v));
                }
            }
        },
    }
}
// inserting a path that leaves the extension at its first nibble gives a canonical branch
pub proof fn unext_canon(q: Seq<u8>, c: T, p: Seq<u8>, v: Seq<u8>)
    requires q.len() > 0, nibbly(q), canon(c), c is Branch, full(p), p[0] != q[0], v.len() > 0,
    ensures canon(tins(unext(q, c), p, v)), tins(unext(q, c), p, v) is Branch,
{
    reveal_with_fuel(tl, 4);
    reveal_with_fuel(tok, 4);
    reveal_with_fuel(canon, 4);
    let i = q[0] as int;
    assert(q[0] < 16);
    let n = if q.len() == 1 { c } else { T::Ext(sfx(q, 1), Box::new(c)) };
    let cs = empty16().update(i, n);
    let u = T::Branch(cs, None);
    assert(unext(q, c) == u);
    assert(canon(n)) by { if q.len() != 1 { assert(nibbly(sfx(q, 1))); } }
    let r = tins(u, p, v);
    if p[0] == 16 {
        assert(r == T::Branch(cs, Some(v)));
        assert(used(cs, i));
    } else {
        let j = p[0] as int;
        assert(p.len() > 1);
        full_sfx(p, 1);
        assert(cs[j] == T::Empty);
        let cs2 = cs.update(j, T::Leaf(sfx(p, 1), v));
        assert(tins(cs[j], sfx(p, 1), v) == T::Leaf(sfx(p, 1), v));
        assert(r == T::Branch(cs2, None));
        assert(used(cs2, i) && used(cs2, j));
        if i < j { } else { assert(j < i); }
        assert(two(cs2, None));
    }
}
} // verus!
