verus! {
// ================================================================ the mathematical trie
// what a trie *is*, independent of which nodes are in memory, embedded or in the database
pub enum T {
    Empty,
    Leaf(Seq<u8>, Seq<u8>),
    Ext(Seq<u8>, Box<T>),
    Branch(Seq<T>, Option<Seq<u8>>),
}
// a full path: nibbles followed by the terminator
pub open spec fn full(p: Seq<u8>) -> bool {
    &&& p.len() > 0
    &&& p[p.len() - 1] == 16
    &&& forall|i: int| 0 <= i < p.len() - 1 ==> p[i] < 16
}
pub open spec fn nibbly(p: Seq<u8>) -> bool { forall|i: int| 0 <= i < p.len() ==> p[i] < 16 }
pub open spec fn sfx(p: Seq<u8>, n: int) -> Seq<u8> { p.subrange(n, p.len() as int) }
pub open spec fn pfx(p: Seq<u8>, n: int) -> Seq<u8> { p.subrange(0, n) }
pub open spec fn is_pfx(q: Seq<u8>, p: Seq<u8>) -> bool { q.len() <= p.len() && pfx(p, q.len() as int) == q }

// the value a trie maps a full path to
pub open spec fn tl(t: T, p: Seq<u8>) -> Option<Seq<u8>>
    decreases t,
{
    match t {
        T::Empty => None,
        T::Leaf(k, v) => if k == p { Some(v) } else { None },
        T::Ext(q, c) => if is_pfx(q, p) { tl(*c, sfx(p, q.len() as int)) } else { None },
        T::Branch(cs, v) =>
            if p.len() == 0 || p[0] == 16 { v }
            else if p[0] < cs.len() { tl(cs[p[0] as int], sfx(p, 1)) } else { None },
    }
}
// structurally sound
pub open spec fn tok(t: T) -> bool
    decreases t,
{
    match t {
        T::Empty => true,
        T::Leaf(k, v) => full(k) && v.len() > 0,
        T::Ext(q, c) => q.len() > 0 && nibbly(q) && tok(*c),
        T::Branch(cs, v) => {
            &&& cs.len() == 16
            &&& forall|i: int| 0 <= i < 16 ==> tok(#[trigger] cs[i])
            &&& (v matches Some(x) ==> x.len() > 0)
        },
    }
}
pub open spec fn used(cs: Seq<T>, i: int) -> bool { 0 <= i < cs.len() && !(cs[i] is Empty) }
pub open spec fn two(cs: Seq<T>, v: Option<Seq<u8>>) -> bool {
    ||| (v is Some && exists|i: int| used(cs, i))
    ||| exists|i: int, j: int| i < j && #[trigger] used(cs, i) && #[trigger] used(cs, j)
}
// canonical: extensions lead to branches, every branch has at least two entries
pub open spec fn canon(t: T) -> bool
    decreases t,
{
    match t {
        T::Empty => true,
        T::Leaf(k, v) => full(k) && v.len() > 0,
        T::Ext(q, c) => q.len() > 0 && nibbly(q) && (*c is Branch) && canon(*c),
        T::Branch(cs, v) => {
            &&& cs.len() == 16
            &&& forall|i: int| 0 <= i < 16 ==> canon(#[trigger] cs[i])
            &&& (v matches Some(x) ==> x.len() > 0)
            &&& two(cs, v)
        },
    }
}
pub open spec fn lcp(a: Seq<u8>, b: Seq<u8>) -> int
    decreases a.len(),
{
    if a.len() == 0 || b.len() == 0 || a[0] != b[0] { 0 } else { 1 + lcp(sfx(a, 1), sfx(b, 1)) }
}
pub open spec fn empty16() -> Seq<T> { Seq::new(16, |i: int| T::Empty) }
pub open spec fn bput(b: T, i: int, n: T) -> T {
    match b {
        T::Branch(cs, v) => if i == 16 { match n { T::Leaf(_, x) => T::Branch(cs, Some(x)), _ => b } } else { T::Branch(cs.update(i, n), v) },
        _ => b,
    }
}
pub open spec fn rank(t: T) -> nat { match t { T::Ext(..) => 1, _ => 0 } }
// the branch an extension stands for
pub open spec fn unext(q: Seq<u8>, c: T) -> T {
    bput(T::Branch(empty16(), None), q[0] as int, if q.len() == 1 { c } else { T::Ext(sfx(q, 1), Box::new(c)) })
}
pub open spec fn fork(k: Seq<u8>, ov: Seq<u8>, p: Seq<u8>, v: Seq<u8>, m: int) -> T {
    bput(bput(T::Branch(empty16(), None), k[m] as int, T::Leaf(sfx(k, m + 1), ov)), p[m] as int, T::Leaf(sfx(p, m + 1), v))
}
pub open spec fn tins(t: T, p: Seq<u8>, v: Seq<u8>) -> T
    decreases p.len(), rank(t),
{
    if p.len() == 0 { t } else {
        match t {
            T::Empty => T::Leaf(p, v),
            T::Leaf(k, ov) => {
                let m = lcp(p, k);
                if m == k.len() { T::Leaf(k, v) }
                else if m == 0 { fork(k, ov, p, v, m) }
                else { T::Ext(pfx(p, m), Box::new(fork(k, ov, p, v, m))) }
            },
            T::Branch(cs, ov) =>
                if p[0] == 16 { T::Branch(cs, Some(v)) }
                else { T::Branch(cs.update(p[0] as int, tins(cs[p[0] as int], sfx(p, 1), v)), ov) },
            T::Ext(q, c) => {
                let m = lcp(p, q);
                if m <= 0 || m > p.len() { tins(unext(q, *c), p, v) }
                else if m == q.len() { T::Ext(q, Box::new(tins(*c, sfx(p, m), v))) }
                else { T::Ext(pfx(q, m), Box::new(tins(T::Ext(sfx(q, m), c), sfx(p, m), v))) }
            },
        }
    }
}
pub open spec fn only(cs: Seq<T>, i: int) -> bool { used(cs, i) && forall|j: int| #[trigger] used(cs, j) ==> j == i }
pub open spec fn the_only(cs: Seq<T>) -> int { choose|i: int| only(cs, i) }
pub open spec fn none_used(cs: Seq<T>) -> bool { forall|i: int| !#[trigger] used(cs, i) }
pub open spec fn tdege(q: Seq<u8>, c: T) -> T
    decreases c,
{
    match c {
        T::Ext(q2, c2) => tdege(q + q2, *c2),
        T::Leaf(k, v) => T::Leaf(q + k, v),
        _ => T::Ext(q, Box::new(c)),
    }
}
pub open spec fn tdeg(t: T) -> T {
    match t {
        T::Branch(cs, v) =>
            if none_used(cs) && v is Some { T::Leaf(seq![16u8], v->0) }
            else if (exists|i: int| only(cs, i)) && v is None { tdege(seq![the_only(cs) as u8], cs[the_only(cs)]) }
            else { t },
        T::Ext(q, c) => tdege(q, *c),
        _ => t,
    }
}
pub open spec fn tdel(t: T, p: Seq<u8>) -> T
    decreases t,
{
    if tl(t, p) is None { t } else {
        match t {
            T::Empty => t,
            T::Leaf(k, v) => T::Empty,
            T::Branch(cs, v) =>
                if p.len() == 0 || p[0] == 16 { tdeg(T::Branch(cs, None)) }
                else if p[0] < cs.len() { tdeg(T::Branch(cs.update(p[0] as int, tdel(cs[p[0] as int], sfx(p, 1))), v)) }
                else { t },
            T::Ext(q, c) => tdeg(T::Ext(q, Box::new(tdel(*c, sfx(p, q.len() as int))))),
        }
    }
}

// ================================================================ sequences
pub proof fn lcp_props(a: Seq<u8>, b: Seq<u8>)
    ensures lcp_is(a, b, lcp(a, b)),
    decreases a.len(),
{
    if a.len() == 0 || b.len() == 0 || a[0] != b[0] { } else {
        lcp_props(sfx(a, 1), sfx(b, 1));
        let n = lcp(sfx(a, 1), sfx(b, 1));
        assert forall|i: int| 0 <= i < 1 + n implies a[i] == b[i] by {
            if i > 0 { assert(sfx(a, 1)[i - 1] == sfx(b, 1)[i - 1]); }
        }
        if n + 1 < a.len() && n + 1 < b.len() { assert(sfx(a, 1)[n] != sfx(b, 1)[n]); }
    }
}
pub proof fn lcp_unique(a: Seq<u8>, b: Seq<u8>, n: int)
    requires lcp_is(a, b, n),
    ensures n == lcp(a, b),
{
    lcp_props(a, b);
    let m = lcp(a, b);
    if n < m { assert(a[n] == b[n]); }
    if m < n { assert(a[m] == b[m]); }
}
pub proof fn sfx_sfx(p: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= p.len(),
    ensures sfx(sfx(p, a), b) == sfx(p, a + b), sfx(p, 0) == p,
{
    assert(sfx(sfx(p, a), b) =~= sfx(p, a + b));
    assert(sfx(p, 0) =~= p);
}
pub proof fn full_sfx(p: Seq<u8>, n: int)
    requires full(p), 0 <= n < p.len(),
    ensures full(sfx(p, n)),
{ }
// a nibble prefix never uses up a full path
pub proof fn nibbly_lcp(p: Seq<u8>, q: Seq<u8>)
    requires full(p), nibbly(q),
    ensures lcp(p, q) < p.len(), 0 <= lcp(p, q) <= q.len(), is_pfx(q, p) <==> lcp(p, q) == q.len(),
       full(sfx(p, lcp(p, q))),
{
    lcp_props(p, q);
    let m = lcp(p, q);
    if m == p.len() { assert(p[m - 1] == q[m - 1]); }
    if m == q.len() { assert(pfx(p, m) =~= q); }
    if is_pfx(q, p) && m < q.len() { assert(pfx(p, q.len() as int)[m] == q[m]); }
}
// full paths are prefix free
pub proof fn full_lcp(p: Seq<u8>, k: Seq<u8>)
    requires full(p), full(k),
    ensures 0 <= lcp(p, k) <= k.len(), lcp(p, k) == k.len() <==> p == k, lcp(p, k) == p.len() <==> p == k,
{
    lcp_props(p, k);
    let m = lcp(p, k);
    if m == k.len() {
        assert(p[m - 1] == k[m - 1]);
        assert(p =~= k);
    }
    if m == p.len() {
        assert(p[m - 1] == k[m - 1]);
        assert(p =~= k);
    }
    if p == k && m < k.len() { assert(p[m] != k[m]); }
}
} // verus!
