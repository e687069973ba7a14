// U4: jmt/src/node_type.rs (C13)
//@common $e.with_context($a) ==> $e
//@common self.children.iter().enumerate().filter_map(|($id_i, $id_c)| $e) ==> { let mut rt_v: Vec<(Nibble, &Child)> = Vec::new(); for $id_i in 0..16usize { let $id_c = &self.children[$id_i]; let rt_o = $e; match rt_o { Some(rt_x) => { rt_v.push(rt_x); } None => { } } } rt_v }
//@common self.children.iter().filter_map(|$id_c| $e) ==> { let mut rt_v: Vec<&Child> = Vec::new(); for rt_i in 0..16usize { let $id_c = &self.children[rt_i]; let rt_o = $e; match rt_o { Some(rt_x) => { rt_v.push(rt_x); } None => { } } } rt_v }
verus! {
// ================================================================ bits of a 16-bit map
pub open spec fn bit16(x: u16, i: int) -> bool { (x >> (i as u16)) & 1 == 1 }
pub open spec fn popn(x: u16, n: int) -> int decreases n { if n <= 0 { 0 } else { popn(x, n - 1) + if bit16(x, n - 1) { 1int } else { 0int } } }
pub open spec fn bit8(x: u8, i: int) -> bool { (x >> (i as u8)) & 1 == 1 }
pub open spec fn pop8(x: u8, n: int) -> int decreases n { if n <= 0 { 0 } else { pop8(x, n - 1) + if bit8(x, n - 1) { 1int } else { 0int } } }
pub assume_specification [u16::count_ones] (_0: u16) -> (r: u32) ensures r == popn(_0, 16);
pub assume_specification [u8::count_ones] (_0: u8) -> (r: u32) ensures r == pop8(_0, 8);
pub proof fn popn_none(x: u16, n: int)
    requires forall|i: int| 0 <= i < n ==> !#[trigger] bit16(x, i),
    ensures popn(x, n) == 0,
    decreases n,
{ if n > 0 { popn_none(x, n - 1); } }
pub proof fn popn_pos(x: u16, n: int, i: int)
    requires 0 <= i < n, bit16(x, i),
    ensures popn(x, n) >= 1, popn(x, n) == 1 ==> forall|j: int| 0 <= j < n && j != i ==> !#[trigger] bit16(x, j),
    decreases n,
{
    popn_nonneg(x, n - 1);
    if i < n - 1 { popn_pos(x, n - 1, i); }
    else if popn(x, n) == 1 {
        assert forall|j: int| 0 <= j < n && j != i implies !#[trigger] bit16(x, j) by { if bit16(x, j) { popn_pos(x, n - 1, j); } }
    }
}
pub proof fn popn_nonneg(x: u16, n: int) ensures popn(x, n) >= 0, decreases n, { if n > 0 { popn_nonneg(x, n - 1); } }
pub proof fn popn_one(x: u16, n: int, i: int)
    requires 0 <= i < n, bit16(x, i), forall|j: int| 0 <= j < n && j != i ==> !#[trigger] bit16(x, j),
    ensures popn(x, n) == 1,
    decreases n,
{ if i < n - 1 { popn_one(x, n - 1, i); } else { popn_none(x, n - 1); } }
pub proof fn zero16(x: u16)
    ensures x == 0 <==> forall|i: int| 0 <= i < 16 ==> !#[trigger] bit16(x, i),
{
    assert(x == 0 <==> ((x >> 0u16) & 1 == 0 && (x >> 1u16) & 1 == 0 && (x >> 2u16) & 1 == 0 && (x >> 3u16) & 1 == 0 && (x >> 4u16) & 1 == 0 && (x >> 5u16) & 1 == 0 && (x >> 6u16) & 1 == 0 && (x >> 7u16) & 1 == 0
        && (x >> 8u16) & 1 == 0 && (x >> 9u16) & 1 == 0 && (x >> 10u16) & 1 == 0 && (x >> 11u16) & 1 == 0 && (x >> 12u16) & 1 == 0 && (x >> 13u16) & 1 == 0 && (x >> 14u16) & 1 == 0 && (x >> 15u16) & 1 == 0)) by (bit_vector);
    assert forall|i: u16| i < 16 implies ((x >> i) & 1 == 0 || (x >> i) & 1 == 1) by { assert((x >> i) & 1 == 0 || (x >> i) & 1 == 1) by (bit_vector); }
    if forall|i: int| 0 <= i < 16 ==> !#[trigger] bit16(x, i) {
        assert(!bit16(x, 0) && !bit16(x, 1) && !bit16(x, 2) && !bit16(x, 3) && !bit16(x, 4) && !bit16(x, 5) && !bit16(x, 6) && !bit16(x, 7) && !bit16(x, 8) && !bit16(x, 9) && !bit16(x, 10) && !bit16(x, 11) && !bit16(x, 12) && !bit16(x, 13) && !bit16(x, 14) && !bit16(x, 15));
    }
    if x == 0 {
        assert forall|i: int| 0 <= i < 16 implies !#[trigger] bit16(x, i) by { let e = i as u16; assert((0u16 >> e) & 1 == 0) by (bit_vector); }
    }
}
pub proof fn or_bit16(x: u16, k: u8)
    requires k < 16,
    ensures forall|i: int| 0 <= i < 16 ==> #[trigger] bit16(x | (1u16 << k), i) == (bit16(x, i) || i == k),
{
    assert forall|i: int| 0 <= i < 16 implies #[trigger] bit16(x | (1u16 << k), i) == (bit16(x, i) || i == k) by {
        let e = i as u16;
        assert(e < 16 && k < 16 ==> (((x | (1u16 << k)) >> e) & 1 == 1) == ((x >> e) & 1 == 1 || e == k)) by (bit_vector);
    }
}
pub open spec fn width_ok(w: u8) -> bool { w == 1 || w == 2 || w == 4 || w == 8 || w == 16 }
pub open spec fn range_ok(start: u8, w: u8) -> bool { width_ok(w) && start < 16 && start as int % w as int == 0 && start + w <= 16 }
pub proof fn half_ok(start: u8, w: u8)
    ensures range_ok(start, w) && w > 1 ==> range_ok(start, (w / 2) as u8) && range_ok((start + w / 2) as u8, (w / 2) as u8),
{
    if range_ok(start, w) && w > 1 {
        assert(w == 2 || w == 4 || w == 8 || w == 16);
        if w == 2 { } else if w == 4 { } else if w == 8 { } else { }
    }
}
pub proof fn width_pop(w: u8)
    requires width_ok(w),
    ensures pop8(w, 8) == 1,
{
    reveal_with_fuel(pop8, 9);
    assert forall|i: int| 0 <= i < 8 implies #[trigger] bit8(w, i) == ((w == 1 && i == 0) || (w == 2 && i == 1) || (w == 4 && i == 2) || (w == 8 && i == 3) || (w == 16 && i == 4)) by {
        let e = i as u8;
        assert((w == 1 || w == 2 || w == 4 || w == 8 || w == 16) && e < 8 ==> ((w >> e) & 1 == 1) == ((w == 1 && e == 0) || (w == 2 && e == 1) || (w == 4 && e == 2) || (w == 8 && e == 3) || (w == 16 && e == 4))) by (bit_vector);
    }
}
pub proof fn mask16(start: u8, w: u8, x: u16)
    requires range_ok(start, w),
    ensures forall|i: int| 0 <= i < 16 ==> #[trigger] bit16(x & (((((1u32 << w) - 1) as u32) << start) as u16), i) == (bit16(x, i) && start <= i < start + w),
        1u32 << w >= 1,
{
    assert(w == 1 || w == 2 || w == 4 || w == 8 || w == 16 ==> 1u32 << w >= 1) by (bit_vector);
    assert forall|i: int| 0 <= i < 16 implies #[trigger] bit16(x & (((((1u32 << w) - 1) as u32) << start) as u16), i) == (bit16(x, i) && start <= i < start + w) by {
        let e = i as u16;
        if w == 1 { assert(w == 1u8 && start < 16u8 && e < 16u16 ==> (((x & (((((1u32 << w) - 1) as u32) << start) as u16)) >> e) & 1 == 1) == (start <= e && e < start + 1 && (x >> e) & 1 == 1)) by (bit_vector); }
        else if w == 2 { assert(w == 2u8 && start < 16u8 && e < 16u16 ==> (((x & (((((1u32 << w) - 1) as u32) << start) as u16)) >> e) & 1 == 1) == (start <= e && e < start + 2 && (x >> e) & 1 == 1)) by (bit_vector); }
        else if w == 4 { assert(w == 4u8 && start < 16u8 && e < 16u16 ==> (((x & (((((1u32 << w) - 1) as u32) << start) as u16)) >> e) & 1 == 1) == (start <= e && e < start + 4 && (x >> e) & 1 == 1)) by (bit_vector); }
        else if w == 8 { assert(w == 8u8 && start < 16u8 && e < 16u16 ==> (((x & (((((1u32 << w) - 1) as u32) << start) as u16)) >> e) & 1 == 1) == (start <= e && e < start + 8 && (x >> e) & 1 == 1)) by (bit_vector); }
        else { assert(w == 16u8 && start == 0u8 && e < 16u16 ==> (((x & (((((1u32 << w) - 1) as u32) << start) as u16)) >> e) & 1 == 1) == ((x >> e) & 1 == 1)) by (bit_vector); }
    }
}
// ================================================================ specification: a node as a four-level sparse subtree
pub type Cs = Seq<Option<Child>>;
pub open spec fn vacant(cs: Cs, s: int, w: int) -> bool { forall|i: int| s <= i < s + w ==> (#[trigger] cs[i]) is None }
pub open spec fn sole(cs: Cs, s: int, w: int, k: int) -> bool { s <= k < s + w && cs[k] is Some && forall|i: int| s <= i < s + w && i != k ==> (#[trigger] cs[i]) is None }
pub open spec fn sole_leaf(cs: Cs, s: int, w: int, k: int) -> bool { sole(cs, s, w, k) && cs[k]->0.node_type is Leaf }
pub open spec fn lone(cs: Cs, s: int, w: int) -> bool { exists|k: int| #[trigger] sole_leaf(cs, s, w, k) }
pub open spec fn ntree(cs: Cs, s: int, w: int) -> Seq<u8>
    decreases w,
{
    if vacant(cs, s, w) { ph() }
    else if w <= 1 { cs[s]->0.hash@ }
    else if lone(cs, s, w) { let k = choose|k: int| sole_leaf(cs, s, w, k); cs[k]->0.hash@ }
    else { ih(ntree(cs, s, w / 2), ntree(cs, s + w / 2, w / 2)) }
}
pub open spec fn ntree_hashed(cs: Cs, s: int, w: int) -> bool
    decreases w,
{
    if vacant(cs, s, w) { true }
    else if w <= 1 { true }
    else if lone(cs, s, w) { true }
    else { hashed(int_pre(ntree(cs, s, w / 2), ntree(cs, s + w / 2, w / 2))) && ntree_hashed(cs, s, w / 2) && ntree_hashed(cs, s + w / 2, w / 2) }
}
pub open spec fn w_of(h: int) -> int { if h <= 0 { 1 } else if h == 1 { 2 } else if h == 2 { 4 } else if h == 3 { 8 } else { 16 } }
pub open spec fn half(n: u8, h: int) -> int { n as int - n as int % w_of(h) }
pub open spec fn sib_half(n: u8, h: int) -> int { if (n as int / w_of(h)) % 2 == 0 { half(n, h) + w_of(h) } else { half(n, h) - w_of(h) } }
// the child the four-level subtree reaches when it follows the bits of n, from height h down; and how many levels that takes
pub open spec fn reach(cs: Cs, n: u8, h: int) -> Option<int>
    decreases h,
{
    let s = half(n, h);
    if vacant(cs, s, w_of(h)) { None }
    else if h <= 0 { Some(s) }
    else if lone(cs, s, w_of(h)) { Some(choose|k: int| sole_leaf(cs, s, w_of(h), k)) }
    else { reach(cs, n, h - 1) }
}
pub open spec fn depth(cs: Cs, n: u8, h: int) -> int
    decreases h,
{
    let s = half(n, h);
    if vacant(cs, s, w_of(h)) || h <= 0 || lone(cs, s, w_of(h)) { 1 } else { 1 + depth(cs, n, h - 1) }
}
pub open spec fn sibs_at(cs: Cs, n: u8, t: int) -> Seq<Seq<u8>> { Seq::new(t as nat, |j: int| ntree(cs, sib_half(n, 3 - j), w_of(3 - j))) }
// folding siblings (top first) along the bits of a nibble
pub open spec fn nfold(sib: Seq<Seq<u8>>, n: u8, h: Seq<u8>, j: int) -> Seq<u8>
    decreases sib.len() - j,
{
    if j >= sib.len() { h } else { let c = nfold(sib, n, h, j + 1); if nb(n, j) { ih(sib[j], c) } else { ih(c, sib[j]) } }
}
pub open spec fn node_ok(cs: Cs) -> bool { cs.len() == 16 && !vacant(cs, 0, 16) && !lone(cs, 0, 16) }
pub open spec fn found_hash(cs: Cs, c: Option<int>) -> Seq<u8> { match c { Some(k) => cs[k]->0.hash@, None => ph() } }
pub proof fn half_facts(n: u8, h: int)
    requires n < 16, 0 <= h <= 4,
    ensures 0 <= half(n, h), half(n, h) + w_of(h) <= 16, half(n, h) % w_of(h) == 0, half(n, h) <= n < half(n, h) + w_of(h),
        h < 4 ==> 0 <= sib_half(n, h) && sib_half(n, h) + w_of(h) <= 16 && sib_half(n, h) % w_of(h) == 0,
        h < 4 ==> (nb(n, 3 - h) <==> (n as int / w_of(h)) % 2 == 1),
        h < 4 ==> (if nb(n, 3 - h) { sib_half(n, h) == half(n, h + 1) && half(n, h) == half(n, h + 1) + w_of(h) } else { half(n, h) == half(n, h + 1) && sib_half(n, h) == half(n, h + 1) + w_of(h) }),
{
    assert(p2(3) == 8 && p2(2) == 4 && p2(1) == 2 && p2(0) == 1) by { reveal_with_fuel(p2, 5); }
    assert(half(n, 4) == 0);
    if h == 0 { assert(p2(3 - (3 - h)) == 1); } else if h == 1 { assert(p2(3 - (3 - h)) == 2); } else if h == 2 { assert(p2(3 - (3 - h)) == 4); } else if h == 3 { assert(p2(3 - (3 - h)) == 8); }
}
// C13: the returned child and siblings fold to the node's hash
pub proof fn c13_fold_from(cs: Cs, n: u8, h: int)
    requires cs.len() == 16, n < 16, 0 <= h <= 3, !vacant(cs, half(n, h + 1), w_of(h + 1)), !lone(cs, half(n, h + 1), w_of(h + 1)),
    ensures ({ let t = depth(cs, n, h); 1 <= t <= h + 1 && nfold(sibs_at(cs, n, 3 - h + t), n, found_hash(cs, reach(cs, n, h)), 3 - h) == ntree(cs, half(n, h + 1), w_of(h + 1)) }),
    decreases h,
{
    half_facts(n, h);
    half_facts(n, h + 1);
    let t = depth(cs, n, h);
    let s = half(n, h);
    let w = w_of(h);
    let sib = sibs_at(cs, n, 3 - h + t);
    let f = found_hash(cs, reach(cs, n, h));
    if vacant(cs, s, w) || h <= 0 || lone(cs, s, w) {
        assert(nfold(sib, n, f, 3 - h + 1) == f);
        assert(f == ntree(cs, s, w));
    } else {
        c13_fold_from(cs, n, h - 1);
        assert(nfold(sib, n, f, 3 - (h - 1)) == ntree(cs, s, w));
    }
    assert(sib[3 - h] == ntree(cs, sib_half(n, h), w));
    assert(w_of(h + 1) / 2 == w && w_of(h + 1) > 1);
}
pub proof fn c13_fold(cs: Cs, n: u8)
    requires node_ok(cs), n < 16,
    ensures nfold(sibs_at(cs, n, depth(cs, n, 3)), n, found_hash(cs, reach(cs, n, 3)), 0) == ntree(cs, 0, 16), 1 <= depth(cs, n, 3) <= 4,
{ assert(half(n, 4) == 0 && w_of(4) == 16); c13_fold_from(cs, n, 3); }
// C13: the child found is the one at that nibble, or a leaf that stands for the whole half it lies in, or nothing because that half is empty
pub proof fn c13_reach(cs: Cs, n: u8, h: int)
    requires cs.len() == 16, n < 16, 0 <= h <= 3,
    ensures match reach(cs, n, h) {
            None => cs[n as int] is None,
            Some(k) => 0 <= k < 16 && cs[k] is Some && (k == n || (cs[n as int] is None && cs[k]->0.node_type is Leaf)),
        },
        cs[n as int] is Some ==> reach(cs, n, h) == Some(n as int),
    decreases h,
{
    half_facts(n, h);
    let s = half(n, h);
    if vacant(cs, s, w_of(h)) { } else if h <= 0 { assert(s == n); } else if lone(cs, s, w_of(h)) {
        let k = choose|k: int| sole_leaf(cs, s, w_of(h), k);
        assert(sole(cs, s, w_of(h), k));
    } else { c13_reach(cs, n, h - 1); }
}
// ---------------------------------------------------------------- bitmaps of a node
pub open spec fn in_rng(i: int, s: int, w: int) -> bool { s <= i < s + w }
pub open spec fn ebits(cs: Cs, x: u16, s: int, w: int) -> bool { forall|i: int| in_rng(i, s, w) ==> #[trigger] bit16(x, i) == (cs[i] is Some) }
pub open spec fn lbits(cs: Cs, x: u16, s: int, w: int) -> bool { forall|i: int| in_rng(i, s, w) ==> #[trigger] bit16(x, i) == (cs[i] is Some && cs[i]->0.node_type is Leaf) }
pub open spec fn only_in(x: u16, s: int, w: int) -> bool { forall|i: int| 0 <= i < 16 && !in_rng(i, s, w) ==> !#[trigger] bit16(x, i) }
pub open spec fn tz(x: u16) -> int { vstd::std_specs::bits::u16_trailing_zeros(x) as int }
pub proof fn tz_facts(x: u16)
    requires x != 0,
    ensures 0 <= tz(x) < 16, bit16(x, tz(x)),
{ vstd::std_specs::bits::axiom_u16_trailing_zeros(x); }
pub proof fn bitmap_facts(cs: Cs, s: int, w: int, e: u16, l: u16)
    requires cs.len() == 16, 0 <= s, 1 <= w, s + w <= 16, ebits(cs, e, s, w), lbits(cs, l, s, w), only_in(e, s, w), only_in(l, s, w),
    ensures e == 0 <==> vacant(cs, s, w),
        (popn(e, 16) == 1 && l != 0) <==> lone(cs, s, w),
        e != 0 ==> s <= tz(e) < s + w && cs[tz(e)] is Some,
        forall|j: int| #[trigger] sole_leaf(cs, s, w, j) ==> j == tz(e),
        w == 1 && e != 0 ==> tz(e) == s,
{
    zero16(e);
    zero16(l);
    if vacant(cs, s, w) {
        assert forall|i: int| 0 <= i < 16 implies !#[trigger] bit16(e, i) by { if in_rng(i, s, w) { assert(cs[i] is None); } }
    } else {
        let k = choose|k: int| s <= k < s + w && (#[trigger] cs[k]) is Some;
        assert(bit16(e, k));
        tz_facts(e);
        let t = tz(e);
        assert(in_rng(t, s, w));
        popn_pos(e, 16, t);
        if popn(e, 16) == 1 && l != 0 {
            let j = choose|j: int| 0 <= j < 16 && #[trigger] bit16(l, j);
            assert(in_rng(j, s, w));
            assert(bit16(e, j));
            assert(j == t);
            assert forall|i: int| s <= i < s + w && i != t implies (#[trigger] cs[i]) is None by { assert(!bit16(e, i)); }
            assert(sole_leaf(cs, s, w, t));
        }
        assert forall|j: int| #[trigger] sole_leaf(cs, s, w, j) implies j == t && popn(e, 16) == 1 && l != 0 by {
            assert(bit16(e, j) && bit16(l, j));
            assert forall|i: int| 0 <= i < 16 && i != j implies !#[trigger] bit16(e, i) by { if in_rng(i, s, w) { assert(cs[i] is None); } }
            popn_one(e, 16, j);
        }
        if lone(cs, s, w) { let j = choose|j: int| #[trigger] sole_leaf(cs, s, w, j); assert(sole_leaf(cs, s, w, j)); }
    }
}
pub proof fn half_mask(n: u8, h: u8)
    requires n < 16, h < 4,
    ensures (0xffu8 << h) & n == half(n, h as int), ((0xffu8 << h) & n) ^ (1u8 << h) == sib_half(n, h as int), 1u8 << h == w_of(h as int),
{
    if h == 0 { assert((0xffu8 << 0u8) & n == n - n % 1 && ((0xffu8 << 0u8) & n) ^ (1u8 << 0u8) == (if (n / 1) % 2 == 0 { n - n % 1 + 1 } else { n - n % 1 - 1 }) && 1u8 << 0u8 == 1) by (bit_vector) requires n < 16; }
    else if h == 1 { assert((0xffu8 << 1u8) & n == n - n % 2 && ((0xffu8 << 1u8) & n) ^ (1u8 << 1u8) == (if (n / 2) % 2 == 0 { n - n % 2 + 2 } else { n - n % 2 - 2 }) && 1u8 << 1u8 == 2) by (bit_vector) requires n < 16; }
    else if h == 2 { assert((0xffu8 << 2u8) & n == n - n % 4 && ((0xffu8 << 2u8) & n) ^ (1u8 << 2u8) == (if (n / 4) % 2 == 0 { n - n % 4 + 4 } else { n - n % 4 - 4 }) && 1u8 << 2u8 == 4) by (bit_vector) requires n < 16; }
    else { assert((0xffu8 << 3u8) & n == n - n % 8 && ((0xffu8 << 3u8) & n) ^ (1u8 << 3u8) == (if (n / 8) % 2 == 0 { n - n % 8 + 8 } else { n - n % 8 - 8 }) && 1u8 << 3u8 == 8) by (bit_vector) requires n < 16; }
}
pub open spec fn has_all(cs: Cs, v: Seq<(Nibble, &Child)>) -> bool {
    (forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).0.v() < 16 && cs[v[k].0.v() as int] == Some(*v[k].1))
    && (forall|i: int| 0 <= i < 16 && (#[trigger] cs[i]) is Some ==> exists|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0.v() == i)
}
pub proof fn items_bits(cs: Cs, v: Seq<(Nibble, &Child)>)
    requires is_items(cs, v, 16),
    ensures has_all(cs, v),
{
    reveal(is_items);
    assert forall|i: int| 0 <= i < 16 && (#[trigger] cs[i]) is Some implies exists|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0.v() == i by { assert(v[cnt(cs, i)].0.v() == i); }
}
// ================================================================ the code
//@const jmt/src/types.rs Version
//@type jmt/src/node_type.rs NodeKey
impl Clone for NibblePath { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for NodeKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl NodeKey {
    pub open spec fn wf(&self) -> bool { self.nibble_path.wf() }
    pub open spec fn p(&self) -> Seq<u8> { self.nibble_path.v() }
//@fn jmt/src/node_type.rs NodeKey::new props C13 C09
//@spec
    ensures r.version == version, r.nibble_path == nibble_path,
//@end
//@fn jmt/src/node_type.rs NodeKey::new_empty_path props C13 C09
//@spec
    ensures r.version == version, r.wf(), r.p() =~= Seq::<u8>::empty(),
//@end
//@fn jmt/src/node_type.rs NodeKey::version props C13 C09
//@spec
    ensures r == self.version,
//@end
//@fn jmt/src/node_type.rs NodeKey::nibble_path props C13 C09
//@spec
    ensures *r == self.nibble_path,
//@end
//@fn jmt/src/node_type.rs NodeKey::gen_child_node_key props C13 C09
//@spec
    requires self.wf(), self.p().len() < 64, n.v() < 16,
    ensures r.wf(), r.version == version, r.p() == self.p().push(n.v()),
//@end
//@fn jmt/src/node_type.rs NodeKey::gen_parent_node_key props C13 C17
//@spec
    requires self.wf(), self.p().len() > 0,
    ensures r.wf(), r.version == self.version, r.p() == self.p().drop_last(),
//@end
//@fn jmt/src/node_type.rs NodeKey::set_version props C13 C09
//@spec
    ensures final(self).version == version, final(self).nibble_path == old(self).nibble_path,
//@end
}
//@type jmt/src/node_type.rs NodeType
impl Clone for NodeType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@type jmt/src/node_type.rs Child
impl Clone for Child { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn lcount(c: Child) -> Option<int> { match c.node_type { NodeType::Leaf => Some(1), NodeType::InternalLegacy => None, NodeType::Internal { leaf_count } => Some(leaf_count as int) } }
impl Child {
//@fn jmt/src/node_type.rs Child::new props C13 C21 C10
//@spec
    ensures r.hash == hash, r.version == version, r.node_type == node_type,
//@end
//@fn jmt/src/node_type.rs Child::is_leaf props C13 C21 C10
//@spec
    ensures r == (self.node_type is Leaf),
//@end
//@fn jmt/src/node_type.rs Child::leaf_count props C21
//@spec
    ensures match r { Some(n) => lcount(*self) == Some(n as int), None => lcount(*self) is None },
//@end
}
//@type jmt/src/node_type.rs Children
impl Clone for Children { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn cnt(cs: Cs, n: int) -> int decreases n { if n <= 0 { 0 } else { cnt(cs, n - 1) + if cs[n - 1] is Some { 1int } else { 0int } } }
// the children in order of their nibbles
#[verifier::opaque]
pub open spec fn is_items(cs: Cs, v: Seq<(Nibble, &Child)>, n: int) -> bool {
    &&& v.len() == cnt(cs, n)
    &&& forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).0.v() < n && v[k].0.v() < 16 && cs[v[k].0.v() as int] == Some(*v[k].1)
    &&& forall|j: int, k: int| 0 <= j < k < v.len() ==> (#[trigger] v[j]).0.v() < (#[trigger] v[k]).0.v()
    &&& forall|i: int| 0 <= i < n && (#[trigger] cs[i]) is Some ==> v[cnt(cs, i)].0.v() == i && 0 <= cnt(cs, i) < v.len()
}
pub open spec fn is_values(cs: Cs, v: Seq<&Child>, n: int) -> bool {
    &&& v.len() == cnt(cs, n)
    &&& forall|i: int| 0 <= i < n && (#[trigger] cs[i]) is Some ==> 0 <= cnt(cs, i) < v.len() && *v[cnt(cs, i)] == cs[i]->0
}
pub proof fn cnt_mono(cs: Cs, i: int, n: int)
    requires 0 <= i <= n,
    ensures 0 <= cnt(cs, i) <= cnt(cs, n) <= n, i < n && cs[i] is Some ==> cnt(cs, i) < cnt(cs, n), cnt(cs, n) - cnt(cs, i) <= n - i,
    decreases n,
{ if i < n { cnt_mono(cs, i, n - 1); } else if n > 0 { cnt_mono(cs, n - 1, n - 1); cnt_mono(cs, 0, n - 1); } }
pub proof fn cnt_upd(cs: Cs, i: int, c: Option<Child>, n: int)
    requires 0 <= i < cs.len(), 0 <= n <= cs.len(),
    ensures cnt(cs.update(i, c), n) == cnt(cs, n) + (if i < n { (if c is Some { 1int } else { 0int }) - (if cs[i] is Some { 1int } else { 0int }) } else { 0 }),
    decreases n,
{ if n > 0 { cnt_upd(cs, i, c, n - 1); } }
pub proof fn cnt_vacant(cs: Cs, n: int)
    requires 0 <= n,
    ensures cnt(cs, n) == 0 <==> vacant(cs, 0, n), cnt(cs, n) >= 0,
    decreases n,
{ if n > 0 { cnt_vacant(cs, n - 1); if cnt(cs, n) == 0 { assert forall|i: int| 0 <= i < n implies (#[trigger] cs[i]) is None by { if i < n - 1 { } } } else if vacant(cs, 0, n) { assert(cs[n - 1] is None); assert(vacant(cs, 0, n - 1)); } } }
pub proof fn cnt_sole(cs: Cs, n: int, k: int)
    requires 0 <= k < n, cs[k] is Some,
    ensures cnt(cs, n) == 1 <==> sole(cs, 0, n, k),
    decreases n,
{
    cnt_vacant(cs, n - 1);
    cnt_vacant(cs, n);
    if k < n - 1 { cnt_sole(cs, n - 1, k); cnt_mono(cs, k, n - 1);
        if cnt(cs, n) == 1 { assert(cs[n - 1] is None); assert forall|i: int| 0 <= i < n && i != k implies (#[trigger] cs[i]) is None by { if i < n - 1 { } } }
        else if sole(cs, 0, n, k) { assert(cs[n - 1] is None); assert(sole(cs, 0, n - 1, k)); }
    } else {
        if sole(cs, 0, n, k) { assert(vacant(cs, 0, n - 1)); }
        if cnt(cs, n) == 1 { assert(vacant(cs, 0, n - 1)); }
    }
}
pub proof fn items_none(cs: Cs) ensures is_items(cs, Seq::empty(), 0) { reveal(is_items); }
pub proof fn items_step(cs: Cs, v: Seq<(Nibble, &Child)>, n: int)
    requires is_items(cs, v, n), 0 <= n < 16,
    ensures cs[n] is None ==> is_items(cs, v, n + 1),
        forall|x: (Nibble, &Child)| x.0.v() == n && cs[n] == Some(*x.1) ==> #[trigger] is_items(cs, v.push(x), n + 1),
{
    cnt_mono(cs, 0, n);
    assert(cnt(cs, n + 1) == cnt(cs, n) + if cs[n] is Some { 1int } else { 0int });
    if cs[n] is None { reveal(is_items); }
    assert forall|x: (Nibble, &Child)| x.0.v() == n && cs[n] == Some(*x.1) implies #[trigger] is_items(cs, v.push(x), n + 1) by { items_push(cs, v, n, x); }
}
pub proof fn items_push(cs: Cs, v: Seq<(Nibble, &Child)>, n: int, x: (Nibble, &Child))
    requires is_items(cs, v, n), 0 <= n < 16, x.0.v() == n, cs[n] == Some(*x.1),
    ensures is_items(cs, v.push(x), n + 1),
{
    reveal(is_items);
    let w = v.push(x);
    cnt_mono(cs, 0, n);
    assert(cnt(cs, n + 1) == cnt(cs, n) + 1);
    assert(w.len() == v.len() + 1);
    assert forall|k: int| 0 <= k < w.len() implies (#[trigger] w[k]).0.v() < n + 1 && w[k].0.v() < 16 && cs[w[k].0.v() as int] == Some(*w[k].1) by { if k < v.len() { assert(w[k] == v[k]); } else { assert(w[k] == x); } }
    assert forall|j: int, k: int| 0 <= j < k < w.len() implies (#[trigger] w[j]).0.v() < (#[trigger] w[k]).0.v() by { assert(w[j] == v[j]); if k < v.len() { assert(w[k] == v[k]); } else { assert(w[k] == x); } }
    assert forall|i: int| 0 <= i < n + 1 && (#[trigger] cs[i]) is Some implies w[cnt(cs, i)].0.v() == i && 0 <= cnt(cs, i) < w.len() by { cnt_mono(cs, i, n); if i < n { assert(w[cnt(cs, i)] == v[cnt(cs, i)]); } else { assert(w[v.len() as int] == x); } }
}
impl Children {
    pub open spec fn cs(&self) -> Cs { self.children@ }
    pub open spec fn wf(&self) -> bool { self.num_children == cnt(self.cs(), 16) }
//@fn jmt/src/node_type.rs Children::new props C13 C10
//@rewrite? Default::default() ==> rt_children_default()
//@spec
    ensures r.wf(), vacant(r.cs(), 0, 16),
//@tail
    proof { cnt_vacant(r.cs(), 16); }
//@end
//@fn jmt/src/node_type.rs Children::insert props C13 C10
//@spec
    requires old(self).wf(), nibble.v() < 16,
    ensures final(self).wf(), final(self).cs() == old(self).cs().update(nibble.v() as int, Some(child)),
//@start
    proof { cnt_upd(self.cs(), nibble.v() as int, Some(child), 16); cnt_mono(self.cs(), 0, 16); cnt_mono(self.cs().update(nibble.v() as int, Some(child)), 0, 16); }
//@end
//@fn jmt/src/node_type.rs Children::get props C13 C10
//@spec
    requires nibble.v() < 16,
    ensures *r == self.cs()[nibble.v() as int],
//@end
//@fn jmt/src/node_type.rs Children::is_empty props C13 C10
//@spec
    requires self.wf(),
    ensures r == vacant(self.cs(), 0, 16),
//@start
    proof { cnt_vacant(self.cs(), 16); }
//@end
//@fn jmt/src/node_type.rs Children::remove props C13 C10
//@spec
    requires old(self).wf(), nibble.v() < 16,
    ensures final(self).wf(), final(self).cs() == old(self).cs().update(nibble.v() as int, None),
//@start
    proof { cnt_upd(self.cs(), nibble.v() as int, None, 16); cnt_mono(self.cs(), 0, 16); cnt_mono(self.cs().update(nibble.v() as int, None), 0, 16); }
//@end
//@fn jmt/src/node_type.rs Children::num_children props C13 C10
//@spec
    ensures r == self.num_children,
//@end
//@fn jmt/src/node_type.rs Children::values props C13 C21
//@sig impl Iterator<Item = &Child> ==> Vec<&Child>
//@spec
    ensures is_values(self.cs(), r@, 16),
//@loop 0
    invariant is_values(self.cs(), rt_v@, rt_i as int),
//@loopend 0
    proof { cnt_mono(self.cs(), 0, rt_i as int); assert forall|i: int| 0 <= i < rt_i implies cnt(self.cs(), i) <= cnt(self.cs(), rt_i as int) by { cnt_mono(self.cs(), i, rt_i as int); } }
//@end
//@fn jmt/src/node_type.rs Children::iter_sorted props C13 C21
//@sig impl Iterator<Item = (Nibble, &Child)> ==> Vec<(Nibble, &Child)>
//@spec
    ensures is_items(self.cs(), r@, 16),
//@start
    proof { items_none(self.cs()); }
//@loop 0
    invariant is_items(self.cs(), rt_v@, nibble as int),
//@loopstart 0
    proof { items_step(self.cs(), rt_v@, nibble as int); }
//@end
//@fn jmt/src/node_type.rs Children::iter props C13 C21
//@sig impl Iterator<Item = (Nibble, &Child)> ==> Vec<(Nibble, &Child)>
//@spec
    ensures is_items(self.cs(), r@, 16),
//@end
}
// <Children as Default>::default (derived)
#[verifier::external_body]
pub fn rt_children_default() -> (r: Children)
    ensures r.num_children == 0, forall|i: int| 0 <= i < 16 ==> (#[trigger] r.cs()[i]) is None,
{ unimplemented!() }
//@type jmt/src/node_type.rs InternalNode
impl Clone for InternalNode { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// sum of the leaf counts below, None when one is unknown
pub open spec fn lsum(cs: Cs, n: int) -> Option<int>
    decreases n,
{
    if n <= 0 { Some(0) } else { match (lsum(cs, n - 1), cs[n - 1]) {
        (None, _) => None,
        (s, None) => s,
        (Some(a), Some(c)) => match lcount(c) { None => None, Some(b) => Some(a + b) },
    } }
}
pub open spec fn lknown(cs: Cs, n: int) -> int
    decreases n,
{ if n <= 0 { 0 } else { lknown(cs, n - 1) + match cs[n - 1] { None => 0, Some(c) => match lcount(c) { None => 0, Some(b) => b } } } }
pub proof fn lknown_mono(cs: Cs, i: int, n: int)
    requires 0 <= i <= n,
    ensures 0 <= lknown(cs, i) <= lknown(cs, n), lsum(cs, i) is None ==> lsum(cs, n) is None, lsum(cs, n) matches Some(a) ==> a == lknown(cs, n),
    decreases n,
{ if i < n { lknown_mono(cs, i, n - 1); } else if n > 0 { lknown_mono(cs, n - 1, n - 1); } }
pub open spec fn next_some(cs: Cs, i: int) -> int decreases 16 - i { if i >= 16 || cs[i] is Some { i } else { next_some(cs, i + 1) } }
pub proof fn sum_start(cs: Cs, i: int)
    requires 0 <= i <= 16,
    ensures ({ let j = next_some(cs, i); i <= j <= 16 && (j < 16 ==> cs[j] is Some) && next_some(cs, j) == j && cnt(cs, j) == cnt(cs, i) && lsum(cs, j) == lsum(cs, i) && lknown(cs, j) == lknown(cs, i) }),
    decreases 16 - i,
{ if i < 16 && cs[i] is None { sum_start(cs, i + 1); } }
impl InternalNode {
    pub open spec fn cs(&self) -> Cs { self.children.cs() }
    pub open spec fn wf(&self) -> bool { self.children.wf() && node_ok(self.cs()) && match self.leaf_count { Some(n) => lsum(self.cs(), 16) == Some(n as int), None => lsum(self.cs(), 16) is None } }
//@fn jmt/src/node_type.rs InternalNode::new props C13 C10
//@rewrite? Self::new_migration($a, true) ==> Self::new_migration($a, true)
//@spec
    requires children.wf(), node_ok(children.cs()), lknown(children.cs(), 16) <= usize::MAX,
    ensures r.wf(), r.children == children,
//@end
//@fn jmt/src/node_type.rs InternalNode::new_migration props C13 C10
//@rewrite? $e.expect($m) ==> rt_expect($e)
//@spec
    requires children.wf(), node_ok(children.cs()), lknown(children.cs(), 16) <= usize::MAX,
    ensures r.wf(), r.children == children,
//@end
//@fn jmt/src/node_type.rs InternalNode::new_impl props C13 C10
//@rewrite? !children.values().next().expect($m).is_leaf() ==> !children.values()[0].is_leaf()
//@spec
    requires children.wf(), lknown(children.cs(), 16) <= usize::MAX,
    ensures r is Ok <==> node_ok(children.cs()), r matches Ok(n) ==> n.wf() && n.children == children,
//@start
    proof {
        cnt_vacant(children.cs(), 16);
        if !vacant(children.cs(), 0, 16) {
            let k = choose|k: int| 0 <= k < 16 && (#[trigger] children.cs()[k]) is Some;
            cnt_sole(children.cs(), 16, k);
            cnt_mono(children.cs(), k, 16);
            if children.num_children == 1 { assert(cnt(children.cs(), k) == 0); assert(forall|j: int| sole_leaf(children.cs(), 0, 16, j) ==> j == k); if children.cs()[k]->0.node_type is Leaf { assert(sole_leaf(children.cs(), 0, 16, k)); } }
            else { assert forall|j: int| !sole_leaf(children.cs(), 0, 16, j) by { if sole_leaf(children.cs(), 0, 16, j) { assert(children.cs()[j] is Some); cnt_sole(children.cs(), 16, j); } } }
        }
    }
//@end
//@fn jmt/src/node_type.rs InternalNode::sum_leaf_count props C13 C21
//@rewrite? let mut leaf_count = 0; ==> let mut leaf_count: usize = 0;
//@spec
    requires lknown(children.cs(), 16) <= usize::MAX,
    ensures match r { Some(n) => lsum(children.cs(), 16) == Some(n as int), None => lsum(children.cs(), 16) is None },
//@start
    let ghost cs = children.cs();
    let ghost mut gi: int = next_some(cs, 0);
    proof { sum_start(cs, 0); }
//@loop 0 it
    invariant 0 <= gi <= 16, cs == children.cs(), is_values(cs, it.seq(), 16), lknown(cs, 16) <= usize::MAX,
        cnt(cs, gi) == it.index@, lsum(cs, gi) == Some(leaf_count as int), gi < 16 ==> cs[gi] is Some, gi == next_some(cs, gi),
//@loopstart 0
    proof { cnt_mono(cs, gi, 16); lknown_mono(cs, gi + 1, 16); lknown_mono(cs, 0, gi); sum_start(cs, gi + 1); gi = next_some(cs, gi + 1); }
//@afterloop 0
    proof { cnt_mono(cs, gi, 16); }
//@end
//@fn jmt/src/node_type.rs InternalNode::leaf_count props C21
//@spec
    ensures r == self.leaf_count,
//@end
//@fn jmt/src/node_type.rs InternalNode::node_type props C13 C21
//@spec
    ensures match self.leaf_count { Some(n) => r == (NodeType::Internal { leaf_count: n }), None => r is InternalLegacy },
//@end
//@fn jmt/src/node_type.rs InternalNode::hash props C13 C10 C11
//@spec
    requires self.wf(),
    ensures r@ == ntree(self.cs(), 0, 16), ntree_hashed(self.cs(), 0, 16),
//@end
//@fn jmt/src/node_type.rs InternalNode::children_sorted props C13 C15
//@sig impl Iterator<Item = (Nibble, &Child)> ==> Vec<(Nibble, &Child)>
//@spec
    ensures is_items(self.cs(), r@, 16),
//@end
//@fn jmt/src/node_type.rs InternalNode::children_unsorted props C13 C10
//@sig impl Iterator<Item = (Nibble, &Child)> ==> Vec<(Nibble, &Child)>
//@spec
    ensures is_items(self.cs(), r@, 16),
//@end
//@fn jmt/src/node_type.rs InternalNode::child props C13 C09
//@spec
    requires n.v() < 16,
    ensures match r { Some(c) => self.cs()[n.v() as int] == Some(*c), None => self.cs()[n.v() as int] is None },
//@end
//@fn jmt/src/node_type.rs InternalNode::generate_bitmaps props C13
//@rewrite? let mut existence_bitmap = 0; ==> let mut existence_bitmap: u16 = 0;
//@rewrite? let mut leaf_bitmap = 0; ==> let mut leaf_bitmap: u16 = 0;
//@spec
    ensures ebits(self.cs(), r.0, 0, 16), lbits(self.cs(), r.1, 0, 16),
//@start
    proof { zero16(0u16); assert(0u16 | 0u16 == 0u16) by (bit_vector);
        assert forall|v: Seq<(Nibble, &Child)>| #[trigger] is_items(self.cs(), v, 16) implies has_all(self.cs(), v) by { items_bits(self.cs(), v); } }
//@loop 0 it
    invariant is_items(self.cs(), it.seq(), 16), has_all(self.cs(), it.seq()), existence_bitmap | leaf_bitmap == existence_bitmap,
        forall|i: int| 0 <= i < 16 ==> #[trigger] bit16(existence_bitmap, i) == exists|k: int| 0 <= k < it.index@ && (#[trigger] it.seq()[k]).0.v() == i,
        forall|i: int| 0 <= i < 16 ==> #[trigger] bit16(leaf_bitmap, i) == exists|k: int| 0 <= k < it.index@ && (#[trigger] it.seq()[k]).0.v() == i && it.seq()[k].1.node_type is Leaf,
//@loopstart 0
    proof { items_bits(self.cs(), it.seq()); or_bit16(existence_bitmap, nibble.v()); or_bit16(leaf_bitmap, nibble.v()); or_sub(existence_bitmap, leaf_bitmap, nibble.v()); }
    let ghost e0 = existence_bitmap;
    let ghost l0 = leaf_bitmap;
//@loopend 0
    proof {
        let k0 = it.index@ as int;
        assert(it.seq()[k0].0 == nibble && it.seq()[k0].1 == child);
    }
//@end
//@fn jmt/src/node_type.rs InternalNode::range_bitmaps props C13
//@spec
    requires range_ok(start, width),
    ensures forall|i: int| 0 <= i < 16 ==> #[trigger] bit16(r.0, i) == (bit16(bitmaps.0, i) && start <= i < start + width),
        forall|i: int| 0 <= i < 16 ==> #[trigger] bit16(r.1, i) == (bit16(bitmaps.1, i) && start <= i < start + width),
//@start
    proof { width_pop(width); mask16(start, width, bitmaps.0); mask16(start, width, bitmaps.1); }
//@end
//@fn jmt/src/node_type.rs InternalNode::merkle_hash props C13 C10 C11
//@spec
    requires range_ok(start, width), ebits(self.cs(), rt_arg3.0, start as int, width as int), lbits(self.cs(), rt_arg3.1, start as int, width as int),
    ensures r@ == ntree(self.cs(), start as int, width as int), ntree_hashed(self.cs(), start as int, width as int),
    decreases width,
//@start
    proof { half_ok(start, width); }
//@after Self::range_bitmaps($c)
    proof { bitmap_facts(self.cs(), start as int, width as int, range_existence_bitmap, range_leaf_bitmap); }
//@end
//@fn jmt/src/node_type.rs InternalNode::get_child_without_siblings props C13 C09
//@spec
    requires self.wf(), node_key.wf(), node_key.p().len() < 64, n.v() < 16,
    ensures match reach(self.cs(), n.v(), 3) {
        None => r is None,
        Some(k) => r matches Some(x) && x.wf() && x.version == self.cs()[k]->0.version && x.p() == node_key.p().push(k as u8),
    },
//@loop 0 it
    invariant self.wf(), node_key.wf(), node_key.p().len() < 64, n.v() < 16, ebits(self.cs(), existence_bitmap, 0, 16), lbits(self.cs(), leaf_bitmap, 0, 16),
        it.index@ <= 4, it.index@ < 4 ==> reach(self.cs(), n.v(), 3) == reach(self.cs(), n.v(), 3 - it.index@),
        it.index@ == 4 ==> false,
//@loopstart 0
    proof { half_mask(n.v(), h); half_facts(n.v(), h as int); }
//@after Self::range_bitmaps($c)
    proof { bitmap_facts(self.cs(), half(n.v(), h as int), width as int, range_existence_bitmap, range_leaf_bitmap); }
//@end
//@fn jmt/src/node_type.rs InternalNode::get_child_with_siblings props C13 C11
//@spec
    requires self.wf(), node_key.wf(), node_key.p().len() < 64, n.v() < 16,
    ensures match reach(self.cs(), n.v(), 3) {
            None => r.0 is None,
            Some(k) => r.0 matches Some(x) && x.wf() && x.version == self.cs()[k]->0.version && x.p() == node_key.p().push(k as u8),
        },
        seqs(r.1@) == sibs_at(self.cs(), n.v(), depth(self.cs(), n.v(), 3)),
//@start
    assert(seqs(Seq::<[u8; 32]>::empty()) =~= sibs_at(self.cs(), n.v(), 0));
//@loop 0 it
    invariant self.wf(), node_key.wf(), node_key.p().len() < 64, n.v() < 16, ebits(self.cs(), existence_bitmap, 0, 16), lbits(self.cs(), leaf_bitmap, 0, 16),
        it.index@ <= 4, it.index@ < 4 ==> reach(self.cs(), n.v(), 3) == reach(self.cs(), n.v(), 3 - it.index@) && depth(self.cs(), n.v(), 3) == it.index@ + depth(self.cs(), n.v(), 3 - it.index@),
        it.index@ == 4 ==> false, seqs(siblings@) == sibs_at(self.cs(), n.v(), it.index@ as int),
//@loopstart 0
    let ghost sb = siblings@;
    proof { half_mask(n.v(), h); half_facts(n.v(), h as int); }
//@after Self::range_bitmaps($c)
    proof { bitmap_facts(self.cs(), half(n.v(), h as int), width as int, range_existence_bitmap, range_leaf_bitmap); }
    proof { sibs_push(self.cs(), n.v(), it.index@ as int, sb, siblings@.last()); assert(siblings@ == sb.push(siblings@.last())); }
//@end
}
pub proof fn sibs_push(cs: Cs, n: u8, t: int, sb: Seq<[u8; 32]>, x: [u8; 32])
    requires 0 <= t < 4, seqs(sb) == sibs_at(cs, n, t), x@ == ntree(cs, sib_half(n, 3 - t), w_of(3 - t)),
    ensures seqs(sb.push(x)) == sibs_at(cs, n, t + 1),
{
    assert(seqs(sb).len() == t);
    assert forall|j: int| 0 <= j < t implies seqs(sb.push(x))[j] == #[trigger] sibs_at(cs, n, t + 1)[j] by { assert(seqs(sb)[j] == sibs_at(cs, n, t)[j]); }
    assert(seqs(sb.push(x)) =~= sibs_at(cs, n, t + 1));
}
pub open spec fn seqs(v: Seq<[u8; 32]>) -> Seq<Seq<u8>> { v.map(|i: int, x: [u8; 32]| x@) }
//@fn jmt/src/node_type.rs get_child_and_sibling_half_start props C13
//@spec
    requires n.v() < 16, height < 4,
    ensures r.0 == half(n.v(), height as int), r.1 == sib_half(n.v(), height as int),
//@start
    proof { half_mask(n.v(), height); }
//@end
//@fn jmt/src/node_type.rs get_child_half_start props C13
//@spec
    requires n.v() < 16, height < 4,
    ensures r == half(n.v(), height as int),
//@start
    proof { half_mask(n.v(), height); }
//@end
// <Children as From<InternalNode>>::from
//@fn jmt/src/node_type.rs <From<InternalNode> for Children>::from props C13 C10
//@rename rt_children
//@sig -> Self ==> -> Children
//@spec
    ensures r == node.children,
//@end
#[derive(Clone, Copy)]
//@type jmt/src/node_type.rs LeafNode
impl LeafNode {
    pub open spec fn k(&self) -> Seq<u8> { self.key_hash.0@ }
    pub open spec fn v(&self) -> Seq<u8> { self.value_hash.0@ }
//@fn jmt/src/node_type.rs LeafNode::new props C10 C09
//@spec
    ensures r.key_hash == key_hash, r.value_hash == value_hash,
//@end
//@fn jmt/src/node_type.rs LeafNode::key_hash props C10 C09
//@spec
    ensures r == self.key_hash,
//@end
//@fn jmt/src/node_type.rs LeafNode::value_hash props C10 C09
//@spec
    ensures r == self.value_hash,
//@end
//@fn jmt/src/node_type.rs LeafNode::hash props C10 C11
//@spec
    ensures r@ == lh(self.k(), self.v()), hashed(leaf_pre(self.k(), self.v())),
//@end
}
//@fn jmt/src/node_type.rs <From<LeafNode> for SparseMerkleLeafNode>::from props C11
//@rename rt_smleaf
//@sig -> Self ==> -> SparseMerkleLeafNode
//@rewrite? Self::new($a) ==> SparseMerkleLeafNode::new($a)
//@spec
    ensures r.k() == leaf_node.k(), r.v() == leaf_node.v(), r.key_hash == leaf_node.key_hash, r.value_hash == leaf_node.value_hash,
//@end
//@type jmt/src/node_type.rs Node
impl Clone for Node { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Node {
    pub open spec fn wf(&self) -> bool { self matches Node::Internal(n) ==> n.wf() }
    pub open spec fn hsh(&self) -> Seq<u8> { match *self { Node::Null => ph(), Node::Leaf(l) => lh(l.k(), l.v()), Node::Internal(n) => ntree(n.cs(), 0, 16) } }
    pub open spec fn lc(&self) -> Option<int> { match *self { Node::Null => Some(0), Node::Leaf(_) => Some(1), Node::Internal(n) => lsum(n.cs(), 16) } }
//@fn jmt/src/node_type.rs <From<InternalNode> for Node>::from props C10
//@rename rt_of_internal
//@spec
    ensures r == Node::Internal(node),
//@end
//@fn jmt/src/node_type.rs <From<LeafNode> for Node>::from props C10
//@rename rt_of_leaf
//@spec
    ensures r == Node::Leaf(node),
//@end
//@fn jmt/src/node_type.rs Node::new_null props C10 C16
//@spec
    ensures r is Null,
//@end
//@fn jmt/src/node_type.rs Node::new_leaf props C10 C09
//@spec
    ensures r matches Node::Leaf(l) && l.key_hash == key_hash && l.value_hash == value_hash,
//@end
//@fn jmt/src/node_type.rs Node::is_leaf props C10 C21
//@spec
    ensures r == (self is Leaf),
//@end
//@fn jmt/src/node_type.rs Node::node_type props C10 C21
//@spec
    requires !(self is Null), self.wf(),
    ensures self is Leaf <==> r is Leaf, match r { NodeType::Leaf => self is Leaf, NodeType::InternalLegacy => self.lc() is None, NodeType::Internal { leaf_count } => self.lc() == Some(leaf_count as int) },
//@end
//@fn jmt/src/node_type.rs Node::leaf_count props C21
//@spec
    requires self.wf(),
    ensures match r { Some(n) => self.lc() == Some(n as int), None => self.lc() is None },
//@end
//@fn jmt/src/node_type.rs Node::hash props C13 C10 C11
//@spec
    requires self.wf(),
    ensures r@ == self.hsh(), match *self { Node::Null => true, Node::Leaf(l) => hashed(leaf_pre(l.k(), l.v())), Node::Internal(n) => ntree_hashed(n.cs(), 0, 16) },
//@end
}
pub proof fn or_sub(e: u16, l: u16, n: u8)
    requires e | l == e, n < 16,
    ensures (e | (1u16 << n)) | (l | (1u16 << n)) == e | (1u16 << n), (e | (1u16 << n)) | l == e | (1u16 << n),
{
    assert(e | l == e && n < 16 ==> (e | (1u16 << n)) | (l | (1u16 << n)) == e | (1u16 << n) && (e | (1u16 << n)) | l == e | (1u16 << n)) by (bit_vector);
}
} // verus!
