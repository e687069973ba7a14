// U2: jmt/src/bytes32ext.rs, jmt/src/types/nibble.rs, nibble_path.rs -- bits, nibbles and paths (C19)
//@common u8::from($x) ==> rt_u8($x)
//@common $a.zip($b).take_while(|(x, y)| x == y).count() ==> { let mut rt_a = $a; let mut rt_b = $b; let mut rt_n: usize = 0; loop { match rt_a.next() { None => { break; } Some(rt_x) => match rt_b.next() { None => { break; } Some(rt_y) => { if rt_x == rt_y { rt_n = rt_n + 1; } else { break; } } } } } rt_n }
verus! {
// ================================================================ specification
pub open spec fn nibn(b: Seq<u8>, i: int) -> u8 { if i % 2 == 0 { b[i / 2] / 16u8 } else { b[i / 2] % 16u8 } }
pub open spec fn p2(e: int) -> int decreases e { if e <= 0 { 1 } else { 2 * p2(e - 1) } }
// bit i of the big-endian bit string
pub open spec fn bitn(b: Seq<u8>, i: int) -> bool { (b[i / 8] as int / p2(7 - i % 8)) % 2 == 1 }
pub open spec fn bits_of(b: Seq<u8>) -> Seq<bool> { Seq::new(8 * b.len(), |i: int| bitn(b, i)) }
pub open spec fn nibs_of(b: Seq<u8>) -> Seq<u8> { Seq::new(2 * b.len(), |i: int| nibn(b, i)) }
pub open spec fn same_upto(a: Seq<bool>, b: Seq<bool>, n: int) -> bool { forall|i: int| 0 <= i < n ==> a[i] == b[i] }
pub open spec fn lcpb(a: Seq<bool>, b: Seq<bool>, n: int) -> bool {
    0 <= n <= a.len() && n <= b.len() && same_upto(a, b, n) && (n < a.len() && n < b.len() ==> a[n] != b[n])
}
pub proof fn lcpb_unique(a: Seq<bool>, b: Seq<bool>, m: int, n: int)
    requires lcpb(a, b, m), lcpb(a, b, n),
    ensures m == n,
{ if m < n { assert(a[m] == b[m]); } if n < m { assert(a[n] == b[n]); } }
pub proof fn bit_facts(x: u8)
    ensures
        x >> 4 == x / 16, x & 0x0f == x % 16, (x >> 4) & 0x0f == x / 16, (x >> 0) & 0x0f == x % 16, x >> 4 < 16, x % 16 < 16, x & 0xf0 == x - x % 16, x >> 0 == x,
        x < 16 ==> x << 4 == 16 * x && (x << 4) / 16 == x && (x << 4) % 16 == 0,
        forall|e: u8| e < 8 ==> (((x >> e) & 1 != 0) <==> (x as int / p2(e as int)) % 2 == 1),
{
    assert(x >> 4 == x / 16) by (bit_vector);
    assert(x & 0x0f == x % 16) by (bit_vector);
    assert((x >> 4) & 0x0f == x / 16) by (bit_vector);
    assert((x >> 0) & 0x0f == x % 16) by (bit_vector);
    assert(x >> 0 == x) by (bit_vector);
    assert(x & 0xf0 == x - x % 16) by (bit_vector);
    assert(x < 16 ==> x << 4 == 16 * x && (x << 4) / 16 == x && (x << 4) % 16 == 0) by (bit_vector);
    reveal_with_fuel(p2, 9);
    assert forall|e: u8| e < 8 implies (((x >> e) & 1 != 0) <==> (x as int / p2(e as int)) % 2 == 1) by {
        assert((x >> 0u8) & 1 == (x / 1) % 2) by (bit_vector);
        assert((x >> 1u8) & 1 == (x / 2) % 2) by (bit_vector);
        assert((x >> 2u8) & 1 == (x / 4) % 2) by (bit_vector);
        assert((x >> 3u8) & 1 == (x / 8) % 2) by (bit_vector);
        assert((x >> 4u8) & 1 == (x / 16) % 2) by (bit_vector);
        assert((x >> 5u8) & 1 == (x / 32) % 2) by (bit_vector);
        assert((x >> 6u8) & 1 == (x / 64) % 2) by (bit_vector);
        assert((x >> 7u8) & 1 == (x / 128) % 2) by (bit_vector);
        if e == 0 {} else if e == 1 {} else if e == 2 {} else if e == 3 {} else if e == 4 {} else if e == 5 {} else if e == 6 {} else { assert(e == 7); }
    }
}
// ================================================================ nibbles
//@const jmt/src/types/nibble.rs ROOT_NIBBLE_HEIGHT
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@type jmt/src/types/nibble.rs Nibble
impl Nibble {
    pub open spec fn v(&self) -> u8 { self.0 }
//@fn jmt/src/types/nibble.rs <From<u8> for Nibble>::from props C19 C13 C09
//@spec
    requires nibble < 16,
    ensures r.v() == nibble,
//@end
//@fn jmt/src/types/nibble.rs Nibble::as_usize props C19 C13
//@spec
    ensures r == self.v() as usize,
//@end
}
//@fn jmt/src/types/nibble.rs <From<Nibble> for u8>::from props C19 C13
//@rename rt_u8
//@sig -> Self ==> -> u8
//@spec
    ensures r == nibble.v(),
//@end
// ================================================================ 32-byte keys
pub trait Bytes32Ext: Sized {
    spec fn b(&self) -> Seq<u8>;
    fn get_nibble(&self, index: usize) -> (r: Nibble)
        requires index < 64,
        ensures r.v() == nibn(self.b(), index as int), r.v() < 16;
    fn common_prefix_bits_len(&self, other: &[u8; 32]) -> (r: usize)
        ensures lcpb(bits_of(self.b()), bits_of(other@), r as int), r <= 256;
    fn iter_bits(&self) -> (r: HashValueBitIterator<'_>)
        ensures r.wf(), r.hash_bytes@ == self.b(), r.pos.start == 0, r.pos.end == 256;
    fn nibble(&self, index: usize) -> (r: u8)
        requires index < 64,
        ensures r == nibn(self.b(), index as int), r < 16;
    fn common_prefix_nibbles_len(&self, other: &[u8; 32]) -> (r: usize)
        ensures r <= 64, forall|i: int| 0 <= i < r ==> #[trigger] nibn(self.b(), i) == nibn(other@, i), r < 64 ==> nibn(self.b(), r as int) != nibn(other@, r as int);
}
impl Bytes32Ext for [u8; 32] {
    open spec fn b(&self) -> Seq<u8> { self@ }
//@fn jmt/src/bytes32ext.rs <Bytes32Ext for [u8; 32]>::get_nibble props C19 C09 C10
//@nopub
//@sig crate::types::nibble::Nibble ==> Nibble
//@rewrite? crate::types::nibble::Nibble ==> Nibble
//@start
    proof { bit_facts(self@[index as int / 2]); }
//@end
//@fn jmt/src/bytes32ext.rs <Bytes32Ext for [u8; 32]>::common_prefix_bits_len props C19 C12
//@nopub
//@loop 0
    invariant_except_break rt_a.pos.start == rt_n, rt_b.pos.start == rt_n, same_upto(bits_of(self@), bits_of(other@), rt_n as int),
    invariant rt_a.wf(), rt_b.wf(), rt_a.hash_bytes@ == self@, rt_b.hash_bytes@ == other@, rt_a.pos.end == 256, rt_b.pos.end == 256, rt_n <= 256,
    ensures lcpb(bits_of(self@), bits_of(other@), rt_n as int), rt_n <= 256,
    decreases 256 - rt_n,
//@end
//@fn jmt/src/bytes32ext.rs <Bytes32Ext for [u8; 32]>::iter_bits props C19 C12
//@nopub
//@end
//@fn jmt/src/bytes32ext.rs <Bytes32Ext for [u8; 32]>::nibble props C19
//@nopub
//@start
    proof { bit_facts(self@[index as int / 2]); }
//@end
//@fn jmt/src/bytes32ext.rs trait Bytes32Ext::common_prefix_nibbles_len props C19 C18
//@nopub
//@tail
    proof { bits_nibs(self@, other@, r as int); }
//@end
}
pub proof fn bits_nibs(a: Seq<u8>, b: Seq<u8>, r: int)
    requires a.len() == 32, b.len() == 32, exists|n: int| #[trigger] lcpb(bits_of(a), bits_of(b), n) && r == n / 4,
    ensures r <= 64, forall|i: int| 0 <= i < r ==> #[trigger] nibn(a, i) == nibn(b, i), r < 64 ==> nibn(a, r) != nibn(b, r),
{
    let n = choose|n: int| #[trigger] lcpb(bits_of(a), bits_of(b), n) && r == n / 4;
    assert forall|i: int| 0 <= i < r implies #[trigger] nibn(a, i) == nibn(b, i) by {
        assert(bits_of(a)[4 * i] == bits_of(b)[4 * i]);
        assert(bits_of(a)[4 * i + 1] == bits_of(b)[4 * i + 1]);
        assert(bits_of(a)[4 * i + 2] == bits_of(b)[4 * i + 2]);
        assert(bits_of(a)[4 * i + 3] == bits_of(b)[4 * i + 3]);
        nib_bits(a, i);
        nib_bits(b, i);
    }
    if r < 64 && nibn(a, r) == nibn(b, r) {
        nib_bits(a, r);
        nib_bits(b, r);
        assert(n < 256);
        assert(bits_of(a)[n] != bits_of(b)[n]);
        assert(n == 4 * r || n == 4 * r + 1 || n == 4 * r + 2 || n == 4 * r + 3);
    }
}
// a nibble is its four bits
pub open spec fn bn(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn nb(x: u8, j: int) -> bool { (x as int / p2(3 - j)) % 2 == 1 }
pub proof fn nib_bits(a: Seq<u8>, i: int)
    requires 0 <= i < 2 * a.len(),
    ensures nibn(a, i) == 8 * bn(bitn(a, 4 * i)) + 4 * bn(bitn(a, 4 * i + 1)) + 2 * bn(bitn(a, 4 * i + 2)) + bn(bitn(a, 4 * i + 3)),
        forall|j: int| 0 <= j < 4 ==> #[trigger] nb(nibn(a, i), j) == bitn(a, 4 * i + j),
{
    reveal_with_fuel(p2, 9);
    let x = a[i / 2];
    assert(x / 16u8 == 8 * ((x / 128u8) % 2) + 4 * ((x / 64u8) % 2) + 2 * ((x / 32u8) % 2) + (x / 16u8) % 2) by (bit_vector);
    assert(x % 16u8 == 8 * ((x / 8u8) % 2) + 4 * ((x / 4u8) % 2) + 2 * ((x / 2u8) % 2) + (x / 1u8) % 2) by (bit_vector);
    assert((4 * i) / 8 == i / 2 && (4 * i + 1) / 8 == i / 2 && (4 * i + 2) / 8 == i / 2 && (4 * i + 3) / 8 == i / 2);
    if i % 2 == 0 {
        assert((4 * i) % 8 == 0 && (4 * i + 1) % 8 == 1 && (4 * i + 2) % 8 == 2 && (4 * i + 3) % 8 == 3);
    } else {
        assert((4 * i) % 8 == 4 && (4 * i + 1) % 8 == 5 && (4 * i + 2) % 8 == 6 && (4 * i + 3) % 8 == 7);
    }
    let n = nibn(a, i);
    assert(n % 16 == n && (n / 8) % 2 == (if i % 2 == 0 { (x / 128) % 2 } else { (x / 8) % 2 }) && (n / 4) % 2 == (if i % 2 == 0 { (x / 64) % 2 } else { (x / 4) % 2 })
        && (n / 2) % 2 == (if i % 2 == 0 { (x / 32) % 2 } else { (x / 2) % 2 }) && n % 2 == (if i % 2 == 0 { (x / 16) % 2 } else { x % 2 })) by {
        let h = x / 16u8;
        let l = x % 16u8;
        assert(h == x / 16u8 ==> h % 16 == h && (h / 8) % 2 == (x / 128) % 2 && (h / 4) % 2 == (x / 64) % 2 && (h / 2) % 2 == (x / 32) % 2 && h % 2 == (x / 16) % 2) by (bit_vector);
        assert(l == x % 16u8 ==> l % 16 == l && (l / 8) % 2 == (x / 8) % 2 && (l / 4) % 2 == (x / 4) % 2 && (l / 2) % 2 == (x / 2) % 2 && l % 2 == x % 2) by (bit_vector);
    }
    assert(p2(0) == 1 && p2(1) == 2 && p2(2) == 4 && p2(3) == 8 && p2(4) == 16 && p2(5) == 32 && p2(6) == 64 && p2(7) == 128);
    assert(nb(n, 0) == ((n / 8) % 2 == 1) && nb(n, 1) == ((n / 4) % 2 == 1) && nb(n, 2) == ((n / 2) % 2 == 1) && nb(n, 3) == (n % 2 == 1));
    if i % 2 == 0 {
        assert(bitn(a, 4 * i) == ((x / 128) % 2 == 1) && bitn(a, 4 * i + 1) == ((x / 64) % 2 == 1) && bitn(a, 4 * i + 2) == ((x / 32) % 2 == 1) && bitn(a, 4 * i + 3) == ((x / 16) % 2 == 1));
    } else {
        assert(bitn(a, 4 * i) == ((x / 8) % 2 == 1) && bitn(a, 4 * i + 1) == ((x / 4) % 2 == 1) && bitn(a, 4 * i + 2) == ((x / 2) % 2 == 1) && bitn(a, 4 * i + 3) == (x % 2 == 1));
    }
    assert(nb(n, 0) == bitn(a, 4 * i) && nb(n, 1) == bitn(a, 4 * i + 1) && nb(n, 2) == bitn(a, 4 * i + 2) && nb(n, 3) == bitn(a, 4 * i + 3));
    assert forall|j: int| 0 <= j < 4 implies #[trigger] nb(n, j) == bitn(a, 4 * i + j) by { assert(j == 0 || j == 1 || j == 2 || j == 3); }
}
pub proof fn nib16(a: Seq<u8>, i: int)
    requires 0 <= i < 2 * a.len(),
    ensures nibn(a, i) < 16,
{ let x = a[i / 2]; assert(x / 16 < 16 && x % 16 < 16) by (bit_vector); }
//@fn jmt/src/bytes32ext.rs <Bytes32Ext for [u8; 32]>::from_bit_iter props C19
//@attr verifier::loop_isolation(false)
//@sig impl ExactSizeIterator<Item = bool> ==> &[bool]
//@sig Option<Self> ==> Option<[u8; 32]>
//@rewrite? for ($id_i, $id_x) in iter.enumerate() { ==> for $id_i in 0..iter.len() { let $id_x = iter[$id_i];
//@rewrite? let mut buf = [0; 32] ==> let mut buf: [u8; 32] = [0; 32]
//@spec
    ensures iter@.len() != 256 ==> r is None,
        iter@.len() == 256 ==> (r matches Some(k) && bits_of(k@) == iter@),
//@start
    proof { assert forall|z: Seq<u8>, j: int| 0 <= j < 256 && z.len() == 32 && z[j / 8] == 0 implies !#[trigger] bitn(z, j) by { bit_facts(0u8); let e = (7 - j % 8) as u8; assert(((0u8 >> e) & 1) == 0) by (bit_vector); } }
//@loop 0
    invariant forall|j: int| 0 <= j < i ==> #[trigger] bitn(buf@, j) == iter@[j],
        forall|j: int| i <= j < 256 ==> !#[trigger] bitn(buf@, j),
//@loopstart 0
    let ghost b0 = buf@;
//@loopend 0
    proof { set_bit(b0, i as int); }
    assert(bit ==> buf@ =~= b0.update(i as int / 8, b0[i as int / 8] | (1u8 << ((7 - i % 8) as u8))));
//@tail
    assert(r matches Some(k) ==> bits_of(k@) =~= iter@);
//@end
pub proof fn set_bit(b: Seq<u8>, i: int)
    requires b.len() == 32, 0 <= i < 256,
    ensures ({ let c = b.update(i / 8, b[i / 8] | (1u8 << ((7 - i % 8) as u8))); bitn(c, i) && forall|j: int| 0 <= j < 256 && j != i ==> #[trigger] bitn(c, j) == bitn(b, j) }),
{
    let c = b.update(i / 8, b[i / 8] | (1u8 << ((7 - i % 8) as u8)));
    let x = b[i / 8];
    let e = (7 - i % 8) as u8;
    let y = x | (1u8 << e);
    bit_facts(x);
    bit_facts(y);
    assert(e < 8 ==> ((x | (1u8 << e)) >> e) & 1 != 0) by (bit_vector);
    assert forall|j: int| 0 <= j < 256 && j != i implies #[trigger] bitn(c, j) == bitn(b, j) by {
        if j / 8 == i / 8 {
            let f = (7 - j % 8) as u8;
            assert(f != e);
            assert(e < 8 && f < 8 && e != f ==> ((x | (1u8 << e)) >> f) & 1 == (x >> f) & 1) by (bit_vector);
        }
    }
}
//@type jmt/src/bytes32ext.rs HashValueBitIterator
impl<'a> HashValueBitIterator<'a> {
    pub open spec fn wf(&self) -> bool { self.hash_bytes@.len() == 32 && self.pos.start <= self.pos.end <= 256 }
    // the bits still to come
    pub open spec fn rest(&self) -> Seq<bool> { bits_of(self.hash_bytes@).subrange(self.pos.start as int, self.pos.end as int) }
//@fn jmt/src/bytes32ext.rs HashValueBitIterator::new props C19
//@rewrite? hash_value.as_ref() ==> hash_value
//@spec
    ensures r.wf(), r.hash_bytes@ == hash_value@, r.pos.start == 0, r.pos.end == 256, r.rest() =~= bits_of(hash_value@),
//@end
//@fn jmt/src/bytes32ext.rs HashValueBitIterator::get_bit props C19
//@spec
    requires self.wf(), index < 256,
    ensures r == bitn(self.hash_bytes@, index as int),
//@start
    proof { bit_facts(self.hash_bytes@[index as int / 8]); }
    let ghost sh = (7 - index % 8) as u8;
//@end
//@fn jmt/src/bytes32ext.rs <Iterator for HashValueBitIterator>::next props C19
//@sig Option<Self::Item> ==> Option<bool>
//@rewrite? $e.map(|$id_x| $f) ==> (match $e { Some($id_x) => Some($f), None => None })
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).hash_bytes@ == old(self).hash_bytes@, final(self).pos.end == old(self).pos.end,
        old(self).pos.start < old(self).pos.end ==> r == Some(bitn(old(self).hash_bytes@, old(self).pos.start as int)) && final(self).pos.start == old(self).pos.start + 1,
        old(self).pos.start >= old(self).pos.end ==> r is None && final(self).pos == old(self).pos,
//@end
//@fn jmt/src/bytes32ext.rs <DoubleEndedIterator for HashValueBitIterator>::next_back props C19
//@sig Option<Self::Item> ==> Option<bool>
//@rewrite? self.pos.next_back().map(|$id_x| $f) ==> (match rt_next_back(&mut self.pos) { Some($id_x) => Some($f), None => None })
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).hash_bytes@ == old(self).hash_bytes@, final(self).pos.start == old(self).pos.start,
        old(self).pos.start < old(self).pos.end ==> r == Some(bitn(old(self).hash_bytes@, old(self).pos.end - 1)) && final(self).pos.end == old(self).pos.end - 1,
        old(self).pos.start >= old(self).pos.end ==> r is None && final(self).pos == old(self).pos,
//@end
}
// <Range<usize> as DoubleEndedIterator>::next_back
#[verifier::external_body]
pub fn rt_next_back(p: &mut core::ops::Range<usize>) -> (r: Option<usize>)
    ensures old(p).start < old(p).end ==> r == Some((old(p).end - 1) as usize) && final(p).start == old(p).start && final(p).end == old(p).end - 1,
        old(p).start >= old(p).end ==> r is None && *final(p) == *old(p),
{ p.next_back() }
} // verus!
