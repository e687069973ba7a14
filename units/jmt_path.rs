// U2: jmt/src/types/nibble/nibble_path.rs and the nibble ranges of jmt/src/types/nibble.rs (C19)
//@common u8::from($x) ==> rt_u8($x)
verus! {

//@type jmt/src/types/nibble/nibble_path.rs NibblePath
impl NibblePath {
    // representation invariant (Vec equality of two well-formed paths is equality of v())
    pub open spec fn wf(&self) -> bool {
        &&& self.num_nibbles <= 64
        &&& self.bytes@.len() == (self.num_nibbles + 1) / 2
        &&& self.num_nibbles % 2 == 1 ==> self.bytes@.last() % 16 == 0
    }
    pub open spec fn v(&self) -> Seq<u8> { nibs_of(self.bytes@).subrange(0, self.num_nibbles as int) }
//@fn jmt/src/types/nibble/nibble_path.rs NibblePath::new props C19
//@spec
    requires bytes@.len() <= 32,
    ensures r.wf(), r.v() =~= nibs_of(bytes@), r.num_nibbles == 2 * bytes@.len(),
//@end
//@fn jmt/src/types/nibble/nibble_path.rs NibblePath::new_odd props C19
//@rewrite? bytes.last().expect($m) & $x ==> (*bytes.last().unwrap()) & $x
//@spec
    requires 0 < bytes@.len() <= 32, bytes@.last() % 16 == 0,
    ensures r.wf(), r.v() =~= nibs_of(bytes@).subrange(0, 2 * bytes@.len() - 1),
//@start
    proof { bit_facts(bytes@.last()); }
//@end
//@fn jmt/src/types/nibble/nibble_path.rs NibblePath::push props C19
//@spec
    requires old(self).wf(), old(self).num_nibbles < 64, nibble.v() < 16,
    ensures final(self).wf(), final(self).v() == old(self).v().push(nibble.v()), final(self).num_nibbles == old(self).num_nibbles + 1,
//@start
    let ghost o = *self;
    proof { bit_facts(nibble.v()); if self.num_nibbles % 2 == 1 { or_low(self.bytes@.last(), nibble.v()); } }
//@tail
    proof { push_v(o, *self, nibble.v()); }
//@end
//@fn jmt/src/types/nibble/nibble_path.rs NibblePath::pop props C19
//@rewrite? self.bytes.last_mut().map(|$id_b| $e) ==> (match self.bytes.last_mut() { Some($id_b) => Some($e), None => None })
//@rewrite? self.bytes.pop().map(|$id_b| $e) ==> (match self.bytes.pop() { Some($id_b) => Some($e), None => None })
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), old(self).v().len() == 0 ==> r is None && final(self).v() == old(self).v(),
        old(self).v().len() > 0 ==> (r matches Some(n) && n.v() == old(self).v().last() && n.v() < 16) && final(self).v() == old(self).v().drop_last(),
//@start
    let ghost o = *self;
    proof { if self.bytes@.len() > 0 { bit_facts(self.bytes@.last()); } }
//@tail
    proof { pop_v(o, *self); }
//@end
//@fn jmt/src/types/nibble/nibble_path.rs NibblePath::last props C19
//@rewrite? last_byte_option.map(|$id_b| $e) ==> (match last_byte_option { Some($id_b) => Some($e), None => None })
//@spec
    requires self.wf(),
    ensures self.v().len() == 0 ==> r is None,
        self.v().len() > 0 ==> (r matches Some(n) && n.v() == self.v().last() && n.v() < 16),
//@start
    proof { if self.bytes@.len() > 0 { bit_facts(self.bytes@.last()); } }
//@end
//@fn jmt/src/types/nibble/nibble_path.rs NibblePath::get_bit props C19
//@spec
    requires self.wf(), i < 4 * self.num_nibbles,
    ensures r == bitn(self.bytes@, i as int), r == nb(self.v()[i as int / 4], i as int % 4),
//@start
    proof { bit_facts(self.bytes@[i as int / 8]); nib_bits(self.bytes@, i as int / 4); assert(4 * (i as int / 4) + i as int % 4 == i); assert(nb(nibn(self.bytes@, i as int / 4), i as int % 4) == bitn(self.bytes@, 4 * (i as int / 4) + i as int % 4)); }
    let ghost sh = (7 - i % 8) as u8;
//@end
//@fn jmt/src/types/nibble/nibble_path.rs NibblePath::get_nibble props C19
//@spec
    requires self.wf(), i < self.num_nibbles,
    ensures r.v() == self.v()[i as int], r.v() < 16,
//@start
    proof { bit_facts(self.bytes@[i as int / 2]); }
//@end
//@fn jmt/src/types/nibble/nibble_path.rs NibblePath::bits props C19
//@sig BitIterator ==> BitIterator<'_>
//@spec
    requires self.wf(),
    ensures r.wf(), *r.nibble_path == *self, r.pos.start == 0, r.pos.end == 4 * self.num_nibbles,
//@end
//@fn jmt/src/types/nibble/nibble_path.rs NibblePath::nibbles props C19
//@sig NibbleIterator ==> NibbleIterator<'_>
//@spec
    requires self.wf(),
    ensures r.wf(), *r.nibble_path == *self, r.all() =~= self.v(), r.rest() =~= self.v(), r.start == 0, r.pos.start == 0,
//@end
//@fn jmt/src/types/nibble/nibble_path.rs NibblePath::num_nibbles props C19
//@spec
    ensures r == self.num_nibbles,
//@end
//@fn jmt/src/types/nibble/nibble_path.rs NibblePath::is_empty props C19
//@spec
    requires self.wf(),
    ensures r == (self.v().len() == 0),
//@end
//@fn jmt/src/types/nibble/nibble_path.rs NibblePath::bytes props C19
//@spec
    ensures r@ == self.bytes@,
//@end
//@fn jmt/src/types/nibble/nibble_path.rs <FromIterator<Nibble> for NibblePath>::from_iter props C19
//@sig <I: IntoIterator<Item = Nibble>> ==> 
//@sig iter: I ==> iter: Vec<Nibble>
//@spec
    requires iter@.len() <= 64, forall|i: int| 0 <= i < iter@.len() ==> (#[trigger] iter@[i]).v() < 16,
    ensures r.wf(), r.v() == iter@.map(|i: int, n: Nibble| n.v()),
//@loop 0 it
    invariant nibble_path.wf(), it.seq() == iter@, nibble_path.num_nibbles == it.index@, iter@.len() <= 64,
        forall|i: int| 0 <= i < iter@.len() ==> (#[trigger] iter@[i]).v() < 16,
        nibble_path.v() =~= iter@.subrange(0, it.index@ as int).map(|i: int, n: Nibble| n.v()),
//@tail
    assert(r.v() =~= iter@.map(|i: int, n: Nibble| n.v()));
//@end
}
pub proof fn or_low(x: u8, n: u8)
    requires x % 16 == 0, n < 16,
    ensures (x | n) / 16 == x / 16, (x | n) % 16 == n,
{
    assert(x % 16 == 0 && n < 16 ==> (x | n) / 16 == x / 16 && (x | n) % 16 == n) by (bit_vector);
}
pub proof fn push_v(o: NibblePath, n: NibblePath, x: u8)
    requires o.wf(), o.num_nibbles < 64, n.num_nibbles == o.num_nibbles + 1, x < 16,
        o.num_nibbles % 2 == 0 ==> (n.bytes@.len() == o.bytes@.len() + 1 && n.bytes@.drop_last() =~= o.bytes@ && n.bytes@.last() / 16 == x && n.bytes@.last() % 16 == 0),
        o.num_nibbles % 2 == 1 ==> (n.bytes@.len() == o.bytes@.len() && n.bytes@.drop_last() =~= o.bytes@.drop_last() && n.bytes@.last() / 16 == o.bytes@.last() / 16 && n.bytes@.last() % 16 == x),
    ensures n.v() =~= o.v().push(x), n.wf(),
{
    assert forall|i: int| 0 <= i < o.num_nibbles implies #[trigger] n.v()[i] == o.v()[i] by {
        if i / 2 < n.bytes@.len() - 1 { assert(n.bytes@.drop_last()[i / 2] == n.bytes@[i / 2]); if o.num_nibbles % 2 == 1 { assert(o.bytes@.drop_last()[i / 2] == o.bytes@[i / 2]); } }
    }
    assert(n.v()[o.num_nibbles as int] == x);
}
pub proof fn pop_v(o: NibblePath, n: NibblePath)
    requires o.wf(),
        o.num_nibbles == 0 ==> n.num_nibbles == 0 && n.bytes@ =~= o.bytes@,
        o.num_nibbles > 0 ==> n.num_nibbles == o.num_nibbles - 1,
        o.num_nibbles % 2 == 1 ==> n.bytes@ =~= o.bytes@.drop_last(),
        o.num_nibbles > 0 && o.num_nibbles % 2 == 0 ==> (n.bytes@.len() == o.bytes@.len() && n.bytes@.drop_last() =~= o.bytes@.drop_last() && n.bytes@.last() / 16 == o.bytes@.last() / 16 && n.bytes@.last() % 16 == 0),
    ensures n.wf(), o.num_nibbles > 0 ==> n.v() =~= o.v().drop_last(),
{
    if o.num_nibbles > 0 {
        assert forall|i: int| 0 <= i < n.num_nibbles implies #[trigger] n.v()[i] == o.v()[i] by {
            if i / 2 < o.bytes@.len() - 1 { assert(o.bytes@.drop_last()[i / 2] == o.bytes@[i / 2]); if o.num_nibbles % 2 == 0 { assert(n.bytes@.drop_last()[i / 2] == n.bytes@[i / 2]); } }
        }
    }
}
// two well-formed paths with the same nibbles are the same value (derived ==, Hash and Ord agree with the nibbles)
pub proof fn path_canonical(a: NibblePath, b: NibblePath)
    requires a.wf(), b.wf(), a.v() == b.v(),
    ensures a.num_nibbles == b.num_nibbles, a.bytes@ == b.bytes@,
{
    assert(a.v().len() == a.num_nibbles && b.v().len() == b.num_nibbles);
    assert forall|i: int| 0 <= i < a.bytes@.len() implies #[trigger] a.bytes@[i] == b.bytes@[i] by {
        let x = a.bytes@[i];
        let y = b.bytes@[i];
        assert((2 * i) / 2 == i && (2 * i + 1) / 2 == i && (2 * i) % 2 == 0 && (2 * i + 1) % 2 == 1);
        assert(a.v()[2 * i] == x / 16 && b.v()[2 * i] == y / 16);
        if 2 * i + 1 < a.num_nibbles { assert(a.v()[2 * i + 1] == x % 16 && b.v()[2 * i + 1] == y % 16); }
        assert(x % 16 == y % 16);
    }
    assert(a.bytes@ =~= b.bytes@);
}
// ================================================================ iterators over a path
//@type jmt/src/types/nibble/nibble_path.rs BitIterator
impl<'a> BitIterator<'a> {
    pub open spec fn wf(&self) -> bool { self.nibble_path.wf() && self.pos.start <= self.pos.end <= 4 * self.nibble_path.num_nibbles }
    pub open spec fn bit(&self, i: int) -> bool { nb(self.nibble_path.v()[i / 4], i % 4) }
    // the bits still to come
    pub open spec fn rest(&self) -> Seq<bool> { Seq::new((self.pos.end - self.pos.start) as nat, |i: int| self.bit(self.pos.start + i)) }
//@fn jmt/src/types/nibble/nibble_path.rs <Peekable for BitIterator>::peek props C19
//@sig Option<Self::Item> ==> Option<bool>
//@spec
    requires self.wf(),
    ensures r == (if self.rest().len() > 0 { Some(self.rest()[0]) } else { None }),
//@end
//@fn jmt/src/types/nibble/nibble_path.rs <Iterator for BitIterator>::next props C19
//@sig Option<Self::Item> ==> Option<bool>
//@rewrite? $e.map(|$id_x| $f) ==> (match $e { Some($id_x) => Some($f), None => None })
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).nibble_path == old(self).nibble_path,
        old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() =~= old(self).rest().subrange(1, old(self).rest().len() as int),
        old(self).rest().len() == 0 ==> r is None && final(self).pos == old(self).pos,
//@end
//@fn jmt/src/types/nibble/nibble_path.rs <DoubleEndedIterator for BitIterator>::next_back props C19
//@sig Option<Self::Item> ==> Option<bool>
//@rewrite? self.pos.next_back().map(|$id_x| $f) ==> (match rt_next_back(&mut self.pos) { Some($id_x) => Some($f), None => None })
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).nibble_path == old(self).nibble_path,
        old(self).rest().len() > 0 ==> r == Some(old(self).rest().last()) && final(self).rest() =~= old(self).rest().drop_last(),
        old(self).rest().len() == 0 ==> r is None && final(self).pos == old(self).pos,
//@end
}
//@type jmt/src/types/nibble/nibble_path.rs NibbleIterator
impl<'a> NibbleIterator<'a> {
    pub open spec fn wf(&self) -> bool { self.nibble_path.wf() && self.start <= self.pos.start <= self.pos.end <= self.nibble_path.num_nibbles }
    // everything covered, already visited, still to come
    pub open spec fn all(&self) -> Seq<u8> { self.nibble_path.v().subrange(self.start as int, self.pos.end as int) }
    pub open spec fn seen(&self) -> Seq<u8> { self.nibble_path.v().subrange(self.start as int, self.pos.start as int) }
    pub open spec fn rest(&self) -> Seq<u8> { self.nibble_path.v().subrange(self.pos.start as int, self.pos.end as int) }
//@fn jmt/src/types/nibble/nibble_path.rs <Iterator for NibbleIterator>::next props C19
//@sig Option<Self::Item> ==> Option<Nibble>
//@rewrite? $e.map(|$id_x| $f) ==> (match $e { Some($id_x) => Some($f), None => None })
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).nibble_path == old(self).nibble_path, final(self).start == old(self).start, final(self).pos.end == old(self).pos.end,
        old(self).rest().len() > 0 ==> (r matches Some(n) && n.v() == old(self).rest()[0] && n.v() < 16) && final(self).rest() =~= old(self).rest().subrange(1, old(self).rest().len() as int) && final(self).pos.start == old(self).pos.start + 1,
        old(self).rest().len() == 0 ==> r is None && final(self).pos == old(self).pos,
//@end
//@fn jmt/src/types/nibble/nibble_path.rs <Peekable for NibbleIterator>::peek props C19
//@sig Option<Self::Item> ==> Option<Nibble>
//@spec
    requires self.wf(),
    ensures self.rest().len() > 0 ==> (r matches Some(n) && n.v() == self.rest()[0] && n.v() < 16), self.rest().len() == 0 ==> r is None,
//@end
//@fn jmt/src/types/nibble/nibble_path.rs NibbleIterator::new props C19
//@spec
    requires nibble_path.wf(), start <= end <= nibble_path.num_nibbles,
    ensures r.wf(), r.nibble_path == nibble_path, r.start == start, r.pos.start == start, r.pos.end == end,
//@end
//@fn jmt/src/types/nibble/nibble_path.rs NibbleIterator::visited_nibbles props C19
//@spec
    requires self.wf(),
    ensures r.wf(), r.nibble_path == self.nibble_path, r.all() == self.seen(), r.rest() == self.seen(),
//@end
//@fn jmt/src/types/nibble/nibble_path.rs NibbleIterator::remaining_nibbles props C19
//@spec
    requires self.wf(),
    ensures r.wf(), r.nibble_path == self.nibble_path, r.all() == self.rest(), r.rest() == self.rest(),
//@end
//@fn jmt/src/types/nibble/nibble_path.rs NibbleIterator::bits props C19
//@spec
    requires self.wf(),
    ensures r.wf(), r.nibble_path == self.nibble_path, r.pos.start == 4 * self.pos.start, r.pos.end == 4 * self.pos.end,
//@end
//@fn jmt/src/types/nibble/nibble_path.rs NibbleIterator::get_nibble_path props C19
//@rewrite? $a.chain($b).collect() ==> { let mut rt_a = $a; let mut rt_b = $b; let mut rt_p = NibblePath::new(Vec::new()); loop { match rt_a.next() { Some(rt_x) => rt_p.push(rt_x), None => break, } } loop { match rt_b.next() { Some(rt_x) => rt_p.push(rt_x), None => break, } } rt_p }
//@spec
    requires self.wf(),
    ensures r.wf(), r.v() =~= self.all(),
//@loop 0
    invariant rt_p.wf(), rt_a.wf(), rt_b.wf(), self.wf(), rt_b.rest() == self.rest(), rt_p.num_nibbles + rt_a.rest().len() == self.seen().len(), rt_p.v() + rt_a.rest() =~= self.seen(),
    ensures rt_a.rest().len() == 0,
    decreases rt_a.rest().len(),
//@loop 1
    invariant rt_p.wf(), rt_b.wf(), self.wf(), rt_p.num_nibbles + rt_b.rest().len() == self.all().len(), rt_p.v() + rt_b.rest() =~= self.all(),
    ensures rt_b.rest().len() == 0,
    decreases rt_b.rest().len(),
//@end
//@fn jmt/src/types/nibble/nibble_path.rs NibbleIterator::num_nibbles props C19
//@spec
    requires self.wf(),
    ensures r == self.all().len(),
//@end
//@fn jmt/src/types/nibble/nibble_path.rs NibbleIterator::is_finished props C19
//@spec
    requires self.wf(),
    ensures r == (self.rest().len() == 0),
//@end
}
pub open spec fn lcpn(a: Seq<u8>, b: Seq<u8>, n: int) -> bool {
    0 <= n <= a.len() && n <= b.len() && (forall|i: int| 0 <= i < n ==> a[i] == b[i]) && (n < a.len() && n < b.len() ==> a[n] != b[n])
}
//@fn jmt/src/types/nibble/nibble_path.rs skip_common_prefix props C19
//@attr verifier::loop_isolation(false)
//@sig <I1, I2> ==> 
//@sig &mut I1 ==> &mut NibbleIterator
//@sig &mut I2 ==> &mut NibbleIterator
//@sig where I1: Iterator + Peekable, I2: Iterator + Peekable, <I1 as Iterator>::Item: core::cmp::PartialEq<<I2 as Iterator>::Item>, ==> 
//@spec
    requires old(x).wf(), old(y).wf(),
    ensures final(x).wf(), final(y).wf(), lcpn(old(x).rest(), old(y).rest(), r as int),
        final(x).rest() =~= old(x).rest().subrange(r as int, old(x).rest().len() as int),
        final(y).rest() =~= old(y).rest().subrange(r as int, old(y).rest().len() as int),
        final(x).nibble_path == old(x).nibble_path, final(x).start == old(x).start, final(x).all() == old(x).all(),
        final(y).nibble_path == old(y).nibble_path, final(y).start == old(y).start, final(y).all() == old(y).all(),
//@start
    let ghost x0 = *x;
    let ghost y0 = *y;
//@loop 0
    invariant x.wf(), y.wf(), x.nibble_path == x0.nibble_path, x.start == x0.start, x.pos.end == x0.pos.end, y.nibble_path == y0.nibble_path, y.start == y0.start, y.pos.end == y0.pos.end,
       x.pos.start == x0.pos.start + count, y.pos.start == y0.pos.start + count,
       forall|i: int| 0 <= i < count ==> x0.rest()[i] == y0.rest()[i],
    decreases x.pos.end - x.pos.start,
//@end
// ================================================================ nibble ranges of sorted keys
//@type jmt/src/types/nibble.rs NibbleRangeIterator
impl<'a> NibbleRangeIterator<'a> {
    pub open spec fn nib(&self, i: int) -> u8 { nibn(self.sorted_kvs@[i].0.0@, self.nibble_idx as int) }
    pub open spec fn wf(&self) -> bool {
        &&& self.nibble_idx < 64
        &&& self.pos <= self.sorted_kvs@.len()
        &&& forall|i: int, j: int| 0 <= i <= j < self.sorted_kvs@.len() ==> #[trigger] self.nib(i) <= #[trigger] self.nib(j)
    }
//@fn jmt/src/types/nibble.rs NibbleRangeIterator::new props C19
//@spec
    requires nibble_idx < 64, sorted_from(sorted_kvs@, nibble_idx as int),
    ensures r.wf(), r.sorted_kvs == sorted_kvs, r.nibble_idx == nibble_idx, r.pos == 0,
//@start
    proof { sorted_mono(sorted_kvs@, nibble_idx as int); }
//@end
//@fn jmt/src/types/nibble.rs <Iterator for NibbleRangeIterator>::next props C19
//@attr verifier::loop_isolation(false)
//@sig Option<Self::Item> ==> Option<(usize, usize)>
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).sorted_kvs == old(self).sorted_kvs, final(self).nibble_idx == old(self).nibble_idx,
        old(self).pos >= old(self).sorted_kvs@.len() ==> r is None && final(self).pos == old(self).pos,
        old(self).pos < old(self).sorted_kvs@.len() ==> (r matches Some(p) && p.0 == old(self).pos && p.0 <= p.1 < old(self).sorted_kvs@.len() && final(self).pos == p.1 + 1
            && (forall|i: int| p.0 <= i <= p.1 ==> #[trigger] old(self).nib(i) == old(self).nib(p.0 as int))
            && (p.1 + 1 < old(self).sorted_kvs@.len() ==> old(self).nib(p.1 + 1) > old(self).nib(p.0 as int))),
//@start
    let ghost s = *self;
//@loop 0
    invariant left <= i <= j < self.sorted_kvs@.len(), *self == s,
        s.nib(i as int) == cur_nibble,
        j + 1 < self.sorted_kvs@.len() ==> s.nib(j + 1) > cur_nibble,
    decreases j - i,
//@tail
    assert forall|i: int, j: int| 0 <= i <= j < self.sorted_kvs@.len() implies #[trigger] self.nib(i) <= #[trigger] self.nib(j) by { assert(s.nib(i) <= s.nib(j)); }
    assert(r matches Some(p) ==> (forall|i: int| p.0 <= i <= p.1 ==> #[trigger] s.nib(i) == s.nib(p.0 as int)));
//@end
}
// keys agreeing on their first d nibbles and sorted as byte strings
pub open spec fn key_lt(a: Seq<u8>, b: Seq<u8>) -> bool { exists|i: int| #[trigger] lt_at(a, b, i) }
pub open spec fn lt_at(a: Seq<u8>, b: Seq<u8>, i: int) -> bool { 0 <= i < a.len() && i < b.len() && a[i] < b[i] && forall|j: int| 0 <= j < i ==> a[j] == b[j] }
pub open spec fn sorted_from(kvs: Seq<(KeyHash, ValueHash)>, d: int) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < kvs.len() ==> key_lt((#[trigger] kvs[i]).0.0@, (#[trigger] kvs[j]).0.0@)
    &&& forall|i: int, j: int, n: int| 0 <= i < j < kvs.len() && 0 <= n < d ==> #[trigger] nibn(kvs[i].0.0@, n) == #[trigger] nibn(kvs[j].0.0@, n)
}
pub proof fn sorted_mono(kvs: Seq<(KeyHash, ValueHash)>, d: int)
    requires sorted_from(kvs, d), 0 <= d < 64,
    ensures forall|i: int, j: int| 0 <= i <= j < kvs.len() ==> nibn(#[trigger] kvs[i].0.0@, d) <= nibn(#[trigger] kvs[j].0.0@, d),
{
    assert forall|i: int, j: int| 0 <= i <= j < kvs.len() implies nibn(#[trigger] kvs[i].0.0@, d) <= nibn(#[trigger] kvs[j].0.0@, d) by {
        if i < j {
            let a = kvs[i].0.0@;
            let b = kvs[j].0.0@;
            let k = choose|k: int| #[trigger] lt_at(a, b, k);
            assert(lt_at(a, b, k));
            if 2 * k + 1 < d {
                assert(nibn(a, 2 * k) == nibn(b, 2 * k));
                assert(nibn(a, 2 * k + 1) == nibn(b, 2 * k + 1));
                assert((2 * k) / 2 == k && (2 * k + 1) / 2 == k);
                assert(a[k] / 16 == b[k] / 16 && a[k] % 16 == b[k] % 16);
                assert(false);
            } else if d / 2 < k {
                assert(a[d / 2] == b[d / 2]);
            } else {
                assert(k == d / 2);
                if d % 2 == 1 { assert(nibn(a, 2 * k) == nibn(b, 2 * k)); assert((2 * k) / 2 == k); }
            }
        }
    }
}
} // verus!
