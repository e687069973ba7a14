// U1: pmt/src/nibbles.rs -- paths and the hex-prefix encoding (C08)
//@include prelude.rs
//@include std_shims.rs
//@common min($a,$b) ==> rt_min($a,$b)
verus! {
// ---------------------------------------------------------------- specification
// a path: nibbles, the last symbol may be the terminator 16
pub open spec fn path_ok(s: Seq<u8>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() - 1 ==> s[i] < 16
    &&& s.len() > 0 ==> s[s.len() - 1] <= 16
}
pub open spec fn has_term(s: Seq<u8>) -> bool { s.len() > 0 && s[s.len() - 1] == 16 }
pub open spec fn nibs(s: Seq<u8>) -> Seq<u8> { if has_term(s) { s.subrange(0, s.len() - 1) } else { s } }
pub open spec fn with_term(s: Seq<u8>, t: bool) -> Seq<u8> { if t { s.push(16) } else { s } }
// the two nibbles of every byte, high first
pub open spec fn unpack(k: Seq<u8>) -> Seq<u8> {
    Seq::new(2 * k.len(), |i: int| if i % 2 == 0 { k[i / 2] / 16u8 } else { k[i / 2] % 16u8 })
}
pub open spec fn pack(s: Seq<u8>) -> Seq<u8> {
    Seq::new(s.len() / 2, |i: int| (s[2 * i] * 16 + s[2 * i + 1]) as u8)
}
// Yellow Paper appendix C, HP(x, t)
pub open spec fn hp(s: Seq<u8>) -> Seq<u8> {
    let x = nibs(s);
    let f = if has_term(s) { 2int } else { 0int };
    if x.len() % 2 == 0 { seq![(16 * f) as u8] + pack(x) }
    else { seq![(16 * (f + 1) + x[0]) as u8] + pack(x.subrange(1, x.len() as int)) }
}
pub open spec fn hp_flag_ok(c: Seq<u8>) -> bool { c.len() > 0 && c[0] / 16u8 <= 3 }
pub open spec fn unhp(c: Seq<u8>) -> Seq<u8> {
    let tail = unpack(c.subrange(1, c.len() as int));
    with_term(if (c[0] / 16u8) % 2 == 1 { seq![c[0] % 16u8] + tail } else { tail }, c[0] / 16u8 >= 2)
}
pub open spec fn lcp_is(a: Seq<u8>, b: Seq<u8>, n: int) -> bool {
    &&& 0 <= n <= a.len() && n <= b.len()
    &&& forall|i: int| 0 <= i < n ==> a[i] == b[i]
    &&& (n < a.len() && n < b.len()) ==> a[n] != b[n]
}

//@type pmt/src/nibbles.rs Nibbles
impl Nibbles {
    pub open spec fn v(&self) -> Seq<u8> { self.hex_data@ }
//@fn pmt/src/nibbles.rs Nibbles::from_hex props C08 C01 C02
//@spec
    ensures r.v() == hex@,
//@tail
    assert(r.v() =~= hex@);
//@end
//@fn pmt/src/nibbles.rs Nibbles::from_raw props C08 C01 C02
//@spec
    ensures r.v() == with_term(unpack(raw@), is_leaf), path_ok(r.v()), has_term(r.v()) == is_leaf,
//@loop 0 it
    invariant hex_data@ =~= unpack(raw@.subrange(0, it.index@ as int)),
       it.index@ <= raw@.len(), it.seq() == raw@.map(|i: int, x: u8| &x),
//@afterloop 0
    assert(raw@.subrange(0, raw@.len() as int) =~= raw@);
//@end
//@fn pmt/src/nibbles.rs Nibbles::is_leaf props C08 C01 C06
//@spec
    ensures r == has_term(self.v()),
//@end
//@fn pmt/src/nibbles.rs Nibbles::len props C08 C01
//@spec
    ensures r == self.v().len(),
//@end
//@fn pmt/src/nibbles.rs Nibbles::is_empty props C08 C01
//@spec
    ensures r == (self.v().len() == 0),
//@end
//@fn pmt/src/nibbles.rs Nibbles::at props C08 C01
//@spec
    requires i < self.v().len(),
    ensures r == self.v()[i as int],
//@end
//@fn pmt/src/nibbles.rs Nibbles::get_data props C08 C01
//@spec
    ensures r@ == self.v(),
//@end
//@fn pmt/src/nibbles.rs Nibbles::from_compact props C08 C03
//@spec
    requires hp_flag_ok(compact@),
    ensures r.v() == unhp(compact@), path_ok(r.v()),
//@start
    assert forall|f: u8| #![auto] f >> 4 == f / 16 by { assert(f >> 4 == f / 16) by (bit_vector); }
//@loopstart 0
    let ghost h0 = hex@;
//@loop 0 it
    invariant hp_flag_ok(compact@), flag == compact@[0],
       it.index@ <= compact@.len() - 1, it.seq() == compact@.subrange(1, compact@.len() as int).map(|i: int, x: u8| &x),
       hex@ =~= (if (flag / 16u8) % 2 == 1 { seq![flag % 16u8] } else { seq![] }) + unpack(compact@.subrange(1, 1 + it.index@)),
       is_leaf == (flag / 16u8 >= 2),
//@end
//@fn pmt/src/nibbles.rs Nibbles::encode_compact props C08 C02 C03
//@spec
    requires path_ok(self.v()),
    ensures r@ == hp(self.v()),
//@loop 0
    invariant compact@ =~= seq![(if has_term(self.v()) { 0x20u8 } else { 0u8 } + v) as u8] + pack(hex@).subrange(0, i as int),
      forall|j: int| 0 <= j < hex@.len() ==> hex@[j] < 16,
//@end
//@fn pmt/src/nibbles.rs Nibbles::encode_raw props C08 C06
//@spec
    requires path_ok(self.v()),
    ensures r.0@ == pack(nibs(self.v())), r.1 == has_term(self.v()),
//@loop 0
    invariant raw@ =~= pack(hex@).subrange(0, i as int),
      forall|j: int| 0 <= j < hex@.len() ==> hex@[j] < 16,
//@end
//@fn pmt/src/nibbles.rs Nibbles::common_prefix props C08 C01
//@spec
    ensures lcp_is(self.v(), other_partial.v(), r as int),
//@loop 0
    invariant_except_break i <= s, s == min_int(self.v().len() as int, other_partial.v().len() as int),
       forall|j: int| 0 <= j < i ==> self.v()[j] == other_partial.v()[j],
    ensures lcp_is(self.v(), other_partial.v(), i as int),
    decreases s - i,
//@end
//@fn pmt/src/nibbles.rs Nibbles::offset props C08 C01
//@spec
    requires index <= self.v().len(),
    ensures r.v() == self.v().subrange(index as int, self.v().len() as int),
//@end
//@fn pmt/src/nibbles.rs Nibbles::slice props C08 C01
//@spec
    requires start <= end <= self.v().len(),
    ensures r.v() == self.v().subrange(start as int, end as int),
//@end
//@fn pmt/src/nibbles.rs Nibbles::join props C08 C01
//@spec
    ensures r.v() == self.v() + b.v(),
//@rewrite? [$a,$b].concat() ==> rt_concat2([$a,$b])
//@end
//@fn pmt/src/nibbles.rs Nibbles::extend props C08 C06
//@spec
    ensures final(self).v() == old(self).v() + b.v(),
//@end
//@fn pmt/src/nibbles.rs Nibbles::truncate props C08 C06
//@spec
    ensures final(self).v() == (if len <= old(self).v().len() { old(self).v().subrange(0, len as int) } else { old(self).v() }),
//@end
//@fn pmt/src/nibbles.rs Nibbles::pop props C08 C06
//@spec
    ensures old(self).v().len() > 0 ==> r == Some(old(self).v().last()) && final(self).v() == old(self).v().drop_last(),
      old(self).v().len() == 0 ==> r.is_none() && final(self).v() == old(self).v(),
//@end
//@fn pmt/src/nibbles.rs Nibbles::push props C08 C06
//@spec
    ensures final(self).v() == old(self).v().push(e),
//@end
}

// ---------------------------------------------------------------- the property
// keys and paths: from_raw then encode_raw gives the key back
pub proof fn c08_key_roundtrip(k: Seq<u8>, t: bool)
    ensures pack(nibs(with_term(unpack(k), t))) == k,
{
    assert(nibs(with_term(unpack(k), t)) =~= unpack(k));
    assert(pack(unpack(k)) =~= k);
}
// distinct keys have distinct, prefix-free paths
pub proof fn c08_key_injective(a: Seq<u8>, b: Seq<u8>)
    requires unpack(a) == unpack(b),
    ensures a == b,
{
    assert(nibs(with_term(unpack(a), false)) =~= unpack(a));
    c08_key_roundtrip(a, false);
    c08_key_roundtrip(b, false);
}
pub proof fn unpack_pack(o: Seq<u8>)
    requires o.len() % 2 == 0, forall|i: int| 0 <= i < o.len() ==> o[i] < 16,
    ensures unpack(pack(o)) == o,
{
    assert forall|i: int| 0 <= i < o.len() implies #[trigger] unpack(pack(o))[i] == o[i] by {
        let j = i / 2;
        let a = o[2 * j];
        let b = o[2 * j + 1];
        assert(a < 16 && b < 16);
        assert(pack(o)[j] == a * 16 + b);
        assert((a * 16 + b) / 16 == a && (a * 16 + b) % 16 == b);
    }
    assert(unpack(pack(o)) =~= o);
}
pub proof fn unhp_of(f: u8, o: Seq<u8>)
    requires o.len() % 2 == 0, forall|i: int| 0 <= i < o.len() ==> o[i] < 16,
    ensures unhp(seq![f] + pack(o)) == with_term(if (f / 16u8) % 2 == 1 { seq![f % 16u8] + o } else { o }, f / 16u8 >= 2),
{
    hide(unpack);
    hide(pack);
    let c = seq![f] + pack(o);
    assert(c.subrange(1, c.len() as int) =~= pack(o));
    assert(c[0] == f);
    unpack_pack(o);
}
pub proof fn byte16(h: int, l: int)
    requires 0 <= h < 4, 0 <= l < 16,
    ensures (16 * h + l) as u8 / 16u8 == h, (16 * h + l) as u8 % 16u8 == l,
{ }
// compact encoding then decoding gives the path back, and the decoder accepts it
pub proof fn c08_compact_roundtrip(s: Seq<u8>)
    requires path_ok(s),
    ensures hp_flag_ok(hp(s)), unhp(hp(s)) == s,
{
    hide(unpack);
    hide(pack);
    hide(unhp);
    let x = nibs(s);
    let t = if has_term(s) { 2int } else { 0int };
    assert(with_term(x, has_term(s)) =~= s);
    if x.len() % 2 == 0 {
        byte16(t, 0);
        unhp_of((16 * t) as u8, x);
    } else {
        let o = x.subrange(1, x.len() as int);
        assert(x[0] < 16);
        byte16(t + 1, x[0] as int);
        unhp_of((16 * (t + 1) + x[0]) as u8, o);
        assert(seq![x[0]] + o =~= x);
    }
}
pub proof fn c08_compact_injective(a: Seq<u8>, b: Seq<u8>)
    requires path_ok(a), path_ok(b), hp(a) == hp(b),
    ensures a == b,
{
    c08_compact_roundtrip(a);
    c08_compact_roundtrip(b);
}
}
