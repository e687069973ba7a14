// jmt/src/reader.rs: what a tree reads its nodes and values from
//@common version.into() ==> version
//@common self.$id_f($a)?.ok_or_else(|| rt_err()) ==> (match self.$id_f($a)? { Some(rt_x) => Ok(rt_x), None => Err(rt_err()) })
//@common self.reader.get_node($a).map_err(|err| { $b })? ==> (match self.reader.get_node($a) { Ok(rt_x) => rt_x, Err(_) => return Err(rt_err()) })
verus! {
//@const jmt/src/lib.rs OwnedValue alloc::vec::Vec ==> Vec
impl NodeKey { pub open spec fn nk(&self) -> NK { (self.version, self.p()) } }
pub open spec fn at(w: W, k: NK) -> Option<Node> { if w.contains_key(k) { Some(w[k]) } else { None } }
pub open spec fn ov(o: Option<OwnedValue>) -> Option<Seq<u8>> { match o { Some(x) => Some(x@), None => None } }
pub trait TreeReader: Sized {
    // the nodes stored, by version and path; the newest value of a key at or before a version
    spec fn nodes(&self) -> W;
    spec fn val(&self, v: u64, k: Seq<u8>) -> Option<Seq<u8>>;
    // reads do not fail for reasons of their own
    spec fn reliable(&self) -> bool;
//@fn jmt/src/reader.rs trait TreeReader::get_node props C09 C10 C11
//@nopub
//@spec
    requires node_key.wf(),
    ensures r matches Ok(n) ==> at(self.nodes(), node_key.nk()) == Some(n),
        self.reliable() && self.nodes().contains_key(node_key.nk()) ==> r is Ok,
//@end
    fn get_node_option(&self, node_key: &NodeKey) -> (r: Result<Option<Node>>)
        requires node_key.wf(),
        ensures r matches Ok(o) ==> o == at(self.nodes(), node_key.nk()), self.reliable() ==> r is Ok;
//@fn jmt/src/reader.rs trait TreeReader::get_value props C09 C11
//@nopub
//@sig Self::Version ==> Version
//@spec
    ensures r matches Ok(x) ==> self.val(max_version, key_hash.0@) == Some(x@),
        self.reliable() && self.val(max_version, key_hash.0@) is Some ==> r is Ok,
//@end
    fn get_value_option(&self, max_version: Version, key_hash: KeyHash) -> (r: Result<Option<OwnedValue>>)
        ensures r matches Ok(o) ==> ov(o) == self.val(max_version, key_hash.0@), self.reliable() ==> r is Ok;
}
// ---------------------------------------------------------------- the map of a version
pub open spec fn holds(w: W, v: u64, m: KV) -> bool { kv_ok(m) && rep(w, v, Seq::empty(), m) }
pub open spec fn has_tree(w: W, v: u64) -> bool { exists|m: KV| #[trigger] holds(w, v, m) }
pub open spec fn tmap(w: W, v: u64) -> KV { choose|m: KV| #[trigger] holds(w, v, m) }
pub open spec fn root_key(v: u64) -> NK { (v, Seq::<u8>::empty()) }
pub proof fn rep_unique(w: W, v: u64, p: Seq<u8>, a: KV, b: KV)
    requires rep(w, v, p, a), rep(w, v, p, b), kv_ok(a), kv_ok(b), p.len() <= 64,
    ensures forall|k: Seq<u8>| npre(p, k) ==> (#[trigger] a.contains_key(k) <==> b.contains_key(k)) && (a.contains_key(k) ==> a[k] == b[k]),
    decreases 64 - p.len(),
{
    assert forall|k: Seq<u8>| npre(p, k) implies (#[trigger] a.contains_key(k) <==> b.contains_key(k)) && (a.contains_key(k) ==> a[k] == b[k]) by {
        match w[(v, p)] {
            Node::Null => { assert(!nund(a, p, k) && !nund(b, p, k)); }
            Node::Leaf(l) => { assert(nund(a, p, l.k()) && nund(b, p, l.k())); if a.contains_key(k) { assert(nund(a, p, k)); } if b.contains_key(k) { assert(nund(b, p, k)); } }
            Node::Internal(n) => {
                rep_internal(w, v, p, a);
                rep_internal(w, v, p, b);
                if k.len() == 32 {
                    let x = nibn(k, p.len() as int);
                    nib16(k, p.len() as int);
                    npre_push(p, x, k);
                    assert(crep(w, v, p, a, n.cs()[x as int], x as int));
                    assert(crep(w, v, p, b, n.cs()[x as int], x as int));
                    if n.cs()[x as int] is Some { rep_unique(w, n.cs()[x as int]->0.version, p.push(x), a, b); }
                    else { assert(!nund(a, p.push(x), k) && !nund(b, p.push(x), k)); }
                }
            }
        }
    }
}
pub proof fn holds_unique(w: W, v: u64, a: KV, b: KV)
    requires holds(w, v, a), holds(w, v, b),
    ensures a == b,
{
    rep_unique(w, v, Seq::empty(), a, b);
    assert forall|k: Seq<u8>| (#[trigger] a.contains_key(k) <==> b.contains_key(k)) && (a.contains_key(k) ==> a[k] == b[k]) by { assert(npre(Seq::empty(), k)); }
    assert(a =~= b);
}
pub proof fn tmap_is(w: W, v: u64, m: KV)
    requires holds(w, v, m),
    ensures tmap(w, v) == m, has_tree(w, v),
{ assert(holds(w, v, tmap(w, v))); holds_unique(w, v, m, tmap(w, v)); }
// the value store and the tree agree at a version
pub open spec fn vals_ok<R: TreeReader, H: SimpleHasher>(r: R, v: u64, m: KV) -> bool {
    forall|k: Seq<u8>| k.len() == 32 ==> match #[trigger] r.val(v, k) { Some(x) => m.contains_key(k) && m[k] == H::dig(x), None => !m.contains_key(k) }
}
// a version is either not there, or complete
pub open spec fn version_ok<R: TreeReader, H: SimpleHasher>(r: R, v: u64) -> bool {
    r.nodes().contains_key(root_key(v)) ==> has_tree(r.nodes(), v) && vals_ok::<R, H>(r, v, tmap(r.nodes(), v))
}
} // verus!
