// jmt/src/tree_cache.rs and jmt/src/writer.rs
//@common match self.node_cache.entry($k) { Entry::Vacant($id_o) => { $st_a $id_o.insert($n); } Entry::Occupied($id_p) => return Err(rt_err()), }; ==> { let rt_k = $k; if !self.node_cache.contains_key(&rt_k) { $st_a self.node_cache.insert(rt_k, $n); } else { return Err(rt_err()); } }
verus! {
pub use std::sync::Arc;
impl RtKey for StaleNodeIndex { open spec fn before(a: (u64, NK), b: (u64, NK)) -> bool { a.0 < b.0 } type V = (u64, NK); open spec fn kv(&self) -> (u64, NK) { (self.stale_since_version, self.node_key.nk()) } open spec fn kok(&self) -> bool { self.node_key.wf() } }
// (its order is the derived one: the version first)
//@type jmt/src/writer.rs StaleNodeIndex struct StaleNodeIndex { pub stale_since_version: ==> struct StaleNodeIndex { pub stale_since_version:
//@const jmt/src/writer.rs StaleNodeIndexBatch
//@type jmt/src/writer.rs NodeStats
//@type jmt/src/writer.rs NodeBatch
//@type jmt/src/writer.rs TreeUpdateBatch
pub open spec fn okv(m: Map<(u64, Seq<u8>), Option<OwnedValue>>, k: (u64, Seq<u8>)) -> Option<Option<Seq<u8>>> { if m.contains_key(k) { Some(ov(m[k])) } else { None } }
impl NodeBatch {
    pub open spec fn ns(&self) -> W { self.nodes@ }
//@fn jmt/src/writer.rs NodeBatch::nodes props C09 C10
//@spec
    ensures r@ == self.ns(),
//@end
//@fn jmt/src/writer.rs NodeBatch::values props C09
//@spec
    ensures r@ == self.values@,
//@end
//@fn jmt/src/writer.rs NodeBatch::get_node props C09
//@spec
    requires node_key.wf(),
    ensures match r { Some(n) => at(self.ns(), node_key.nk()) == Some(*n), None => !self.ns().contains_key(node_key.nk()) },
//@end
//@fn jmt/src/writer.rs NodeBatch::insert_node props C09
//@spec
    requires node_key.wf(),
    ensures final(self).ns() == old(self).ns().insert(node_key.nk(), node), final(self).values == old(self).values, r == at(old(self).ns(), node_key.nk()),
//@end
//@fn jmt/src/writer.rs NodeBatch::insert_value props C09
//@spec
    ensures final(self).values@ == old(self).values@.insert((version, key_hash.0@), Some(value)), final(self).nodes == old(self).nodes,
//@end
//@fn jmt/src/writer.rs NodeBatch::extend props C09 C10
//@sig impl IntoIterator<Item = (NodeKey, Node)> ==> RtItems<NodeKey, Node>
//@sig impl IntoIterator<Item = ((Version, KeyHash), Option<OwnedValue>)> ==> RtItems<(Version, KeyHash), Option<OwnedValue>>
//@spec
    ensures final(self).ns() == old(self).ns().union_prefer_right(nodes@), final(self).values@ == old(self).values@.union_prefer_right(values@),
//@end
//@fn jmt/src/writer.rs NodeBatch::is_empty props C09
//@spec
    ensures r == (self.ns().len() == 0 && self.values@.len() == 0),
//@end
//@fn jmt/src/writer.rs NodeBatch::clear props C09
//@spec
    ensures final(self).ns() == W::empty(), final(self).values@ == Map::<(u64, Seq<u8>), Option<OwnedValue>>::empty(),
//@end
}
//@type jmt/src/tree_cache.rs FrozenTreeCache
// <NodeBatch as Default>::default (derived)
pub fn rt_node_batch() -> (r: NodeBatch)
    ensures r.ns() == W::empty(), r.values@ == Map::<(u64, Seq<u8>), Option<OwnedValue>>::empty(),
{ NodeBatch { nodes: BTreeMap::new(), values: BTreeMap::new() } }
impl FrozenTreeCache {
//@fn jmt/src/tree_cache.rs FrozenTreeCache::new props C09 C10 C21
//@rewrite? node_cache: Default::default() ==> node_cache: rt_node_batch()
//@spec
    ensures r.node_cache.ns() == W::empty(), r.node_cache.values@ == Map::<(u64, Seq<u8>), Option<OwnedValue>>::empty(), r.stale_node_index_cache@ == Set::<(u64, NK)>::empty(), r.node_stats@.len() == 0, r.root_hashes@.len() == 0,
//@end
}
//@type jmt/src/tree_cache.rs TreeCache
pub open spec fn leaves(w: W) -> Set<NK> { w.dom().filter(|k: NK| w[k] is Leaf) }
pub open spec fn over(a: W, b: W) -> W { a.union_prefer_right(b) }
impl<'a, R: TreeReader> TreeCache<'a, R> {
    pub open spec fn base(&self) -> W { self.reader.nodes() }
    pub open spec fn fz(&self) -> W { self.frozen_cache.node_cache.ns() }
    // everything before this version
    pub open spec fn past(&self) -> W { over(self.base(), self.fz()) }
    pub open spec fn nc(&self) -> W { self.node_cache@ }
    pub open spec fn w(&self) -> W { over(self.past(), self.nc()) }
    pub open spec fn st(&self) -> Set<NK> { self.stale_node_index_cache@ }
    pub open spec fn ver(&self) -> u64 { self.next_version }
    pub open spec fn stl(&self) -> Set<NK> { self.st().filter(|k: NK| self.past()[k] is Leaf) }
    pub open spec fn wf(&self) -> bool {
        &&& self.root_node_key.wf() && self.root_node_key.p() == Seq::<u8>::empty()
        &&& self.next_version < u64::MAX
        &&& forall|k: NK| #[trigger] self.nc().contains_key(k) ==> k.0 == self.next_version
        &&& forall|k: NK| #[trigger] self.past().contains_key(k) ==> vo(k.0) < self.next_version
        &&& forall|k: NK| #[trigger] self.st().contains(k) ==> self.past().contains_key(k)
        &&& self.num_new_leaves == leaves(self.nc()).len()
        &&& self.num_stale_leaves == self.stl().len()
    }
    // the same but for the nodes of this version and those it makes stale
    pub open spec fn same_env(&self, o: Self) -> bool {
        &&& self.root_node_key == o.root_node_key && self.next_version == o.next_version && self.value_cache == o.value_cache
        &&& self.frozen_cache == o.frozen_cache && self.reader == o.reader
    }
//@fn jmt/src/tree_cache.rs TreeCache::get_node props C09 C10
//@spec
    requires node_key.wf(),
    ensures r matches Ok(n) ==> at(self.w(), node_key.nk()) == Some(n), self.reader.reliable() && self.w().contains_key(node_key.nk()) ==> r is Ok,
//@end
//@fn jmt/src/tree_cache.rs TreeCache::get_node_option props C09 C10
//@spec
    requires node_key.wf(),
    ensures r matches Ok(o) ==> o == at(self.w(), node_key.nk()), self.reader.reliable() ==> r is Ok,
//@end
//@fn jmt/src/tree_cache.rs TreeCache::get_root_node_key props C09 C10
//@spec
    ensures *r == self.root_node_key,
//@end
//@fn jmt/src/tree_cache.rs TreeCache::set_root_node_key props C09 C10
//@spec
    ensures *final(self) == (TreeCache { root_node_key, ..*old(self) }),
//@end
//@fn jmt/src/tree_cache.rs TreeCache::put_node props C09 C10 C21
//@spec
    requires old(self).wf(), node_key.wf(), node_key.version == old(self).ver(),
    ensures old(self).nc().contains_key(node_key.nk()) ==> r is Err && *final(self) == *old(self),
        !old(self).nc().contains_key(node_key.nk()) ==> r is Ok && final(self).wf() && final(self).same_env(*old(self)) && final(self).nc() == old(self).nc().insert(node_key.nk(), new_node)
            && final(self).st() == old(self).st() && final(self).w() == old(self).w().insert(node_key.nk(), new_node),
//@start
    proof { leaves_insert(self.nc(), node_key.nk(), new_node); }
//@tail
    proof { if r is Ok { assert(final(self).w() =~= old(self).w().insert(node_key.nk(), new_node)); assert(self.stl() == old(self).stl()); } }
//@end
//@fn jmt/src/tree_cache.rs TreeCache::put_value props C09
//@spec
    ensures final(self).value_cache@ == old(self).value_cache@.insert((version, key_hash.0@), value),
        *final(self) == (TreeCache { value_cache: final(self).value_cache, ..*old(self) }),
//@end
//@fn jmt/src/tree_cache.rs TreeCache::delete_node props C16 C21
//@spec
    requires old(self).wf(), old_node_key.wf(), old(self).w().contains_key(old_node_key.nk()), is_leaf == (old(self).w()[old_node_key.nk()] is Leaf), !old(self).st().contains(old_node_key.nk()),
    ensures final(self).wf(), final(self).same_env(*old(self)),
        old_node_key.version == old(self).ver() ==> final(self).nc() == old(self).nc().remove(old_node_key.nk()) && final(self).st() == old(self).st() && final(self).w() == old(self).w().remove(old_node_key.nk()),
        old_node_key.version != old(self).ver() ==> final(self).nc() == old(self).nc() && final(self).st() == old(self).st().insert(old_node_key.nk()) && final(self).w() == old(self).w(),
//@start
    let ghost x = old_node_key.nk();
    proof {
        leaves_remove(self.nc(), x);
        vstd::set_lib::lemma_len_subset(self.stl(), self.st());
        let s1 = self.st().insert(x);
        let f = s1.filter(|k: NK| self.past()[k] is Leaf);
        if self.past()[x] is Leaf { assert(f =~= self.stl().insert(x)); } else { assert(f =~= self.stl()); }
        assert(x.0 == self.next_version ==> !self.past().contains_key(x));
        assert(x.0 != self.next_version ==> !self.nc().contains_key(x) && self.past().contains_key(x) && self.nc().remove(x) =~= self.nc());
        assert(x.0 == self.next_version ==> over(self.past(), self.nc().remove(x)) =~= self.w().remove(x));
    }
//@end
}
impl<'a, R: TreeReader> TreeCache<'a, R> {
    // the version of the root this cache starts from, and what it adds by itself
    pub open spec fn start_of(base: W, nv: u64) -> u64 { if nv == 0 { if base.contains_key(root_key(PRE_GENESIS_VERSION)) { PRE_GENESIS_VERSION } else { 0 } } else { (nv - 1) as u64 } }
    pub open spec fn start_nc(base: W, nv: u64) -> W { if nv == 0 && !base.contains_key(root_key(PRE_GENESIS_VERSION)) { W::empty().insert(root_key(0), Node::Null) } else { W::empty() } }
//@fn jmt/src/tree_cache.rs TreeCache::new props C09 C10
//@rewrite? reader, num_stale_leaves ==> reader: &**reader, num_stale_leaves
//@rewrite? value_cache: Default::default() ==> value_cache: HashMap::new()
//@spec
    requires next_version < u64::MAX, forall|k: NK| #[trigger] reader.nodes().contains_key(k) ==> vo(k.0) < next_version,
    ensures reader.reliable() ==> r is Ok, r matches Ok(t) ==> t.wf() && *t.reader == **reader && t.frozen_cache.root_hashes@.len() == 0 && t.frozen_cache.node_stats@.len() == 0
        && t.fz() == W::empty() && t.frozen_cache.node_cache.values@ == Map::<(u64, Seq<u8>), Option<OwnedValue>>::empty() && t.frozen_cache.stale_node_index_cache@ == Set::<(u64, NK)>::empty()
        && t.st() == Set::<NK>::empty() && t.value_cache@ == Map::<(u64, Seq<u8>), Option<OwnedValue>>::empty() && t.ver() == next_version
        && t.root_node_key.version == Self::start_of(reader.nodes(), next_version) && t.nc() == Self::start_nc(reader.nodes(), next_version),
//@start
    proof { leaves_insert(W::empty(), root_key(0), Node::Null); assert(leaves(W::empty()) =~= Set::<NK>::empty()); }
//@tail
    proof { if r is Ok { let t = r->Ok_0; assert(t.past() =~= t.base()); assert(t.stl() =~= Set::<NK>::empty()); } }
//@end
//@fn jmt/src/tree_cache.rs TreeCache::freeze props C09 C10 C16 C21
//@attr verifier::loop_isolation(false)
//@rewrite? self.frozen_cache.stale_node_index_cache.extend(self.stale_node_index_cache.drain().map(|$id_k| $f)) ==> { let mut rt_d = self.stale_node_index_cache.drain(); loop { match rt_d.next() { Some($id_k) => { self.frozen_cache.stale_node_index_cache.insert($f); } None => { break; } } } }
//@spec
    requires old(self).wf(), old(self).next_version < u64::MAX - 1, old(self).root_node().wf(),
        !old(self).w().contains_key(old(self).root_node_key.nk()) ==> old(self).root_node_key.version == old(self).ver(),
        old(self).root_node_key.version != old(self).ver() ==> old(self).nc() == W::empty() && old(self).st() == Set::<NK>::empty(),
    ensures old(self).reader.reliable() ==> r is Ok,
        r is Ok ==> final(self).wf() && final(self).reader == old(self).reader && final(self).root_node_key == old(self).root_node_key && final(self).ver() == old(self).ver() + 1
            && final(self).nc() == W::empty() && final(self).st() == Set::<NK>::empty() && final(self).value_cache@ == Map::<(u64, Seq<u8>), Option<OwnedValue>>::empty()
            && final(self).fz() == over(old(self).fz(), old(self).made())
            && final(self).frozen_cache.node_cache.values@ == old(self).frozen_cache.node_cache.values@.union_prefer_right(old(self).value_cache@)
            && stale_adds(final(self).frozen_cache.stale_node_index_cache@, old(self).frozen_cache.stale_node_index_cache@, old(self).ver(), old(self).st())
            && final(self).frozen_cache.root_hashes@.len() == old(self).frozen_cache.root_hashes@.len() + 1
            && final(self).frozen_cache.root_hashes@.drop_last() == old(self).frozen_cache.root_hashes@
            && final(self).frozen_cache.root_hashes@.last().0@ == old(self).root_node().hsh()
            && final(self).frozen_cache.node_stats@.len() == old(self).frozen_cache.node_stats@.len() + 1
            && final(self).frozen_cache.node_stats@.drop_last() == old(self).frozen_cache.node_stats@
            && final(self).frozen_cache.node_stats@.last().says(old(self).made(), old(self).st(), old(self).stl()),
//@start
    let ghost s0 = *self;
//@before let node_stats =
    proof { assert(self.nc() =~= s0.made()); assert(leaves(self.nc()).len() == self.num_new_leaves); }
//@loop 0
    invariant rt_d@.subset_of(s0.st()), stale_adds(self.frozen_cache.stale_node_index_cache@, s0.frozen_cache.stale_node_index_cache@, s0.ver(), s0.st().difference(rt_d@)),
    decreases rt_d@.len(),
//@loopstart 0
    let ghost d0 = rt_d@;
    let ghost f0 = self.frozen_cache.stale_node_index_cache@;
//@tail
    proof { if r is Ok {
        assert(self.past() =~= over(s0.past(), s0.made()));
        assert(self.stl() =~= Set::<NK>::empty());
        assert(leaves(W::empty()) =~= Set::<NK>::empty());
    } }
//@end
    // the root node (one without contents when the last key was deleted)
    pub open spec fn root_node(&self) -> Node { if self.w().contains_key(self.root_node_key.nk()) { self.w()[self.root_node_key.nk()] } else { Node::Null } }
    // the nodes a version adds: those built, or else a root of its own
    pub open spec fn made(&self) -> W {
        if self.root_node_key.version != self.ver() || !self.nc().contains_key(self.root_node_key.nk()) { self.nc().insert(root_key(self.ver()), self.root_node()) } else { self.nc() }
    }
}
impl NodeStats {
    pub open spec fn says(&self, made: W, gone: Set<NK>, gone_leaves: Set<NK>) -> bool {
        self.new_nodes == made.len() && self.new_leaves == leaves(made).len() && self.stale_nodes == gone.len() && self.stale_leaves == gone_leaves.len()
    }
}
//@const jmt/src/types.rs PRE_GENESIS_VERSION u64::max_value() ==> u64::MAX
pub open spec fn stale_adds(n: Set<(u64, NK)>, o: Set<(u64, NK)>, v: u64, s: Set<NK>) -> bool { forall|x: (u64, NK)| #[trigger] n.contains(x) <==> o.contains(x) || (x.0 == v && s.contains(x.1)) }
pub proof fn leaves_insert(w: W, k: NK, n: Node)
    ensures !w.contains_key(k) ==> leaves(w.insert(k, n)).len() == leaves(w).len() + (if n is Leaf { 1int } else { 0int }), leaves(w).len() <= w.len(),
{
    if w.contains_key(k) { }
    else if n is Leaf { assert(leaves(w.insert(k, n)) =~= leaves(w).insert(k)); } else { assert(leaves(w.insert(k, n)) =~= leaves(w)); }
    vstd::set_lib::lemma_len_subset(leaves(w), w.dom());
}
pub proof fn leaves_remove(w: W, k: NK)
    ensures leaves(w.remove(k)).len() == leaves(w).len() - (if w.contains_key(k) && w[k] is Leaf { 1int } else { 0int }),
{
    if w.contains_key(k) && w[k] is Leaf { assert(leaves(w.remove(k)) =~= leaves(w).remove(k)); assert(leaves(w).contains(k)); } else { assert(leaves(w.remove(k)) =~= leaves(w)); }
}
} // verus!
