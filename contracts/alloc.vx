## the packet id allocator: a free list of ranges, linked in ascending order

#mod pktids
impl Node {
    pub open spec fn taken(&self) -> bool { self is Taken }
    pub open spec fn lo(&self) -> int { self->range@.start as int }
    /// (of a range an iteration has used up: none)
    pub open spec fn hi(&self) -> int { if self->range@.exhausted { -1 } else { self->range@.end as int } }
    pub open spec fn nxt(&self) -> int { self->next as int }
}
/// the node after the k-th of the list; node 0 ends it
pub open spec fn at(x: Seq<int>, k: int) -> int { if 0 <= k < x.len() { x[k] } else { 0 } }
pub open spec fn node_ok(r: Seq<Node>, x: Seq<int>, k: int) -> bool {
    &&& 0 < x[k] < r.len()
    &&& r[x[k]].taken()
    &&& 1 <= r[x[k]].lo() <= r[x[k]].hi() <= 65535
    &&& r[x[k]].nxt() == at(x, k + 1)
}
/// `x` are the nodes of the list that starts at node `s`
pub open spec fn wf_at(r: Seq<Node>, s: int, x: Seq<int>) -> bool {
    &&& r.len() > 0 && !r[0].taken()
    &&& s == at(x, 0)
    &&& forall|k: int| 0 <= k < x.len() ==> #[trigger] node_ok(r, x, k)
    &&& forall|j: int, k: int| 0 <= j < k < x.len() ==> r[#[trigger] x[j]].hi() < r[#[trigger] x[k]].lo()
}
pub open spec fn in_node(r: Seq<Node>, x: Seq<int>, k: int, id: int) -> bool {
    0 <= k < x.len() && r[x[k]].lo() <= id <= r[x[k]].hi()
}
pub open spec fn free_at(r: Seq<Node>, x: Seq<int>, id: int) -> bool {
    exists|k: int| in_node(r, x, k, id)
}
/// where node `i` is in the list
pub open spec fn pos(x: Seq<int>, i: int) -> int {
    if exists|k: int| 0 <= k < x.len() && x[k] == i { choose|k: int| 0 <= k < x.len() && x[k] == i } else { x.len() as int }
}
impl PktIds {
    pub open spec fn wf(&self) -> bool { exists|x: Seq<int>| wf_at(self.ranges@, self.start as int, x) }
    pub open spec fn ixs(&self) -> Seq<int> { choose|x: Seq<int>| wf_at(self.ranges@, self.start as int, x) }
    /// the id is not in use
    pub open spec fn free(&self, id: int) -> bool { free_at(self.ranges@, self.ixs(), id) }
}
pub proof fn alloc_unique(r: Seq<Node>, s: int, x: Seq<int>, y: Seq<int>, n: int)
    requires wf_at(r, s, x), wf_at(r, s, y), 0 <= n,
    ensures
        at(x, n) == at(y, n), n < x.len() <==> n < y.len(),
        forall|k: int| 0 <= k <= n ==> #[trigger] at(x, k) == at(y, k),
    decreases n,
{
    if n < x.len() { assert(node_ok(r, x, n)); }
    if n < y.len() { assert(node_ok(r, y, n)); }
    if n > 0 {
        alloc_unique(r, s, x, y, n - 1);
        if n - 1 < x.len() { assert(node_ok(r, x, n - 1) && node_ok(r, y, n - 1)); }
    }
}
/// the list of an allocator is the one list that fits
pub broadcast proof fn alloc_view(p: PktIds, x: Seq<int>)
    requires #[trigger] wf_at(p.ranges@, p.start as int, x),
    ensures p.wf(), p.ixs() == x,
{
    let y = p.ixs();
    alloc_unique(p.ranges@, p.start as int, x, y, (x.len() + y.len()) as int);
    alloc_unique(p.ranges@, p.start as int, x, y, x.len() as int);
    alloc_unique(p.ranges@, p.start as int, x, y, y.len() as int);
    assert(x.len() == y.len());
    assert forall|k: int| 0 <= k < x.len() implies x[k] == y[k] by { assert(at(x, k) == at(y, k)); }
    assert(x =~= y);
}
/// node indices of the list are all different
pub proof fn alloc_distinct(r: Seq<Node>, s: int, x: Seq<int>)
    requires wf_at(r, s, x),
    ensures
        forall|j: int, k: int| 0 <= j < x.len() && 0 <= k < x.len() && #[trigger] x[j] == #[trigger] x[k] ==> j == k,
        forall|k: int| 0 <= k < x.len() ==> #[trigger] pos(x, x[k]) == k,
        forall|k: int| 0 <= k < x.len() ==> 0 < #[trigger] x[k] < r.len() && r[x[k]].taken(),
        pos(x, 0) == x.len(),
{
    assert forall|k: int| 0 <= k < x.len() implies 0 < #[trigger] x[k] < r.len() && r[x[k]].taken() by { assert(node_ok(r, x, k)); }
    assert forall|j: int, k: int| 0 <= j < x.len() && 0 <= k < x.len() && #[trigger] x[j] == #[trigger] x[k] implies j == k by {
        assert(node_ok(r, x, j) && node_ok(r, x, k));
    }
}
/// an id between the (k-1)-th and the k-th range is not in the list
pub proof fn alloc_gap(r: Seq<Node>, x: Seq<int>, k: int, id: int)
    requires
        wf_at(r, at(x, 0), x), 0 <= k <= x.len(),
        forall|j: int| 0 <= j < k ==> r[#[trigger] x[j]].hi() < id,
        k < x.len() ==> id < r[x[k]].lo(),
    ensures !free_at(r, x, id),
{
    assert forall|j: int| !#[trigger] in_node(r, x, j, id) by {
        if k < x.len() { assert(node_ok(r, x, k)); }
        if k <= j < x.len() && j > k { assert(r[x[k]].hi() < r[x[j]].lo()); }
        if 0 <= j < k { assert(r[x[j]].hi() < id); }
    }
}
/// the head's first id leaves the list, the head stays
pub proof fn alloc_shrink(r: Seq<Node>, x: Seq<int>, r2: Seq<Node>)
    requires
        wf_at(r, at(x, 0), x), x.len() > 0, r2.len() == r.len(),
        forall|i: int| 0 <= i < r.len() && i != x[0] ==> r2[i] == r[i],
        r2[x[0]].taken(), r2[x[0]].lo() == r[x[0]].lo() + 1, r2[x[0]].hi() == r[x[0]].hi(), r2[x[0]].nxt() == r[x[0]].nxt(),
        r[x[0]].lo() < r[x[0]].hi(),
    ensures
        wf_at(r2, at(x, 0), x),
        forall|id: int| free_at(r2, x, id) <==> free_at(r, x, id) && id != r[x[0]].lo(),
{
    alloc_distinct(r, at(x, 0), x);
    assert(node_ok(r, x, 0));
    assert forall|k: int| 0 <= k < x.len() implies #[trigger] node_ok(r2, x, k) by { assert(node_ok(r, x, k)); }
    assert forall|id: int| free_at(r2, x, id) <==> free_at(r, x, id) && id != r[x[0]].lo() by {
        if free_at(r2, x, id) { let k = choose|k: int| in_node(r2, x, k, id); assert(node_ok(r, x, k)); assert(in_node(r, x, k, id)); }
        if free_at(r, x, id) && id != r[x[0]].lo() { let k = choose|k: int| in_node(r, x, k, id); assert(in_node(r2, x, k, id)); }
    }
}
/// the head leaves the list with its only id
pub proof fn alloc_pop(r: Seq<Node>, x: Seq<int>, r2: Seq<Node>)
    requires
        wf_at(r, at(x, 0), x), x.len() > 0, r2.len() == r.len(),
        forall|i: int| 0 <= i < r.len() && i != x[0] ==> r2[i] == r[i],
        r[x[0]].lo() == r[x[0]].hi(),
    ensures
        wf_at(r2, r[x[0]].nxt(), x.skip(1)),
        forall|id: int| free_at(r2, x.skip(1), id) <==> free_at(r, x, id) && id != r[x[0]].lo(),
{
    alloc_distinct(r, at(x, 0), x);
    assert(node_ok(r, x, 0));
    let y = x.skip(1);
    assert forall|k: int| 0 <= k < y.len() implies #[trigger] node_ok(r2, y, k) by { assert(node_ok(r, x, k + 1)); assert(y[k] == x[k + 1]); }
    assert forall|id: int| free_at(r2, y, id) <==> free_at(r, x, id) && id != r[x[0]].lo() by {
        if free_at(r2, y, id) { let k = choose|k: int| in_node(r2, y, k, id); assert(y[k] == x[k + 1]); assert(node_ok(r, x, k + 1)); assert(in_node(r, x, k + 1, id)); }
        if free_at(r, x, id) && id != r[x[0]].lo() { let k = choose|k: int| in_node(r, x, k, id); assert(y[k - 1] == x[k]); assert(in_node(r2, y, k - 1, id)); }
    }
}
/// the k-th range grows by `id` at one of its ends
pub proof fn alloc_grow(r: Seq<Node>, x: Seq<int>, r2: Seq<Node>, k: int, id: int)
    requires
        wf_at(r, at(x, 0), x), 0 <= k < x.len(), r2.len() == r.len(), 1 <= id <= 65535,
        forall|i: int| 0 <= i < r.len() && i != x[k] ==> r2[i] == r[i],
        r2[x[k]].taken(), r2[x[k]].nxt() == r[x[k]].nxt(),
        (r2[x[k]].lo() == id && id == r[x[k]].lo() - 1 && r2[x[k]].hi() == r[x[k]].hi())
            || (r2[x[k]].lo() == r[x[k]].lo() && r2[x[k]].hi() == id && id == r[x[k]].hi() + 1),
        !free_at(r, x, id),
    ensures
        wf_at(r2, at(x, 0), x),
        forall|i: int| free_at(r2, x, i) <==> free_at(r, x, i) || i == id,
{
    alloc_distinct(r, at(x, 0), x);
    assert forall|j: int| 0 <= j < x.len() implies #[trigger] node_ok(r2, x, j) by { assert(node_ok(r, x, j)); }
    assert forall|j: int| 0 <= j < x.len() implies !#[trigger] in_node(r, x, j, id) by { }
    assert forall|i: int, j: int| 0 <= i < j < x.len() implies r2[#[trigger] x[i]].hi() < r2[#[trigger] x[j]].lo() by {
        assert(node_ok(r, x, i) && node_ok(r, x, j));
        assert(!in_node(r, x, i, id) && !in_node(r, x, j, id));
    }
    assert forall|i: int| free_at(r2, x, i) <==> free_at(r, x, i) || i == id by {
        if free_at(r2, x, i) { let j = choose|j: int| in_node(r2, x, j, i); assert(i == id || in_node(r, x, j, i)); }
        if free_at(r, x, i) { let j = choose|j: int| in_node(r, x, j, i); assert(in_node(r2, x, j, i)); }
        if i == id { assert(node_ok(r, x, k)); assert(in_node(r2, x, k, i)); }
    }
}
/// a new node `v` with the single id goes between the (k-1)-th and the k-th
proof fn alloc_insert_free(r: Seq<Node>, x: Seq<int>, r2: Seq<Node>, k: int, v: int, id: int)
    requires
        0 <= k <= x.len(),
        r2[v].lo() == id, r2[v].hi() == id,
        forall|j: int| 0 <= j < x.len() ==> r2[#[trigger] x[j]].lo() == r[x[j]].lo() && r2[x[j]].hi() == r[x[j]].hi(),
    ensures forall|i: int| #![trigger free_at(r, x, i)] #![trigger free_at(r2, x.insert(k, v), i)] free_at(r2, x.insert(k, v), i) <==> free_at(r, x, i) || i == id,
{
    let y = x.insert(k, v);
    assert forall|i: int| free_at(r2, y, i) <==> free_at(r, x, i) || i == id by {
        if free_at(r2, y, i) {
            let j = choose|j: int| in_node(r2, y, j, i);
            if j < k { assert(y[j] == x[j]); assert(in_node(r, x, j, i)); } else if j > k { assert(y[j] == x[j - 1]); assert(in_node(r, x, j - 1, i)); }
        }
        if free_at(r, x, i) {
            let j = choose|j: int| in_node(r, x, j, i);
            if j < k { assert(y[j] == x[j]); assert(in_node(r2, y, j, i)); } else { assert(y[j + 1] == x[j]); assert(in_node(r2, y, j + 1, i)); }
        }
        if i == id { assert(y[k] == v); assert(in_node(r2, y, k, i)); }
    }
}
pub proof fn alloc_insert(r: Seq<Node>, x: Seq<int>, r2: Seq<Node>, s2: int, k: int, v: int, id: int)
    requires
        wf_at(r, at(x, 0), x), 0 <= k <= x.len(), 1 <= id <= 65535,
        0 < v <= r.len(), r2.len() == r.len() + (if v == r.len() { 1int } else { 0 }),
        v < r.len() ==> !r[v].taken(),
        forall|i: int| 0 <= i < r.len() && i != v && (k == 0 || i != x[k - 1]) ==> r2[i] == r[i],
        r2[v].taken(), r2[v].lo() == id, r2[v].hi() == id, r2[v].nxt() == at(x, k),
        k == 0 ==> s2 == v,
        k > 0 ==> s2 == at(x, 0) && r2[x[k - 1]].taken() && r2[x[k - 1]].nxt() == v && r2[x[k - 1]].lo() == r[x[k - 1]].lo() && r2[x[k - 1]].hi() == r[x[k - 1]].hi(),
        forall|j: int| 0 <= j < k ==> r[#[trigger] x[j]].hi() < id,
        k < x.len() ==> id < r[x[k]].lo(),
    ensures
        wf_at(r2, s2, x.insert(k, v)),
        forall|i: int| #![trigger free_at(r, x, i)] #![trigger free_at(r2, x.insert(k, v), i)] free_at(r2, x.insert(k, v), i) <==> free_at(r, x, i) || i == id,
{
    let y = x.insert(k, v);
    assert forall|j: int| 0 <= j < y.len() implies y[j] == if j < k { x[j] } else if j == k { v } else { x[j - 1] } by { }
    assert forall|j: int| 0 <= j < x.len() implies #[trigger] x[j] != v && x[j] < r.len() && r2[x[j]].lo() == r[x[j]].lo() && r2[x[j]].hi() == r[x[j]].hi() && r2[x[j]].taken() && (j != k - 1 ==> r2[x[j]].nxt() == r[x[j]].nxt()) by {
        assert(node_ok(r, x, j));
        alloc_distinct(r, at(x, 0), x);
    }
    assert forall|j: int| 0 <= j < y.len() implies #[trigger] node_ok(r2, y, j) by {
        if j < k { assert(node_ok(r, x, j)); } else if j > k { assert(node_ok(r, x, j - 1)); }
    }
    assert forall|j: int| k <= j < x.len() implies id < r[#[trigger] x[j]].lo() by { if j > k { assert(r[x[k]].hi() < r[x[j]].lo()); assert(node_ok(r, x, k)); } }
    assert forall|i: int, j: int| 0 <= i < j < y.len() implies r2[#[trigger] y[i]].hi() < r2[#[trigger] y[j]].lo() by {
        let a = if i < k { i } else { i - 1 };
        let b = if j < k { j } else { j - 1 };
        if i != k { assert(y[i] == x[a]); }
        if j != k { assert(y[j] == x[b]); }
    }
    if k > 0 { assert(node_ok(r, x, k - 1)); }
    assert(!r2[0].taken());
    alloc_insert_free(r, x, r2, k, v, id);
    assert forall|i: int| #![trigger free_at(r, x, i)] #![trigger free_at(r2, x.insert(k, v), i)] free_at(r2, x.insert(k, v), i) <==> free_at(r, x, i) || i == id by { }
}

#fn pktids::PktIds::new
#ret r
#spec
    ensures r.wf(), forall|id: int| r.free(id) <==> 1 <= id <= 65535,
#fn pktids::PktIds::new_with_max
#ret r
#spec
    ensures r.wf(), forall|id: int| r.free(id) <==> 1 <= id <= max@,
#leave
    proof {
        let x = seq![1int];
        assert(wf_at(vx_ret.ranges@, vx_ret.start as int, x)) by { assert(node_ok(vx_ret.ranges@, x, 0)); }
        alloc_view(vx_ret, x);
        assert forall|id: int| vx_ret.free(id) <==> 1 <= id <= max by {
            if vx_ret.free(id) { let k = choose|k: int| in_node(vx_ret.ranges@, x, k, id); }
            if 1 <= id <= max { assert(in_node(vx_ret.ranges@, x, 0, id)); }
        }
    }
#fn pktids::PktIds::next_id
#ret r
#spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        match r {
            Some(id) => old(self).free(id@ as int) && forall|i: int| #[trigger] final(self).free(i) <==> old(self).free(i) && i != id@,
            None => forall|i: int| !#[trigger] old(self).free(i) && !final(self).free(i),
        },
#entry
    let ghost x = self.ixs();
    let ghost r0 = self.ranges@;
    proof {
        alloc_distinct(r0, self.start as int, x);
        if x.len() > 0 { assert(node_ok(r0, x, 0)); assert(in_node(r0, x, 0, r0[x[0]].lo())); }
    }
#leave
    proof {
        if x.len() > 0 {
            if r0[x[0]].lo() < r0[x[0]].hi() {
                alloc_shrink(r0, x, self.ranges@);
                alloc_view(*self, x);
            } else {
                alloc_pop(r0, x, self.ranges@);
                alloc_view(*self, x.skip(1));
            }
        } else {
            assert(self.ranges@ =~= r0);
            alloc_view(*self, x);
        }
    }
#fn pktids::PktIds::return_id
#attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
#spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        forall|i: int| #[trigger] final(self).free(i) <==> old(self).free(i) || i == id@,
#entry
    let ghost x = self.ixs();
    let ghost r0 = self.ranges@;
    let ghost s0 = self.start as int;
    let ghost g = id@ as int;
    proof { alloc_distinct(r0, s0, x); }
#loop 0
    invariant
        self.ranges@ == r0, self.start == s0, id == g, 1 <= g <= 65535,
        wf_at(r0, s0, x),
        next_idx == at(x, pos(x, next_idx as int)),
        match prev_idx {
            None => pos(x, next_idx as int) == 0,
            Some(p) => pos(x, next_idx as int) > 0 && p == x[pos(x, next_idx as int) - 1],
        },
        forall|j: int| 0 <= j < pos(x, next_idx as int) ==> r0[#[trigger] x[j]].hi() < g,
        0 <= pos(x, next_idx as int) <= x.len(),
        pos(x, next_idx as int) < x.len() ==> node_ok(r0, x, pos(x, next_idx as int)),
        pos(x, next_idx as int) > 0 ==> node_ok(r0, x, pos(x, next_idx as int) - 1),
    ensures
        pos(x, next_idx as int) < x.len() ==> g < r0[x[pos(x, next_idx as int)]].lo(),
    decreases x.len() - pos(x, next_idx as int),
#loop-start 0
    proof {
        let k = pos(x, next_idx as int);
        assert(node_ok(r0, x, k));
        if k + 1 < x.len() { assert(pos(x, x[k + 1]) == k + 1); assert(node_ok(r0, x, k + 1)); }
    }
#leave
    proof {
        let k = pos(x, next_idx as int);
        let r2 = self.ranges@;
        if in_node(r0, x, k, g) {
            alloc_view(*self, x);
        } else {
            alloc_gap(r0, x, k, g);
            if k > 0 && r2[x[k - 1]].hi() == g {
                alloc_grow(r0, x, r2, k - 1, g);
                alloc_view(*self, x);
            } else if k < x.len() && r2[x[k]].lo() == g {
                alloc_grow(r0, x, r2, k, g);
                alloc_view(*self, x);
            } else {
                let v = if r2.len() > r0.len() { r0.len() as int } else { choose|v: int| 0 < v < r0.len() && !r0[v].taken() && r2[v].taken() };
                alloc_insert(r0, x, r2, self.start as int, k, v, g);
                alloc_view(*self, x.insert(k, v));
            }
        }
    }
#loop 1
    invariant vx_pos is Some ==> !r0[vx_pos->0 + 1].taken(),
#loop 2
    invariant vx_pos is Some ==> !r0[vx_pos->0 + 1].taken(),
#fn pktids::PktIds::maybe_extend_next_node
#ret r
#spec
    requires
        next_node < old(self).ranges@.len(),
        old(self).ranges@[next_node as int].taken() ==> old(self).ranges@[next_node as int].lo() >= 1 && old(self).ranges@[next_node as int].hi() >= 1,
    ensures
        final(self).start == old(self).start,
        r == (old(self).ranges@[next_node as int].taken() && old(self).ranges@[next_node as int].lo() == id + 1),
        final(self).ranges@.len() == old(self).ranges@.len(),
        forall|i: int| 0 <= i < old(self).ranges@.len() && (!r || i != next_node) ==> final(self).ranges@[i] == old(self).ranges@[i],
        r ==> {
            let o = old(self).ranges@[next_node as int];
            let n = final(self).ranges@[next_node as int];
            n.taken() && n.lo() == id && n.hi() == o.hi() && n.nxt() == o.nxt()
        },
#fn pktids::PktIds::maybe_extend_prev_node
#ret r
#spec
    requires
        prev_node < old(self).ranges@.len(),
        old(self).ranges@[prev_node as int].taken() ==> 0 < old(self).ranges@[prev_node as int].hi() < 65535,
    ensures
        final(self).start == old(self).start,
        r == (old(self).ranges@[prev_node as int].taken() && old(self).ranges@[prev_node as int].hi() + 1 == id),
        final(self).ranges@.len() == old(self).ranges@.len(),
        forall|i: int| 0 <= i < old(self).ranges@.len() && (!r || i != prev_node) ==> final(self).ranges@[i] == old(self).ranges@[i],
        r ==> {
            let o = old(self).ranges@[prev_node as int];
            let n = final(self).ranges@[prev_node as int];
            n.taken() && n.lo() == o.lo() && n.hi() == id && n.nxt() == o.nxt()
        },
