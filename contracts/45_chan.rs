// ------------------------------------------------------------------ channels and the parallel sections
// A mutable slice kept in a structure is a range of the vector it was cut from.
#[derive(Clone, Copy)]
pub struct VxRange { pub lo: usize, pub hi: usize }
impl VxRange {
    pub open spec fn spec_len(&self) -> int { self.hi - self.lo }
    pub fn len(&self) -> (r: usize) requires self.lo <= self.hi ensures r == self.hi - self.lo { self.hi - self.lo }
}
/// &mut v[..]
pub fn vx_whole(n: usize) -> (r: VxRange) ensures r.lo == 0, r.hi == n { VxRange { lo: 0, hi: n } }
pub open spec fn nchunks(n: int, w: int) -> int { if n <= 0 { 0 } else { (n - 1) / w + 1 } }
pub open spec fn chunk_of(r: VxRange, w: int, k: int) -> (int, int) {
    (r.lo + k * w, if r.lo + (k + 1) * w <= r.hi { r.lo + (k + 1) * w } else { r.hi as int })
}
/// r.chunks_mut(w).collect()
pub fn vx_chunks(r: &VxRange, w: usize) -> (o: Vec<VxRange>)
    requires r.lo <= r.hi, vx_R() || w > 0
    ensures w > 0, o@.len() == nchunks(r.hi - r.lo, w as int),
        forall|k: int| 0 <= k < o@.len() ==> ((#[trigger] o@[k]).lo as int, o@[k].hi as int) == chunk_of(*r, w as int, k)
{
    if w == 0 { vx_panic::<()>(); }
    let mut o: Vec<VxRange> = Vec::new();
    let mut a = r.lo;
    proof { let d = w as int; assert(0 * d == 0) by (nonlinear_arith); }
    while a < r.hi
        invariant r.lo <= a <= r.hi, w > 0, (a < r.hi ==> a == r.lo + o@.len() * w), (a == r.hi ==> o@.len() == nchunks(r.hi - r.lo, w as int)),
            forall|k: int| 0 <= k < o@.len() ==> ((#[trigger] o@[k]).lo as int, o@[k].hi as int) == chunk_of(*r, w as int, k)
        decreases r.hi - a
    {
        let b = if r.hi - a <= w { r.hi } else { a + w };
        let ghost q = o@.len() as int; let ghost d = w as int; let ghost n = r.hi - r.lo;
        proof {
            assert((q + 1) * d == q * d + d) by (nonlinear_arith);
            if b == r.hi { assert((n - 1) / d == q) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n - 1, d, q, n - 1 - q * d); } }
        }
        o.push(VxRange { lo: a, hi: b });
        a = b;
    }
    o
}

/// Ghost state of the channels made in one call.  q(c): messages sent and not received, in
/// order; closed(c): every sender kept by the owner was dropped; pending(): channels some task of a
/// parallel section that has not ended sends on (such a task may still be waiting for a thread).
#[verifier::external_body]
pub struct VxChan { x: u8 }
impl VxChan {
    pub uninterp spec fn q(&self, id: int) -> Seq<(usize, T)>;
    pub uninterp spec fn closed(&self, id: int) -> bool;
    pub uninterp spec fn pending(&self) -> Set<int>;
    pub uninterp spec fn n(&self) -> int;
}
pub axiom fn vx_chan_new() -> (tracked c: VxChan) ensures c.n() == 0, c.pending() == Set::<int>::empty();
#[verifier::external_body]
pub struct VxTx { x: u8 }
#[verifier::external_body]
pub struct VxRx { x: u8 }
pub struct VxSendError { pub x: u8 }
impl VxTx {
    pub uninterp spec fn id(&self) -> int;
    /// the room of a bounded channel
    pub uninterp spec fn cap(&self) -> Option<nat>;
    /// A task that sends on a full channel waits for a reader, which may itself be waiting for a thread.
    #[verifier::external_body]
    pub fn send(&self, m: (usize, T), Tracked(c): Tracked<&mut VxChan>) -> (r: Result<(), VxSendError>)
        requires self.cap() is None || old(c).q(self.id()).len() < self.cap()->0
        ensures r is Ok, final(c).n() == old(c).n(), final(c).pending() == old(c).pending().insert(self.id()),
            forall|i: int| (#[trigger] final(c).q(i)) == if i == self.id() { old(c).q(i).push(m) } else { old(c).q(i) },
            forall|i: int| (#[trigger] final(c).closed(i)) == old(c).closed(i)
    { unimplemented!() }
}
impl VxRx {
    pub uninterp spec fn id(&self) -> int;
    /// one step of rx.iter().  It returns without waiting for anybody: the channel is closed and no
    /// unfinished task sends on it, so either a message is there or there will be none.
    #[verifier::external_body]
    pub fn next(&self, Tracked(c): Tracked<&mut VxChan>) -> (r: Option<(usize, T)>)
        requires old(c).closed(self.id()), !old(c).pending().contains(self.id())
        ensures final(c).n() == old(c).n(), final(c).pending() == old(c).pending(),
            r is None <==> old(c).q(self.id()).len() == 0,
            r is None ==> *final(c) == *old(c),
            r is Some ==> r->0 == old(c).q(self.id())[0] && final(c).q(self.id()) == old(c).q(self.id()).skip(1),
            forall|i: int| i != self.id() ==> (#[trigger] final(c).q(i)) == old(c).q(i),
            forall|i: int| (#[trigger] final(c).closed(i)) == old(c).closed(i)
    { unimplemented!() }
}
/// iter::repeat_with(unbounded).take(n).unzip()
#[verifier::external_body]
pub fn vx_channels(n: usize, Tracked(c): Tracked<&mut VxChan>) -> (r: (Vec<VxTx>, Vec<VxRx>))
    ensures r.0@.len() == n, r.1@.len() == n, final(c).n() == old(c).n() + n, final(c).pending() == old(c).pending(),
        forall|k: int| 0 <= k < n ==> (#[trigger] r.0@[k]).id() == old(c).n() + k && r.0@[k].cap() is None,
        forall|k: int| 0 <= k < n ==> (#[trigger] r.1@[k]).id() == old(c).n() + k,
        forall|i: int| (#[trigger] final(c).q(i)) == if old(c).n() <= i < old(c).n() + n { Seq::empty() } else { old(c).q(i) },
        forall|i: int| (#[trigger] final(c).closed(i)) == if old(c).n() <= i < old(c).n() + n { false } else { old(c).closed(i) },
        forall|i: int| old(c).n() <= i < old(c).n() + n ==> !(#[trigger] old(c).pending().contains(i))
{ unimplemented!() }
/// iter::repeat_with(|| bounded(cap)).take(n).unzip()
#[verifier::external_body]
pub fn vx_bounded_channels(n: usize, cap: usize, Tracked(c): Tracked<&mut VxChan>) -> (r: (Vec<VxTx>, Vec<VxRx>))
    ensures r.0@.len() == n, r.1@.len() == n, final(c).n() == old(c).n() + n, final(c).pending() == old(c).pending(),
        forall|k: int| 0 <= k < n ==> (#[trigger] r.0@[k]).id() == old(c).n() + k && r.0@[k].cap() == Some(cap as nat),
        forall|k: int| 0 <= k < n ==> (#[trigger] r.1@[k]).id() == old(c).n() + k,
        forall|i: int| (#[trigger] final(c).q(i)) == if old(c).n() <= i < old(c).n() + n { Seq::empty() } else { old(c).q(i) },
        forall|i: int| (#[trigger] final(c).closed(i)) == if old(c).n() <= i < old(c).n() + n { false } else { old(c).closed(i) },
        forall|i: int| old(c).n() <= i < old(c).n() + n ==> !(#[trigger] old(c).pending().contains(i))
{ unimplemented!() }
/// the clone of an optional shared vector
pub fn vx_clone_senders(s: &Option<Arc<Vec<VxTx>>>) -> (r: Option<Arc<Vec<VxTx>>>) ensures r == *s { match s { Some(a) => Some(a.clone()), None => None } }
/// self.senders = None
#[verifier::external_body]
pub fn vx_drop_senders(s: &mut Option<Arc<Vec<VxTx>>>, Tracked(c): Tracked<&mut VxChan>)
    ensures *final(s) is None, final(c).n() == old(c).n(), final(c).pending() == old(c).pending(),
        forall|i: int| (#[trigger] final(c).q(i)) == old(c).q(i),
        forall|i: int| (#[trigger] final(c).closed(i)) == (old(c).closed(i) || (*old(s) is Some && has_tx(*((*old(s))->0), i)))
{ unimplemented!() }
pub open spec fn has_tx(v: Vec<VxTx>, i: int) -> bool { exists|k: int| 0 <= k < v@.len() && (#[trigger] v@[k]).id() == i }
/// a parallel section begins and ends: when it ends, every task spawned in it is done
#[verifier::external_body]
pub fn vx_scope_begin(Tracked(c): Tracked<&mut VxChan>) -> (r: Ghost<Set<int>>)
    ensures r@ == old(c).pending(), *final(c) == *old(c)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_scope_end0(Tracked(c): Tracked<&mut VxChan>, p: Ghost<Set<int>>)
    ensures final(c).pending() == p@, final(c).n() == old(c).n(),
        forall|i: int| (#[trigger] final(c).q(i)) == old(c).q(i),
        forall|i: int| (#[trigger] final(c).closed(i)) == old(c).closed(i)
{ unimplemented!() }
pub fn vx_scope_end(Tracked(c): Tracked<&mut VxChan>, p: Ghost<Set<int>>)
    ensures final(c).pending() == p@, final(c).n() == old(c).n(),
        forall|i: int| (#[trigger] final(c).q(i)) == old(c).q(i),
        forall|i: int| (#[trigger] final(c).closed(i)) == old(c).closed(i),
        forall|w: SplitArrayWriter| w_wf(w, *old(c)) ==> #[trigger] w_wf(w, *final(c)),
        forall|w: SplitArrayWriter, p: int, v: T| #[trigger] wp(w, *final(c), p, v) == wp(w, *old(c), p, v)
{
    vx_scope_end0(Tracked(c), p);
    proof {
        assert forall|w: SplitArrayWriter| w_wf(w, *old(c)) implies #[trigger] w_wf(w, *c) by {
            assert forall|k: int| 0 <= k < w_n(w) implies #[trigger] w_q(w, *c, k) by { assert(w_q(w, *old(c), k)); }
        }
    }
}

// ------------------------------------------------------------------ what a writer holds
/// v plus the messages for position p, in order
pub open spec fn qfold(q: Seq<(usize, T)>, p: int, v: T) -> T decreases q.len() {
    if q.len() == 0 { v } else {
        let r = qfold(q.drop_last(), p, v);
        if q.last().0 == p { t_add(r, q.last().1) } else { r }
    }
}
pub proof fn lemma_qfold_push(q: Seq<(usize, T)>, m: (usize, T), p: int, v: T)
    ensures qfold(q.push(m), p, v) == if m.0 == p { t_add(qfold(q, p, v), m.1) } else { qfold(q, p, v) }
{ assert(q.push(m).drop_last() =~= q); }
pub proof fn lemma_qfold_head(q: Seq<(usize, T)>, p: int, v: T)
    requires q.len() > 0
    ensures qfold(q, p, v) == qfold(q.skip(1), p, if q[0].0 == p { t_add(v, q[0].1) } else { v })
    decreases q.len()
{
    if q.len() == 1 {
        assert(q.skip(1) =~= Seq::empty());
        assert(q.drop_last() =~= Seq::empty());
        assert(qfold(q.drop_last(), p, v) == v);
    } else {
        lemma_qfold_head(q.drop_last(), p, v);
        assert(q.drop_last().skip(1) =~= q.skip(1).drop_last());
        assert(q.skip(1).last() == q.last());
    }
}
pub open spec fn w_base(w: SplitArrayWriter) -> int { if w.receivers@.len() == 0 { 0 } else { w.receivers@[0].id() } }
pub open spec fn w_n(w: SplitArrayWriter) -> int { w.segments@.len() as int }
pub open spec fn w_len(w: SplitArrayWriter) -> int { if w_n(w) == 0 { 0 } else { w.segments@[w_n(w) - 1].hi as int } }
/// segment k is the k-th run of `width` positions
pub open spec fn w_seg(w: SplitArrayWriter, k: int) -> bool {
    w.segments@[k].lo == k * w.width && w.segments@[k].lo < w.segments@[k].hi && w.segments@[k].hi <= w_len(w)
    && (k < w_n(w) - 1 ==> w.segments@[k].hi == (k + 1) * w.width) && w.segments@[k].hi - w.segments@[k].lo <= w.width
}
pub open spec fn w_shape(w: SplitArrayWriter) -> bool {
    &&& 0 < w.bit_width < 32 && w.width == vstd::arithmetic::power2::pow2(w.bit_width as nat)
    &&& w.receivers@.len() == w_n(w)
    &&& forall|k: int| 0 <= k < w_n(w) ==> #[trigger] w_seg(w, k)
    &&& forall|k: int| 0 <= k < w_n(w) ==> (#[trigger] w.receivers@[k]).id() == w_base(w) + k
}
/// messages of channel k belong to segment k
pub open spec fn q_ok(w: SplitArrayWriter, q: Seq<(usize, T)>, k: int) -> bool {
    forall|m: int| 0 <= m < q.len() ==> w.segments@[k].lo <= (#[trigger] q[m]).0 < w.segments@[k].hi
}
pub open spec fn w_q(w: SplitArrayWriter, c: VxChan, k: int) -> bool { q_ok(w, c.q(w_base(w) + k), k) }
pub open spec fn w_tx(w: SplitArrayWriter) -> bool {
    w.senders is Some && (*(w.senders->0))@.len() == w_n(w) && forall|k: int| 0 <= k < w_n(w) ==> (#[trigger] (*(w.senders->0))@[k]).id() == w_base(w) + k && (*(w.senders->0))@[k].cap() is None
}
pub open spec fn w_wf(w: SplitArrayWriter, c: VxChan) -> bool {
    &&& w_shape(w) && w_tx(w) && 0 <= w_base(w) && w_base(w) + w_n(w) <= c.n()
    &&& forall|k: int| 0 <= k < w_n(w) ==> #[trigger] w_q(w, c, k)
}
pub open spec fn w_mine(w: SplitArrayWriter, i: int) -> bool { w_base(w) <= i < w_base(w) + w_n(w) }
pub open spec fn w_idle(w: SplitArrayWriter, c: VxChan) -> bool { forall|i: int| w_mine(w, i) ==> !(#[trigger] c.pending().contains(i)) }
/// v plus everything sent so far for position p
pub open spec fn wp(w: SplitArrayWriter, c: VxChan, p: int, v: T) -> T { qfold(c.q(w_base(w) + p / (w.width as int)), p, v) }
pub open spec fn chan_id(w: SplitArrayWriter, k: int) -> int { w_base(w) + k }
/// channels other than w's are as they were
pub open spec fn w_frame(w: SplitArrayWriter, a: VxChan, b: VxChan) -> bool {
    &&& a.n() == b.n()
    &&& forall|i: int| !w_mine(w, i) ==> (#[trigger] b.q(i)) == a.q(i)
    &&& forall|i: int| !w_mine(w, i) ==> (#[trigger] b.closed(i)) == a.closed(i)
}
/// while a writer is emptied: what it leaves alone
pub open spec fn st_frame(w: SplitArrayWriter, a: VxChan, b: VxChan) -> bool {
    &&& w_frame(w, a, b) && a.pending() == b.pending()
    &&& forall|i: int| w_mine(w, i) ==> #[trigger] b.closed(i)
}
/// channel k is untouched
pub open spec fn st_todo(w: SplitArrayWriter, a: VxChan, b: VxChan, k: int) -> bool { b.q(chan_id(w, k)) == a.q(chan_id(w, k)) && q_ok(w, a.q(chan_id(w, k)), k) }
/// positions of the first k segments are done, the others untouched
pub open spec fn st_pos(w: SplitArrayWriter, a: VxChan, s: Seq<T>, t: Seq<T>, p: int, k: int) -> bool {
    t[p] == (if p / (w.width as int) < k { wp(w, a, p, s[p]) } else { s[p] })
}
/// position p of segment k: what is still queued completes it
pub open spec fn st_now(w: SplitArrayWriter, a: VxChan, b: VxChan, s: Seq<T>, t: Seq<T>, p: int, k: int) -> bool { qfold(b.q(chan_id(w, k)), p, t[p]) == wp(w, a, p, s[p]) }
pub open spec fn st_rest(w: SplitArrayWriter, a: VxChan, b: VxChan, lo: int) -> bool { forall|k: int| lo <= k < w_n(w) ==> #[trigger] st_todo(w, a, b, k) }
pub open spec fn st_cur(w: SplitArrayWriter, a: VxChan, b: VxChan, s: Seq<T>, t: Seq<T>, k: int) -> bool {
    forall|p: int| 0 <= p < w_len(w) && p / (w.width as int) == k ==> #[trigger] st_now(w, a, b, s, t, p, k)
}
/// the position's segment
pub proof fn lemma_w_seg(w: SplitArrayWriter, p: int)
    requires w_shape(w), 0 <= p < w_len(w)
    ensures 0 <= p / (w.width as int) < w_n(w), w.segments@[p / (w.width as int)].lo <= p < w.segments@[p / (w.width as int)].hi, w.width > 0
{
    vstd::arithmetic::power2::lemma_pow2_pos(w.bit_width as nat);
    let d = w.width as int; let k = p / d;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, d);
    vstd::arithmetic::div_mod::lemma_mod_bound(p, d);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(p, d);
    let l = w_n(w) - 1;
    assert(w_seg(w, l));
    assert(p < l * d + d);
    assert(k <= l) by (nonlinear_arith) requires p == d * k + p % d, p % d >= 0, p < l * d + d, d > 0;
    assert(w_seg(w, k));
    assert(d * k == k * d && (k + 1) * d == k * d + d) by (nonlinear_arith);
}
/// and back
pub proof fn lemma_w_pos(w: SplitArrayWriter, p: int, k: int)
    requires w_shape(w), 0 <= k < w_n(w), w.segments@[k].lo <= p < w.segments@[k].hi
    ensures p / (w.width as int) == k, 0 <= p < w_len(w)
{
    vstd::arithmetic::power2::lemma_pow2_pos(w.bit_width as nat);
    let d = w.width as int;
    assert(w_seg(w, k));
    assert(k * d >= 0) by (nonlinear_arith) requires k >= 0, d > 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p, d, k, p - k * d);
}
pub proof fn lemma_shl1()
    ensures forall|b: usize| b < 32 ==> (#[trigger] (1usize << b)) == vstd::arithmetic::power2::pow2(b as nat) && (1usize << b) > 0
{
    assert forall|b: usize| b < 32 implies (#[trigger] (1usize << b)) == vstd::arithmetic::power2::pow2(b as nat) && (1usize << b) > 0 by {
        vstd::arithmetic::power2::lemma2_to64();
        vstd::arithmetic::power2::lemma_pow2_pos(b as nat);
        if b < 31 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(b as nat, 31); }
        vstd::bits::lemma_usize_shl_is_mul(1, b);
    }
}
pub proof fn lemma_chunks_shape(w: SplitArrayWriter, r: VxRange)
    requires r.lo == 0, r.lo <= r.hi, w.width > 0, w_n(w) == nchunks(r.hi as int, w.width as int),
        forall|k: int| 0 <= k < w_n(w) ==> ((#[trigger] w.segments@[k]).lo as int, w.segments@[k].hi as int) == chunk_of(r, w.width as int, k)
    ensures w_len(w) == r.hi, forall|k: int| 0 <= k < w_n(w) ==> #[trigger] w_seg(w, k)
{
    let d = w.width as int; let n = r.hi as int;
    if n > 0 {
        let l = (n - 1) / d;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n - 1, d);
        vstd::arithmetic::div_mod::lemma_mod_bound(n - 1, d);
        vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n - 1, d);
        assert(d * l == l * d && (l + 1) * d == l * d + d) by (nonlinear_arith);
        assert((w.segments@[l].lo as int, w.segments@[l].hi as int) == chunk_of(r, d, l));
        assert(w_len(w) == n);
        assert forall|k: int| 0 <= k < w_n(w) implies #[trigger] w_seg(w, k) by {
            assert((w.segments@[k].lo as int, w.segments@[k].hi as int) == chunk_of(r, d, k));
            assert((k + 1) * d == k * d + d) by (nonlinear_arith);
            if k < l { assert(k * d + d <= l * d) by (nonlinear_arith) requires k < l, d > 0; }
        }
    }
}

// ------------------------------------------------------------------ the gradient of a matrix product
pub open spec fn is2(v: Seq<usize>, i: usize, j: usize) -> bool { v.len() == 2 && v[0] == i && v[1] == j }
pub proof fn lemma_2d(i: usize, j: usize, s: Seq<usize>)
    requires s.len() == 2, i < s[0], j < s[1]
    ensures i * s[1] + j < prod(s), prod(s) == s[0] * s[1],
        forall|v: Seq<usize>, k: int| is2(v, i, j) && 0 <= k < 2 ==> #[trigger] gi_ok_at(v, s, None, k),
        forall|v: Seq<usize>| is2(v, i, j) ==> flat(#[trigger] gi_idx(v, s, None), s) == i * s[1] + j,
        forall|v: Seq<usize>| is2(v, i, j) ==> #[trigger] bvalid(v, s),
        forall|v: Seq<usize>, e: Seq<T>| is2(v, i, j) ==> #[trigger] at_b(e, s, v) == e[i * s[1] + j]
{
    let u = seq![i, j];
    lemma_bidx_full(u, s);
    lemma_gi_none(u, s);
    lemma_flat2(u, s);
    lemma_flat_bound(u, s);
    assert forall|v: Seq<usize>, k: int| is2(v, i, j) && 0 <= k < 2 implies #[trigger] gi_ok_at(v, s, None, k) by { assert(v =~= u); }
    assert forall|v: Seq<usize>| is2(v, i, j) implies flat(#[trigger] gi_idx(v, s, None), s) == i * s[1] + j by { assert(v =~= u); }
    assert forall|v: Seq<usize>| is2(v, i, j) implies #[trigger] bvalid(v, s) by { assert(v =~= u); }
    assert forall|v: Seq<usize>, e: Seq<T>| is2(v, i, j) implies #[trigger] at_b(e, s, v) == e[i * s[1] + j] by { assert(v =~= u); }
}
/// how many terms position p has received when step (i, k, j) is about to run
pub open spec fn dl_cnt(p: int, c: int, n: nat, i: int, k: int, j: int) -> nat { if p < i * c + k { n } else if p == i * c + k { j as nat } else { 0 } }
pub open spec fn dr_cnt(p: int, n: int, i: int, k: int, j: int) -> nat { if p < k * n + j { (i + 1) as nat } else { i as nat } }
pub open spec fn dl_inv(w: SplitArrayWriter, x: VxChan, be: Seq<T>, g: Seq<T>, c: nat, n: nat, i: int, k: int, j: int) -> bool {
    forall|p: int| 0 <= p < w_len(w) ==> #[trigger] wp(w, x, p, t_zero()) == mm_dl(be, g, c, n, p / c as int, p % c as int, dl_cnt(p, c as int, n, i, k, j))
}
pub open spec fn dr_inv(w: SplitArrayWriter, x: VxChan, ae: Seq<T>, g: Seq<T>, c: nat, n: nat, i: int, k: int, j: int) -> bool {
    forall|p: int| 0 <= p < w_len(w) ==> #[trigger] wp(w, x, p, t_zero()) == mm_dr(ae, g, c, n, p / n as int, p % n as int, dr_cnt(p, n as int, i, k, j))
}
pub open spec fn w_apart(u: SplitArrayWriter, w: SplitArrayWriter) -> bool { forall|i: int| !(#[trigger] w_mine(u, i) && w_mine(w, i)) }
/// what one writer does leaves the other alone
pub proof fn lemma_w_other(u: SplitArrayWriter, w: SplitArrayWriter, a: VxChan, b: VxChan)
    requires w_frame(u, a, b), w_apart(u, w), w_wf(w, a)
    ensures w_wf(w, b), forall|p: int, v: T| 0 <= p < w_len(w) ==> #[trigger] wp(w, b, p, v) == wp(w, a, p, v)
{
    assert forall|k: int| 0 <= k < w_n(w) implies #[trigger] w_q(w, b, k) by { assert(w_q(w, a, k)); assert(w_mine(w, w_base(w) + k)); assert(!w_mine(u, w_base(w) + k)); }
    assert forall|p: int, v: T| 0 <= p < w_len(w) implies #[trigger] wp(w, b, p, v) == wp(w, a, p, v) by {
        lemma_w_seg(w, p);
        let i = w_base(w) + p / (w.width as int);
        assert(w_mine(w, i)); assert(!w_mine(u, i));
    }
}
/// sending g[i,j]*be[k,j] to (i,k)
pub proof fn lemma_dl_step(w: SplitArrayWriter, a: VxChan, b: VxChan, be: Seq<T>, g: Seq<T>, c: nat, n: nat, i: int, k: int, j: int, v: T)
    requires dl_inv(w, a, be, g, c, n, i, k, j), 0 <= i, 0 <= k < c, 0 <= j < n, v == t_mul(g[i * n + j], be[k * n + j]),
        forall|p: int, x: T| 0 <= p < w_len(w) ==> #[trigger] wp(w, b, p, x) == (if p == i * c + k { t_add(wp(w, a, p, x), v) } else { wp(w, a, p, x) })
    ensures dl_inv(w, b, be, g, c, n, i, k, j + 1)
{
    assert forall|p: int| 0 <= p < w_len(w) implies #[trigger] wp(w, b, p, t_zero()) == mm_dl(be, g, c, n, p / c as int, p % c as int, dl_cnt(p, c as int, n, i, k, j + 1)) by {
        assert(wp(w, a, p, t_zero()) == mm_dl(be, g, c, n, p / c as int, p % c as int, dl_cnt(p, c as int, n, i, k, j)));
        if p == i * c + k { lemma_row(p, c as int, i, k); }
    }
}
pub proof fn lemma_dr_step(w: SplitArrayWriter, a: VxChan, b: VxChan, ae: Seq<T>, g: Seq<T>, c: nat, n: nat, i: int, k: int, j: int, v: T)
    requires dr_inv(w, a, ae, g, c, n, i, k, j), 0 <= i, 0 <= k < c, 0 <= j < n, v == t_mul(g[i * n + j], ae[i * c + k]),
        forall|p: int, x: T| 0 <= p < w_len(w) ==> #[trigger] wp(w, b, p, x) == (if p == k * n + j { t_add(wp(w, a, p, x), v) } else { wp(w, a, p, x) })
    ensures dr_inv(w, b, ae, g, c, n, i, k, j + 1)
{
    assert forall|p: int| 0 <= p < w_len(w) implies #[trigger] wp(w, b, p, t_zero()) == mm_dr(ae, g, c, n, p / n as int, p % n as int, dr_cnt(p, n as int, i, k, j + 1)) by {
        assert(wp(w, a, p, t_zero()) == mm_dr(ae, g, c, n, p / n as int, p % n as int, dr_cnt(p, n as int, i, k, j)));
        if p == k * n + j { lemma_row(p, n as int, k, j); }
    }
}
/// end of a row of the loops
pub proof fn lemma_dl_next(w: SplitArrayWriter, x: VxChan, be: Seq<T>, g: Seq<T>, c: nat, n: nat, i: int, k: int)
    ensures dl_inv(w, x, be, g, c, n, i, k, n as int) == dl_inv(w, x, be, g, c, n, i, k + 1, 0), dl_inv(w, x, be, g, c, n, i, c as int, 0) == dl_inv(w, x, be, g, c, n, i + 1, 0, 0)
{
    assert((i + 1) * c == i * c + c) by (nonlinear_arith);
    assert forall|p: int| true implies #[trigger] dl_cnt(p, c as int, n, i, k, n as int) == dl_cnt(p, c as int, n, i, k + 1, 0) by {}
    assert forall|p: int| true implies #[trigger] dl_cnt(p, c as int, n, i, c as int, 0) == dl_cnt(p, c as int, n, i + 1, 0, 0) by {}
    let a = dl_inv(w, x, be, g, c, n, i, k, n as int); let b = dl_inv(w, x, be, g, c, n, i, k + 1, 0);
    if a { assert(b) by { assert forall|p: int| 0 <= p < w_len(w) implies #[trigger] wp(w, x, p, t_zero()) == mm_dl(be, g, c, n, p / c as int, p % c as int, dl_cnt(p, c as int, n, i, k + 1, 0)) by { assert(dl_cnt(p, c as int, n, i, k, n as int) == dl_cnt(p, c as int, n, i, k + 1, 0)); } } }
    if b { assert(a) by { assert forall|p: int| 0 <= p < w_len(w) implies #[trigger] wp(w, x, p, t_zero()) == mm_dl(be, g, c, n, p / c as int, p % c as int, dl_cnt(p, c as int, n, i, k, n as int)) by { assert(dl_cnt(p, c as int, n, i, k, n as int) == dl_cnt(p, c as int, n, i, k + 1, 0)); } } }
    let a = dl_inv(w, x, be, g, c, n, i, c as int, 0); let b = dl_inv(w, x, be, g, c, n, i + 1, 0, 0);
    if a { assert(b) by { assert forall|p: int| 0 <= p < w_len(w) implies #[trigger] wp(w, x, p, t_zero()) == mm_dl(be, g, c, n, p / c as int, p % c as int, dl_cnt(p, c as int, n, i + 1, 0, 0)) by { assert(dl_cnt(p, c as int, n, i, c as int, 0) == dl_cnt(p, c as int, n, i + 1, 0, 0)); } } }
    if b { assert(a) by { assert forall|p: int| 0 <= p < w_len(w) implies #[trigger] wp(w, x, p, t_zero()) == mm_dl(be, g, c, n, p / c as int, p % c as int, dl_cnt(p, c as int, n, i, c as int, 0)) by { assert(dl_cnt(p, c as int, n, i, c as int, 0) == dl_cnt(p, c as int, n, i + 1, 0, 0)); } } }
}
pub proof fn lemma_dr_next(w: SplitArrayWriter, x: VxChan, ae: Seq<T>, g: Seq<T>, c: nat, n: nat, i: int, k: int)
    requires w_len(w) == c * n, i >= 0
    ensures dr_inv(w, x, ae, g, c, n, i, k, n as int) == dr_inv(w, x, ae, g, c, n, i, k + 1, 0), dr_inv(w, x, ae, g, c, n, i, c as int, 0) == dr_inv(w, x, ae, g, c, n, i + 1, 0, 0)
{
    assert((k + 1) * n == k * n + n && 0 * n == 0) by (nonlinear_arith);
    let a = dr_inv(w, x, ae, g, c, n, i, c as int, 0); let b = dr_inv(w, x, ae, g, c, n, i + 1, 0, 0);
    if a { assert(b) by { assert forall|p: int| 0 <= p < w_len(w) implies #[trigger] wp(w, x, p, t_zero()) == mm_dr(ae, g, c, n, p / n as int, p % n as int, dr_cnt(p, n as int, i + 1, 0, 0)) by { assert(dr_cnt(p, n as int, i, c as int, 0) == dr_cnt(p, n as int, i + 1, 0, 0)); } } }
    if b { assert(a) by { assert forall|p: int| 0 <= p < w_len(w) implies #[trigger] wp(w, x, p, t_zero()) == mm_dr(ae, g, c, n, p / n as int, p % n as int, dr_cnt(p, n as int, i, c as int, 0)) by { assert(dr_cnt(p, n as int, i, c as int, 0) == dr_cnt(p, n as int, i + 1, 0, 0)); } } }
}
/// the left operand as one matrix
pub proof fn lemma_mm_tall(a: Seq<usize>)
    requires a.len() >= 2, fits(a)
    ensures mm_rows(a) * a[a.len() - 1] == prod(a), 0 <= mm_rows(a) <= usize::MAX, prod(seq![mm_rows(a) as usize, a[a.len() - 1]]) == prod(a), fits(seq![mm_rows(a) as usize, a[a.len() - 1]]),
        a.subrange(0, a.len() - 1) =~= a.take(a.len() - 1)
{
    let t = a.take(a.len() - 1); let c = a[a.len() - 1];
    assert(a =~= t.push(c));
    lemma_prod_push(t, c);
    lemma_prodz_parts(a, a.len() - 1);
    lemma_prod_le_z(t); lemma_prodz_pos(t);
    let m = prod(t) as usize;
    lemma_prod2(m, c);
    assert(seq![m, c] =~= seq![m].push(c));
    lemma_prod_push(seq![m], c); lemma_prod1(m);
    assert(seq![m].drop_first() =~= Seq::<usize>::empty());
    assert(prodz(seq![m].drop_first()) == 1);
    let mz = if m == 0 { 1nat } else { m as nat }; let p1 = prodz(seq![m].drop_first());
    assert(mz * p1 == mz) by (nonlinear_arith) requires p1 == 1;
    let x = prodz(seq![m]) as int; let y = if c == 0 { 1int } else { c as int }; let z = prodz(t) as int;
    assert(x * y <= z * y) by (nonlinear_arith) requires 0 <= x <= z, y >= 0;
}
/// the two writers when step (i, k, j) is about to run
pub open spec fn bj_inv(l: SplitArrayWriter, r: SplitArrayWriter, x: VxChan, ae: Seq<T>, be: Seq<T>, g: Seq<T>, m: usize, c: usize, n: usize, i: int, k: int, j: int) -> bool {
    w_wf(l, x) && w_wf(r, x) && w_len(l) == m * c && w_len(r) == c * n
    && dl_inv(l, x, be, g, c as nat, n as nat, i, k, j) && dr_inv(r, x, ae, g, c as nat, n as nat, i, k, j)
}
