// ------------------------------------------------------------------ helpers standing for std / itertools calls
pub fn vx_pop_front<A>(v: &mut Vec<A>) -> (r: Option<A>)
    ensures
        old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@,
        old(v)@.len() > 0 ==> r == Some(old(v)@[0]) && final(v)@ == old(v)@.remove(0),
{
    if v.len() == 0 { None } else { Some(v.remove(0)) }
}
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
/// v.iter().product()
pub fn vx_product(v: &Vec<usize>) -> (r: usize)
    requires fits(v@)
    ensures r == prod(v@)
{
    let mut p: usize = 1;
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), p == prod(v@.take(i as int)), fits(v@)
        decreases v@.len() - i
    {
        proof {
            lemma_prod_take(v@, i as int);
            lemma_prodz_parts(v@, i as int + 1);
            lemma_prod_le_z(v@.take(i as int + 1));
        }
        p = p * v[i];
        i = i + 1;
    }
    proof { assert(v@.take(i as int) =~= v@); }
    p
}
/// v[lo..hi].iter().product()
pub fn vx_product_range(v: &Vec<usize>, lo: usize, hi: usize) -> (r: usize)
    requires vx_R() || lo <= hi <= v@.len(), fits(v@)
    ensures lo <= hi <= v@.len(), r == prod(v@.subrange(lo as int, hi as int))
{
    if lo > hi || hi > v.len() { vx_panic::<()>(); }
    let w = vx_subvec(v, lo, hi);
    proof {
        lemma_prodz_parts(v@, lo as int);
        assert(v@.subrange(lo as int, hi as int) =~= v@.skip(lo as int).take(hi - lo));
        lemma_prodz_parts(v@.skip(lo as int), hi - lo);
    }
    vx_product(&w)
}
/// bounds check of v[lo..hi]
pub fn vx_check_range(lo: usize, hi: usize, n: usize)
    requires vx_R() || lo <= hi <= n
    ensures lo <= hi <= n
{ if lo > hi || hi > n { vx_panic::<()>(); } }
/// moving an element out of a vector that is being consumed
#[verifier::external_body]
pub fn vx_move_out<A>(v: &Vec<A>, i: usize) -> (r: A) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
/// v[lo..hi].to_vec()
pub fn vx_subvec<A: Copy>(v: &Vec<A>, lo: usize, hi: usize) -> (r: Vec<A>)
    requires vx_R() || lo <= hi <= v@.len()
    ensures lo <= hi <= v@.len(), r@ == v@.subrange(lo as int, hi as int)
{
    if lo > hi || hi > v.len() { vx_panic::<()>(); }
    let mut r: Vec<A> = Vec::new();
    let mut i = lo;
    while i < hi
        invariant lo <= i <= hi <= v@.len(), r@ =~= v@.subrange(lo as int, i as int)
        decreases hi - i
    { r.push(v[i]); i = i + 1; }
    r
}
/// v[lo..hi].fill(x)
pub fn vx_fill<A: Copy>(v: &mut Vec<A>, lo: usize, hi: usize, x: A)
    requires vx_R() || lo <= hi <= old(v)@.len()
    ensures lo <= hi <= old(v)@.len(), final(v)@.len() == old(v)@.len(),
        forall|k: int| 0 <= k < final(v)@.len() ==> (#[trigger] final(v)@[k]) == (if lo <= k < hi { x } else { old(v)@[k] })
{
    if lo > hi || hi > v.len() { vx_panic::<()>(); }
    let mut i = lo;
    while i < hi
        invariant lo <= i <= hi <= v@.len(), v@.len() == old(v)@.len(),
            forall|k: int| 0 <= k < v@.len() ==> (#[trigger] v@[k]) == (if lo <= k < i { x } else { old(v)@[k] })
        decreases hi - i
    { v[i] = x; i = i + 1; }
}
/// std::ptr::eq, Arc::ptr_eq: one address holds one value
#[verifier::external_body]
pub fn vx_ptr_eq<A>(a: &A, b: &A) -> (r: bool) ensures r ==> *a == *b { unimplemented!() }
pub fn vx_mem_swap<A>(a: &mut A, b: &mut A) ensures *final(a) == *old(b), *final(b) == *old(a) { core::mem::swap(a, b) }
pub fn vx_mem_replace<A>(a: &mut A, b: A) -> (r: A) ensures *final(a) == b, r == *old(a) { let mut b = b; core::mem::swap(a, &mut b); b }
pub fn vx_contains(v: &Vec<usize>, x: &usize) -> (r: bool) ensures r == v@.contains(*x) {
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|k: int| 0 <= k < i ==> (#[trigger] v@[k]) != *x
        decreases v@.len() - i
    { if v[i] == *x { return true; } i = i + 1; }
    false
}
pub fn vx_vec_eq(a: &Vec<usize>, b: &Vec<usize>) -> (r: bool) ensures r == (a@ == b@) {
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len()
        invariant i <= a@.len(), a@.len() == b@.len(), forall|k: int| 0 <= k < i ==> (#[trigger] a@[k]) == b@[k]
        decreases a@.len() - i
    { if a[i] != b[i] { return false; } i = i + 1; }
    proof { assert(a@ =~= b@); }
    true
}
pub open spec fn t_seq_eq(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && forall|p: int| 0 <= p < a.len() ==> t_eq(#[trigger] a[p], b[p]) }
pub fn vx_vec_eq_t(a: &Vec<T>, b: &Vec<T>) -> (r: bool) ensures r == t_seq_eq(a@, b@) {
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len()
        invariant i <= a@.len(), a@.len() == b@.len(), forall|k: int| 0 <= k < i ==> t_eq(#[trigger] a@[k], b@[k])
        decreases a@.len() - i
    { if !(a[i] == b[i]) { return false; } i = i + 1; }
    true
}
/// equality of lookups; the messages of two errors are not compared
pub fn vx_res_eq(a: Result<&T, String>, b: Result<&T, String>) -> (r: bool)
    ensures a is Ok && b is Ok ==> r == t_eq(*a->Ok_0, *b->Ok_0), a is Ok != b is Ok ==> !r
{
    match a {
        Ok(x) => match b { Ok(y) => *x == *y, Err(_) => false },
        Err(_) => match b { Ok(_) => false, Err(_) => vx_any_bool() },
    }
}
#[verifier::external_body]
pub fn vx_any_bool() -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_msg() -> (r: String) { unimplemented!() }
/// split_at_mut on the range lo..hi of a buffer: the position of the cut
pub fn vx_split(lo: usize, hi: usize, n: usize) -> (r: usize)
    requires lo <= hi, vx_R() || n <= hi - lo
    ensures n <= hi - lo, r == lo + n
{ if n > hi - lo { vx_panic::<()>(); } lo + n }
/// position in the buffer of element i of the range lo..hi
pub fn vx_off(lo: usize, hi: usize, i: usize) -> (r: usize)
    requires lo <= hi, vx_R() || i < hi - lo
    ensures i < hi - lo, r == lo + i
{ if i >= hi - lo { vx_panic::<()>(); } lo + i }
pub enum EitherOrBoth<A, B> { Both(A, B), Left(A), Right(B) }

// ------------------------------------------------------------------ what a tensor shows
pub open spec fn at_b(e: Seq<T>, s: Seq<usize>, i: Seq<usize>) -> T { e[flat(bidx(i, s), s) as int] }
/// anything that can be looked up, counted and iterated
pub trait TLGet: Sized {
    /// axis sizes
    spec fn sh(&self) -> Seq<usize>;
    /// elements in row-major order
    spec fn el(&self) -> Seq<T>;
    /// structural invariant; implies el().len() == prod(sh()) and fits(sh())
    spec fn wf(&self) -> bool;
    proof fn lemma_wf(&self) requires self.wf() ensures self.el().len() == prod(self.sh()), fits(self.sh());
    fn shape(&self) -> (r: &Vec<usize>) ensures r@ == self.sh();
    fn get(&self, index: &Vec<usize>) -> (r: Result<&T, String>)
        requires self.wf(),
        ensures r is Ok <==> bvalid(index@, self.sh()),
            r is Ok ==> *r->Ok_0 == at_b(self.el(), self.sh(), index@);
    fn count(&self) -> (r: usize)
        requires self.wf(),
        ensures r == prod(self.sh());
}
pub trait TLTo: TLGet {
    /// r is this tensor, or a fresh tensor with its contents
    spec fn is_tt(&self, r: RcTensor) -> bool;
    /// a copy of a window starts without a gradient
    spec fn tt_nograd(&self, r: RcTensor) -> bool;
    fn to_tensor(&self) -> (r: RcTensor)
        requires self.wf(),
        ensures r.wf(), r.sh() == self.sh(), r.el() == self.el(), self.is_tt(r), self.tt_nograd(r);
}
pub trait Add<R>: Sized { type Output; spec fn add_req(self, right: R) -> bool; fn add(self, right: R) -> (r: Self::Output) requires self.add_req(right); }
pub trait Sub<R>: Sized { type Output; spec fn sub_req(self, right: R) -> bool; fn sub(self, right: R) -> (r: Self::Output) requires self.sub_req(right); }
pub trait Mul<R>: Sized { type Output; spec fn mul_req(self, right: R) -> bool; fn mul(self, right: R) -> (r: Self::Output) requires self.mul_req(right); }
pub trait Neg: Sized { type Output; spec fn neg_req(self) -> bool; fn neg(self) -> (r: Self::Output) requires self.neg_req(); }
/// From, with the condition under which the conversion is accepted and what it yields
pub trait VxFrom<X>: TLGet {
    spec fn from_req(x: X) -> bool;
    spec fn from_ok(x: X) -> bool;
    spec fn from_sh(x: X) -> Seq<usize>;
    spec fn from_el(x: X) -> Seq<T>;
    spec fn from_new(r: Self) -> bool;
    /// made without a gradient
    spec fn from_nograd(r: Self) -> bool;
    fn from_(value: X) -> (r: Self) requires Self::from_req(value), vx_R() || Self::from_ok(value)
        ensures Self::from_ok(value), r.wf(), r.sh() == Self::from_sh(value), r.el() == Self::from_el(value), Self::from_new(r), Self::from_nograd(r);
}

// ------------------------------------------------------------------ gradient cells
/// One stored gradient behind its lock.  id() names the cell, init() is the value it was made with.
#[verifier::external_body]
pub struct GradCell { x: u8 }
impl GradCell {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn init(&self) -> Option<RcTensor>;
}
pub enum GEv { Acq(int), Rel(int), Set(int), Read(int), New(int) }
/// Ghost token: whoever reads or writes a stored gradient needs it, so a function without it cannot
/// change a gradient.  at(id) is the stored value, held() the locked cells, log() the lock history.
#[verifier::external_body]
pub struct GradHeap { x: u8 }
impl GradHeap {
    pub uninterp spec fn at(&self) -> spec_fn(int) -> Option<RcTensor>;
    pub uninterp spec fn held(&self) -> Set<int>;
    pub uninterp spec fn known(&self) -> Set<int>;
    pub uninterp spec fn log(&self) -> Seq<GEv>;
}
pub open spec fn h_upd(f: spec_fn(int) -> Option<RcTensor>, k: int, v: Option<RcTensor>) -> spec_fn(int) -> Option<RcTensor> {
    |i: int| if i == k { v } else { f(i) }
}
impl GradCell {
    #[verifier::external_body]
    pub fn new(v: Option<RcTensor>) -> (r: GradCell) ensures r.init() == v { unimplemented!() }
    #[verifier::external_body]
    pub fn new_h(v: Option<RcTensor>, Tracked(h): Tracked<&mut GradHeap>) -> (r: GradCell)
        ensures r.init() == v, !old(h).known().contains(r.id()), final(h).known() == old(h).known().insert(r.id()),
            final(h).at() == h_upd(old(h).at(), r.id(), v), final(h).held() == old(h).held(), !final(h).held().contains(r.id()), final(h).log() == old(h).log().push(GEv::New(r.id()))
    { unimplemented!() }
    /// lock().read() without the token: some value
    #[verifier::external_body]
    pub fn read_any(&self) -> (r: Option<RcTensor>) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_val(&self, Tracked(h): Tracked<&mut GradHeap>) -> (r: Option<RcTensor>)
        requires !old(h).held().contains(self.id())
        ensures r == (old(h).at())(self.id()), final(h).at() == old(h).at(), final(h).known() == old(h).known(), final(h).held() == old(h).held(),
            final(h).log() == old(h).log().push(GEv::Read(self.id()))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn acquire(&self, Tracked(h): Tracked<&mut GradHeap>) -> (r: Option<RcTensor>)
        requires !old(h).held().contains(self.id())
        ensures r == (old(h).at())(self.id()), final(h).at() == old(h).at(), final(h).known() == old(h).known(),
            final(h).held() == old(h).held().insert(self.id()), final(h).log() == old(h).log().push(GEv::Acq(self.id()))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn release(&self, v: Option<RcTensor>, Tracked(h): Tracked<&mut GradHeap>)
        requires old(h).held().contains(self.id())
        ensures final(h).at() == h_upd(old(h).at(), self.id(), v), final(h).known() == old(h).known(),
            final(h).held() == old(h).held().remove(self.id()), final(h).log() == old(h).log().push(GEv::Rel(self.id()))
    { unimplemented!() }
    /// *lock().write() = v, one critical section
    #[verifier::external_body]
    pub fn store(&self, v: Option<RcTensor>, Tracked(h): Tracked<&mut GradHeap>)
        requires !old(h).held().contains(self.id())
        ensures final(h).at() == h_upd(old(h).at(), self.id(), v), final(h).known() == old(h).known(), final(h).held() == old(h).held(),
            final(h).log() == old(h).log().push(GEv::Set(self.id()))
    { unimplemented!() }
}
pub enum DOp { Neg, Abs, Relu, Tanh, Add, Bmm, Dot, Sum, Ext }
pub enum AOp { Ident, Ext(u64) }
// ------------------------------------------------------------------ iterators
/// number of items already handed out
pub open spec fn it_pos(first: bool, index: Seq<usize>, s: Seq<usize>) -> nat { if first { 0 } else { flat(index, s) + 1 } }
/// state of an iterator over the shape s: index of the last item
pub open spec fn it_wf(first: bool, index: Seq<usize>, s: Seq<usize>) -> bool {
    index.len() == s.len()
    && (first ==> forall|k: int| 0 <= k < s.len() ==> #[trigger] index[k] == 0)
    && (!first ==> valid(index, s))
}
pub open spec fn ii_pos(i: IndexIterator) -> nat { it_pos(i.first, i.index@, i.dimensions@) }
pub open spec fn ii_wf(i: IndexIterator) -> bool { it_wf(i.first, i.index@, i.dimensions@) }
pub open spec fn ei_pos<V: TLGet>(i: ElementIterator<'_, V>) -> nat { it_pos(i.first, i.index@, i.tensor_like.sh()) }
pub open spec fn ei_wf<V: TLGet>(i: ElementIterator<'_, V>) -> bool { i.tensor_like.wf() && it_wf(i.first, i.index@, i.tensor_like.sh()) }
pub proof fn lemma_zero_index(i: Seq<usize>, s: Seq<usize>)
    requires i.len() == s.len(), forall|k: int| 0 <= k < s.len() ==> #[trigger] i[k] == 0
    ensures flat(i, s) == 0, prod(s) > 0 <==> valid(i, s)
{
    lemma_flat_zeros(i, s);
    lemma_prod_pos(s);
    if prod(s) > 0 { assert forall|k: int| 0 <= k < s.len() implies (#[trigger] i[k]) < s[k] by { assert(s[k] > 0); } }
    if valid(i, s) { assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] > 0 by { assert(i[k] < s[k]); } }
}
