// ------------------------------------------------------------------ tensors and recorded graphs
pub open spec fn raw_ok(r: RawTensor) -> bool { r.array@.len() == prod(r.shape@) && fits(r.shape@) }
/// storage agrees with the shape, here and in every recorded operand, and every recorded operation
/// is one whose derivative is defined for its operands
pub open spec fn rwf(r: RawTensor) -> bool decreases r {
    &&& r.array@.len() == prod(r.shape@) && fits(r.shape@)
    &&& match r.grad_fn {
        None => true,
        Some(d) => dop_ok(d.jacobian_vector_product.op(), d.inputs@, r.array@.len()) && swf(d.inputs@),
    }
}
pub open spec fn swf(s: Seq<RcTensor>) -> bool decreases s {
    forall|k: int| 0 <= k < s.len() ==> rwf(*#[trigger] s[k].0)
}
/// made without a history
pub open spec fn fresh(r: RawTensor) -> bool { r.grad_fn is None }
/// made without a gradient: a clause of its own, so that it can be told from the value and the history
pub open spec fn nograd(r: RawTensor) -> bool { r.grad.init() is None }
/// recorded by an operation: derivative and operands
pub open spec fn recorded(r: RawTensor, op: DOp, inputs: Seq<RcTensor>) -> bool {
    r.grad_fn is Some && r.grad_fn->0.jacobian_vector_product.op() == op && r.grad_fn->0.inputs@ =~= inputs
}
/// contents
pub open spec fn has(r: RawTensor, s: Seq<usize>, e: Seq<T>) -> bool { r.shape@ =~= s && r.array@ =~= e }

// ------------------------------------------------------------------ element-wise operations and broadcasting
pub open spec fn compat(a: Seq<usize>, b: Seq<usize>) -> bool {
    forall|k: int| 0 <= k < a.len() && k < b.len() ==> #[trigger] compat_at(a, b, k)
}
pub open spec fn compat_at(a: Seq<usize>, b: Seq<usize>, k: int) -> bool {
    a[a.len() - 1 - k] == b[b.len() - 1 - k] || a[a.len() - 1 - k] == 1 || b[b.len() - 1 - k] == 1
}
pub open spec fn bdim(a: Seq<usize>, b: Seq<usize>, k: int) -> usize {
    if k >= b.len() { a[a.len() - 1 - k] }
    else if k >= a.len() { b[b.len() - 1 - k] }
    else if a[a.len() - 1 - k] == 1 { b[b.len() - 1 - k] }
    else { a[a.len() - 1 - k] }
}
pub open spec fn max_len(a: Seq<usize>, b: Seq<usize>) -> nat { if a.len() >= b.len() { a.len() } else { b.len() } }
/// right-aligned broadcast shape
pub open spec fn bshape(a: Seq<usize>, b: Seq<usize>) -> Seq<usize> {
    Seq::new(max_len(a, b), |i: int| bdim(a, b, max_len(a, b) - 1 - i))
}
pub open spec fn bin_at(f: spec_fn(T, T) -> T, xs: Seq<usize>, xe: Seq<T>, ys: Seq<usize>, ye: Seq<T>, p: int) -> T {
    f(at_b(xe, xs, unflat(p as nat, bshape(xs, ys))), at_b(ye, ys, unflat(p as nat, bshape(xs, ys))))
}
pub open spec fn bin_el(f: spec_fn(T, T) -> T, xs: Seq<usize>, xe: Seq<T>, ys: Seq<usize>, ye: Seq<T>) -> Seq<T> {
    Seq::new(prod(bshape(xs, ys)), |p: int| bin_at(f, xs, xe, ys, ye, p))
}
pub open spec fn add_el(xs: Seq<usize>, xe: Seq<T>, ys: Seq<usize>, ye: Seq<T>) -> Seq<T> {
    bin_el(|a: T, b: T| t_add(a, b), xs, xe, ys, ye)
}
pub open spec fn map_el(f: spec_fn(T) -> T, e: Seq<T>) -> Seq<T> { Seq::new(e.len(), |p: int| f(e[p])) }
pub open spec fn neg_el(e: Seq<T>) -> Seq<T> { map_el(|a: T| t_neg(a), e) }
pub open spec fn relu1(t: T) -> T { if t_lt(t, t_zero()) { t_zero() } else { t } }
pub open spec fn sgn1(t: T) -> T { if t_ge(t, t_zero()) { t_one() } else { t_sub(t_zero(), t_one()) } }
pub open spec fn step1(t: T) -> T { if t_lt(t, t_zero()) { t_zero() } else { t_one() } }
pub open spec fn dtanh1(t: T) -> T { t_sub(t_one(), t_powi(t_tanh(t), 2)) }
pub open spec fn zip_el(f: spec_fn(T, T) -> T, a: Seq<T>, b: Seq<T>) -> Seq<T> { Seq::new(a.len(), |p: int| f(a[p], b[p])) }
/// zero plus the first n elements in order
pub open spec fn acc_sum(e: Seq<T>, n: nat) -> T decreases n { if n == 0 { t_zero() } else { t_add(acc_sum(e, (n - 1) as nat), e[n - 1]) } }
pub open spec fn acc_dot(a: Seq<T>, b: Seq<T>, n: nat) -> T decreases n {
    if n == 0 { t_zero() } else { t_add(acc_dot(a, b, (n - 1) as nat), t_mul(a[n - 1], b[n - 1])) }
}

// ------------------------------------------------------------------ matrix products
pub open spec fn mm_ok(a: Seq<usize>, b: Seq<usize>) -> bool { 2 <= a.len() && a.len() <= 3 && b.len() == 2 && a[a.len() - 1] == b[0] }
pub open spec fn mm_shape(a: Seq<usize>, b: Seq<usize>) -> Seq<usize> { if a.len() == 2 { seq![a[0], b[1]] } else { seq![a[0], a[1], b[1]] } }
/// rows of all batch entries together
pub open spec fn mm_rows(a: Seq<usize>) -> nat { prod(a.take(a.len() - 1)) }
/// row i (counted through the batch) times column j: zero plus the first c products in order
pub open spec fn mm_acc(ae: Seq<T>, be: Seq<T>, k: nat, n: nat, i: int, j: int, c: nat) -> T decreases c {
    if c == 0 { t_zero() } else { t_add(mm_acc(ae, be, k, n, i, j, (c - 1) as nat), t_mul(ae[i * k + (c - 1)], be[(c - 1) * n + j])) }
}
pub open spec fn mm_el(a: Seq<usize>, ae: Seq<T>, b: Seq<usize>, be: Seq<T>) -> Seq<T> {
    Seq::new(mm_rows(a) * b[1] as nat, |p: int| mm_acc(ae, be, b[0] as nat, b[1] as nat, p / b[1] as int, p % b[1] as int, b[0] as nat))
}

// ------------------------------------------------------------------ derivatives
/// broadcast accumulation: element q of an operand of shape s receives d*g of every element of the
/// broadcast result (shape b) that q was broadcast to, in row-major order, starting from zero
pub open spec fn bacc(s: Seq<usize>, b: Seq<usize>, d: Seq<T>, g: Seq<T>, q: int, n: nat) -> T decreases n {
    if n == 0 { t_zero() }
    else if flat(bidx(unflat((n - 1) as nat, b), s), s) == q { t_add(bacc(s, b, d, g, q, (n - 1) as nat), t_mul(d[n - 1], g[n - 1])) }
    else { bacc(s, b, d, g, q, (n - 1) as nat) }
}
pub open spec fn bacc_el(s: Seq<usize>, b: Seq<usize>, d: Seq<T>, g: Seq<T>) -> Seq<T> {
    Seq::new(prod(s), |q: int| bacc(s, b, d, g, q, prod(b)))
}
/// conditions on the operands of a recorded operation with n result elements
pub open spec fn dop_ok(op: DOp, i: Seq<RcTensor>, n: nat) -> bool {
    match op {
        DOp::Neg | DOp::Abs | DOp::Relu => i.len() == 1 && i[0].0.array@.len() == n,
        // the full jacobian the code builds has n * n elements
        DOp::Tanh => i.len() == 1 && i[0].0.array@.len() == n && fits(seq![n as usize, n as usize]),
        DOp::Sum => i.len() == 1 && n == 1,
        DOp::Add => i.len() == 2 && compat(i[0].0.shape@, i[1].0.shape@) && fits(bshape(i[0].0.shape@, i[1].0.shape@))
            && prod(bshape(i[0].0.shape@, i[1].0.shape@)) == n,
        DOp::Bmm => i.len() == 2 && mm_ok(i[0].0.shape@, i[1].0.shape@) && n == mm_rows(i[0].0.shape@) * i[1].0.shape@[1] as nat,
        DOp::Dot => i.len() == 2 && i[0].0.shape@ == i[1].0.shape@ && n == 1,
        DOp::Ext => false,
    }
}
/// what operand k receives when g comes in
pub open spec fn dgrad(op: DOp, i: Seq<RcTensor>, g: Seq<T>, k: int) -> Seq<T> {
    let s0 = i[0].0.shape@; let e0 = i[0].0.array@;
    match op {
        DOp::Neg => self_grad(map_el(|t: T| t_neg(t_one()), e0), g),
        DOp::Abs => self_grad(map_el(|t: T| sgn1(t), e0), g),
        DOp::Relu => self_grad(map_el(|t: T| step1(t), e0), g),
        DOp::Tanh => tanh_grad(e0, g),
        DOp::Sum => Seq::new(e0.len(), |p: int| g[0]),
        DOp::Add => {
            let b = bshape(s0, i[1].0.shape@);
            bacc_el(i[k].0.shape@, b, Seq::new(prod(b), |p: int| t_one()), g)
        },
        DOp::Bmm => {
            let n = i[1].0.shape@[1] as nat; let c = i[1].0.shape@[0] as nat; let m = mm_rows(s0);
            if k == 0 { Seq::new(e0.len(), |p: int| mm_dl(i[1].0.array@, g, c, n, p / c as int, p % c as int, n)) }
            else { Seq::new(i[1].0.array@.len(), |p: int| mm_dr(e0, g, c, n, p / n as int, p % n as int, m)) }
        },
        DOp::Dot => Seq::new(e0.len(), |p: int| t_add(t_zero(), t_mul(g[0], i[1 - k].0.array@[p]))),
        DOp::Ext => Seq::empty(),
    }
}
/// row a of G times row b of B: entry (a, b) of G B^T
pub open spec fn mm_dl(be: Seq<T>, g: Seq<T>, c: nat, n: nat, a: int, b: int, m: nat) -> T decreases m {
    if m == 0 { t_zero() } else { t_add(mm_dl(be, g, c, n, a, b, (m - 1) as nat), t_mul(g[a * n + (m - 1)], be[b * n + (m - 1)])) }
}
/// column a of A times column b of G: entry (a, b) of A^T G
pub open spec fn mm_dr(ae: Seq<T>, g: Seq<T>, c: nat, n: nat, a: int, b: int, m: nat) -> T decreases m {
    if m == 0 { t_zero() } else { t_add(mm_dr(ae, g, c, n, a, b, (m - 1) as nat), t_mul(g[(m - 1) * n + b], ae[(m - 1) * c + a])) }
}
/// the code multiplies g by the full (diagonal) jacobian
pub open spec fn tanh_jac(e: Seq<T>) -> Seq<T> {
    Seq::new(e.len() * e.len(), |p: int| if p / e.len() as int == p % e.len() as int { dtanh1(e[p / e.len() as int]) } else { t_zero() })
}
pub open spec fn tanh_grad(e: Seq<T>, g: Seq<T>) -> Seq<T> {
    if e.len() == 1 { seq![t_mul(g[0], dtanh1(e[0]))] }
    else { Seq::new(e.len(), |p: int| mm_acc(g, tanh_jac(e), e.len(), e.len(), 0, p, e.len())) }
}
pub open spec fn jvp_pre(op: DOp, i: Seq<RcTensor>, g: Seq<RcTensor>) -> bool {
    g.len() == 1 && rwf(*g[0].0) && swf(i) && g[0].0.shape@.len() == 2 && g[0].0.shape@[0] == 1
    && dop_ok(op, i, g[0].0.shape@[1] as nat)
}
pub open spec fn jvp_post(op: DOp, i: Seq<RcTensor>, g: Seq<RcTensor>, r: Seq<RcTensor>) -> bool {
    r.len() == i.len() && swf(r) && forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]).0.array@ == dgrad(op, i, g[0].0.array@, k)
        && r[k].0.shape@ == seq![1usize, i[k].0.array@.len() as usize]
}
pub uninterp spec fn act_ext_pre(k: u64, x: RcTensor) -> bool;
pub uninterp spec fn act_ext_post(k: u64, x: RcTensor, r: RcTensor) -> bool;
pub open spec fn act_pre(op: AOp, x: RcTensor) -> bool { rwf(*x.0) && match op { AOp::Ident => true, AOp::Ext(k) => act_ext_pre(k, x) } }
/// an activation supplied by the user returns a tensor made by this library, hence a well-formed one
pub open spec fn act_post(op: AOp, x: RcTensor, r: RcTensor) -> bool { rwf(*r.0) && match op { AOp::Ident => r == x, AOp::Ext(k) => act_ext_post(k, x, r) } }
pub open spec fn vx_same(a: RcTensor, b: RcTensor) -> bool { a.0.shape@ == b.0.shape@ && t_seq_eq(a.0.array@, b.0.array@) }
/// a derivative outside the recorded operations is never called on a well-formed graph
pub fn vx_ext_jvpfn(k: u64, inputs: Vec<RcTensor>, grads: Vec<RcTensor>) -> (r: Vec<RcTensor>)
    requires jvp_pre(DOp::Ext, inputs@, grads@)
    ensures jvp_post(DOp::Ext, inputs@, grads@, r@)
{ proof { assert(false); } Vec::new() }
/// an activation supplied by the caller of the library
#[verifier::external_body]
pub fn vx_ext_actfn(k: u64, x: RcTensor) -> (r: RcTensor)
    requires rwf(*x.0), vx_R() || act_pre(AOp::Ext(k), x)
    ensures act_pre(AOp::Ext(k), x), act_post(AOp::Ext(k), x, r)
{ unimplemented!() }
/// concatenated elements of the first n parts of a nested sequence
pub open spec fn from_cat<U>(x: Seq<U>, n: nat) -> Seq<T> where RawTensor: VxFrom<U> decreases n {
    if n == 0 { Seq::empty() } else { from_cat(x, (n - 1) as nat) + RawTensor::from_el(x[n - 1]) }
}
/// t is the tensor made from x
pub open spec fn from_one<U>(x: U, t: RawTensor) -> bool where RawTensor: VxFrom<U> {
    RawTensor::from_ok(x) && rwf(t) && t.shape@ == RawTensor::from_sh(x) && t.array@ == RawTensor::from_el(x)
}
pub open spec fn from_vec_ok<U>(x: Seq<U>) -> bool where RawTensor: VxFrom<U> {
    forall|i: int| 0 <= i < x.len() ==> RawTensor::from_ok(#[trigger] x[i]) && RawTensor::from_sh(x[i]) == RawTensor::from_sh(x[0])
}
// ------------------------------------------------------------------ products
pub open spec fn mul_ok(a: Seq<usize>, b: Seq<usize>) -> bool { a.len() == 0 || b.len() == 0 || a == b }
pub open spec fn mul_sh(a: Seq<usize>, b: Seq<usize>) -> Seq<usize> { if a.len() == 0 { b } else { a } }
pub open spec fn mul_el(a: Seq<usize>, ae: Seq<T>, b: Seq<usize>, be: Seq<T>) -> Seq<T> {
    if a.len() == 0 { map_el(|t: T| t_mul(ae[0], t), be) } else if b.len() == 0 { map_el(|t: T| t_mul(t, be[0]), ae) } else { zip_el(|x: T, y: T| t_mul(x, y), ae, be) }
}
pub open spec fn mul_is(r: RawTensor, a: Seq<usize>, ae: Seq<T>, b: Seq<usize>, be: Seq<T>) -> bool { has(r, mul_sh(a, b), mul_el(a, ae, b, be)) }
// ------------------------------------------------------------------ stored gradients
/// cells that existed before keep their gradient
pub open spec fn heap_frame(a: GradHeap, b: GradHeap) -> bool {
    (forall|k: int| a.known().contains(k) ==> (#[trigger] (b.at())(k)) == (a.at())(k)) && (forall|k: int| a.known().contains(k) ==> #[trigger] b.known().contains(k))
}
/// the gradient g can be added to what is stored
pub open spec fn grad_fits(s: Option<RcTensor>, g: RcTensor) -> bool {
    s is Some ==> rwf(*(s->0).0) && (s->0).0.shape@ == g.0.shape@
}
/// g has been added to what was stored
pub open spec fn grad_added(s: Option<RcTensor>, g: RcTensor, t: Option<RcTensor>) -> bool {
    t is Some && rwf(*(t->0).0) && (t->0).0.shape@ == g.0.shape@
    && match s { None => t->0 == g, Some(o) => (t->0).0.array@ == zip_el(|a: T, b: T| t_add(a, b), o.0.array@, g.0.array@) }
}
pub open spec fn heap_add(a: GradHeap, b: GradHeap, id: int, g: RcTensor) -> bool {
    grad_added((a.at())(id), g, (b.at())(id)) && forall|k: int| k != id ==> (#[trigger] (b.at())(k)) == (a.at())(k)
}
pub open spec fn win_el(e: Seq<T>, s: Seq<usize>, o: Seq<SliceRange>) -> Seq<T> {
    Seq::new(prod(win_shape(o)), |p: int| e[flat(win_shift(unflat(p as nat, win_shape(o)), o), s) as int])
}
pub proof fn lemma_from_cat<U>(x: Seq<U>, n: nat) where RawTensor: VxFrom<U>
    requires n <= x.len(),
        forall|i: int| 0 <= i < n ==> #[trigger] RawTensor::from_el(x[i]).len() == prod(RawTensor::from_sh(x[0])),
    ensures from_cat(x, n).len() == n * prod(RawTensor::from_sh(x[0]))
    decreases n
{
    let p = prod(RawTensor::from_sh(x[0]));
    if n > 0 {
        lemma_from_cat(x, (n - 1) as nat);
        assert(RawTensor::from_el(x[n - 1]).len() == p);
        let m = (n - 1) as nat;
        assert(m * p + p == n * p) by (nonlinear_arith) requires n == m + 1;
    } else {
        assert(0 * p == 0) by (nonlinear_arith);
    }
}
