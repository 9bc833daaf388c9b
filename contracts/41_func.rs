// ------------------------------------------------------------------ lemmas on recorded operands and broadcasting
pub proof fn lemma_swf1(a: RcTensor)
    requires rwf(*a.0)
    ensures swf(seq![a])
{}
pub proof fn lemma_swf2(a: RcTensor, b: RcTensor)
    requires rwf(*a.0), rwf(*b.0)
    ensures swf(seq![a, b])
{}
pub proof fn lemma_prod1(n: usize)
    ensures prod(seq![n]) == n, fits(seq![n])
{
    let s = seq![n];
    assert(s.drop_first() =~= Seq::<usize>::empty());
    assert(prod(s.drop_first()) == 1);
    assert(prodz(s.drop_first()) == 1);
    let x = n as nat; let p = prod(s.drop_first());
    assert(x * p == x) by (nonlinear_arith) requires p == 1;
}
pub proof fn lemma_fits1()
    ensures forall|s: Seq<usize>| s.len() == 1 ==> #[trigger] fits(s), forall|s: Seq<usize>| s.len() == 1 ==> #[trigger] prod(s) == s[0]
{
    assert forall|s: Seq<usize>| s.len() == 1 implies #[trigger] fits(s) by { lemma_prod1(s[0]); assert(s =~= seq![s[0]]); }
    assert forall|s: Seq<usize>| s.len() == 1 implies #[trigger] prod(s) == s[0] by { lemma_prod1(s[0]); assert(s =~= seq![s[0]]); }
}
/// position zero
pub proof fn lemma_first(s: Seq<usize>)
    ensures prod(s) > 0 ==> valid(Seq::new(s.len(), |k: int| 0usize), s) && flat(Seq::new(s.len(), |k: int| 0usize), s) == 0
        && bvalid(Seq::new(s.len(), |k: int| 0usize), s) && bidx(Seq::new(s.len(), |k: int| 0usize), s) == Seq::new(s.len(), |k: int| 0usize),
        prod(s) == 0 ==> !bvalid(Seq::new(s.len(), |k: int| 0usize), s)
{
    let z = Seq::new(s.len(), |k: int| 0usize);
    lemma_zero_index(z, s);
    lemma_bidx_full(z, s);
    if bvalid(z, s) { lemma_flat_bound(bidx(z, s), s); }
    if prod(s) > 0 { lemma_flat_zeros(z, s); }
}
/// every index of the broadcast shape can be looked up in both operands
pub proof fn lemma_bcast(a: Seq<usize>, b: Seq<usize>)
    requires compat(a, b)
    ensures forall|i: Seq<usize>| #[trigger] valid(i, bshape(a, b)) ==> bvalid(i, a) && bvalid(i, b)
{
    let o = bshape(a, b);
    assert forall|i: Seq<usize>| #[trigger] valid(i, o) implies bvalid(i, a) && bvalid(i, b) by {
        assert forall|k: int| 0 <= k < a.len() implies #[trigger] bvalid_at(i, a, k) by {
            let j = k + o.len() - a.len();
            assert(i[j] < o[j]);
        }
        assert forall|k: int| 0 <= k < b.len() implies #[trigger] bvalid_at(i, b, k) by {
            let j = k + o.len() - b.len();
            assert(i[j] < o[j]);
            let kb = b.len() - 1 - k;
            if kb < a.len() { assert(compat_at(a, b, kb)); }
        }
    }
}
/// the difference of two tensors: the sum with a recorded negation of the right operand
pub open spec fn sub_is(r: RawTensor, a: RcTensor, b: RcTensor) -> bool {
    &&& has(r, bshape(a.0.shape@, b.0.shape@), add_el(a.0.shape@, a.0.array@, b.0.shape@, neg_el(b.0.array@)))
    &&& rwf(r) && r.grad_fn is Some
    &&& r.grad_fn->0.jacobian_vector_product.op() == DOp::Add
    &&& r.grad_fn->0.inputs@.len() == 2 && r.grad_fn->0.inputs@[0] == a
    &&& has(*r.grad_fn->0.inputs@[1].0, b.0.shape@, neg_el(b.0.array@)) && recorded(*r.grad_fn->0.inputs@[1].0, DOp::Neg, seq![b])
}

// ------------------------------------------------------------------ lemmas on matrix products
pub proof fn lemma_flat1(i: Seq<usize>, s: Seq<usize>)
    requires i.len() == 1, s.len() == 1
    ensures flat(i, s) == i[0], prod(s) == s[0]
{
    let t = s.drop_first();
    assert(t.len() == 0); assert(prod(t) == 1);
    assert(flat(i.drop_first(), t) == 0);
    let x = i[0] as nat; let d = s[0] as nat; let q = prod(t);
    assert(x * q == x && d * q == d) by (nonlinear_arith) requires q == 1;
}
pub proof fn lemma_flat2(i: Seq<usize>, s: Seq<usize>)
    requires i.len() == 2, s.len() == 2
    ensures flat(i, s) == i[0] * s[1] + i[1], prod(s) == s[0] * s[1]
{
    lemma_flat1(i.drop_first(), s.drop_first());
}
pub proof fn lemma_flat3(i: Seq<usize>, s: Seq<usize>)
    requires i.len() == 3, s.len() == 3
    ensures flat(i, s) == (i[0] * s[1] + i[1]) * s[2] + i[2], prod(s) == s[0] * s[1] * s[2]
{
    lemma_flat2(i.drop_first(), s.drop_first());
    let a = i[0] as int; let b = i[1] as int; let m = s[1] as int; let k = s[2] as int; let d = s[0] as int;
    assert(a * (m * k) + b * k == (a * m + b) * k) by (nonlinear_arith);
    assert(d * (m * k) == d * m * k) by (nonlinear_arith);
}
pub proof fn lemma_prod2(a: usize, b: usize)
    ensures prod(seq![a, b]) == a * b, a * b > 0 ==> prodz(seq![a, b]) == a * b
{
    lemma_flat2(seq![0usize, 0usize], seq![a, b]);
    lemma_prod_pos(seq![a, b]);
}
/// batch entries and rows of the left factor
pub open spec fn mm_b(a: Seq<usize>) -> usize { if a.len() == 2 { 1 } else { a[0] } }
pub open spec fn mm_m(a: Seq<usize>) -> usize { a[a.len() - 2] }
pub proof fn lemma_mm_dims(a: Seq<usize>, b: Seq<usize>)
    requires mm_ok(a, b)
    ensures mm_rows(a) == mm_b(a) * mm_m(a), prod(a) == mm_rows(a) * b[0], prod(b) == b[0] * b[1],
        prod(mm_shape(a, b)) == mm_rows(a) * b[1], prod(seq![mm_b(a), mm_m(a), b[1]]) == mm_rows(a) * b[1],
        fits(mm_shape(a, b)) ==> fits(seq![mm_b(a), mm_m(a), b[1]]),
        mm_rows(a) * b[1] == mm_b(a) * (mm_m(a) * b[1])
{
    let z2 = seq![0usize, 0usize]; let z3 = seq![0usize, 0usize, 0usize];
    lemma_flat2(z2, b);
    lemma_flat3(z3, seq![mm_b(a), mm_m(a), b[1]]);
    let t = a.take(a.len() - 1);
    let x = mm_b(a) as int; let y = mm_m(a) as int; let w = b[1] as int;
    assert(x * y * w == x * (y * w)) by (nonlinear_arith);
    if a.len() == 2 {
        lemma_flat1(seq![0usize], t);
        lemma_flat2(z2, a);
        lemma_flat2(z2, mm_shape(a, b));
        assert(x * y == y) by (nonlinear_arith) requires x == 1;
        assert(seq![mm_b(a), mm_m(a), b[1]] =~= seq![1usize] + mm_shape(a, b));
        lemma_prod_cons(1, mm_shape(a, b));
        let p = prodz(mm_shape(a, b));
        assert(1 * p == p) by (nonlinear_arith);
    } else {
        lemma_flat2(z2, t);
        lemma_flat3(z3, a);
        assert(mm_shape(a, b) =~= seq![mm_b(a), mm_m(a), b[1]]);
    }
}
pub proof fn lemma_mm_left(l: Seq<usize>, a: Seq<usize>, e: Seq<T>, batch: usize, i: usize, k: usize)
    requires l.len() == a.len(), 2 <= a.len() <= 3, l[a.len() - 1] == k, k < a[a.len() - 1], l[a.len() - 2] == i, i < mm_m(a),
        batch < mm_b(a), a.len() == 3 ==> l[0] == batch
    ensures bvalid(l, a), at_b(e, a, l) == e[(batch * mm_m(a) + i) * a[a.len() - 1] + k]
{
    assert(valid(l, a));
    lemma_bidx_full(l, a);
    if a.len() == 2 {
        lemma_flat2(l, a);
        let bt = batch as int; let m = mm_m(a) as int;
        assert(bt * m == 0) by (nonlinear_arith) requires bt == 0;
    } else { lemma_flat3(l, a); }
}
pub proof fn lemma_mm_right(l: Seq<usize>, b: Seq<usize>, e: Seq<T>)
    requires l.len() == 2, b.len() == 2, l[0] < b[0], l[1] < b[1]
    ensures bvalid(l, b), at_b(e, b, l) == e[l[0] * b[1] + l[1]]
{
    assert(valid(l, b));
    lemma_bidx_full(l, b);
    lemma_flat2(l, b);
}
/// row-major position of a row and a column
pub proof fn lemma_row(p: int, n: int, r: int, j: int)
    requires p == r * n + j, 0 <= j < n, r >= 0
    ensures p / n == r, p % n == j
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p, n, r, j);
}
pub proof fn lemma_row_bound(r: int, n: int, m: int)
    requires 0 <= r < m, n >= 0
    ensures r * n + n <= m * n, r * n >= 0, (r + 1) * n == r * n + n
{
    assert(r * n + n <= m * n && r * n >= 0 && (r + 1) * n == r * n + n) by (nonlinear_arith) requires 0 <= r < m, n >= 0;
}

// ------------------------------------------------------------------ lemmas on derivatives
/// for an operation without broadcasting, every element receives its own product once
pub proof fn lemma_bacc_self(s: Seq<usize>, d: Seq<T>, g: Seq<T>, q: int, n: nat)
    requires n <= prod(s)
    ensures bacc(s, s, d, g, q, n) == if 0 <= q < n { t_add(t_zero(), t_mul(d[q], g[q])) } else { t_zero() }
    decreases n
{
    if n > 0 {
        lemma_bacc_self(s, d, g, q, (n - 1) as nat);
        lemma_unflat((n - 1) as nat, s);
        lemma_bidx_full(unflat((n - 1) as nat, s), s);
    }
}
pub open spec fn self_grad(d: Seq<T>, g: Seq<T>) -> Seq<T> { Seq::new(d.len(), |p: int| t_add(t_zero(), t_mul(d[p], g[p]))) }
pub proof fn lemma_bacc_self_all(s: Seq<usize>, d: Seq<T>, g: Seq<T>)
    requires d.len() == prod(s)
    ensures bacc_el(s, s, d, g) == self_grad(d, g)
{
    assert forall|q: int| 0 <= q < prod(s) implies bacc(s, s, d, g, q, prod(s)) == t_add(t_zero(), t_mul(d[q], g[q])) by { lemma_bacc_self(s, d, g, q, prod(s)); }
    assert(bacc_el(s, s, d, g) =~= self_grad(d, g));
}

pub proof fn lemma_vec1n(n: usize)
    ensures fits(seq![1usize, n]), prod(seq![1usize, n]) == n
{
    assert(seq![1usize, n] =~= seq![1usize] + seq![n]);
    lemma_prod_cons(1, seq![n]);
    lemma_prod1(n);
    let p = prod(seq![n]); let z = prodz(seq![n]);
    assert(1 * p == p && 1 * z == z) by (nonlinear_arith);
}
pub open spec fn r_is(r: RcTensor, e: Seq<T>) -> bool { r.0.array@ == e }
/// the derivative d of element p of the result
pub open spec fn jac_at<F: Fn(T, T) -> T>(op: F, left: RcTensor, right: RcTensor, b: Seq<usize>, d: T, p: int) -> bool {
    op.ensures((at_b(left.0.array@, left.0.shape@, unflat(p as nat, b)), at_b(right.0.array@, right.0.shape@, unflat(p as nat, b))), d)
}
pub open spec fn binop_jac<F: Fn(T, T) -> T>(op: F, left: RcTensor, right: RcTensor, d: Seq<T>) -> bool {
    let b = bshape(left.0.shape@, right.0.shape@);
    d.len() == prod(b) && forall|p: int| 0 <= p < d.len() ==> jac_at(op, left, right, b, #[trigger] d[p], p)
}
pub open spec fn binop_all(b: Seq<usize>, d: Seq<T>, c: T) -> bool { d.len() == prod(b) && forall|p: int| 0 <= p < d.len() ==> (#[trigger] d[p]) == c }
/// both operands receive their accumulated share
pub open spec fn binop_out(left: RcTensor, right: RcTensor, grad: RcTensor, d: Seq<T>, r: Seq<RcTensor>) -> bool {
    let b = bshape(left.0.shape@, right.0.shape@);
    r.len() == 2 && rwf(*r[0].0) && rwf(*r[1].0)
    && has(*r[0].0, seq![1usize, prod(left.0.shape@) as usize], bacc_el(left.0.shape@, b, d, grad.0.array@))
    && has(*r[1].0, seq![1usize, prod(right.0.shape@) as usize], bacc_el(right.0.shape@, b, d, grad.0.array@))
}

pub open spec fn unary_jac<F: Fn(T) -> T>(op: F, e: Seq<T>, d: Seq<T>) -> bool {
    d.len() == e.len() && forall|p: int| 0 <= p < d.len() ==> op.ensures((e[p],), #[trigger] d[p])
}
pub open spec fn unary_out(tensor: RcTensor, grad: RcTensor, d: Seq<T>, r: Seq<RcTensor>) -> bool {
    r.len() == 1 && rwf(*r[0].0) && has(*r[0].0, seq![1usize, d.len() as usize], self_grad(d, grad.0.array@))
}
pub proof fn lemma_bshape_pos(a: Seq<usize>, b: Seq<usize>)
    requires prod(a) > 0, prod(b) > 0, compat(a, b)
    ensures prod(bshape(a, b)) > 0
{
    lemma_prod_pos(a); lemma_prod_pos(b); lemma_prod_pos(bshape(a, b));
    let o = bshape(a, b);
    assert forall|i: int| 0 <= i < o.len() implies #[trigger] o[i] > 0 by {
        let k = o.len() - 1 - i;
        if k < a.len() { assert(a[a.len() - 1 - k] > 0); }
        if k < b.len() { assert(b[b.len() - 1 - k] > 0); }
    }
}

/// operands of the same shape do not broadcast
pub proof fn lemma_bshape_self(s: Seq<usize>)
    ensures compat(s, s), bshape(s, s) == s,
        forall|x: Seq<T>, y: Seq<T>| x.len() == prod(s) && y.len() == prod(s) ==> #[trigger] add_el(s, x, s, y) == zip_el(|a: T, b: T| t_add(a, b), x, y)
{
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] compat_at(s, s, k) by {}
    assert(bshape(s, s) =~= s);
    assert forall|x: Seq<T>, y: Seq<T>| x.len() == prod(s) && y.len() == prod(s) implies #[trigger] add_el(s, x, s, y) == zip_el(|a: T, b: T| t_add(a, b), x, y) by {
        assert forall|p: int| 0 <= p < prod(s) implies #[trigger] add_el(s, x, s, y)[p] == t_add(x[p], y[p]) by {
            lemma_unflat(p as nat, s);
            lemma_bidx_full(unflat(p as nat, s), s);
        }
        assert(add_el(s, x, s, y) =~= zip_el(|a: T, b: T| t_add(a, b), x, y));
    }
}
