//# ---------------------------------------------------------------- tensor/functional
@fn max_shape
@params left_shape right_shape
@props C07 C13
@ensures
r@ == bshape(left_shape@, right_shape@)
@loop 0
@invariant
vx_n0 == max_len(left_shape@, right_shape@), max_shape@.len() == vx_p0,
forall|i: int| 0 <= i < vx_p0 ==> #[trigger] max_shape@[i] == bdim(left_shape@, right_shape@, vx_n0 - 1 - i)
@hint loop0 after
proof { assert(max_shape@ =~= bshape(left_shape@, right_shape@)); }

@fn generic_binop_raw
@params left right op
@props C07
@requires
left.wf(), right.wf(), fits(bshape(left.sh(), right.sh()))
@accept
compat(left.sh(), right.sh())
@ensures
r.shape@ == bshape(left.sh(), right.sh()), fresh(r), nograd(r), rwf(r),
forall|p: int| 0 <= p < r.array@.len() ==> op.ensures((at_b(left.el(), left.sh(), unflat(p as nat, r.shape@)), at_b(right.el(), right.sh(), unflat(p as nat, r.shape@))), #[trigger] r.array@[p])
@loop 0
@invariant
ii_wf(vx_it0), vx_it0.dimensions@ == bshape(left.sh(), right.sh()), raw_ok(result), result.shape@ == bshape(left.sh(), right.sh()), fresh(result), nograd(result),
ii_pos(vx_it0) <= prod(result.shape@),
forall|p: int| 0 <= p < ii_pos(vx_it0) ==> op.ensures((at_b(left.el(), left.sh(), unflat(p as nat, result.shape@)), at_b(right.el(), right.sh(), unflat(p as nat, result.shape@))), #[trigger] result.array@[p])
@lensures
ii_pos(vx_it0) == prod(result.shape@)
@ldecreases
prod(result.shape@) - ii_pos(vx_it0)
@hint before get#0
proof {
    lemma_bcast(left.sh(), right.sh());
    lemma_flat_unflat(idx@, result.shape@);
    lemma_bidx_full(idx@, result.shape@);
}

@fn add_raw
@params left right
@props C07
@requires
left.wf(), right.wf(), fits(bshape(left.sh(), right.sh()))
@accept
compat(left.sh(), right.sh())
@ensures
has(r, bshape(left.sh(), right.sh()), add_el(left.sh(), left.el(), right.sh(), right.el())), fresh(r), nograd(r), rwf(r)
@hint end
proof { assert(vx_ret.array@ =~= add_el(left.sh(), left.el(), right.sh(), right.el())); }

@fn add
@params left right
@props C07 C13
@requires
left.wf(), right.wf(), fits(bshape(left.sh(), right.sh()))
@accept
compat(left.sh(), right.sh())
@ensures
has(*r.0, bshape(left.sh(), right.sh()), add_el(left.sh(), left.el(), right.sh(), right.el())), rwf(*r.0),
nograd(*r.0),
exists|a: RcTensor, b: RcTensor| #![trigger left.is_tt(a), right.is_tt(b)] left.is_tt(a) && right.is_tt(b) && recorded(*r.0, DOp::Add, seq![a, b])
@hint end
proof { let i = vx_ret.0.grad_fn->0.inputs@; lemma_swf2(i[0], i[1]); assert(recorded(*vx_ret.0, DOp::Add, seq![i[0], i[1]])); }

@fn generic_unary_op
@params tensor_like op
@props C08
@requires
tensor_like.wf()
@ensures
r.shape@ == tensor_like.sh(), fresh(r), nograd(r), rwf(r),
forall|p: int| 0 <= p < r.array@.len() ==> op.ensures((tensor_like.el()[p],), #[trigger] r.array@[p])
@loop 0
@invariant
vx_n0 == prod(tensor_like.sh()), shape@ == tensor_like.sh(), idx@.len() == shape@.len(), array@.len() == vx_p0,
vx_p0 < vx_n0 ==> valid(idx@, shape@) && flat(idx@, shape@) == vx_p0,
forall|p: int| 0 <= p < vx_p0 ==> op.ensures((tensor_like.el()[p],), #[trigger] array@[p])
@hint start
proof { tensor_like.lemma_wf(); }
@hint loop0 pre
proof { lemma_first(shape@); lemma_zero_index(idx@, shape@); }
@hint loop0 begin
proof { lemma_bidx_full(idx@, shape@); }

@fn abs_raw
@params tensor_like
@props C08
@requires
tensor_like.wf()
@ensures
has(r, tensor_like.sh(), map_el(|a: T| t_abs(a), tensor_like.el())), fresh(r), nograd(r), rwf(r)
@hint end
proof { tensor_like.lemma_wf(); assert(vx_ret.array@ =~= map_el(|a: T| t_abs(a), tensor_like.el())); }

@fn abs
@params tensor
@props C08 C12
@requires
rwf(*tensor.0)
@ensures
has(*r.0, tensor.0.shape@, map_el(|a: T| t_abs(a), tensor.0.array@)), recorded(*r.0, DOp::Abs, seq![tensor]), nograd(*r.0), rwf(*r.0)
@hint start
proof { lemma_swf1(tensor); }

@fn tanh
@params tensor_ref
@props C08 C12
@requires
rwf(*tensor_ref.0), fits(seq![tensor_ref.0.array@.len() as usize, tensor_ref.0.array@.len() as usize])
@ensures
has(*r.0, tensor_ref.0.shape@, map_el(|a: T| t_tanh(a), tensor_ref.0.array@)), recorded(*r.0, DOp::Tanh, seq![tensor_ref]), nograd(*r.0), rwf(*r.0)
@hint end
proof { lemma_swf1(tensor_ref); assert(vx_ret.0.array@ =~= map_el(|a: T| t_tanh(a), tensor_ref.0.array@)); }

@fn relu
@params tensor_ref
@props C08 C12
@requires
rwf(*tensor_ref.0)
@ensures
has(*r.0, tensor_ref.0.shape@, map_el(|a: T| relu1(a), tensor_ref.0.array@)), recorded(*r.0, DOp::Relu, seq![tensor_ref]), nograd(*r.0), rwf(*r.0)
@hint end
proof { lemma_swf1(tensor_ref); assert(vx_ret.0.array@ =~= map_el(|a: T| relu1(a), tensor_ref.0.array@)); }

@fn todo_backward
@accept
false
@fn todo_deriv
@accept
false

@fn dot_raw
@params left right
@props C10
@requires
left.wf(), right.wf()
@accept
left.sh() == right.sh()
@ensures
has(r, seq![1usize], seq![acc_dot(left.el(), right.el(), left.el().len())]), fresh(r), nograd(r), rwf(r)
@loop 0
@invariant
ei_wf(vx_it0), vx_it0.tensor_like == left, ei_pos(vx_it0) <= prod(left.sh()),
ei_wf(vx_it1), vx_it1.tensor_like == right, ei_pos(vx_it1) == ei_pos(vx_it0),
result == acc_dot(left.el(), right.el(), ei_pos(vx_it0))
@lensures
ei_pos(vx_it0) == prod(left.sh())
@ldecreases
prod(left.sh()) - ei_pos(vx_it0)
@hint start
proof { left.lemma_wf(); right.lemma_wf(); lemma_prod1(1); }
@hint end
proof { assert(vx_ret.shape@ =~= seq![1usize]); assert(vx_ret.array@ =~= seq![acc_dot(left.el(), right.el(), left.el().len())]); }

@fn dot_no_derivative
@params left right
@props C10
@requires
left.wf(), right.wf()
@accept
left.sh() == right.sh()
@ensures
has(*r.0, seq![1usize], seq![acc_dot(left.el(), right.el(), left.el().len())]), fresh(*r.0), nograd(*r.0), rwf(*r.0)

@fn dot
@params left right
@props C10 C15
@requires
rwf(*left.0), rwf(*right.0)
@accept
left.0.shape@ == right.0.shape@
@ensures
has(*r.0, seq![1usize], seq![acc_dot(left.0.array@, right.0.array@, left.0.array@.len())]), recorded(*r.0, DOp::Dot, seq![*left, *right]), nograd(*r.0), rwf(*r.0)
@hint start
proof { lemma_swf2(*left, *right); }

@fn element_wise_multiplication
@params left right
@props C09
@requires
left.wf(), right.wf()
@accept
left.sh() == right.sh()
@ensures
has(r, left.sh(), zip_el(|x: T, y: T| t_mul(x, y), left.el(), right.el())), fresh(r), nograd(r), rwf(r)
@loop 0
@invariant
ei_wf(vx_it0), vx_it0.tensor_like == left, ei_pos(vx_it0) <= prod(left.sh()),
ei_wf(vx_it1), vx_it1.tensor_like == right, ei_pos(vx_it1) == ei_pos(vx_it0),
vx_acc2@ =~= zip_el(|x: T, y: T| t_mul(x, y), left.el(), right.el()).take(ei_pos(vx_it0) as int)
@lensures
ei_pos(vx_it0) == prod(left.sh())
@ldecreases
prod(left.sh()) - ei_pos(vx_it0)
@hint start
proof { left.lemma_wf(); right.lemma_wf(); }
@hint end
proof { assert(vx_ret.array@ =~= zip_el(|x: T, y: T| t_mul(x, y), left.el(), right.el())); }

@fn bmm_raw
@params left right
@props C11
@requires
left.wf(), right.wf(), mm_ok(left.sh(), right.sh()) ==> fits(mm_shape(left.sh(), right.sh()))
@accept
mm_ok(left.sh(), right.sh())
@ensures
has(r, mm_shape(left.sh(), right.sh()), mm_el(left.sh(), left.el(), right.sh(), right.el())), fresh(r), nograd(r), rwf(r)
@hint start
let ghost rk: int = left.sh().len() as int; let ghost K: usize = right.sh()[0]; let ghost N: usize = right.sh()[1];
let ghost B: usize = mm_b(left.sh()); let ghost M: usize = mm_m(left.sh());
@hint before product#0
proof { lemma_mm_dims(left.sh(), right.sh()); assert(new_shape@ =~= seq![B, M, N]); }
@loop 0
@invariant
vx_n0 == B, new_shape@ == seq![B, M, N], result_array@.len() == mm_rows(left.sh()) * N, remaining_slice_hi == result_array@.len(),
remaining_slice_lo == vx_p0 * (M * N), left_index@.len() == rk, left_index_len == rk, right_index@ == right.sh(), right_shape@ == right.sh(),
forall|p: int| 0 <= p < remaining_slice_lo ==> #[trigger] result_array@[p] == mm_acc(left.el(), right.el(), K as nat, N as nat, p / N as int, p % N as int, K as nat)
@hint loop0 begin
proof {
    let x = vx_i0 as int; let y = B as int; let w = (M * N) as int;
    assert(w >= 0) by { assert(M * N >= 0) by (nonlinear_arith); }
    lemma_row_bound(x, w, y);
}
@loop 1
@invariant
vx_n1 == M, result_array@.len() == mm_rows(left.sh()) * N, remaining_slice_hi == result_array@.len(),
remaining_slice_lo == batch_idx * (M * N) + vx_p1 * N, left_index@.len() == rk, rk == 3 ==> left_index@[0] == batch_idx,
forall|p: int| 0 <= p < remaining_slice_lo ==> #[trigger] result_array@[p] == mm_acc(left.el(), right.el(), K as nat, N as nat, p / N as int, p % N as int, K as nat)
@hint loop1 begin
let ghost row: int = batch_idx * M + vx_i1;
proof {
    let x = batch_idx as int; let y = M as int; let w = N as int; let u = vx_i1 as int;
    lemma_row_bound(u, w, y);
    assert(x * (y * w) + u * w == (x * y + u) * w) by (nonlinear_arith);
    assert(row * w >= 0 && row >= 0) by (nonlinear_arith) requires row == x * y + u, x >= 0, y >= 0, u >= 0, w >= 0;
}
@loop 2
@invariant
vx_n2 == N, result_array@.len() == mm_rows(left.sh()) * N, slice_lo == row * N + vx_p2, slice_hi == row * N + N,
remaining_slice_lo == row * N + N, left_index@.len() == rk, rk == 3 ==> left_index@[0] == batch_idx, left_index@[rk - 2] == i,
forall|p: int| 0 <= p < slice_lo ==> #[trigger] result_array@[p] == mm_acc(left.el(), right.el(), K as nat, N as nat, p / N as int, p % N as int, K as nat)
@hint loop2 begin
proof { lemma_row(row * N + vx_i2, N as int, row, vx_i2 as int); }
@loop 3
@invariant
vx_n3 == K, left_index2@.len() == rk, left_index2@[rk - 2] == i, rk == 3 ==> left_index2@[0] == batch_idx,
right_index2@.len() == 2, right_index2@[1] == j, i < M, j < N, batch_idx < B,
val == mm_acc(left.el(), right.el(), K as nat, N as nat, row, j as int, vx_p3 as nat)
@hint before get#0
proof { lemma_mm_left(left_index2@, left.sh(), left.el(), batch_idx, i, k); lemma_mm_right(right_index2@, right.sh(), right.el()); }
@loop 4
@invariant
vx_n4 == K, left_index2@.len() == rk, left_index2@[rk - 2] == i, rk == 3 ==> left_index2@[0] == batch_idx,
right_index2@.len() == 2, right_index2@[1] == j, i < M, j < N, batch_idx < B,
val == mm_acc(left.el(), right.el(), K as nat, N as nat, row, j as int, vx_p4 as nat)
@hint before get#2
proof { lemma_mm_left(left_index2@, left.sh(), left.el(), batch_idx, i, k); lemma_mm_right(right_index2@, right.sh(), right.el()); }
@hint end
proof {
    lemma_mm_dims(left.sh(), right.sh());
    assert(vx_ret.shape@ =~= mm_shape(left.sh(), right.sh()));
    assert(vx_ret.array@ =~= mm_el(left.sh(), left.el(), right.sh(), right.el()));
}

@fn jvp_from_diagonal_broadcast
@params diagonal jvp_shape broadcast_shape input_shape grad
@props C12 C13
@requires
rwf(*diagonal.0), rwf(*grad.0), fits(broadcast_shape@), fits(input_shape@), prod(broadcast_shape@) > 0,
diagonal.0.shape@ == seq![1usize, prod(broadcast_shape@) as usize], grad.0.shape@ == seq![1usize, prod(broadcast_shape@) as usize],
jvp_shape is Some, jvp_shape->0@ == seq![1usize, prod(input_shape@) as usize],
forall|i: Seq<usize>| #[trigger] valid(i, broadcast_shape@) ==> bvalid(i, input_shape@)
@ensures
has(*r.0, seq![1usize, prod(input_shape@) as usize], bacc_el(input_shape@, broadcast_shape@, diagonal.0.array@, grad.0.array@)), rwf(*r.0), fresh(*r.0), nograd(*r.0)
@hint start
let ghost n = prod(broadcast_shape@); let ghost m = prod(input_shape@);
let ghost one_n = seq![1usize, n as usize]; let ghost one_m = seq![1usize, m as usize];
proof {
    lemma_prod_le_z(broadcast_shape@); lemma_prod_le_z(input_shape@); 
    lemma_prod2(1, n as usize); lemma_prod2(1, m as usize);
}
@hint loop0 pre
proof {
    lemma_first(broadcast_shape@);
    assert(orig_idx@ =~= Seq::new(broadcast_shape@.len(), |k: int| 0usize));
    lemma_flat2(idx@, one_n);
    assert(fits(one_m)) by { lemma_vec1n(m as usize); }
    assert(fits(one_n)) by { lemma_vec1n(n as usize); }
}
@loop 0
@invariant
valid(idx@, one_n), valid(orig_idx@, broadcast_shape@), flat(orig_idx@, broadcast_shape@) == idx@[1], array@.len() == m,
fits(one_m), fits(one_n), jvp_shape@ == one_m, dim_0 == 1,
forall|q: int| 0 <= q < m ==> #[trigger] array@[q] == bacc(input_shape@, broadcast_shape@, diagonal.0.array@, grad.0.array@, q, idx@[1] as nat)
@lensures
array@.len() == m, forall|q: int| 0 <= q < m ==> #[trigger] array@[q] == bacc(input_shape@, broadcast_shape@, diagonal.0.array@, grad.0.array@, q, n)
@ldecreases
n - idx@[1]
@hint loop0 begin
let ghost pos = idx@[1] as nat;
proof {
    lemma_flat2(idx@, one_n);
    let z = idx@[0] as int; let y = n as int;
    assert(z * y == 0) by (nonlinear_arith) requires z == 0;
    lemma_bidx_full(idx@, one_n);
    lemma_gi_none(idx@, one_n);
    lemma_gi_none(orig_idx@, input_shape@);
    lemma_bidx_valid(orig_idx@, input_shape@);
    lemma_flat_unflat(orig_idx@, broadcast_shape@);
}
@loop 1
@invariant
array@.len() == m, jac_idx1 == pos,
forall|q: int| 0 <= q < m ==> #[trigger] array@[q] == bacc(input_shape@, broadcast_shape@, diagonal.0.array@, grad.0.array@, q, pos + vx_p1 as nat)
@hint before global_index#2
proof {
    let i2 = seq![jac_idx0, output_idx];
    lemma_flat2(i2, one_m); lemma_bidx_full(i2, one_m); lemma_gi_none(i2, one_m);
    let i3 = seq![jac_idx0, jac_idx1];
    lemma_flat2(i3, one_n); lemma_bidx_full(i3, one_n);
    let z = jac_idx0 as int; let x = m as int; let y = n as int;
    assert(z * x == 0 && z * y == 0) by (nonlinear_arith) requires z == 0;
}
@hint loop1 end
proof {
    assert forall|q: int| 0 <= q < m implies #[trigger] array@[q] == bacc(input_shape@, broadcast_shape@, diagonal.0.array@, grad.0.array@, q, pos + vx_p1 as nat) by {
        assert(unflat(pos, broadcast_shape@) == orig_idx@);
    }
}
@hint loop1 after
proof { lemma_flat2(idx@, one_n); }
@hint loop0 end
proof {
    lemma_flat2(idx@, one_n);
    let z = idx@[0] as int; let y = n as int;
    assert(z * y == 0) by (nonlinear_arith) requires z == 0;
}
@hint end
proof { assert(vx_ret.0.array@ =~= bacc_el(input_shape@, broadcast_shape@, diagonal.0.array@, grad.0.array@)); }

@fn generic_unary_jvp
@params tensor grad op_derivative
@props C12
@requires
rwf(*tensor.0), rwf(*grad.0), grad.0.shape@ == seq![1usize, tensor.0.array@.len() as usize]
@ensures
exists|d: Seq<T>| unary_jac(op_derivative, tensor.0.array@, d) && #[trigger] unary_out(*tensor, *grad, d, r@)
@hint start
let ghost s = tensor.0.shape@; let ghost n = prod(s); let ghost e = tensor.0.array@;
proof { lemma_prod_le_z(s); lemma_vec1n(n as usize); }
@hint loop0 pre
proof { lemma_first(s); assert(idx@ =~= Seq::new(s.len(), |k: int| 0usize)); }
@loop 0
@invariant
valid(idx@, s), array@.len() == flat(idx@, s),
forall|p: int| 0 <= p < array@.len() ==> op_derivative.ensures((e[p],), #[trigger] array@[p])
@lensures
array@.len() == n,
forall|p: int| 0 <= p < array@.len() ==> op_derivative.ensures((e[p],), #[trigger] array@[p])
@ldecreases
n - flat(idx@, s)
@hint loop0 begin
proof { lemma_bidx_full(idx@, s); lemma_flat_bound(idx@, s); }
@hint return
proof {
    let d = Seq::<T>::empty();
    assert(vx_ret@[0].0.array@ =~= self_grad(d, grad.0.array@));
    assert(unary_jac(op_derivative, e, d));
    assert(unary_out(*tensor, *grad, d, vx_ret@));
}
@hint before jvp_from_diagonal_broadcast#0
proof {
    assert forall|i: Seq<usize>| #[trigger] valid(i, s) implies bvalid(i, s) by { lemma_bidx_full(i, s); }
    lemma_bacc_self_all(s, diag.0.array@, grad.0.array@);
}
@hint end
proof {
    assert(unary_jac(op_derivative, e, diag.0.array@));
    assert(unary_out(*tensor, *grad, diag.0.array@, vx_ret@));
}

@fn generic_binop_jvp
@params left right grad op_derivative
@props C13
@requires
rwf(*left.0), rwf(*right.0), rwf(*grad.0), compat(left.0.shape@, right.0.shape@), fits(bshape(left.0.shape@, right.0.shape@)),
grad.0.shape@ == seq![1usize, prod(bshape(left.0.shape@, right.0.shape@)) as usize]
@ensures
exists|d: Seq<T>| binop_jac(op_derivative, left, right, d) && #[trigger] binop_out(left, right, grad, d, r@)
@hint start
let ghost b = bshape(left.0.shape@, right.0.shape@); let ghost n = prod(b); 
proof { lemma_prod_le_z(b); lemma_vec1n(n as usize); lemma_bcast(left.0.shape@, right.0.shape@); lemma_prod_le_z(left.0.shape@); lemma_prod_le_z(right.0.shape@); }
@hint loop0 pre
proof { lemma_first(b); assert(idx@ =~= Seq::new(b.len(), |k: int| 0usize)); }
@loop 0
@invariant
broadcast_shape@ == b, valid(idx@, b), array@.len() == flat(idx@, b),
forall|p: int| 0 <= p < array@.len() ==> jac_at(op_derivative, left, right, b, #[trigger] array@[p], p)
@lensures
array@.len() == n,
forall|p: int| 0 <= p < array@.len() ==> jac_at(op_derivative, left, right, b, #[trigger] array@[p], p)
@ldecreases
n - flat(idx@, b)
@hint loop0 begin
proof { lemma_flat_unflat(idx@, b); }
@hint before new_with_filler#0
proof { lemma_vec1n(left.0.array@.len() as usize); lemma_vec1n(right.0.array@.len() as usize); }
@hint return
proof {
    let d = Seq::<T>::empty();
    assert(vx_ret@[0].0.array@ =~= bacc_el(left.0.shape@, b, d, grad.0.array@));
    assert(vx_ret@[1].0.array@ =~= bacc_el(right.0.shape@, b, d, grad.0.array@));
    assert(binop_jac(op_derivative, left, right, d));
    assert(binop_out(left, right, grad, d, vx_ret@));
}
@hint end
proof { assert(binop_jac(op_derivative, left, right, diag.0.array@)); assert(binop_out(left, right, grad, diag.0.array@, vx_ret@)); }

@fn add_jvp
@params tensors grads
@jvp Add
@props C13
@requires
jvp_pre(DOp::Add, tensors@, grads@)
@ensures
jvp_post(DOp::Add, tensors@, grads@, r@)
@hint start
proof {
    let ghost s0 = tensors@[0].0.shape@; let ghost s1 = tensors@[1].0.shape@;
    assert(grads@[0].0.shape@ =~= seq![1usize, prod(bshape(s0, s1)) as usize]);
}
@hint end
proof {
    let b = bshape(tensors@[0].0.shape@, tensors@[1].0.shape@);
    let d = choose|d: Seq<T>| binop_all(b, d, t_one()) && #[trigger] binop_out(tensors@[0], tensors@[1], grads@[0], d, vx_ret@);
    assert(d =~= Seq::new(prod(b), |p: int| t_one()));
}

@fn abs_jvp
@params tensors grads
@jvp Abs
@props C12
@requires
jvp_pre(DOp::Abs, tensors@, grads@)
@ensures
jvp_post(DOp::Abs, tensors@, grads@, r@)
@hint end
proof { assert(vx_ret@[0].0.array@ =~= dgrad(DOp::Abs, tensors@, grads@[0].0.array@, 0)); }
@hint start
proof { assert(grads@[0].0.shape@ =~= seq![1usize, tensors@[0].0.array@.len() as usize]); }

@fn relu$closure0
@params tensors grads
@jvp Relu
@props C12
@requires
jvp_pre(DOp::Relu, tensors@, grads@)
@ensures
jvp_post(DOp::Relu, tensors@, grads@, r@)
@hint end
proof { assert(vx_ret@[0].0.array@ =~= dgrad(DOp::Relu, tensors@, grads@[0].0.array@, 0)); }
@hint start
proof { assert(grads@[0].0.shape@ =~= seq![1usize, tensors@[0].0.array@.len() as usize]); }

@fn tanh_derivative
@params tensor full_jacobian_output
@props C12
@requires
rwf(*tensor.0), full_jacobian_output ==> fits(seq![tensor.0.array@.len() as usize, tensor.0.array@.len() as usize])
@ensures
fresh(*r.0), nograd(*r.0), rwf(*r.0),
!full_jacobian_output ==> has(*r.0, tensor.0.shape@, map_el(|t: T| dtanh1(t), tensor.0.array@)),
full_jacobian_output ==> has(*r.0, seq![tensor.0.array@.len() as usize, tensor.0.array@.len() as usize], tanh_jac(tensor.0.array@))
@hint start
let ghost e = tensor.0.array@; let ghost n = e.len() as int;
proof {
    lemma_prod_le_z(tensor.0.shape@);
    if full_jacobian_output { lemma_prod2(n as usize, n as usize); lemma_prod_le_z(seq![n as usize, n as usize]); }
}
@loop 0
@invariant
ei_wf(vx_it0), vx_it0.tensor_like == tensor, ei_pos(vx_it0) <= prod(tensor.0.shape@), array@.len() == ei_pos(vx_it0),
forall|p: int| 0 <= p < array@.len() ==> #[trigger] array@[p] == dtanh1(e[p])
@lensures
ei_pos(vx_it0) == prod(tensor.0.shape@)
@ldecreases
prod(tensor.0.shape@) - ei_pos(vx_it0)
@hint loop0 after
proof { assert(array@ =~= map_el(|t: T| dtanh1(t), e)); }
@loop 1
@invariant
vx_n1 == n, array@.len() == vx_p1 * n,
forall|p: int| 0 <= p < array@.len() ==> #[trigger] array@[p] == tanh_jac(e)[p]
@hint loop1 begin
proof { lemma_row_bound(vx_i1 as int, n, n); }
@loop 2
@invariant
vx_n2 == n, array@.len() == vx_i1 * n + vx_p2, vx_i1 * n + n <= n * n, vx_i1 * n >= 0,
forall|p: int| 0 <= p < array@.len() ==> #[trigger] array@[p] == tanh_jac(e)[p]
@hint loop2 begin
proof { lemma_row(vx_i1 * n + vx_i2, n, vx_i1 as int, vx_i2 as int); }
@hint end
proof { assert(vx_ret.0.array@ =~= tanh_jac(e)); }

@fn tanh_derivative_outer
@params tensors grads
@jvp Tanh
@props C12
@requires
jvp_pre(DOp::Tanh, tensors@, grads@)
@ensures
jvp_post(DOp::Tanh, tensors@, grads@, r@)
@hint before jvp_from_full_jacobians#0
let ghost jac = jacobian.0.array@;
proof {
    let n = tensors@[0].0.array@.len() as usize;
    let s = seq![n, n];
    assert(grads@[0].0.shape@ =~= seq![1usize, n]);
    lemma_prod2(n, n); lemma_vec1n(n);
    assert(mm_shape(seq![1usize, n], s) =~= seq![1usize, n]);
    lemma_mm_dims(seq![1usize, n], s);
    let x = n as int;
    assert(x * x >= x && (x * x == 1 ==> x == 1) && (x == 1 ==> x * x == 1)) by (nonlinear_arith) requires x >= 0;
}
@hint end
proof {
    let e = tensors@[0].0.array@; let g = grads@[0].0.array@; let n = e.len() as int;
    if n == 1 {
        assert(jac[0] == dtanh1(e[0])) by { lemma_row(0, 1, 0, 0); }
        assert(vx_ret@[0].0.array@ =~= tanh_grad(e, g));
    } else {
        assert forall|p: int| 0 <= p < n implies #[trigger] vx_ret@[0].0.array@[p] == mm_acc(g, tanh_jac(e), n as nat, n as nat, 0, p, n as nat) by { lemma_row(p, n, 0, p); }
        assert(vx_ret@[0].0.array@ =~= tanh_grad(e, g));
    }
    assert(vx_ret@[0].0.shape@ =~= seq![1usize, n as usize]);
}

@fn dot_jvp
@params inputs jacobians
@jvp Dot
@props C15
@requires
jvp_pre(DOp::Dot, inputs@, jacobians@)
@ensures
jvp_post(DOp::Dot, inputs@, jacobians@, r@)
@hint start
proof {
    let n = inputs@[0].0.array@.len() as usize;
    lemma_vec1n(n);
    assert(jacobians@[0].0.shape@ =~= seq![1usize, 1usize]);
    assert(mm_shape(seq![1usize, 1usize], seq![1usize, n]) =~= seq![1usize, n]);
    lemma_mm_dims(seq![1usize, 1usize], seq![1usize, n]);
}
@hint end
proof {
    let g = jacobians@[0].0.array@; let n = inputs@[0].0.array@.len() as int;
    assert forall|k: int, p: int| 0 <= k < 2 && 0 <= p < n implies #[trigger] vx_ret@[k].0.array@[p] == t_add(t_zero(), t_mul(g[0], inputs@[1 - k].0.array@[p])) by {
        lemma_row(p, n, 0, p);
        reveal_with_fuel(mm_acc, 2);
    }
    assert(vx_ret@[0].0.array@ =~= dgrad(DOp::Dot, inputs@, g, 0));
    assert(vx_ret@[1].0.array@ =~= dgrad(DOp::Dot, inputs@, g, 1));
}
