//# ---------------------------------------------------------------- tensor/tensor_like.rs, tensor/tensor_view.rs
@fn TensorLike::get_first_elem
@props C09
@requires
self.wf()
@accept
prod(self.sh()) > 0
@ensures
*r == self.el()[0]
@hint start
proof { self.lemma_wf(); lemma_first(self.sh()); }
@hint before get#0
proof { assert(shape@ =~= Seq::new(self.sh().len(), |k: int| 0usize)); }

@fn TensorLike::elem
@props C10
@requires
self.wf()
@accept
self.sh().len() == 0
@ensures
r == self.el()[0]

@fn TensorLike::left_scalar_multiplication
@params scalar
@props C09
@requires
self.wf()
@ensures
has(r, self.sh(), map_el(|t: T| t_mul(*scalar, t), self.el())), fresh(r), nograd(r), rwf(r)
@loop 0
@invariant
vx_n0 == self.el().len(), result.shape@ == self.sh(), fresh(result), nograd(result), result.array@ =~= map_el(|t: T| t_mul(scalar, t), self.el()).take(vx_p0 as int)
@hint end
proof { assert(vx_ret.array@ =~= map_el(|t: T| t_mul(scalar, t), self.el())); }
@hint start
proof { self.lemma_wf(); }

@fn TensorLike::right_scalar_multiplication
@params scalar
@props C09
@requires
self.wf()
@ensures
has(r, self.sh(), map_el(|t: T| t_mul(t, *scalar), self.el())), fresh(r), nograd(r), rwf(r)
@loop 0
@invariant
vx_n0 == self.el().len(), result.shape@ == self.sh(), fresh(result), nograd(result), result.array@ =~= map_el(|t: T| t_mul(t, scalar), self.el()).take(vx_p0 as int)
@hint end
proof { assert(vx_ret.array@ =~= map_el(|t: T| t_mul(t, scalar), self.el())); }
@hint start
proof { self.lemma_wf(); }

@fn TensorLike::same_shape
@params other
@props C09 C10
@ensures
r == (self.sh() == other.sh())

@fn TensorLike::broadcastable
@params new_shape
@props C07
@ensures
r == compat(self.sh(), new_shape@)
@loop 0
@invariant
forall|k: int| 0 <= k < vx_p0 ==> #[trigger] compat_at(self.sh(), new_shape@, k),
vx_n0 <= self.sh().len(), vx_n0 <= new_shape@.len(), vx_n0 == self.sh().len() || vx_n0 == new_shape@.len()
@hint loop0 begin
proof { assert(compat_at(self.sh(), new_shape@, vx_i0 as int) == (self.sh()[self.sh().len() - 1 - vx_i0] == new_shape@[new_shape@.len() - 1 - vx_i0] || self.sh()[self.sh().len() - 1 - vx_i0] == 1 || new_shape@[new_shape@.len() - 1 - vx_i0] == 1)); }

@fn TensorLike::iter_indices
@props C03
@ensures
r.dimensions@ == self.sh(), r.first, ii_wf(r), ii_pos(r) == 0

@fn TensorLike::deep_clone
@props C22
@heap
@births
@requires
self.wf(), old(vx_h).held() =~= Set::empty()
@ensures
has(*r.0, self.sh(), self.el()), rwf(*r.0), r.0.grad_fn is None,
(final(vx_h).at())(r.0.grad.id()) is None,
!old(vx_h).known().contains(r.0.grad.id()), final(vx_h).known().contains(r.0.grad.id()),
heap_frame(*old(vx_h), *final(vx_h)), final(vx_h).held() == old(vx_h).held()

@fn <TensorView as Index<&Vec<usize>>>::index
@params index
@props C02 C05
@requires
view_wf(*self)
@accept
bvalid(index@, self.view.shape@)
@ensures
*r == at_b(view_el(*self), self.view.shape@, index@)

@fn TensorView::new
@params tensor offset
@props C05
@requires
rwf(*tensor.0), forall|k: int| 0 <= k < offset@.len() ==> (#[trigger] offset@[k]).start <= offset@[k].end
@accept
win_ok(offset@, tensor.0.shape@)
@ensures
view_wf(r), r.tensor == tensor, r.view.shape@ == win_shape(offset@), r.view.offset@ == offset@, view_el(r) == win_el(tensor.0.array@, tensor.0.shape@, offset@)
@loop 0
@invariant
vx_n0 == offset@.len(), offset@.len() == tensor.0.shape@.len(), shape@.len() == vx_p0,
forall|k: int| 0 <= k < vx_p0 ==> (#[trigger] offset@[k]).end <= tensor.0.shape@[k],
forall|k: int| 0 <= k < vx_p0 ==> (#[trigger] shape@[k]) == offset@[k].end - offset@[k].start
@hint loop0 begin
proof { assert(offset@[vx_i0 as int].start <= offset@[vx_i0 as int].end); }
@hint loop0 after
proof {
    assert(win_ok(offset@, tensor.0.shape@));
    assert(shape@ =~= win_shape(offset@));
    lemma_win_fits(offset@, tensor.0.shape@);
}
@hint end
proof { assert(view_el(vx_ret) =~= win_el(tensor.0.array@, tensor.0.shape@, offset@)); }

@fn TensorView::reshape
@params shape
@props C06
@requires
view_wf(*self), fits(shape@)
@accept
prod(shape@) == prod(self.view.shape@)
@ensures
view_wf(r), r.view.shape@ == shape@, view_el(r) == view_el(*self)
@hint end
proof { assert(view_el(vx_ret) =~= view_el(*self)); }

@fn <TensorView as TensorLike>::dot
@params other
@props C10
@accept
false

@fn <TensorView as TensorLike>::shape
@props C05
@fn <TensorView as TensorLike>::count
@props C05
@fn <TensorView as TensorLike>::tensor
@ensures
r == self.tensor

@fn <TensorView as TensorLike>::to_tensor
@props C05 C22
@loop 0
@invariant
ei_wf(vx_it0), vx_it0.tensor_like == self, ei_pos(vx_it0) <= prod(self.sh()),
array@ =~= self.el().take(ei_pos(vx_it0) as int)
@lensures
ei_pos(vx_it0) == prod(self.sh())
@ldecreases
prod(self.sh()) - ei_pos(vx_it0)
@hint start
proof { self.lemma_wf(); }
@hint loop0 after
proof { assert(self.el().take(prod(self.sh()) as int) =~= self.el()); }

@fn <TensorView as TensorLike>::sum
@props C05 C10
@requires
view_wf(*self)
@ensures
has(*r.0, Seq::empty(), seq![acc_sum(view_el(*self), view_el(*self).len())]), fresh(*r.0), nograd(*r.0), rwf(*r.0)
@loop 0
@invariant
ei_wf(vx_it0), vx_it0.tensor_like == self, ei_pos(vx_it0) <= prod(self.sh()),
vx_acc1 == acc_sum(view_el(*self), ei_pos(vx_it0))
@lensures
ei_pos(vx_it0) == prod(self.sh())
@ldecreases
prod(self.sh()) - ei_pos(vx_it0)

@fn <TensorView as TensorLike>::get
@params index
@props C02 C05 C06
@loop 0
@invariant
vx_n0 == self.view.offset@.len(), vx_acc0@.len() == vx_p0, win_ok(self.view.offset@, self.tensor.0.shape@),
forall|k: int| 0 <= k < vx_p0 ==> (#[trigger] vx_acc0@[k]) == self.view.offset@[k].end - self.view.offset@[k].start
@hint loop0 begin
proof { let k = vx_i0 as int; assert(self.view.offset@[k].start <= self.view.offset@[k].end && self.view.offset@[k].end <= self.tensor.0.shape@[k]); }
@hint start
proof { lemma_gi_none(index@, self.view.shape@); }
@hint before tensor_index#0
proof {
    assert(window@ =~= win_shape(self.view.offset@));
    lemma_win_fits(self.view.offset@, self.tensor.0.shape@);
    lemma_prod_pos(window@);
    assert(position < prod(window@));
}
@hint before get_with_offset#0
proof { lemma_unflat(position as nat, window@); }

@fn <TensorView as TensorLike>::slice
@params offset
@props C05
@requires
view_wf(*self), forall|k: int| 0 <= k < offset@.len() ==> (#[trigger] offset@[k]).start <= offset@[k].end
@accept
win_ok(offset@, self.view.shape@)
@ensures
view_wf(r), r.view.shape@ == win_shape(offset@), view_el(r) == win_el(view_el(*self), self.view.shape@, offset@)

@fn <TensorView as TensorLike>::bmm
@params right
@props C11
@requires
view_wf(*self), right.wf(), mm_ok(self.view.shape@, right.sh()) ==> fits(mm_shape(self.view.shape@, right.sh()))
@accept
mm_ok(self.view.shape@, right.sh())
@ensures
has(*r.0, mm_shape(self.view.shape@, right.sh()), mm_el(self.view.shape@, view_el(*self), right.sh(), right.el())), fresh(*r.0), nograd(*r.0), rwf(*r.0)

@fn <TensorView as TensorLike>::bmm_rc
@params right
@props C11
@requires
view_wf(*self), right.wf(), mm_ok(self.view.shape@, right.sh()) ==> fits(mm_shape(self.view.shape@, right.sh()))
@accept
mm_ok(self.view.shape@, right.sh())
@ensures
has(*r.0, mm_shape(self.view.shape@, right.sh()), mm_el(self.view.shape@, view_el(*self), right.sh(), right.el())), fresh(*r.0), nograd(*r.0), rwf(*r.0)

@fn <TensorView as PartialEq<V>>::eq
@params other
@props C23 C05
@requires
view_wf(*self), other.wf()
@ensures
r == (self.view.shape@ == other.sh() && t_seq_eq(view_el(*self), other.el()))
@loop 0
@invariant
ii_wf(vx_it0), vx_it0.dimensions@ == self.view.shape@, ii_pos(vx_it0) <= prod(self.view.shape@), self.view.shape@ == other.sh(),
forall|p: int| 0 <= p < ii_pos(vx_it0) ==> t_eq(#[trigger] view_el(*self)[p], other.el()[p])
@lensures
ii_pos(vx_it0) == prod(self.view.shape@)
@ldecreases
prod(self.view.shape@) - ii_pos(vx_it0)
@hint start
proof { other.lemma_wf(); }
@hint before res_eq#0
proof { lemma_bidx_full(idx@, self.view.shape@); lemma_flat_bound(idx@, self.view.shape@); }
