//# ---------------------------------------------------------------- tensor/raw_tensor.rs
@fn SliceRange::new
@params start end
@props C05
@accept
start <= end
@ensures
r.start == start, r.end == end

@fn <RawTensor as Clone>::clone
@params
@props C22 C17
@ensures
r.array@ == self.array@, r.shape@ == self.shape@, r.grad_fn == self.grad_fn

@fn <RawTensor as Clone>::clone$h
@props C22
@heap
@requires
!old(vx_h).held().contains(self.grad.id())
@ensures
r.array@ == self.array@, r.shape@ == self.shape@, r.grad_fn == self.grad_fn,
r.grad.init() == (old(vx_h).at())(self.grad.id()),
!old(vx_h).known().contains(r.grad.id()),
heap_frame(*old(vx_h), *final(vx_h)),
final(vx_h).held() == old(vx_h).held(), !final(vx_h).held().contains(r.grad.id()),
final(vx_h).known() == old(vx_h).known().insert(r.grad.id())

@fn <RawTensor as PartialEq>::eq
@params other
@props C23
@ensures
r == (self.shape@ == other.shape@ && t_seq_eq(self.array@, other.array@))

@fn <RawTensor as Default>::default
@props C17
@ensures
r.array@ == Seq::<T>::empty(), r.shape@ == Seq::<usize>::empty(), fresh(r), nograd(r)

@fn <RawTensor as Default>::default$h
@props C04
@heap
@births
@ensures
r.array@ == Seq::<T>::empty(), r.shape@ == Seq::<usize>::empty(), fresh(r), nograd(r),
(final(vx_h).at())(r.grad.id()) is None, !old(vx_h).known().contains(r.grad.id()),
heap_frame(*old(vx_h), *final(vx_h)),
final(vx_h).held() == old(vx_h).held(), !final(vx_h).held().contains(r.grad.id()),
final(vx_h).known() == old(vx_h).known().insert(r.grad.id())

@fn <RawTensor as From<T>>::from
@params value
@props C04
@spec
open spec fn from_req(x: T) -> bool { true }
open spec fn from_ok(x: T) -> bool { true }
open spec fn from_sh(x: T) -> Seq<usize> { Seq::empty() }
open spec fn from_el(x: T) -> Seq<T> { seq![x] }
open spec fn from_new(r: RawTensor) -> bool { fresh(r) }
open spec fn from_nograd(r: RawTensor) -> bool { nograd(r) }

@fn <RawTensor as From<Vec<U>>>::from
@params value
@props C04
@spec
open spec fn from_req(x: Vec<U>) -> bool {
    &&& forall|i: int| 0 <= i < x@.len() ==> #[trigger] RawTensor::from_req(x@[i])
    &&& x@.len() > 0 ==> fits(seq![x@.len() as usize] + RawTensor::from_sh(x@[0]))
}
open spec fn from_ok(x: Vec<U>) -> bool {
    forall|i: int| 0 <= i < x@.len() ==> RawTensor::from_ok(#[trigger] x@[i]) && RawTensor::from_sh(x@[i]) == RawTensor::from_sh(x@[0])
}
open spec fn from_sh(x: Vec<U>) -> Seq<usize> { if x@.len() == 0 { seq![0usize] } else { seq![x@.len() as usize] + RawTensor::from_sh(x@[0]) } }
open spec fn from_el(x: Vec<U>) -> Seq<T> { from_cat(x@, x@.len()) }
open spec fn from_new(r: RawTensor) -> bool { fresh(r) }
open spec fn from_nograd(r: RawTensor) -> bool { nograd(r) }
@loop 0
@invariant
forall|i: int| 0 <= i < value@.len() ==> #[trigger] RawTensor::from_req(value@[i]),
vx_n0 == value@.len(), vx_acc0@.len() == vx_p0,
forall|i: int| 0 <= i < vx_p0 ==> #[trigger] from_one(value@[i], vx_acc0@[i]),
vx_R() || from_vec_ok(value@)
@loop 1
@invariant
vx_n1 == value@.len(), tensors@.len() == vx_n1, vx_acc2@.len() == vx_p1, vx_acc3@.len() == vx_p1,
forall|i: int| 0 <= i < vx_p1 ==> (#[trigger] vx_acc2@[i])@ == RawTensor::from_el(value@[i]),
forall|i: int| 0 <= i < vx_p1 ==> (#[trigger] vx_acc3@[i])@ == RawTensor::from_sh(value@[i])
@loop 2
@invariant
vx_n2 == shapes@.len(), shapes@.len() == value@.len(), vx_n2 > 0,
vx_acc5 ==> forall|i: int| 0 <= i < vx_p2 ==> (#[trigger] shapes@[i])@ == shapes@[0]@,
!vx_acc5 ==> exists|i: int| 0 <= i < shapes@.len() && (#[trigger] shapes@[i])@ != shapes@[0]@
@lensures
vx_acc5 ==> vx_p2 == vx_n2
@loop 3
@invariant
vx_n3 == value@.len(), arrays@.len() == vx_n3,
vx_acc6@ == from_cat(value@, vx_p3 as nat)
@loop 4
@invariant
vx_n4 == arr@.len(), vx_p3 <= vx_n3, vx_p3 >= 1, arr@ == RawTensor::from_el(value@[vx_p3 - 1]),
vx_acc6@ == from_cat(value@, (vx_p3 - 1) as nat) + arr@.take(vx_p4 as int)
@hint loop0 begin
proof { if from_vec_ok(value@) { assert(RawTensor::from_ok(value@[vx_i0 as int])); } }
let ghost accp = vx_acc0@;
@hint loop0 end
proof {
    assert forall|i: int| 0 <= i < vx_p0 implies #[trigger] from_one(value@[i], vx_acc0@[i]) by {
        if i < vx_p0 - 1 { assert(from_one(value@[i], accp[i])); assert(vx_acc0@[i] == accp[i]); }
    }
}
@hint loop1 begin
proof { assert(from_one(value@[vx_i1 as int], tensors@[vx_i1 as int])); }
@hint loop2 pre
proof { assert(shapes@[0]@ == RawTensor::from_sh(value@[0])); }
@hint loop4 pre
proof { assert(arr@.take(0) =~= Seq::<T>::empty()); assert(vx_acc6@ =~= from_cat(value@, (vx_p3 - 1) as nat) + arr@.take(0)); }
@hint loop4 end
proof { assert(arr@.take(vx_p4 as int) =~= arr@.take(vx_p4 - 1).push(arr@[vx_p4 - 1])); assert(vx_acc6@ =~= from_cat(value@, (vx_p3 - 1) as nat) + arr@.take(vx_p4 as int)); }
@hint loop4 after
proof { assert(arr@.take(arr@.len() as int) =~= arr@); assert(from_cat(value@, vx_p3 as nat) == from_cat(value@, (vx_p3 - 1) as nat) + RawTensor::from_el(value@[vx_p3 - 1])); }
@hint before new#0
proof { lemma_fits1(); assert(from_cat(value@, 0) =~= Seq::<T>::empty()); }
@hint before panic#0
proof {
    if from_vec_ok(value@) {
        assert forall|i: int| 0 <= i < shapes@.len() implies (#[trigger] shapes@[i])@ == shapes@[0]@ by { assert(RawTensor::from_ok(value@[i])); }
    }
}
@hint loop3 pre
proof {
    assert forall|i: int| 0 <= i < value@.len() implies RawTensor::from_ok(#[trigger] value@[i]) && RawTensor::from_sh(value@[i]) == RawTensor::from_sh(value@[0]) by { assert(shapes@[i]@ == shapes@[0]@); assert(from_one(value@[i], tensors@[i])); }
}
@hint end
proof {
    assert forall|i: int| 0 <= i < value@.len() implies #[trigger] RawTensor::from_el(value@[i]).len() == prod(RawTensor::from_sh(value@[0])) by { assert(from_one(value@[i], tensors@[i])); assert(shapes@[i]@ == shapes@[0]@); }
    let s = seq![value@.len() as usize] + RawTensor::from_sh(value@[0]);
    assert(shape@ =~= s);
    lemma_from_cat(value@, value@.len());
    lemma_prod_cons(value@.len() as usize, RawTensor::from_sh(value@[0]));
}

@fn <RawTensor as From<Vec<U>>>::from#2
@params value
@props C04
@requires
<RawTensor as VxFrom<Vec<U>>>::from_req(value)
@accept
<RawTensor as VxFrom<Vec<U>>>::from_ok(value)
@ensures
r.wf(), r.sh() == <RawTensor as VxFrom<Vec<U>>>::from_sh(value), r.el() == <RawTensor as VxFrom<Vec<U>>>::from_el(value), fresh(r), nograd(r)

@fn RawTensor::is_scalar
@params
@props C15 C12
@ensures
r == (self.array@.len() == 1 && self.shape@.len() == 0)

@fn RawTensor::global_index
@params index offset
@props C01 C02 C05
@requires
fits(self.shape@),
offset is Some ==> win_ok(offset->0@, self.shape@),
offset is Some ==> forall|k: int| 0 <= k < self.shape@.len() && k + index@.len() - self.shape@.len() >= 0 ==> #[trigger] offset->0@[k].start + index@[k + index@.len() - self.shape@.len()] <= usize::MAX
@ensures
r is Ok <==> (forall|k: int| 0 <= k < self.shape@.len() ==> #[trigger] gi_ok_at(index@, self.shape@, gi_view(offset), k)),
r is Ok ==> r->Ok_0 == flat(gi_idx(index@, self.shape@, gi_view(offset)), self.shape@) && r->Ok_0 < prod(self.shape@)

@fn RawTensor::new_empty
@params shape
@props C04
@requires
fits(shape@)
@ensures
r.array@ == Seq::<T>::empty(), r.shape@ == shape@, fresh(r), nograd(r)
@loop 0
@invariant
vx_n0 == shape@.len(), total == prod(shape@.take(vx_p0 as int)), fits(shape@)
@hint loop0 begin
proof { lemma_prod_take(shape@, vx_i0 as int); lemma_prodz_parts(shape@, vx_i0 + 1); lemma_prod_le_z(shape@.take(vx_i0 + 1)); }

@fn RawTensor::new_empty$h
@params shape
@props C04
@heap
@births
@requires
fits(shape@)
@ensures
r.array@ == Seq::<T>::empty(), r.shape@ == shape@, fresh(r), nograd(r),
(final(vx_h).at())(r.grad.id()) is None, !old(vx_h).known().contains(r.grad.id()),
heap_frame(*old(vx_h), *final(vx_h)),
final(vx_h).held() == old(vx_h).held(), !final(vx_h).held().contains(r.grad.id()),
final(vx_h).known() == old(vx_h).known().insert(r.grad.id())
@loop 0
@invariant
vx_n0 == shape@.len(), total == prod(shape@.take(vx_p0 as int)), fits(shape@)
@hint loop0 begin
proof { lemma_prod_take(shape@, vx_i0 as int); lemma_prodz_parts(shape@, vx_i0 + 1); lemma_prod_le_z(shape@.take(vx_i0 + 1)); }

@fn RawTensor::new_with_filler
@params shape filler
@props C04
@requires
fits(shape@)
@ensures
has(r, shape@, Seq::new(prod(shape@), |p: int| filler)), fresh(r), nograd(r), rwf(r)
@loop 0
@invariant
vx_n0 == shape@.len(), total == prod(shape@.take(vx_p0 as int)), fits(shape@)
@loop 1
@invariant
vx_n1 == total, tensor.array@ =~= Seq::new(vx_p1 as nat, |p: int| filler), tensor.shape@ == shape@, fresh(tensor), nograd(tensor)
@hint loop0 begin
proof { lemma_prod_take(shape@, vx_i0 as int); lemma_prodz_parts(shape@, vx_i0 + 1); lemma_prod_le_z(shape@.take(vx_i0 + 1)); }
@hint loop0 after
proof { assert(shape@.take(shape@.len() as int) =~= shape@); }
@hint start
proof { if shape@.len() == 0 { assert(seq![filler] =~= Seq::new(prod(shape@), |p: int| filler)); } }

@fn RawTensor::new_with_filler$h
@params shape filler
@props C04
@heap
@births
@requires
fits(shape@)
@ensures
has(r, shape@, Seq::new(prod(shape@), |p: int| filler)), fresh(r), nograd(r), rwf(r),
(final(vx_h).at())(r.grad.id()) is None, !old(vx_h).known().contains(r.grad.id()),
heap_frame(*old(vx_h), *final(vx_h)),
final(vx_h).held() == old(vx_h).held(), !final(vx_h).held().contains(r.grad.id()),
final(vx_h).known() == old(vx_h).known().insert(r.grad.id())
@loop 0
@invariant
vx_n0 == shape@.len(), total == prod(shape@.take(vx_p0 as int)), fits(shape@)
@loop 1
@invariant
vx_n1 == total, tensor.array@ =~= Seq::new(vx_p1 as nat, |p: int| filler), tensor.shape@ == shape@, fresh(tensor), nograd(tensor)
@hint loop0 begin
proof { lemma_prod_take(shape@, vx_i0 as int); lemma_prodz_parts(shape@, vx_i0 + 1); lemma_prod_le_z(shape@.take(vx_i0 + 1)); }
@hint loop0 after
proof { assert(shape@.take(shape@.len() as int) =~= shape@); }
@hint start
proof { if shape@.len() == 0 { assert(seq![filler] =~= Seq::new(prod(shape@), |p: int| filler)); } }

@fn RawTensor::scalar
@params scalar
@props C04
@ensures
has(r, Seq::empty(), seq![scalar]), fresh(r), nograd(r), rwf(r)

@fn RawTensor::scalar$h
@params scalar
@props C04
@heap
@births
@ensures
has(r, Seq::empty(), seq![scalar]), fresh(r), nograd(r), rwf(r),
(final(vx_h).at())(r.grad.id()) is None, !old(vx_h).known().contains(r.grad.id()),
heap_frame(*old(vx_h), *final(vx_h)),
final(vx_h).held() == old(vx_h).held(), !final(vx_h).held().contains(r.grad.id()),
final(vx_h).known() == old(vx_h).known().insert(r.grad.id())

@fn RawTensor::new
@params array shape
@props C04
@requires
fits(shape@)
@accept
prod(shape@) == array@.len()
@ensures
has(r, shape@, array@), fresh(r), nograd(r), rwf(r)
@loop 0
@invariant
vx_n0 == shape@.len(), len == prod(shape@.take(vx_p0 as int)), fits(shape@)
@hint loop0 begin
proof { lemma_prod_take(shape@, vx_i0 as int); lemma_prodz_parts(shape@, vx_i0 + 1); lemma_prod_le_z(shape@.take(vx_i0 + 1)); }
@hint loop0 after
proof { assert(shape@.take(shape@.len() as int) =~= shape@); }

@fn RawTensor::new$h
@params array shape
@props C04
@heap
@births
@requires
fits(shape@)
@accept
prod(shape@) == array@.len()
@ensures
has(r, shape@, array@), fresh(r), nograd(r), rwf(r),
(final(vx_h).at())(r.grad.id()) is None, !old(vx_h).known().contains(r.grad.id()),
heap_frame(*old(vx_h), *final(vx_h)),
final(vx_h).held() == old(vx_h).held(), !final(vx_h).held().contains(r.grad.id()),
final(vx_h).known() == old(vx_h).known().insert(r.grad.id())
@loop 0
@invariant
vx_n0 == shape@.len(), len == prod(shape@.take(vx_p0 as int)), fits(shape@)
@hint loop0 begin
proof { lemma_prod_take(shape@, vx_i0 as int); lemma_prodz_parts(shape@, vx_i0 + 1); lemma_prod_le_z(shape@.take(vx_i0 + 1)); }
@hint loop0 after
proof { assert(shape@.take(shape@.len() as int) =~= shape@); }

@fn RawTensor::set
@params index value
@props C01 C07
@requires
raw_ok(*old(self))
@ensures
raw_ok(*final(self)), final(self).shape@ == old(self).shape@, final(self).grad == old(self).grad, final(self).grad_fn == old(self).grad_fn,
r is Ok <==> bvalid(index@, old(self).shape@),
r is Ok ==> final(self).array@ == old(self).array@.update(flat(bidx(index@, old(self).shape@), old(self).shape@) as int, value),
r is Err ==> final(self).array@ == old(self).array@
@hint start
proof { lemma_gi_none(index@, self.shape@); }

@fn RawTensor::get
@params index
@props C01 C02
@requires
raw_ok(*self)
@ensures
r is Ok <==> bvalid(index@, self.shape@),
r is Ok ==> *r->Ok_0 == at_b(self.array@, self.shape@, index@) && flat(bidx(index@, self.shape@), self.shape@) < self.array@.len()
@hint start
proof { lemma_gi_none(index@, self.shape@); }

@fn RawTensor::get_with_offset
@params index offset
@props C05
@requires
raw_ok(*self), win_ok(offset@, self.shape@), valid(index@, win_shape(offset@))
@ensures
r is Ok, *r->Ok_0 == self.array@[flat(win_shift(index@, offset@), self.shape@) as int]
@hint start
proof {
    lemma_gi_win(index@, self.shape@, offset@);
    assert forall|k: int| 0 <= k < self.shape@.len() && k + index@.len() - self.shape@.len() >= 0 implies #[trigger] offset@[k].start + index@[k + index@.len() - self.shape@.len()] <= usize::MAX by { assert(index@[k] < win_shape(offset@)[k]); assert(offset@[k].start <= offset@[k].end); }
}

@fn <RawTensor as Index<&Vec<usize>>>::index
@params index
@props C01 C02
@requires
raw_ok(*self)
@accept
bvalid(index@, self.shape@)
@ensures
*r == at_b(self.array@, self.shape@, index@)

@fn <&RawTensor as Neg>::neg
@props C08
@requires
rwf(*self)
@ensures
has(r, self.shape@, neg_el(self.array@)), fresh(r), nograd(r), rwf(r)
@hint end
proof { assert(vx_ret.array@ =~= neg_el(self.array@)); }

@fn <RawTensor as TensorLike>::dot
@params other
@props C10
@requires
rwf(*self), other.wf()
@accept
self.shape@ == other.sh()
@ensures
has(*r.0, seq![1usize], seq![acc_dot(self.array@, other.el(), self.array@.len())]), fresh(*r.0), nograd(*r.0), rwf(*r.0)

@fn <RawTensor as TensorLike>::bmm_rc
@params right
@props C11
@requires
rwf(*self), right.wf(), mm_ok(self.shape@, right.sh()) ==> fits(mm_shape(self.shape@, right.sh()))
@accept
mm_ok(self.shape@, right.sh())
@ensures
has(*r.0, mm_shape(self.shape@, right.sh()), mm_el(self.shape@, self.array@, right.sh(), right.el())), fresh(*r.0), nograd(*r.0), rwf(*r.0)

@fn <RawTensor as TensorLike>::bmm
@params right
@props C11
@requires
rwf(*self), right.wf(), mm_ok(self.shape@, right.sh()) ==> fits(mm_shape(self.shape@, right.sh()))
@accept
mm_ok(self.shape@, right.sh())
@ensures
has(r, mm_shape(self.shape@, right.sh()), mm_el(self.shape@, self.array@, right.sh(), right.el())), fresh(r), nograd(r), rwf(r)

@fn <RawTensor as TensorLike>::zero_grad
@props C16 C17
@heap
@requires
!old(vx_h).held().contains(self.grad.id())
@ensures
final(vx_h).at() == h_upd(old(vx_h).at(), self.grad.id(), None), final(vx_h).known() == old(vx_h).known(), final(vx_h).held() == old(vx_h).held()

@fn <RawTensor as TensorLike>::update_grad
@params grad
@props C16 C21
@heap
@requires
!old(vx_h).held().contains(self.grad.id()),
rwf(*grad.0),
grad_fits((old(vx_h).at())(self.grad.id()), grad)
@ensures
heap_add(*old(vx_h), *final(vx_h), self.grad.id(), grad),
final(vx_h).held() =~= old(vx_h).held(), final(vx_h).known() == old(vx_h).known(),
final(vx_h).log() =~= old(vx_h).log().push(GEv::Acq(self.grad.id())).push(GEv::Rel(self.grad.id()))
@hint start
proof { lemma_bshape_self(grad.0.shape@); }

@fn <RawTensor as TensorLike>::shape
@hint start
proof { assert(self.shape@ == self.sh()); }
@props C01
@fn <RawTensor as TensorLike>::count
@props C04
@fn <RawTensor as TensorLike>::to_tensor
@props C22
@fn <RawTensor as TensorLike>::get
@params index
@props C01 C02

@fn <RawTensor as TensorLike>::sum
@props C10
@requires
raw_ok(*self)
@ensures
has(r, Seq::empty(), seq![acc_sum(self.array@, self.array@.len())]), fresh(r), nograd(r), rwf(r)
@loop 0
@invariant
vx_n0 == self.array@.len(), vx_acc0 == acc_sum(self.array@, vx_p0 as nat)

@fn <RawTensor as TensorLike>::tensor
@ensures
*r == *self

@fn <RawTensor as TensorLike>::slice
@params offset
@props C05
@requires
rwf(*self), forall|k: int| 0 <= k < offset@.len() ==> (#[trigger] offset@[k]).start <= offset@[k].end
@accept
win_ok(offset@, self.shape@)
@ensures
view_wf(r), r.view.shape@ == win_shape(offset@), view_el(r) == win_el(self.array@, self.shape@, offset@)

@fn <&RawTensor as Sub<&U>>::sub
@instantiate U = RcTensor
@instantiate V = RcTensor
@params right
@props C07
@requires
rwf(*self), rwf(*right.0), fits(bshape(self.shape@, right.0.shape@))
@accept
compat(self.shape@, right.0.shape@)
@ensures
has(r, bshape(self.shape@, right.0.shape@), add_el(self.shape@, self.array@, right.0.shape@, neg_el(right.0.array@))), fresh(r), nograd(r), rwf(r)

@fn <&RawTensor as Sub<&U>>::sub$RawTensor
@instantiate U = RawTensor
@instantiate V = RawTensor
@params right
@props C07
@requires
rwf(*self), rwf(*right), fits(bshape(self.shape@, right.shape@))
@accept
compat(self.shape@, right.shape@)
@ensures
has(r, bshape(self.shape@, right.shape@), add_el(self.shape@, self.array@, right.shape@, neg_el(right.array@))), fresh(r), nograd(r), rwf(r)

@fn <&RawTensor as Add<&U>>::add
@params right
@props C07
@requires
rwf(*self), right.wf(), fits(bshape(self.shape@, right.sh()))
@accept
compat(self.shape@, right.sh())
@ensures
has(r, bshape(self.shape@, right.sh()), add_el(self.shape@, self.array@, right.sh(), right.el())), fresh(r), nograd(r), rwf(r)

@fn <&RawTensor as Mul<&V>>::mul
@params right
@props C09
@requires
rwf(*self), right.wf()
@accept
mul_ok(self.shape@, right.sh())
@ensures
mul_is(r, self.shape@, self.array@, right.sh(), right.el()), fresh(r), nograd(r), rwf(r)
@hint start
proof { right.lemma_wf(); }
@hint end
proof { assert(vx_ret.array@ =~= mul_el(self.shape@, self.array@, right.sh(), right.el())); }
