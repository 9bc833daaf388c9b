//# ---------------------------------------------------------------- tensor/rc_tensor.rs
@fn <RcTensor as Deref>::deref
@ensures
*r == *self.0

@fn RcTensor::abs
@props C08 C12
@requires
rwf(*self.0)
@ensures
has(*r.0, self.0.shape@, map_el(|a: T| t_abs(a), self.0.array@)), recorded(*r.0, DOp::Abs, seq![*self]), nograd(*r.0), rwf(*r.0)

@fn RcTensor::is_scalar
@props C12 C15
@ensures
r == (self.0.array@.len() == 1 && self.0.shape@.len() == 0)

@fn RcTensor::from_raw
@params raw_tensor
@props C04 C17
@ensures
*r.0 == raw_tensor

@fn RcTensor::new_empty
@params shape
@props C04
@requires
fits(shape@)
@ensures
r.0.array@ == Seq::<T>::empty(), r.0.shape@ == shape@, fresh(*r.0), nograd(*r.0)

@fn RcTensor::new_empty$h
@params shape
@props C04
@heap
@births
@requires
fits(shape@)
@ensures
r.0.array@ == Seq::<T>::empty(), r.0.shape@ == shape@, fresh(*r.0), nograd(*r.0),
(final(vx_h).at())(r.0.grad.id()) is None, !old(vx_h).known().contains(r.0.grad.id()),
heap_frame(*old(vx_h), *final(vx_h)),
final(vx_h).held() == old(vx_h).held(), !final(vx_h).held().contains(r.0.grad.id()),
final(vx_h).known() == old(vx_h).known().insert(r.0.grad.id())

@fn RcTensor::new_with_filler
@params shape filler
@props C04
@requires
fits(shape@)
@ensures
has(*r.0, shape@, Seq::new(prod(shape@), |p: int| filler)), fresh(*r.0), nograd(*r.0), rwf(*r.0)

@fn RcTensor::new_with_filler$h
@params shape filler
@props C04
@heap
@births
@requires
fits(shape@)
@ensures
has(*r.0, shape@, Seq::new(prod(shape@), |p: int| filler)), fresh(*r.0), nograd(*r.0), rwf(*r.0),
(final(vx_h).at())(r.0.grad.id()) is None, !old(vx_h).known().contains(r.0.grad.id()),
heap_frame(*old(vx_h), *final(vx_h)),
final(vx_h).held() == old(vx_h).held(), !final(vx_h).held().contains(r.0.grad.id()),
final(vx_h).known() == old(vx_h).known().insert(r.0.grad.id())

@fn RcTensor::scalar
@params scalar
@props C04
@ensures
has(*r.0, Seq::empty(), seq![scalar]), fresh(*r.0), nograd(*r.0), rwf(*r.0)

@fn RcTensor::scalar$h
@params scalar
@props C04
@heap
@births
@ensures
has(*r.0, Seq::empty(), seq![scalar]), fresh(*r.0), nograd(*r.0), rwf(*r.0),
(final(vx_h).at())(r.0.grad.id()) is None, !old(vx_h).known().contains(r.0.grad.id()),
heap_frame(*old(vx_h), *final(vx_h)),
final(vx_h).held() == old(vx_h).held(), !final(vx_h).held().contains(r.0.grad.id()),
final(vx_h).known() == old(vx_h).known().insert(r.0.grad.id())

@fn RcTensor::new
@params array shape
@props C04
@requires
fits(shape@)
@accept
prod(shape@) == array@.len()
@ensures
has(*r.0, shape@, array@), fresh(*r.0), nograd(*r.0), rwf(*r.0)

@fn RcTensor::new$h
@params array shape
@props C04
@heap
@births
@requires
fits(shape@)
@accept
prod(shape@) == array@.len()
@ensures
has(*r.0, shape@, array@), fresh(*r.0), nograd(*r.0), rwf(*r.0),
(final(vx_h).at())(r.0.grad.id()) is None, !old(vx_h).known().contains(r.0.grad.id()),
heap_frame(*old(vx_h), *final(vx_h)),
final(vx_h).held() == old(vx_h).held(), !final(vx_h).held().contains(r.0.grad.id()),
final(vx_h).known() == old(vx_h).known().insert(r.0.grad.id())

@fn RcTensor::view
@params shape
@props C05
@requires
rwf(*self.0), forall|k: int| 0 <= k < shape@.len() ==> (#[trigger] shape@[k]).start <= shape@[k].end
@accept
win_ok(shape@, self.0.shape@)
@ensures
view_wf(r), r.view.shape@ == win_shape(shape@), view_el(r) == win_el(self.0.array@, self.0.shape@, shape@)

@fn RcTensor::get
@params index
@props C01 C02
@requires
raw_ok(*self.0)
@ensures
r is Ok <==> bvalid(index@, self.0.shape@),
r is Ok ==> *r->Ok_0 == at_b(self.0.array@, self.0.shape@, index@) && flat(bidx(index@, self.0.shape@), self.0.shape@) < self.0.array@.len()

@fn RcTensor::get_with_offset
@params index offset
@props C05
@requires
raw_ok(*self.0), win_ok(offset@, self.0.shape@), valid(index@, win_shape(offset@))
@ensures
r is Ok, *r->Ok_0 == self.0.array@[flat(win_shift(index@, offset@), self.0.shape@) as int]

@fn RcTensor::get_grad
@props C16 C17
@heap
@requires
!old(vx_h).held().contains(self.0.grad.id())
@ensures
r == (old(vx_h).at())(self.0.grad.id()),
final(vx_h).at() == old(vx_h).at(), final(vx_h).known() == old(vx_h).known(), final(vx_h).held() == old(vx_h).held()

@fn RcTensor::grad
@props C16 C17
@heap
@requires
!old(vx_h).held().contains(self.0.grad.id())
@accept
(old(vx_h).at())(self.0.grad.id()) is Some
@ensures
(old(vx_h).at())(self.0.grad.id()) == Some(r),
final(vx_h).at() == old(vx_h).at(), final(vx_h).known() == old(vx_h).known(), final(vx_h).held() == old(vx_h).held()

@fn <RcTensor as TensorLike>::update_grad
@params grad
@props C16 C21
@heap
@requires
!old(vx_h).held().contains(self.0.grad.id()),
rwf(*grad.0),
grad_fits((old(vx_h).at())(self.0.grad.id()), grad)
@ensures
heap_add(*old(vx_h), *final(vx_h), self.0.grad.id(), grad),
final(vx_h).held() =~= old(vx_h).held(), final(vx_h).known() == old(vx_h).known(),
final(vx_h).log() =~= old(vx_h).log().push(GEv::Acq(self.0.grad.id())).push(GEv::Rel(self.0.grad.id()))

@fn <RcTensor as TensorLike>::zero_grad
@props C16 C17
@heap
@requires
!old(vx_h).held().contains(self.0.grad.id())
@ensures
final(vx_h).at() == h_upd(old(vx_h).at(), self.0.grad.id(), None), final(vx_h).known() == old(vx_h).known(), final(vx_h).held() == old(vx_h).held()

@fn <RcTensor as TensorLike>::dot
@params other
@props C10
@accept
false

@fn <RcTensor as TensorLike>::shape
@props C01
@fn <RcTensor as TensorLike>::get
@params index
@props C01 C02
@fn <RcTensor as TensorLike>::to_tensor
@props C17
@fn <RcTensor as TensorLike>::count
@props C04

@fn <RcTensor as TensorLike>::sum
@props C10 C15
@requires
rwf(*self.0)
@ensures
has(*r.0, Seq::empty(), seq![acc_sum(self.0.array@, self.0.array@.len())]), recorded(*r.0, DOp::Sum, seq![*self]), nograd(*r.0), rwf(*r.0)

@fn <RcTensor as TensorLike>::tensor
@ensures
r == *self

@fn <RcTensor as TensorLike>::slice
@params offset
@props C05
@requires
rwf(*self.0), forall|k: int| 0 <= k < offset@.len() ==> (#[trigger] offset@[k]).start <= offset@[k].end
@accept
win_ok(offset@, self.0.shape@)
@ensures
view_wf(r), r.view.shape@ == win_shape(offset@), view_el(r) == win_el(self.0.array@, self.0.shape@, offset@)

@fn <RcTensor as TensorLike>::bmm
@params right
@props C11 C14
@requires
rwf(*self.0), right.wf(), mm_ok(self.0.shape@, right.sh()) ==> fits(mm_shape(self.0.shape@, right.sh()))
@accept
mm_ok(self.0.shape@, right.sh())
@ensures
has(*r.0, mm_shape(self.0.shape@, right.sh()), mm_el(self.0.shape@, self.0.array@, right.sh(), right.el())), rwf(*r.0),
nograd(*r.0),
exists|o: RcTensor| #[trigger] right.is_tt(o) && o.sh() == right.sh() && o.el() == right.el() && recorded(*r.0, DOp::Bmm, seq![*self, o])

@fn <RcTensor as TensorLike>::bmm_rc
@params right
@props C11 C14
@requires
rwf(*self.0), right.wf(), mm_ok(self.0.shape@, right.sh()) ==> fits(mm_shape(self.0.shape@, right.sh()))
@accept
mm_ok(self.0.shape@, right.sh())
@ensures
has(*r.0, mm_shape(self.0.shape@, right.sh()), mm_el(self.0.shape@, self.0.array@, right.sh(), right.el())), rwf(*r.0),
nograd(*r.0),
exists|o: RcTensor| #[trigger] right.is_tt(o) && o.sh() == right.sh() && o.el() == right.el() && recorded(*r.0, DOp::Bmm, seq![*self, o])
@hint end
proof {
    let d = vx_ret.0.grad_fn->0;
    lemma_swf2(*self, d.inputs@[1]);
    lemma_mm_dims(self.0.shape@, right.sh());
    assert(recorded(*vx_ret.0, DOp::Bmm, seq![*self, d.inputs@[1]]));
}

@fn <RcTensor as From<T>>::from
@params value
@props C04
@spec
open spec fn from_req(x: T) -> bool { true }
open spec fn from_ok(x: T) -> bool { true }
open spec fn from_sh(x: T) -> Seq<usize> { Seq::empty() }
open spec fn from_el(x: T) -> Seq<T> { seq![x] }
open spec fn from_new(r: RcTensor) -> bool { fresh(*r.0) }
open spec fn from_nograd(r: RcTensor) -> bool { nograd(*r.0) }

@fn <RcTensor as From<Vec<U>>>::from
@params value
@props C04
@spec
open spec fn from_req(x: Vec<U>) -> bool { <RawTensor as VxFrom<Vec<U>>>::from_req(x) }
open spec fn from_ok(x: Vec<U>) -> bool { <RawTensor as VxFrom<Vec<U>>>::from_ok(x) }
open spec fn from_sh(x: Vec<U>) -> Seq<usize> { <RawTensor as VxFrom<Vec<U>>>::from_sh(x) }
open spec fn from_el(x: Vec<U>) -> Seq<T> { <RawTensor as VxFrom<Vec<U>>>::from_el(x) }
open spec fn from_new(r: RcTensor) -> bool { fresh(*r.0) }
open spec fn from_nograd(r: RcTensor) -> bool { nograd(*r.0) }

@fn <RcTensor as From<Vec<U>>>::from#2
@params value
@props C04
@requires
<RawTensor as VxFrom<Vec<U>>>::from_req(value)
@accept
<RawTensor as VxFrom<Vec<U>>>::from_ok(value)
@ensures
r.wf(), r.sh() == <RawTensor as VxFrom<Vec<U>>>::from_sh(value), r.el() == <RawTensor as VxFrom<Vec<U>>>::from_el(value), fresh(*r.0), nograd(*r.0)

@fn <&RcTensor as Add<&RcTensor>>::add
@params right
@props C07 C13
@requires
rwf(*self.0), rwf(*right.0), fits(bshape(self.0.shape@, right.0.shape@))
@accept
compat(self.0.shape@, right.0.shape@)
@ensures
has(*r.0, bshape(self.0.shape@, right.0.shape@), add_el(self.0.shape@, self.0.array@, right.0.shape@, right.0.array@)), recorded(*r.0, DOp::Add, seq![*self, *right]), nograd(*r.0), rwf(*r.0)
@hint end
proof { lemma_swf2(*self, *right); }

@fn <RcTensor as Add<RcTensor>>::add
@params right
@props C07 C13
@requires
rwf(*self.0), rwf(*right.0), fits(bshape(self.0.shape@, right.0.shape@))
@accept
compat(self.0.shape@, right.0.shape@)
@ensures
has(*r.0, bshape(self.0.shape@, right.0.shape@), add_el(self.0.shape@, self.0.array@, right.0.shape@, right.0.array@)), recorded(*r.0, DOp::Add, seq![self, right]), nograd(*r.0), rwf(*r.0)
@hint start
proof { lemma_swf2(self, right); }

@fn <&RcTensor as Sub<&RcTensor>>::sub
@params right
@props C07 C13
@requires
rwf(*self.0), rwf(*right.0), fits(bshape(self.0.shape@, right.0.shape@))
@accept
compat(self.0.shape@, right.0.shape@)
@ensures
sub_is(*r.0, *self, *right), nograd(*r.0)

@fn <RcTensor as Sub<RcTensor>>::sub
@params right
@props C07 C13
@requires
rwf(*self.0), rwf(*right.0), fits(bshape(self.0.shape@, right.0.shape@))
@accept
compat(self.0.shape@, right.0.shape@)
@ensures
sub_is(*r.0, self, right), nograd(*r.0)

@fn <RcTensor as Sub<&RcTensor>>::sub
@params right
@props C07 C13
@requires
rwf(*self.0), rwf(*right.0), fits(bshape(self.0.shape@, right.0.shape@))
@accept
compat(self.0.shape@, right.0.shape@)
@ensures
sub_is(*r.0, self, *right), nograd(*r.0)

@fn <&RcTensor as Neg>::neg
@props C08 C12
@requires
rwf(*self.0)
@ensures
has(*r.0, self.0.shape@, neg_el(self.0.array@)), recorded(*r.0, DOp::Neg, seq![*self]), nograd(*r.0), rwf(*r.0)

@fn <&RcTensor as Neg>::neg$closure0
@params tensors grads
@jvp Neg
@props C12
@requires
jvp_pre(DOp::Neg, tensors@, grads@)
@ensures
jvp_post(DOp::Neg, tensors@, grads@, r@)
@hint start
proof { assert(grads@[0].0.shape@ =~= seq![1usize, tensors@[0].0.array@.len() as usize]); }
@hint end
proof { assert(vx_ret@[0].0.array@ =~= dgrad(DOp::Neg, tensors@, grads@[0].0.array@, 0)); }

@fn <RcTensor as Mul<&V>>::mul
@params right
@props C09
@requires
rwf(*self.0), right.wf()
@accept
mul_ok(self.0.shape@, right.sh())
@ensures
mul_is(*r.0, self.0.shape@, self.0.array@, right.sh(), right.el()), fresh(*r.0), nograd(*r.0), rwf(*r.0)

@fn <&RcTensor as Mul<&V>>::mul
@params right
@props C09
@requires
rwf(*self.0), right.wf()
@accept
mul_ok(self.0.shape@, right.sh())
@ensures
mul_is(*r.0, self.0.shape@, self.0.array@, right.sh(), right.el()), fresh(*r.0), nograd(*r.0), rwf(*r.0)
