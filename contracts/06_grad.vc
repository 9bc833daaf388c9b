//# ---------------------------------------------------------------- tensor/autograd
@fn Derivative::new
@params inputs jacobian_vector_product debug_info
@props C16
@ensures
r.inputs == inputs, r.jacobian_vector_product == jacobian_vector_product

@fn jvp_from_full_jacobians
@params left right
@props C12
@requires
rwf(*left.0), rwf(*right.0), mm_ok(left.0.shape@, right.0.shape@) ==> fits(mm_shape(left.0.shape@, right.0.shape@))
@accept
if right.0.array@.len() == 1 || left.0.array@.len() == 1 { left.0.array@.len() == 1 && mul_ok(left.0.shape@, right.0.shape@) } else { mm_ok(left.0.shape@, right.0.shape@) }
@ensures
rwf(*r.0),
right.0.array@.len() == 1 || left.0.array@.len() == 1 ==> mul_is(*r.0, left.0.shape@, left.0.array@, right.0.shape@, right.0.array@),
!(right.0.array@.len() == 1 || left.0.array@.len() == 1) ==> has(*r.0, mm_shape(left.0.shape@, right.0.shape@), mm_el(left.0.shape@, left.0.array@, right.0.shape@, right.0.array@))

@fn ones
@params tensors grads
@jvp Sum
@props C15
@requires
jvp_pre(DOp::Sum, tensors@, grads@)
@ensures
jvp_post(DOp::Sum, tensors@, grads@, r@)
@hint start
proof { let n = tensors@[0].0.array@.len() as usize; lemma_vec1n(n); lemma_vec1n(1); lemma_prod_le_z(tensors@[0].0.shape@); assert(grads@[0].0.shape@ =~= seq![1usize, 1usize]); }
@loop 0
@invariant
raw_tensor.shape@ == seq![1usize, length_1], length_1 == tensors@[0].0.array@.len(), raw_tensor.array@.len() == length_1, vx_n0 == length_1, fresh(raw_tensor), nograd(raw_tensor),
forall|p: int| 0 <= p < vx_p0 ==> #[trigger] raw_tensor.array@[p] == grads@[0].0.array@[0]
@hint loop0 begin
proof { lemma_row(vx_i0 as int, length_1 as int, 0, vx_i0 as int); }
@hint end
proof { assert(vx_ret@[0].0.array@ =~= dgrad(DOp::Sum, tensors@, grads@[0].0.array@, 0)); }

@fn Derivative::compute_jvp
@params outer_grads
@props C16
@heap
@requires
jvp_pre(self.jacobian_vector_product.op(), self.inputs@, outer_grads@), graph_ok(*self),
heap_ok(*old(vx_h)), old(vx_h).held() =~= Set::empty()
@ensures
heap_ok(*final(vx_h)), final(vx_h).held() =~= Set::empty(), final(vx_h).known() == old(vx_h).known(),
forall|id: int| #[trigger] gview(*final(vx_h), id) == gfold(gview(*old(vx_h), id), contribs(*self, outer_grads@[0].0.array@, self.inputs@.len()), id)
@decreases
self
@hint before call#0
let ghost g = outer_grads@[0].0.array@; let ghost op = self.jacobian_vector_product.op();
@loop 0
@invariant
vx_n0 == self.inputs@.len(), jvp_post(op, self.inputs@, outer_grads@, self_grads@), graph_ok(*self), swf(self.inputs@),
heap_ok(*vx_h), vx_h.held() =~= Set::empty(), vx_h.known() == old(vx_h).known(),
forall|id: int| #[trigger] gview(*vx_h, id) == gfold(gview(*old(vx_h), id), contribs(*self, g, vx_p0 as nat), id)
@hint before count#0
let ghost h0 = *vx_h; let ghost gk = dgrad(op, self.inputs@, g, vx_i0 as int);
let ghost c = Contrib { id: input.0.grad.id(), sh: input.0.shape@, el: gk };
proof { assert(rwf(*self.inputs@[vx_i0 as int].0)); assert(gnode(*self.inputs@[vx_i0 as int].0)); assert(rwf(*self_grads@[vx_i0 as int].0)); }
@hint after update_grad#0
let ghost h1 = *vx_h;
proof {
    assert forall|id: int| #[trigger] gview(h1, id) == gfold(gview(h0, id), seq![c], id) by {
        assert(seq![c].drop_last() =~= Seq::<Contrib>::empty());
        reveal_with_fuel(gfold, 2);
    }
}
@hint before compute_jvp#0
proof {
    lemma_prod_le_z(input.0.shape@);
    assert(grad.0.shape@[1] == input.0.array@.len());
    assert(swf(d.inputs@));
}
@hint loop0 end
proof {
    let base = contribs(*self, g, vx_i0 as nat);
    let tail = passed_on(*input, gk);
    assert(base.push(c) + tail =~= base + (seq![c] + tail));
    assert(contribs(*self, g, vx_p0 as nat) == base.push(c) + tail);
    assert forall|id: int| #[trigger] gview(*vx_h, id) == gfold(gview(*old(vx_h), id), contribs(*self, g, vx_p0 as nat), id) by {
        assert(gview(h0, id) == gfold(gview(*old(vx_h), id), base, id));
        assert(gview(h1, id) == gfold(gview(h0, id), seq![c], id));
        lemma_gfold_cat(gview(h0, id), seq![c], tail, id);
        lemma_gfold_cat(gview(*old(vx_h), id), base, seq![c] + tail, id);
    }
}

@fn RcTensor::backward
@props C16
@heap
@requires
rwf(*self.0), self.0.grad_fn is Some ==> graph_ok(self.0.grad_fn->0),
heap_ok(*old(vx_h)), old(vx_h).held() =~= Set::empty()
@accept
self.0.array@.len() == 1 && self.0.grad_fn is Some
@ensures
heap_ok(*final(vx_h)), final(vx_h).held() =~= Set::empty(), final(vx_h).known() == old(vx_h).known(),
forall|id: int| #[trigger] gview(*final(vx_h), id) == gfold(gview(*old(vx_h), id), contribs(self.0.grad_fn->0, seq![t_one()], self.0.grad_fn->0.inputs@.len()), id)
@hint start
proof {
    lemma_vec1n(1);
    assert(Seq::new(1, |p: int| t_one()) =~= seq![t_one()]);
}
