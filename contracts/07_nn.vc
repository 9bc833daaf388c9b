//# ---------------------------------------------------------------- nn, optim
@fn Linear::params
@props C19
@ensures
r@ == lin_pars(*old(self)), *final(self) == *old(self)
@hint end
proof { assert(vx_ret@ =~= lin_pars(*self)); }

@fn Linear::new
@params weights bias activation
@props C18 C19
@ensures
r.weights == weights, r.bias == bias,
match activation { Some(f) => r.activation == f, None => r.activation.op() == AOp::Ident }

@fn Linear::new$closure0
@params t
@jvp Ident
@props C18
@requires
rwf(*t.0)
@ensures
act_post(AOp::Ident, t, r)

@fn <Linear as Module<T>>::forward
@params batch_ref
@props C18
@hint start
proof { lemma_mm_dims(batch_ref.0.shape@, self.weights.0.shape@); }
@hint before call#0
let ghost ins = seq![y, self.bias];
proof {
    assert(lin_mm(*self, batch_ref, y));
    assert forall|z: RcTensor| #[trigger] recorded(*z.0, DOp::Add, ins)
        && has(*z.0, bshape(y.0.shape@, self.bias.0.shape@), add_el(y.0.shape@, y.0.array@, self.bias.0.shape@, self.bias.0.array@)) implies lin_pre_act(*self, batch_ref, z) by { assert(lin_add(*self, y, z)); }
}
@hint end
proof {
    assert(exists|z: RcTensor| lin_pre_act(*self, batch_ref, z) && #[trigger] act_post(self.activation.op(), z, vx_ret));
}

@fn <Linear as Module<T>>::params
@props C19
@hint end
proof { assert(vx_ret@ =~= lin_pars(*self)); }

@fn <Linear as Module<T>>::update_params
@params new_params
@props C19
@hint end
proof { assert(lin_pars(*self) =~= new_params@.take(0) + lin_pars(*self)); }

@fn Mlp::new
@params layers
@props C18 C19
@ensures
r.layers == layers

@fn <Mlp as Module<T>>::forward
@params batch_ref
@props C18
@loop 0
@invariant
vx_n0 == self.layers@.len(), mlp_req(self.layers@, batch_ref), rwf(*vx_acc0.0),
mlp_rel(self.layers@, batch_ref, vx_p0 as nat, vx_acc0)
@hint loop0 begin
let ghost m0 = vx_acc0;
@hint loop0 end
proof {
    let n = vx_p0 as nat;
    assert(mlp_rel(self.layers@, batch_ref, (n - 1) as nat, m0));
    assert(lin_rel(self.layers@[n - 1], m0, vx_acc0));
    assert(mlp_rel(self.layers@, batch_ref, vx_p0 as nat, vx_acc0));
}

@fn <Mlp as Module<T>>::params
@props C19
@loop 0
@invariant
vx_n0 == self.layers@.len(), vx_acc0@ == mlp_pars(self.layers@.take(vx_p0 as int))
@hint loop0 begin
proof { lemma_pars_push(self.layers@, vx_i0 as int); }
@loop 1
@invariant
vx_n1 == 2, vx_s1@ == lin_pars(self.layers@[vx_i0 as int]),
vx_acc0@ == mlp_pars(self.layers@.take(vx_i0 as int)) + vx_s1@.take(vx_p1 as int)

@fn <Mlp as Module<T>>::update_params
@params new_params
@props C19
@loop 0
@invariant
vx_n0 == old(self).layers@.len(), vx_len0 == vx_n0, self.layers@.len() == vx_n0,
new_params@.len() == 2 * vx_n0,
param_iter@ =~= new_params@.take(2 * (vx_n0 - vx_p0)),
forall|i: int| 0 <= i < vx_n0 ==> (#[trigger] self.layers@[i]).activation == old(self).layers@[i].activation,
forall|i: int| vx_n0 - vx_p0 <= i < vx_n0 ==> (#[trigger] self.layers@[i]).weights == new_params@[2 * i] && self.layers@[i].bias == new_params@[2 * i + 1]

@fn sgd_step
@params module step_size
@props C20
@heap
@requires
old(vx_h).held() =~= Set::empty(), rwf(*step_size.0), step_size.0.shape@.len() == 0,
forall|i: int| 0 <= i < old(module).pars().len() ==> rwf(*(#[trigger] old(module).pars()[i]).0) && grad_like(old(module).pars()[i], *old(vx_h))
@ensures
final(module).same_arch(*old(module)), final(module).pars().len() == old(module).pars().len(),
forall|i: int| 0 <= i < old(module).pars().len() ==> #[trigger] stepped(old(module).pars()[i], final(module).pars()[i], step_size.0.array@[0], *old(vx_h), *final(vx_h)),
heap_frame(*old(vx_h), *final(vx_h)), final(vx_h).held() =~= old(vx_h).held()
@loop 0
@invariant
vx_n0 == old(module).pars().len(), vx_s0@ == old(module).pars(), *module == *old(module), vx_acc1@.len() == vx_p0,
heap_frame(*old(vx_h), *vx_h), vx_h.held() =~= Set::empty(),
forall|i: int| 0 <= i < vx_p0 ==> #[trigger] stepped(old(module).pars()[i], vx_acc1@[i], step_size.0.array@[0], *old(vx_h), *vx_h)
@hint loop0 begin
let ghost h0 = *vx_h; let ghost p0 = vx_s0@[vx_i0 as int];
proof { lemma_bshape_self(p0.0.shape@); assert(grad_like(p0, *old(vx_h))); assert(stored(p0, *vx_h) == stored(p0, *old(vx_h))); }
@hint loop0 end
proof {
    let q = vx_acc1@[vx_i0 as int]; let g = (stored(p0, *old(vx_h))->0).0.array@;
    assert(q.0.array@ =~= sgd_el(p0.0.array@, step_size.0.array@[0], g));
    assert(stepped(p0, q, step_size.0.array@[0], *old(vx_h), *vx_h));
    assert forall|i: int| 0 <= i < vx_p0 implies #[trigger] stepped(old(module).pars()[i], vx_acc1@[i], step_size.0.array@[0], *old(vx_h), *vx_h) by {
        if i < vx_i0 { assert(stepped(old(module).pars()[i], vx_acc1@[i], step_size.0.array@[0], *old(vx_h), h0)); }
    }
}
