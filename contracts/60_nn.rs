// ------------------------------------------------------------------ modules
/// A module seen through its parameters.  same_arch: two states of one module that differ at most in
/// their parameters.
pub trait Module: Sized {
    spec fn pars(&self) -> Seq<RcTensor>;
    spec fn same_arch(&self, o: Self) -> bool;
    /// the operands fit the module's parameters
    spec fn fwd_req(&self, x: RcTensor) -> bool;
    spec fn fwd_rel(&self, x: RcTensor, r: RcTensor) -> bool;
    fn forward(&self, batch_ref: RcTensor) -> (r: RcTensor)
        requires rwf(*batch_ref.0), self.fwd_req(batch_ref)
        ensures rwf(*r.0), self.fwd_rel(batch_ref, r);
    fn params(&self) -> (r: Vec<RcTensor>)
        ensures r@ == self.pars();
    fn update_params(&mut self, new_params: Vec<RcTensor>)
        requires new_params@.len() == old(self).pars().len()
        ensures final(self).pars() == new_params@, final(self).same_arch(*old(self));
}
/// x times the weights, with its recorded derivative
pub open spec fn lin_mm(l: Linear, x: RcTensor, y: RcTensor) -> bool {
    has(*y.0, mm_shape(x.0.shape@, l.weights.0.shape@), mm_el(x.0.shape@, x.0.array@, l.weights.0.shape@, l.weights.0.array@))
    && recorded(*y.0, DOp::Bmm, seq![x, l.weights])
}
/// plus the bias, with its recorded derivative
pub open spec fn lin_add(l: Linear, y: RcTensor, z: RcTensor) -> bool {
    has(*z.0, bshape(y.0.shape@, l.bias.0.shape@), add_el(y.0.shape@, y.0.array@, l.bias.0.shape@, l.bias.0.array@))
    && recorded(*z.0, DOp::Add, seq![y, l.bias])
}
pub open spec fn lin_pre_act(l: Linear, x: RcTensor, z: RcTensor) -> bool {
    exists|y: RcTensor| lin_mm(l, x, y) && #[trigger] lin_add(l, y, z)
}
/// activation(x weights + bias)
pub open spec fn lin_rel(l: Linear, x: RcTensor, r: RcTensor) -> bool {
    exists|z: RcTensor| lin_pre_act(l, x, z) && #[trigger] act_post(l.activation.op(), z, r)
}
/// the sizes fit, and the activation accepts what it is given
pub open spec fn lin_req(l: Linear, x: RcTensor) -> bool {
    let w = l.weights.0.shape@; let y = mm_shape(x.0.shape@, w);
    &&& rwf(*l.weights.0) && rwf(*l.bias.0)
    &&& mm_ok(x.0.shape@, w) && fits(y) && compat(y, l.bias.0.shape@) && fits(bshape(y, l.bias.0.shape@))
    &&& forall|z: RcTensor| rwf(*z.0) && lin_pre_act(l, x, z) ==> #[trigger] act_pre(l.activation.op(), z)
}
/// the first n layers, each applied to the previous layer's output
pub open spec fn mlp_rel(l: Seq<Linear>, x: RcTensor, n: nat, r: RcTensor) -> bool decreases n {
    if n == 0 { r == x } else { exists|m: RcTensor| mlp_rel(l, x, (n - 1) as nat, m) && #[trigger] lin_rel(l[n - 1], m, r) }
}
pub open spec fn mlp_req(l: Seq<Linear>, x: RcTensor) -> bool {
    forall|n: nat, m: RcTensor| n < l.len() && rwf(*m.0) && #[trigger] mlp_rel(l, x, n, m) ==> lin_req(l[n as int], m)
}
/// weights and bias of the first n layers in layer order
pub open spec fn lin_pars(l: Linear) -> Seq<RcTensor> { seq![l.weights, l.bias] }
pub open spec fn mlp_pars(l: Seq<Linear>) -> Seq<RcTensor> {
    Seq::new(2 * l.len(), |i: int| if i % 2 == 0 { l[i / 2].weights } else { l[i / 2].bias })
}
pub proof fn lemma_pars_push(l: Seq<Linear>, n: int)
    requires 0 <= n < l.len()
    ensures mlp_pars(l.take(n + 1)) == mlp_pars(l.take(n)) + lin_pars(l[n])
{
    assert(mlp_pars(l.take(n + 1)) =~= mlp_pars(l.take(n)) + lin_pars(l[n]));
}
/// p minus step size times its gradient
pub open spec fn sgd_el(p: Seq<T>, s: T, g: Seq<T>) -> Seq<T> { Seq::new(p.len(), |i: int| t_add(p[i], t_neg(t_mul(s, g[i])))) }
pub open spec fn stored(p: RcTensor, h: GradHeap) -> Option<RcTensor> { (h.at())(p.0.grad.id()) }
/// p has a gradient of its own shape
pub open spec fn grad_like(p: RcTensor, h: GradHeap) -> bool {
    h.known().contains(p.0.grad.id()) && stored(p, h) is Some && rwf(*(stored(p, h)->0).0) && (stored(p, h)->0).0.shape@ == p.0.shape@
}
/// q is p minus s times p's gradient (as of h0), with no gradient and no history, in a cell of its own
pub open spec fn stepped(p: RcTensor, q: RcTensor, s: T, h0: GradHeap, h1: GradHeap) -> bool {
    &&& rwf(*q.0) && has(*q.0, p.0.shape@, sgd_el(p.0.array@, s, (stored(p, h0)->0).0.array@))
    &&& q.0.grad_fn is None && stored(q, h1) is None && !h0.known().contains(q.0.grad.id()) && h1.known().contains(q.0.grad.id())
}
