// ------------------------------------------------------------------ back-propagation
/// Each gradient cell belongs to one tensor; cell_shape names that tensor's shape.  It is a free
/// constant: what is proved holds for every interpretation that agrees with the graph at hand.
pub uninterp spec fn cell_shape(id: int) -> Seq<usize>;
/// every tensor reached through the recorded operations owns its cell
pub open spec fn graph_ok(d: Derivative) -> bool decreases d {
    gsok(d.inputs@)
}
pub open spec fn gsok(s: Seq<RcTensor>) -> bool decreases s {
    forall|k: int| 0 <= k < s.len() ==> gnode(*#[trigger] s[k].0)
}
pub open spec fn gnode(r: RawTensor) -> bool decreases r {
    cell_shape(r.grad.id()) == r.shape@ && match r.grad_fn { None => true, Some(d) => gsok(d.inputs@) }
}
/// stored gradients have their tensor's shape
pub open spec fn heap_ok(h: GradHeap) -> bool {
    forall|id: int| (#[trigger] (h.at())(id)) is Some ==> rwf(*((h.at())(id)->0).0) && ((h.at())(id)->0).0.shape@ == cell_shape(id)
}
/// one contribution: which cell, and what is added
pub struct Contrib { pub id: int, pub sh: Seq<usize>, pub el: Seq<T> }
/// everything the first n operands of d receive when g comes in, path by path: the operand itself, then
/// whatever its own recorded operation passes on
pub open spec fn contribs(d: Derivative, g: Seq<T>, n: nat) -> Seq<Contrib> decreases d, n {
    if n == 0 || n > d.inputs@.len() { Seq::empty() } else {
        let k = n - 1;
        let i = d.inputs@[k];
        let gk = dgrad(d.jacobian_vector_product.op(), d.inputs@, g, k);
        contribs(d, g, k as nat).push(Contrib { id: i.0.grad.id(), sh: i.0.shape@, el: gk }) + (match i.0.grad_fn { None => Seq::empty(), Some(e) => contribs(e, gk, e.inputs@.len()) })
    }
}
pub open spec fn gview(h: GradHeap, id: int) -> Option<(Seq<usize>, Seq<T>)> {
    match (h.at())(id) { None => None, Some(r) => Some((r.0.shape@, r.0.array@)) }
}
pub open spec fn gadd(v: Option<(Seq<usize>, Seq<T>)>, c: Contrib) -> Option<(Seq<usize>, Seq<T>)> {
    match v { None => Some((c.sh, c.el)), Some(p) => Some((c.sh, zip_el(|a: T, b: T| t_add(a, b), p.1, c.el))) }
}
/// the stored value of cell id after the contributions, taken in order
pub open spec fn gfold(v: Option<(Seq<usize>, Seq<T>)>, c: Seq<Contrib>, id: int) -> Option<(Seq<usize>, Seq<T>)> decreases c.len() {
    if c.len() == 0 { v } else {
        let w = gfold(v, c.drop_last(), id);
        if c.last().id == id { gadd(w, c.last()) } else { w }
    }
}
pub proof fn lemma_gfold_cat(v: Option<(Seq<usize>, Seq<T>)>, a: Seq<Contrib>, b: Seq<Contrib>, id: int)
    ensures gfold(v, a + b, id) == gfold(gfold(v, a, id), b, id)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_gfold_cat(v, a, b.drop_last(), id);
    }
}
/// a cell that receives nothing keeps its value
pub proof fn lemma_gfold_other(v: Option<(Seq<usize>, Seq<T>)>, c: Seq<Contrib>, id: int)
    requires forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k]).id != id
    ensures gfold(v, c, id) == v
    decreases c.len()
{
    if c.len() > 0 { lemma_gfold_other(v, c.drop_last(), id); }
}

/// what a tensor that receives gk hands to its own operands
pub open spec fn passed_on(i: RcTensor, gk: Seq<T>) -> Seq<Contrib> {
    match i.0.grad_fn { None => Seq::empty(), Some(e) => contribs(e, gk, e.inputs@.len()) }
}

pub open spec fn deriv_ok(x: RcTensor) -> bool { x.0.grad_fn is Some && graph_ok(x.0.grad_fn->0) }
pub open spec fn deriv_inputs(x: RcTensor) -> Seq<RcTensor> { (x.0.grad_fn->0).inputs@ }
