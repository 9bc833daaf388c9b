// ------------------------------------------------------------------ views
pub open spec fn view_wf(v: TensorView) -> bool {
    rwf(*v.tensor.0) && win_ok(v.view.offset@, v.tensor.0.shape@) && fits(v.view.shape@)
    && prod(v.view.shape@) == prod(win_shape(v.view.offset@))
}
/// element of the source at the row-major position p of the window
pub open spec fn view_at(v: TensorView, p: int) -> T {
    v.tensor.0.array@[flat(win_shift(unflat(p as nat, win_shape(v.view.offset@)), v.view.offset@), v.tensor.0.shape@) as int]
}
pub open spec fn view_el(v: TensorView) -> Seq<T> { Seq::new(prod(v.view.shape@), |p: int| view_at(v, p)) }
