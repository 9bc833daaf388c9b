//# the channel-based writer of the matrix-product gradient
@fn SplitArrayWriter::new
@props C14 C24
@chan
@requires
slice.lo == 0, slice.lo <= slice.hi, old(vx_c).n() >= 0
@ensures
w_wf(r, *final(vx_c)), w_len(r) == slice.hi, w_n(r) > 0 ==> w_base(r) == old(vx_c).n(),
final(vx_c).n() == old(vx_c).n() + w_n(r), final(vx_c).pending() == old(vx_c).pending(), w_idle(r, *final(vx_c)),
forall|i: int| i < old(vx_c).n() ==> (#[trigger] final(vx_c).q(i)) == old(vx_c).q(i),
forall|p: int, v: T| 0 <= p < slice.hi ==> #[trigger] wp(r, *final(vx_c), p, v) == v
@hint start
proof { lemma_shl1(); vstd::arithmetic::power2::lemma2_to64(); }
@hint end
proof {
    lemma_chunks_shape(vx_ret, slice);
    assert forall|k: int| 0 <= k < w_n(vx_ret) implies #[trigger] w_q(vx_ret, *vx_c, k) by {}
    assert forall|p: int, v: T| 0 <= p < slice.hi implies #[trigger] wp(vx_ret, *vx_c, p, v) == v by { lemma_w_seg(vx_ret, p); }
}

@fn SplitArrayWriter::get_writer
@props C14 C24
@chan
@requires
w_wf(*self, *old(vx_c)), global_idx < w_len(*self)
@ensures
r is Ok, w_wf(*self, *final(vx_c)), w_frame(*self, *old(vx_c), *final(vx_c)),
forall|p: int, v: T| 0 <= p < w_len(*self) ==> #[trigger] wp(*self, *final(vx_c), p, v) == (if p == global_idx { t_add(wp(*self, *old(vx_c), p, v), val) } else { wp(*self, *old(vx_c), p, v) })
@hint start
proof {
    lemma_w_seg(*self, global_idx as int);
    vstd::bits::lemma_usize_shr_is_div(global_idx, self.bit_width);
    vstd::bits::lemma_usize_shl_is_mul(1, self.bit_width);
}
@hint end
proof {
    let kk = global_idx as int / (self.width as int);
    let b = w_base(*self);
    assert(self.receivers@[kk].id() == b + kk);
    assert forall|k: int| 0 <= k < w_n(*self) implies #[trigger] w_q(*self, *vx_c, k) by { assert(w_q(*self, *old(vx_c), k)); }
    assert forall|p: int, v: T| 0 <= p < w_len(*self) implies #[trigger] wp(*self, *vx_c, p, v) == (if p == global_idx { t_add(wp(*self, *old(vx_c), p, v), val) } else { wp(*self, *old(vx_c), p, v) }) by {
        lemma_w_seg(*self, p);
        lemma_qfold_push(old(vx_c).q(b + kk), (global_idx, val), p, v);
    }
}

@fn SplitArrayWriter::start_then_join
@props C14 C24
@chan
@buf
@requires
w_wf(self, *old(vx_c)), w_idle(self, *old(vx_c)), old(vx_buf)@.len() == w_len(self)
@ensures
final(vx_buf)@.len() == old(vx_buf)@.len(), w_frame(self, *old(vx_c), *final(vx_c)), final(vx_c).pending() == old(vx_c).pending(),
forall|p: int| 0 <= p < w_len(self) ==> (#[trigger] final(vx_buf)@[p]) == wp(self, *old(vx_c), p, old(vx_buf)@[p]),
forall|u: SplitArrayWriter| w_apart(self, u) && w_wf(u, *old(vx_c)) ==> #[trigger] w_wf(u, *final(vx_c)),
forall|u: SplitArrayWriter, p: int, v: T| w_apart(self, u) && w_wf(u, *old(vx_c)) && 0 <= p < w_len(u) ==> #[trigger] wp(u, *final(vx_c), p, v) == wp(u, *old(vx_c), p, v)
@hint start
proof {
    assert forall|i: int| w_mine(self, i) implies #[trigger] has_tx(*(self.senders->0), i) by { assert((*(self.senders->0))@[i - w_base(self)].id() == i); }
    assert forall|i: int| !w_mine(self, i) implies !#[trigger] has_tx(*(self.senders->0), i) by { }
}
@hint end
proof {
    assert forall|p: int| 0 <= p < w_len(self) implies (#[trigger] vx_buf@[p]) == wp(self, *old(vx_c), p, old(vx_buf)@[p]) by {
        lemma_w_seg(self, p);
        assert(st_pos(self, *old(vx_c), old(vx_buf)@, vx_buf@, p, w_n(self)));
    }
    assert forall|u: SplitArrayWriter| w_apart(self, u) && w_wf(u, *old(vx_c)) implies #[trigger] w_wf(u, *vx_c) by { lemma_w_other(self, u, *old(vx_c), *vx_c); }
    assert forall|u: SplitArrayWriter, p: int, v: T| w_apart(self, u) && w_wf(u, *old(vx_c)) && 0 <= p < w_len(u) implies #[trigger] wp(u, *vx_c, p, v) == wp(u, *old(vx_c), p, v) by { lemma_w_other(self, u, *old(vx_c), *vx_c); }
}
@loop 0
@invariant
vx_n0 == w_n(self), vx_self.segments@ == self.segments@, vx_self.receivers@ == self.receivers@, vx_self.width == self.width,
w_shape(self), st_frame(self, *old(vx_c), *vx_c),
vx_buf@.len() == w_len(self),
st_rest(self, *old(vx_c), *vx_c, vx_p0 as int),
forall|p: int| 0 <= p < w_len(self) ==> #[trigger] st_pos(self, *old(vx_c), old(vx_buf)@, vx_buf@, p, vx_p0 as int)
@hint loop0 pre
proof {
    assert forall|p: int| 0 <= p < w_len(self) implies #[trigger] st_pos(self, *old(vx_c), old(vx_buf)@, vx_buf@, p, 0) by { lemma_w_seg(self, p); }
    assert forall|k: int| 0 <= k < w_n(self) implies #[trigger] st_todo(self, *old(vx_c), *vx_c, k) by { assert(w_q(self, *old(vx_c), k)); }
}
@hint loop0 end
proof {
    assert forall|p: int| 0 <= p < w_len(self) implies #[trigger] st_pos(self, *old(vx_c), old(vx_buf)@, vx_buf@, p, vx_p0 as int) by {
        lemma_w_seg(self, p);
        if p / (self.width as int) == vx_i0 { assert(st_now(self, *old(vx_c), *vx_c, old(vx_buf)@, vx_buf@, p, vx_i0 as int)); }
        else { assert(st_pos(self, *old(vx_c), old(vx_buf)@, vx_buf@, p, vx_i0 as int)); }
    }
}
@loop 1
@invariant
st_frame(self, *old(vx_c), *vx_c), vx_buf@.len() == w_len(self),
rx.id() == chan_id(self, vx_i0 as int), q_ok(self, vx_c.q(chan_id(self, vx_i0 as int)), vx_i0 as int),
st_rest(self, *old(vx_c), *vx_c, vx_p0 as int),
forall|p: int| 0 <= p < w_len(self) && p / (self.width as int) != vx_i0 ==> #[trigger] st_pos(self, *old(vx_c), old(vx_buf)@, vx_buf@, p, vx_i0 as int),
st_cur(self, *old(vx_c), *vx_c, old(vx_buf)@, vx_buf@, vx_i0 as int)
@lensures
st_frame(self, *old(vx_c), *vx_c), vx_buf@.len() == w_len(self),
vx_c.q(chan_id(self, vx_i0 as int)).len() == 0,
st_rest(self, *old(vx_c), *vx_c, vx_p0 as int),
forall|p: int| 0 <= p < w_len(self) && p / (self.width as int) != vx_i0 ==> #[trigger] st_pos(self, *old(vx_c), old(vx_buf)@, vx_buf@, p, vx_i0 as int),
st_cur(self, *old(vx_c), *vx_c, old(vx_buf)@, vx_buf@, vx_i0 as int)
@ldecreases
vx_c.q(chan_id(self, vx_i0 as int)).len()
@hint loop1 pre
proof {
    assert(st_todo(self, *old(vx_c), *vx_c, vx_i0 as int));
    assert(w_seg(self, vx_i0 as int));
    assert(w_mine(self, chan_id(self, vx_i0 as int)));
    assert(vx_self.receivers@[vx_i0 as int].id() == chan_id(self, vx_i0 as int));
    assert forall|p: int| 0 <= p < w_len(self) && p / (self.width as int) == vx_i0 implies #[trigger] st_now(self, *old(vx_c), *vx_c, old(vx_buf)@, vx_buf@, p, vx_i0 as int) by {
        assert(st_pos(self, *old(vx_c), old(vx_buf)@, vx_buf@, p, vx_i0 as int));
    }
}

@hint loop1 first
let ghost vx_c1 = *vx_c;
let ghost vx_b1 = vx_buf@;
proof {
    assert(w_seg(self, vx_i0 as int));
    assert(w_mine(self, chan_id(self, vx_i0 as int)));
    let q = vx_c1.q(chan_id(self, vx_i0 as int));
    if q.len() > 0 {
        lemma_w_pos(self, q[0].0 as int, vx_i0 as int);
        lemma_w_seg(self, q[0].0 as int);
        assert(q_ok(self, q.skip(1), vx_i0 as int));
    }
}
@hint loop1 end
proof {
    let q = vx_c1.q(chan_id(self, vx_i0 as int));
    let g = q[0].0 as int;
    assert(vx_c.q(chan_id(self, vx_i0 as int)) == q.skip(1));
    assert(vx_buf@ =~= vx_b1.update(g, t_add(vx_b1[g], q[0].1)));
    assert forall|k: int| vx_p0 <= k < vx_n0 implies #[trigger] st_todo(self, *old(vx_c), *vx_c, k) by { assert(st_todo(self, *old(vx_c), vx_c1, k)); }
    assert forall|p: int| 0 <= p < w_len(self) && p / (self.width as int) != vx_i0 implies #[trigger] st_pos(self, *old(vx_c), old(vx_buf)@, vx_buf@, p, vx_i0 as int) by {
        assert(st_pos(self, *old(vx_c), old(vx_buf)@, vx_b1, p, vx_i0 as int));
    }
    assert forall|p: int| 0 <= p < w_len(self) && p / (self.width as int) == vx_i0 implies #[trigger] st_now(self, *old(vx_c), *vx_c, old(vx_buf)@, vx_buf@, p, vx_i0 as int) by {
        assert(st_now(self, *old(vx_c), vx_c1, old(vx_buf)@, vx_b1, p, vx_i0 as int));
        lemma_qfold_head(q, p, vx_b1[p]);
    }
}

@fn bmm_jvp
@props C14 C24
@chanroot
@jvp Bmm
@requires
jvp_pre(DOp::Bmm, inputs@, jacobians@)
@ensures
jvp_post(DOp::Bmm, inputs@, jacobians@, r@)
@hint start
let ghost in0 = inputs@; let ghost ae = in0[0].0.array@; let ghost be = in0[1].0.array@; let ghost g = jacobians@[0].0.array@;
let ghost sa = in0[0].0.shape@; let ghost sb = in0[1].0.shape@; let ghost C: usize = sb[0]; let ghost N: usize = sb[1]; let ghost M: usize = mm_rows(sa) as usize;
proof {
    assert(rwf(*in0[0].0) && rwf(*in0[1].0));
    assert(in0[0].0.array.len() == ae.len());
    lemma_mm_tall(sa);
    lemma_flat2(seq![0usize, 0usize], sb);
    lemma_prod_pos(sb);
    let gs = jacobians@[0].0.shape@;
    lemma_flat2(seq![0usize, 0usize], gs);
    lemma_prod2(M, N); lemma_prod2(M, C); lemma_prod2(C, N);
    let q = gs[1] as int;
    assert(1 * q == q) by (nonlinear_arith);
    assert forall|u: int, v: int| u == 1 implies #[trigger] (u * v) == v by { assert(u * v == v) by (nonlinear_arith) requires u == 1; }
}
@hint after new#1
let ghost vx_c1 = vx_c;
@loop 0
@invariant
bj_inv(left_split_writer, right_split_writer, vx_c, ae, be, g, M, C, N, vx_p0 as int, 0, 0)
@loop 1
@invariant
bj_inv(left_split_writer, right_split_writer, vx_c, ae, be, g, M, C, N, i as int, vx_p1 as int, 0)
@loop 2
@invariant
bj_inv(left_split_writer, right_split_writer, vx_c, ae, be, g, M, C, N, i as int, k as int, vx_p2 as int)
@loop 3
@invariant
bj_inv(left_split_writer, right_split_writer, vx_c, ae, be, g, M, C, N, i as int, k as int, j + vx_p3)

@hint loop0 pre
proof {
    assert(w_apart(left_split_writer, right_split_writer) && w_apart(right_split_writer, left_split_writer));
    assert forall|q: int| 0 <= q < w_n(left_split_writer) implies #[trigger] w_q(left_split_writer, vx_c, q) by { assert(w_q(left_split_writer, vx_c1, q)); }
    assert forall|p: int, v: T| 0 <= p < w_len(left_split_writer) implies #[trigger] wp(left_split_writer, vx_c, p, v) == v by {
        lemma_w_seg(left_split_writer, p);
        assert(wp(left_split_writer, vx_c1, p, v) == v);
    }
}
@hint loop0 end
proof { lemma_dl_next(left_split_writer, vx_c, be, g, C as nat, N as nat, i as int, 0); lemma_dr_next(right_split_writer, vx_c, ae, g, C as nat, N as nat, i as int, 0); }
@hint loop1 end
proof { lemma_dl_next(left_split_writer, vx_c, be, g, C as nat, N as nat, i as int, k as int); lemma_dr_next(right_split_writer, vx_c, ae, g, C as nat, N as nat, i as int, k as int); }
@hint loop2 begin
proof {
    lemma_2d(i, vx_i2, seq![M, N]); lemma_2d(i, k, seq![M, C]); lemma_2d(k, vx_i2, sb);
}
@hint loop3 begin
let ghost vx_c2 = vx_c;
proof {
    let mc = (M * C) as usize; let cn = (C * N) as usize;
    assert(left_output_shape@ =~= seq![1usize, mc]); assert(right_output_shape@ =~= seq![1usize, cn]);
    lemma_prod2(1, mc); lemma_prod2(1, cn);
    lemma_2d(0, left_jac_idx1, seq![1usize, mc]); lemma_2d(0, right_jac_idx1, seq![1usize, cn]); lemma_2d(0, self_jac_idx0, jacobians@[0].0.shape@);
    let x = mc as int; let y = cn as int; let z = N * M;
    assert(0 * x == 0 && 0 * y == 0) by (nonlinear_arith);
}
@hint after get_writer#0
let ghost vx_c3 = vx_c;
proof {
    lemma_dl_step(left_split_writer, vx_c2, vx_c, be, g, C as nat, N as nat, i as int, k as int, j as int, left_val);
    lemma_w_other(left_split_writer, right_split_writer, vx_c2, vx_c);
    assert(dr_inv(right_split_writer, vx_c, ae, g, C as nat, N as nat, i as int, k as int, j as int));
}
@hint after get_writer#1
proof {
    lemma_dr_step(right_split_writer, vx_c3, vx_c, ae, g, C as nat, N as nat, i as int, k as int, j as int, right_val);
    lemma_w_other(right_split_writer, left_split_writer, vx_c3, vx_c);
    assert(dl_inv(left_split_writer, vx_c, be, g, C as nat, N as nat, i as int, k as int, j + 1));
}
@hint before start_then_join#0
proof { assert(w_wf(left_split_writer, vx_c)); assert(w_wf(right_split_writer, vx_c)); }
@hint after start_then_join#1
proof {
    let mc = (M * C) as usize; let cn = (C * N) as usize;
    assert(left_output_shape@ =~= seq![1usize, mc]); assert(right_output_shape@ =~= seq![1usize, cn]);
    lemma_vec1n(mc); lemma_vec1n(cn);
}
@hint end
proof {
    let mc = (M * C) as usize; let cn = (C * N) as usize;
    lemma_vec1n(mc); lemma_vec1n(cn);
    assert(vx_ret@[0].0.array@ =~= dgrad(DOp::Bmm, in0, g, 0));
    assert(vx_ret@[1].0.array@ =~= dgrad(DOp::Bmm, in0, g, 1));
    assert(vx_ret@[0].0.shape@ =~= seq![1usize, ae.len() as usize]);
    assert(vx_ret@[1].0.shape@ =~= seq![1usize, be.len() as usize]);
}
