//# ---------------------------------------------------------------- tensor/utils.rs
@fn reset_trailing_indices
@params index position
@props C03
@requires
position < old(index)@.len()
@ensures
final(index)@.len() == old(index)@.len(),
forall|m: int| 0 <= m <= position ==> (#[trigger] final(index)@[m]) == old(index)@[m],
forall|m: int| position < m < old(index)@.len() ==> (#[trigger] final(index)@[m]) == 0
@loop 0
@invariant
index@.len() == old(index)@.len(),
vx_n0 == index@.len() - position - 1,
forall|m: int| 0 <= m <= position ==> (#[trigger] index@[m]) == old(index)@[m],
forall|m: int| position < m < position + 1 + vx_p0 ==> (#[trigger] index@[m]) == 0

@fn increment_index
@params index shape
@props C03 C07 C08 C12 C13
@requires
valid(old(index)@, shape@)
@ensures
r ==> valid(final(index)@, shape@) && flat(final(index)@, shape@) < prod(shape@) && flat(final(index)@, shape@) == flat(old(index)@, shape@) + 1,
!r ==> final(index)@ == old(index)@ && flat(old(index)@, shape@) + 1 == prod(shape@)
@loop 0
@invariant
index@ == old(index)@,
vx_n0 == index@.len(),
valid(index@, shape@),
carry == 1,
forall|m: int| index@.len() - vx_p0 <= m < index@.len() ==> (#[trigger] index@[m]) + 1 == shape@[m]
@loop 1
@invariant
i < shape@.len(), shape@.len() == index@.len(), dim == shape@[i as int], dim >= 1,
v == old(index)@[i as int],
(carry == 1 && index@ == old(index)@) || (carry == 0 && v + 1 < dim && index@ =~= old(index)@.update(i as int, (v + 1) as usize))
@ldecreases
carry
@hint loop0 begin
proof { assert(index@[vx_n0 - vx_p0] < shape@[vx_n0 - vx_p0]); }
@hint after reset_trailing_indices#0
proof {
    assert forall|m: int| 0 <= m < shape@.len() implies (#[trigger] index@[m]) < shape@[m] by { assert(old(index)@[m] < shape@[m]); }
    lemma_flat_succ(old(index)@, index@, shape@, i as int);
    lemma_flat_bound(index@, shape@);
}
@hint end
proof { lemma_flat_lasts(index@, shape@); }

@fn tensor_index
@params global_index shape
@props C05 C06
@requires
fits(shape@),
forall|k: int| 0 <= k < shape@.len() ==> #[trigger] shape@[k] > 0
@ensures
r is Ok <==> global_index < prod(shape@),
r is Ok ==> r->Ok_0@ == unflat(global_index as nat, shape@) && valid(r->Ok_0@, shape@)

@fn tensor_index_inplace
@params global_index shape index
@props C05 C06
@hint start
let ghost gi0 = global_index as nat;
@requires
fits(shape@),
forall|k: int| 0 <= k < shape@.len() ==> #[trigger] shape@[k] > 0
@ensures
r is Ok <==> global_index < prod(shape@),
r is Ok ==> final(index)@ == unflat(global_index as nat, shape@) && valid(final(index)@, shape@)
@loop 0
@invariant
index@.len() == vx_p0,
vx_n0 == shape@.len()
@loop 1
@invariant
vx_n1 == shape@.len(),
index@.len() == shape@.len(),
fits(shape@),
forall|k: int| 0 <= k < shape@.len() ==> #[trigger] shape@[k] > 0,
valid(index@.skip(shape@.len() - vx_p1), shape@.skip(shape@.len() - vx_p1)),
gi0 == global_index * prod(shape@.skip(shape@.len() - vx_p1)) + flat(index@.skip(shape@.len() - vx_p1), shape@.skip(shape@.len() - vx_p1))

@hint loop1 pre
proof {
    let n = shape@.len() as int;
    assert(shape@.skip(n) =~= Seq::<usize>::empty());
    assert(index@.skip(n) =~= Seq::<usize>::empty());
    assert(prod(shape@.skip(n)) == 1);
    assert(flat(index@.skip(n), shape@.skip(n)) == 0);
    let P0 = prod(shape@.skip(n));
    assert(global_index * P0 == global_index) by (nonlinear_arith) requires P0 == 1;
}
@hint loop1 begin
let ghost ix0 = index@; let ghost g0 = global_index as nat;
let ghost k = shape@.len() - vx_p1;
proof {
    assert(shape@[k] > 0);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(g0 as int, shape@[k] as int);
    vstd::arithmetic::div_mod::lemma_mod_bound(g0 as int, shape@[k] as int);
    let (gg, dd) = (global_index as int, shape@[k] as int);
    assert((gg / dd) * dd == dd * (gg / dd)) by (nonlinear_arith);
}
@hint loop1 end
proof {
    let d = shape@[k] as nat; let P = prod(shape@.skip(k + 1)); let F = flat(ix0.skip(k + 1), shape@.skip(k + 1));
    assert(index@.skip(k + 1) =~= ix0.skip(k + 1));
    lemma_flat_skip(index@, shape@, k);
    lemma_prod_skip(shape@, k);
    assert(index@[k] == g0 % d && global_index == g0 / d);
    assert(gi0 == g0 * P + F);
    assert(g0 == (g0 / d) * d + g0 % d) by (nonlinear_arith) requires d > 0;
    let q = g0 / d; let md = g0 % d;
    assert((q * d + md) * P + F == q * (d * P) + (md * P + F)) by (nonlinear_arith);
    assert forall|m: int| 0 <= m < shape@.skip(k).len() implies (#[trigger] index@.skip(k)[m]) < shape@.skip(k)[m] by {
        if m > 0 { assert(ix0.skip(k + 1)[m - 1] < shape@.skip(k + 1)[m - 1]); }
    }
}
@hint loop1 after
proof {
    assert(index@.skip(0) =~= index@);
    assert(shape@.skip(0) =~= shape@);
    lemma_flat_unflat(index@, shape@);
    let P = prod(shape@); let F = flat(index@, shape@); let g = global_index as nat;
    assert(gi0 == g * P + F);
    if g > 0 { assert(g * P + F >= P) by (nonlinear_arith) requires g > 0; }
    else { assert(0 * P == 0) by (nonlinear_arith); }
}

@fn global_index
@params index shape offset
@props C01 C02 C05
@requires
fits(shape@),
offset is Some ==> win_ok(offset->0@, shape@),
offset is Some ==> forall|k: int| 0 <= k < shape@.len() && k + index@.len() - shape@.len() >= 0 ==> #[trigger] offset->0@[k].start + index@[k + index@.len() - shape@.len()] <= usize::MAX
@ensures
r is Ok <==> (forall|k: int| 0 <= k < shape@.len() ==> #[trigger] gi_ok_at(index@, shape@, gi_view(offset), k)),
r is Ok ==> r->Ok_0 == flat(gi_idx(index@, shape@, gi_view(offset)), shape@) && r->Ok_0 < prod(shape@)
@hint start
let ghost ov = gi_view(offset);
@loop 0
@invariant
forall|m: int| 0 <= m < vx_p0 ==> #[trigger] shape@[m] == 1
@loop 1
@invariant
forall|m: int| 0 <= m < shape@.len() - index@.len() ==> #[trigger] shape@[m] == 1,
forall|m: int| shape@.len() - vx_p1 <= m < shape@.len() ==> #[trigger] gi_ok_at(index@, shape@, ov, m),
multiplier == prod(shape@.skip(shape@.len() - vx_p1)),
valid(gi_idx(index@, shape@, ov).skip(shape@.len() - vx_p1), shape@.skip(shape@.len() - vx_p1)),
global_idx == flat(gi_idx(index@, shape@, ov).skip(shape@.len() - vx_p1), shape@.skip(shape@.len() - vx_p1))
@hint loop0 begin
proof { assert(gi_ok_at(index@, shape@, ov, vx_i0 as int) == (shape@[vx_i0 as int] == 1)); }
@hint loop1 pre
proof {
    let n = shape@.len() as int;
    assert(shape@.skip(n) =~= Seq::<usize>::empty());
    assert(gi_idx(index@, shape@, ov).skip(n) =~= Seq::<usize>::empty());
    assert(prod(shape@.skip(n)) == 1);
}
@hint loop1 begin
let ghost k = shape@.len() - vx_p1;
let ghost gi = gi_idx(index@, shape@, ov);
proof {
    lemma_flat_skip(gi, shape@, k);
    lemma_prod_skip(shape@, k);
    lemma_prodz_parts(shape@, k);
    lemma_prod_le_z(shape@.skip(k));
    let P = prod(shape@.skip(k + 1));
    let D = shape@[k] as nat;
    assert(1 * P == P && 0 * P == 0 && P * D == D * P) by (nonlinear_arith);
    if ov is Some { assert(ov->0[k].start <= ov->0[k].end && ov->0[k].end <= shape@[k]); }
    if gi_ok_at(index@, shape@, ov, k) {
        assert(gi[k] < shape@[k]);
        assert forall|m: int| 0 <= m < shape@.skip(k).len() implies (#[trigger] gi.skip(k)[m]) < shape@.skip(k)[m] by {
            if m > 0 { assert(gi.skip(k + 1)[m - 1] < shape@.skip(k + 1)[m - 1]); }
        }
        lemma_flat_bound(gi.skip(k), shape@.skip(k));
    }
}
@hint loop1 after
proof {
    let gi = gi_idx(index@, shape@, ov);
    let m0 = shape@.len() - vx_n1;
    assert forall|m: int| 0 <= m < m0 implies gi[m] == 0 && #[trigger] shape@[m] == 1 by {}
    assert forall|m: int| 0 <= m < m0 implies #[trigger] gi[m] == 0 by { assert(shape@[m] == 1); }
    lemma_flat_lead(gi, shape@, m0);
    assert forall|m: int| 0 <= m < shape@.len() implies #[trigger] gi_ok_at(index@, shape@, ov, m) by { if m < m0 { assert(shape@[m] == 1); } }
    assert forall|m: int| 0 <= m < shape@.len() implies (#[trigger] gi[m]) < shape@[m] by { if m >= m0 { assert(gi.skip(m0)[m - m0] < shape@.skip(m0)[m - m0]); } else { assert(shape@[m] == 1); } }
    lemma_flat_bound(gi, shape@);
}

@fn IndexIterator::new
@params dimensions
@props C03
@ensures
r.dimensions == dimensions, r.first, r.index@.len() == dimensions@.len(), forall|k: int| 0 <= k < dimensions@.len() ==> #[trigger] r.index@[k] == 0

@fn <IndexIterator as Iterator>::next
@props C03
@requires
ii_wf(*old(self))
@ensures
ii_wf(*final(self)), final(self).dimensions == old(self).dimensions,
r is Some <==> ii_pos(*old(self)) < prod(old(self).dimensions@),
r is Some ==> valid(r->0@, old(self).dimensions@) && flat(r->0@, old(self).dimensions@) == ii_pos(*old(self)) && ii_pos(*final(self)) == ii_pos(*old(self)) + 1,
r is None ==> ii_pos(*final(self)) == ii_pos(*old(self))
@hint start
proof { if self.first { lemma_zero_index(self.index@, self.dimensions@); } else { lemma_flat_bound(self.index@, self.dimensions@); } lemma_prod_pos(self.dimensions@); }

@fn ElementIterator<V>::new
@params tensor_like
@props C03
@requires
tensor_like.wf()
@ensures
ei_wf(r), ei_pos(r) == 0, r.tensor_like == tensor_like

@fn <ElementIterator<V> as Iterator>::next
@props C03
@requires
ei_wf(*old(self))
@ensures
ei_wf(*final(self)), final(self).tensor_like == old(self).tensor_like,
r is Some <==> ei_pos(*old(self)) < prod(old(self).tensor_like.sh()),
r is Some ==> r->0 == old(self).tensor_like.el()[ei_pos(*old(self)) as int] && ei_pos(*final(self)) == ei_pos(*old(self)) + 1,
r is None ==> ei_pos(*final(self)) == ei_pos(*old(self))
@hint start
proof {
    let s = self.tensor_like.sh();
    if self.first { lemma_zero_index(self.index@, s); } else { lemma_flat_bound(self.index@, s); }
    lemma_bidx_full(self.index@, s);
}
@hint before get#0
proof { lemma_bidx_full(self.index@, self.tensor_like.sh()); }
@hint before get#1
proof { lemma_bidx_full(self.index@, self.tensor_like.sh()); lemma_flat_bound(self.index@, self.tensor_like.sh()); }
