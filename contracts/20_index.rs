// ------------------------------------------------------------------ shapes and indices
/// product of the axis sizes
pub open spec fn prod(s: Seq<usize>) -> nat decreases s.len() {
    if s.len() == 0 { 1 } else { s[0] as nat * prod(s.drop_first()) }
}
/// product with every empty axis counted as one: what a loop multiplying the sizes can reach
pub open spec fn prodz(s: Seq<usize>) -> nat decreases s.len() {
    if s.len() == 0 { 1 } else { (if s[0] == 0 { 1nat } else { s[0] as nat }) * prodz(s.drop_first()) }
}
/// the shape can be multiplied out without exceeding usize (assumption on every shape)
pub open spec fn fits(s: Seq<usize>) -> bool { prodz(s) <= usize::MAX }
pub open spec fn valid(i: Seq<usize>, s: Seq<usize>) -> bool {
    i.len() == s.len() && forall|k: int| 0 <= k < s.len() ==> (#[trigger] i[k]) < s[k]
}
/// row-major position of an index
pub open spec fn flat(i: Seq<usize>, s: Seq<usize>) -> nat decreases s.len() {
    if s.len() == 0 || i.len() == 0 { 0 } else { i[0] as nat * prod(s.drop_first()) + flat(i.drop_first(), s.drop_first()) }
}
/// index at a row-major position
pub open spec fn unflat(p: nat, s: Seq<usize>) -> Seq<usize> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        seq![(p / prod(s.drop_first())) as usize] + unflat(p % prod(s.drop_first()), s.drop_first())
    }
}
pub proof fn lemma_prod_cons(x: usize, s: Seq<usize>)
    ensures prod(seq![x] + s) == x as nat * prod(s), prodz(seq![x] + s) == (if x == 0 { 1nat } else { x as nat }) * prodz(s)
{
    assert((seq![x] + s).drop_first() =~= s);
}
pub proof fn lemma_prod_skip(s: Seq<usize>, i: int)
    requires 0 <= i < s.len()
    ensures prod(s.skip(i)) == s[i] as nat * prod(s.skip(i + 1)),
        prodz(s.skip(i)) == (if s[i] == 0 { 1nat } else { s[i] as nat }) * prodz(s.skip(i + 1))
{
    assert(s.skip(i).drop_first() =~= s.skip(i + 1));
}
pub proof fn lemma_prod_concat(a: Seq<usize>, b: Seq<usize>)
    ensures prod(a + b) == prod(a) * prod(b), prodz(a + b) == prodz(a) * prodz(b)
    decreases a.len()
{
    if a.len() == 0 {
        assert(a + b =~= b);
        let q = prod(b); let qz = prodz(b);
        assert(1 * q == q && 1 * qz == qz) by (nonlinear_arith);
    } else {
        assert((a + b)[0] == a[0]);
        lemma_prod_concat(a.drop_first(), b);
        assert((a + b).drop_first() =~= a.drop_first() + b);
        let x = a[0] as nat;
        let xz = if a[0] == 0 { 1nat } else { x };
        let p = prod(a.drop_first()); let q = prod(b);
        let pz = prodz(a.drop_first()); let qz = prodz(b);
        assert(x * (p * q) == (x * p) * q) by (nonlinear_arith);
        assert(xz * (pz * qz) == (xz * pz) * qz) by (nonlinear_arith);
    }
}
pub proof fn lemma_prod_push(s: Seq<usize>, x: usize)
    ensures prod(s.push(x)) == prod(s) * x as nat, prodz(s.push(x)) == prodz(s) * (if x == 0 { 1nat } else { x as nat })
{
    assert(s.push(x) =~= s + seq![x]);
    lemma_prod_concat(s, seq![x]);
    assert(seq![x].drop_first() =~= Seq::<usize>::empty());
    assert(prod(seq![x].drop_first()) == 1);
    assert(prodz(seq![x].drop_first()) == 1);
    let xz = if x == 0 { 1nat } else { x as nat };
    assert(prod(seq![x]) == x as nat * 1);
    assert(prodz(seq![x]) == xz * 1);
}
pub proof fn lemma_prod_take(s: Seq<usize>, i: int)
    requires 0 <= i < s.len()
    ensures prod(s.take(i + 1)) == prod(s.take(i)) * s[i] as nat,
        prodz(s.take(i + 1)) == prodz(s.take(i)) * (if s[i] == 0 { 1nat } else { s[i] as nat })
{
    assert(s.take(i + 1) =~= s.take(i).push(s[i]));
    lemma_prod_push(s.take(i), s[i]);
}
pub proof fn lemma_prodz_pos(s: Seq<usize>)
    ensures prodz(s) >= 1
    decreases s.len()
{
    if s.len() > 0 {
        lemma_prodz_pos(s.drop_first());
        let x = if s[0] == 0 { 1nat } else { s[0] as nat };
        let y = prodz(s.drop_first());
        assert(x * y >= 1) by (nonlinear_arith) requires x >= 1, y >= 1;
    }
}
pub proof fn lemma_prod_le_z(s: Seq<usize>)
    ensures prod(s) <= prodz(s)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_prod_le_z(s.drop_first());
        let x = s[0] as nat;
        let xz = if s[0] == 0 { 1nat } else { x };
        let p = prod(s.drop_first()); let q = prodz(s.drop_first());
        assert(x * p <= xz * q) by (nonlinear_arith) requires x <= xz, p <= q;
    }
}
pub proof fn lemma_prodz_parts(s: Seq<usize>, i: int)
    requires 0 <= i <= s.len()
    ensures prodz(s.take(i)) <= prodz(s), prodz(s.skip(i)) <= prodz(s), prod(s) == prod(s.take(i)) * prod(s.skip(i)),
        prodz(s) == prodz(s.take(i)) * prodz(s.skip(i))
{
    assert(s =~= s.take(i) + s.skip(i));
    lemma_prod_concat(s.take(i), s.skip(i));
    lemma_prodz_pos(s.take(i));
    lemma_prodz_pos(s.skip(i));
    let a = prodz(s.take(i)); let b = prodz(s.skip(i));
    assert(a * b >= a && a * b >= b) by (nonlinear_arith) requires a >= 1, b >= 1;
}
pub proof fn lemma_prod_pos(s: Seq<usize>)
    ensures prod(s) > 0 <==> (forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] > 0),
        prod(s) > 0 ==> prod(s) == prodz(s)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_first();
        lemma_prod_pos(t);
        assert(prod(s) == s[0] as nat * prod(t));
        let x = s[0] as nat; let p = prod(t);
        if x > 0 && p > 0 { assert(x * p > 0) by (nonlinear_arith) requires x > 0, p > 0; }
        if x == 0 || p == 0 { assert(x * p == 0) by (nonlinear_arith) requires x == 0 || p == 0; }
        if prod(s) > 0 {
            assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] > 0 by {
                if k > 0 { assert(t[k - 1] == s[k]); }
            }
        }
        if forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] > 0 {
            assert forall|k: int| 0 <= k < t.len() implies #[trigger] t[k] > 0 by { assert(s[k + 1] > 0); }
            assert(s[0] > 0);
        }
    }
}
/// a shape with an empty axis holds nothing
pub proof fn lemma_prod_zero(s: Seq<usize>, k: int)
    requires 0 <= k < s.len(), s[k] == 0
    ensures prod(s) == 0
{
    lemma_prod_pos(s);
}
pub proof fn lemma_flat_bound(i: Seq<usize>, s: Seq<usize>)
    requires valid(i, s)
    ensures flat(i, s) < prod(s)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_flat_bound(i.drop_first(), s.drop_first());
        let x = i[0] as nat; let d = s[0] as nat; let p = prod(s.drop_first()); let f = flat(i.drop_first(), s.drop_first());
        assert(x * p + f < d * p) by (nonlinear_arith) requires x < d, f < p;
    }
}
pub proof fn lemma_flat_skip(i: Seq<usize>, s: Seq<usize>, k: int)
    requires 0 <= k < s.len(), i.len() == s.len()
    ensures flat(i.skip(k), s.skip(k)) == i[k] as nat * prod(s.skip(k + 1)) + flat(i.skip(k + 1), s.skip(k + 1))
{
    assert(s.skip(k).drop_first() =~= s.skip(k + 1));
    assert(i.skip(k).drop_first() =~= i.skip(k + 1));
}
pub proof fn lemma_unflat(p: nat, s: Seq<usize>)
    requires p < prod(s)
    ensures valid(unflat(p, s), s), flat(unflat(p, s), s) == p
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_first();
        let q = prod(t);
        let d = s[0] as nat;
        assert(q > 0) by { if q == 0 { assert(d * q == 0) by (nonlinear_arith) requires q == 0; } }
        assert(p / q < d) by (nonlinear_arith) requires p < d * q, q > 0;
        assert(p % q < q);
        assert(p == (p / q) * q + p % q) by (nonlinear_arith) requires q > 0;
        lemma_unflat(p % q, t);
        let u = unflat(p, s);
        assert(u.drop_first() =~= unflat(p % q, t));
        assert(u[0] == (p / q) as usize);
        assert forall|k: int| 0 <= k < s.len() implies (#[trigger] u[k]) < s[k] by {
            if k > 0 { assert(u[k] == unflat(p % q, t)[k - 1]); assert(t[k - 1] == s[k]); }
        }
    }
}
pub proof fn lemma_flat_unflat(i: Seq<usize>, s: Seq<usize>)
    requires valid(i, s)
    ensures unflat(flat(i, s), s) == i, flat(i, s) < prod(s)
    decreases s.len()
{
    lemma_flat_bound(i, s);
    if s.len() == 0 {
        assert(i =~= Seq::<usize>::empty());
    } else {
        let t = s.drop_first(); let j = i.drop_first();
        lemma_flat_unflat(j, t);
        let q = prod(t); let f = flat(j, t); let x = i[0] as nat; let p = flat(i, s);
        assert(p == x * q + f);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p as int, q as int, x as int, f as int);
        assert(p / q == x && p % q == f);
        assert(unflat(p, s) =~= i) by {
            assert(seq![x as usize] + j =~= i);
        }
    }
}
pub proof fn lemma_flat_inj(i: Seq<usize>, j: Seq<usize>, s: Seq<usize>)
    requires valid(i, s), valid(j, s), flat(i, s) == flat(j, s)
    ensures i == j
{
    lemma_flat_unflat(i, s);
    lemma_flat_unflat(j, s);
}
/// an index whose axes from k on are zero / at their last value
pub proof fn lemma_flat_zeros(i: Seq<usize>, s: Seq<usize>)
    requires i.len() == s.len(), forall|k: int| 0 <= k < s.len() ==> #[trigger] i[k] == 0
    ensures flat(i, s) == 0
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|k: int| 0 <= k < s.drop_first().len() implies #[trigger] i.drop_first()[k] == 0 by { assert(i[k + 1] == 0); }
        lemma_flat_zeros(i.drop_first(), s.drop_first());
        let p = prod(s.drop_first());
        assert(0 * p == 0) by (nonlinear_arith);
    }
}
pub proof fn lemma_flat_lasts(i: Seq<usize>, s: Seq<usize>)
    requires i.len() == s.len(), forall|k: int| 0 <= k < s.len() ==> (#[trigger] i[k]) + 1 == s[k]
    ensures flat(i, s) + 1 == prod(s)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_first();
        assert forall|k: int| 0 <= k < t.len() implies (#[trigger] i.drop_first()[k]) + 1 == t[k] by { assert(i[k + 1] + 1 == s[k + 1]); }
        lemma_flat_lasts(i.drop_first(), t);
        let p = prod(t); let x = i[0] as nat; let d = s[0] as nat;
        assert(i[0] + 1 == s[0]);
        assert(x * p + p == d * p) by (nonlinear_arith) requires x + 1 == d;
    }
}
pub proof fn lemma_flat_concat(i1: Seq<usize>, i2: Seq<usize>, s1: Seq<usize>, s2: Seq<usize>)
    requires i1.len() == s1.len(), i2.len() == s2.len()
    ensures flat(i1 + i2, s1 + s2) == flat(i1, s1) * prod(s2) + flat(i2, s2)
    decreases s1.len()
{
    if s1.len() == 0 {
        assert(i1 + i2 =~= i2);
        assert(s1 + s2 =~= s2);
        let p = prod(s2);
        assert(0 * p == 0) by (nonlinear_arith);
    } else {
        lemma_flat_concat(i1.drop_first(), i2, s1.drop_first(), s2);
        assert((i1 + i2).drop_first() =~= i1.drop_first() + i2);
        assert((s1 + s2).drop_first() =~= s1.drop_first() + s2);
        lemma_prod_concat(s1.drop_first(), s2);
        let x = i1[0] as nat; let a = prod(s1.drop_first()); let b = prod(s2); let f = flat(i1.drop_first(), s1.drop_first());
        assert(x * (a * b) + (f * b) == (x * a + f) * b) by (nonlinear_arith);
    }
}
/// the index after i: position k counts up and everything behind it goes from last to zero
pub proof fn lemma_flat_succ(i: Seq<usize>, j: Seq<usize>, s: Seq<usize>, k: int)
    requires 0 <= k < s.len(), i.len() == s.len(), j.len() == s.len(),
        forall|m: int| 0 <= m < k ==> #[trigger] i[m] == j[m],
        j[k] == i[k] + 1,
        forall|m: int| k < m < s.len() ==> #[trigger] j[m] == 0,
        forall|m: int| k < m < s.len() ==> (#[trigger] i[m]) + 1 == s[m],
    ensures flat(j, s) == flat(i, s) + 1
    decreases s.len()
{
    let t = s.drop_first(); let it = i.drop_first(); let jt = j.drop_first();
    let p = prod(t);
    if k > 0 {
        assert(i[0] == j[0]);
        assert forall|m: int| 0 <= m < k - 1 implies #[trigger] it[m] == jt[m] by { assert(i[m + 1] == j[m + 1]); }
        assert forall|m: int| k - 1 < m < t.len() implies #[trigger] jt[m] == 0 by { assert(j[m + 1] == 0); }
        assert forall|m: int| k - 1 < m < t.len() implies (#[trigger] it[m]) + 1 == t[m] by { assert(i[m + 1] + 1 == s[m + 1]); }
        lemma_flat_succ(it, jt, t, k - 1);
    } else {
        assert forall|m: int| 0 <= m < t.len() implies #[trigger] jt[m] == 0 by { assert(j[m + 1] == 0); }
        assert forall|m: int| 0 <= m < t.len() implies (#[trigger] it[m]) + 1 == t[m] by { assert(i[m + 1] + 1 == s[m + 1]); }
        lemma_flat_zeros(jt, t);
        lemma_flat_lasts(it, t);
        let x = i[0] as nat; let y = j[0] as nat;
        assert(y * p == x * p + p) by (nonlinear_arith) requires y == x + 1;
    }
}

// ------------------------------------------------------------------ broadcasting lookup
/// C02: a coordinate on an axis of size one is ignored, surplus leading coordinates are ignored,
/// a missing leading coordinate needs an axis of size one.
pub open spec fn bvalid(i: Seq<usize>, s: Seq<usize>) -> bool {
    forall|k: int| 0 <= k < s.len() ==> #[trigger] bvalid_at(i, s, k)
}
pub open spec fn bvalid_at(i: Seq<usize>, s: Seq<usize>, k: int) -> bool {
    s[k] == 1 || (k + i.len() - s.len() >= 0 && i[k + i.len() - s.len()] < s[k])
}
pub open spec fn bidx(i: Seq<usize>, s: Seq<usize>) -> Seq<usize> {
    Seq::new(s.len(), |k: int| if s[k] == 1 { 0usize } else { i[k + i.len() - s.len()] })
}
pub proof fn lemma_bidx_valid(i: Seq<usize>, s: Seq<usize>)
    requires bvalid(i, s)
    ensures valid(bidx(i, s), s), flat(bidx(i, s), s) < prod(s)
{
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] bidx(i, s)[k]) < s[k] by { assert(bvalid_at(i, s, k)); }
    lemma_flat_bound(bidx(i, s), s);
}
/// C01: a full in-range index is its own broadcast index, and one out of range on an axis of size
/// other than one is not valid.
pub proof fn lemma_bidx_full(i: Seq<usize>, s: Seq<usize>)
    requires i.len() == s.len()
    ensures valid(i, s) ==> bvalid(i, s) && bidx(i, s) == i,
        bvalid(i, s) ==> valid(bidx(i, s), s),
{
    if valid(i, s) {
        assert forall|k: int| 0 <= k < s.len() implies #[trigger] bvalid_at(i, s, k) by { assert(i[k] < s[k]); }
        assert forall|k: int| 0 <= k < s.len() implies bidx(i, s)[k] == i[k] by { assert(i[k] < s[k]); }
        assert(bidx(i, s) =~= i);
    }
    if bvalid(i, s) { lemma_bidx_valid(i, s); }
}
/// windows: the lookup through a half-open range per axis
pub open spec fn win_ok(o: Seq<SliceRange>, s: Seq<usize>) -> bool {
    o.len() == s.len() && forall|k: int| 0 <= k < s.len() ==> (#[trigger] o[k]).start <= o[k].end && o[k].end <= s[k]
}
pub open spec fn win_shape(o: Seq<SliceRange>) -> Seq<usize> {
    Seq::new(o.len(), |k: int| (o[k].end - o[k].start) as usize)
}
pub open spec fn win_shift(i: Seq<usize>, o: Seq<SliceRange>) -> Seq<usize> {
    Seq::new(i.len(), |k: int| (i[k] + o[k].start) as usize)
}
pub proof fn lemma_win_shift(i: Seq<usize>, o: Seq<SliceRange>, s: Seq<usize>)
    requires win_ok(o, s), valid(i, win_shape(o))
    ensures valid(win_shift(i, o), s), flat(win_shift(i, o), s) < prod(s)
{
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] win_shift(i, o)[k]) < s[k] by {
        assert(o[k].start <= o[k].end && o[k].end <= s[k]);
        assert(i[k] < win_shape(o)[k]);
    }
    lemma_flat_bound(win_shift(i, o), s);
}
pub proof fn lemma_win_fits(o: Seq<SliceRange>, s: Seq<usize>)
    requires win_ok(o, s)
    ensures prodz(win_shape(o)) <= prodz(s)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_first(); let p = o.drop_first();
        assert forall|k: int| 0 <= k < t.len() implies (#[trigger] p[k]).start <= p[k].end && p[k].end <= t[k] by { assert(o[k + 1].start <= o[k + 1].end && o[k+1].end <= s[k+1]); }
        lemma_win_fits(p, t);
        assert(win_shape(o).drop_first() =~= win_shape(p));
        assert(o[0].start <= o[0].end && o[0].end <= s[0]);
        let a = if win_shape(o)[0] == 0 { 1nat } else { win_shape(o)[0] as nat };
        let b = if s[0] == 0 { 1nat } else { s[0] as nat };
        let x = prodz(win_shape(p)); let y = prodz(t);
        assert(a * x <= b * y) by (nonlinear_arith) requires a <= b, x <= y;
    }
}
/// general form used by global_index, which serves both lookups
pub open spec fn gi_dim(o: Option<Seq<SliceRange>>, s: Seq<usize>, k: int) -> int {
    match o { Some(v) => v[k].end - v[k].start, None => s[k] as int }
}
pub open spec fn gi_start(o: Option<Seq<SliceRange>>, k: int) -> int {
    match o { Some(v) => v[k].start as int, None => 0 }
}
pub open spec fn gi_ok_at(i: Seq<usize>, s: Seq<usize>, o: Option<Seq<SliceRange>>, k: int) -> bool {
    s[k] == 1 || (k + i.len() - s.len() >= 0 && i[k + i.len() - s.len()] < gi_dim(o, s, k))
}
pub open spec fn gi_idx(i: Seq<usize>, s: Seq<usize>, o: Option<Seq<SliceRange>>) -> Seq<usize> {
    Seq::new(s.len(), |k: int| if s[k] == 1 { 0usize } else { (i[k + i.len() - s.len()] + gi_start(o, k)) as usize })
}
pub open spec fn gi_view(o: Option<&Vec<SliceRange>>) -> Option<Seq<SliceRange>> {
    match o { Some(v) => Some(v@), None => None }
}
pub proof fn lemma_gi_none(i: Seq<usize>, s: Seq<usize>)
    ensures (forall|k: int| 0 <= k < s.len() ==> #[trigger] gi_ok_at(i, s, None, k)) <==> bvalid(i, s),
        bvalid(i, s) ==> gi_idx(i, s, None) == bidx(i, s)
{
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] gi_ok_at(i, s, None, k)) == bvalid_at(i, s, k) by {}
    if bvalid(i, s) {
        assert forall|k: int| 0 <= k < s.len() implies bvalid_at(i, s, k) by {}
        assert(gi_idx(i, s, None) =~= bidx(i, s));
    }
    if forall|k: int| 0 <= k < s.len() ==> #[trigger] gi_ok_at(i, s, None, k) {
        assert forall|k: int| 0 <= k < s.len() implies #[trigger] bvalid_at(i, s, k) by { assert(gi_ok_at(i, s, None, k)); }
    }
}
pub proof fn lemma_gi_win(i: Seq<usize>, s: Seq<usize>, o: Seq<SliceRange>)
    requires win_ok(o, s), valid(i, win_shape(o))
    ensures forall|k: int| 0 <= k < s.len() ==> #[trigger] gi_ok_at(i, s, Some(o), k),
        gi_idx(i, s, Some(o)) == win_shift(i, o)
{
    lemma_win_shift(i, o, s);
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] gi_ok_at(i, s, Some(o), k) by { assert(i[k] < win_shape(o)[k]); assert(o[k].start <= o[k].end); }
    assert forall|k: int| 0 <= k < s.len() implies gi_idx(i, s, Some(o))[k] == win_shift(i, o)[k] by {
        assert(win_shift(i, o)[k] < s[k]); assert(i[k] < win_shape(o)[k]); assert(o[k].start <= o[k].end && o[k].end <= s[k]); }
    assert(gi_idx(i, s, Some(o)) =~= win_shift(i, o));
}
/// leading axes of size one at coordinate zero do not move the position
pub proof fn lemma_flat_lead(i: Seq<usize>, s: Seq<usize>, m: int)
    requires i.len() == s.len(), 0 <= m <= s.len(), forall|k: int| 0 <= k < m ==> (#[trigger] i[k]) == 0, forall|k: int| 0 <= k < m ==> (#[trigger] s[k]) == 1
    ensures flat(i, s) == flat(i.skip(m), s.skip(m)), prod(s) == prod(s.skip(m))
    decreases m
{
    if m == 0 {
        assert(i.skip(0) =~= i); assert(s.skip(0) =~= s);
    } else {
        lemma_flat_lead(i, s, m - 1);
        lemma_flat_skip(i, s, m - 1);
        lemma_prod_skip(s, m - 1);
        assert(s[m - 1] == 1 && i[m - 1] == 0);
        let p = prod(s.skip(m));
        assert(0 * p == 0 && 1 * p == p) by (nonlinear_arith);
    }
}
/// the size of a short shape
pub proof fn lemma_lit(s: Seq<usize>)
    ensures
        s.len() == 0 ==> prod(s) == 1 && fits(s),
        s.len() == 1 ==> prod(s) == s[0] && fits(s),
        s.len() == 2 ==> prod(s) == s[0] * s[1],
        s.len() == 2 && s[0] != 0 && s[1] != 0 ==> prodz(s) == s[0] * s[1],
        s.len() == 2 && (s[0] == 0 || s[1] == 0) ==> fits(s),
{
    reveal_with_fuel(prod, 3);
    reveal_with_fuel(prodz, 3);
    if s.len() == 2 {
        let a = s[0] as int; let b = s[1] as int;
        assert(s.drop_first()[0] == s[1]);
        assert(prod(s.drop_first().drop_first()) == 1);
        assert(b * 1 == b) by (nonlinear_arith);
        assert(1 * b == b) by (nonlinear_arith);
        assert(a * 1 == a) by (nonlinear_arith);
    }
}
/// a shape that is written out, with what its size is
pub fn vx_lit(s: Vec<usize>) -> (r: Vec<usize>)
    ensures
        r == s,
        s@.len() == 0 ==> prod(s@) == 1 && fits(s@),
        s@.len() == 1 ==> prod(s@) == s@[0] && fits(s@),
        s@.len() == 2 ==> prod(s@) == s@[0] * s@[1],
        s@.len() == 2 && s@[0] != 0 && s@[1] != 0 ==> prodz(s@) == s@[0] * s@[1],
        s@.len() == 2 && (s@[0] == 0 || s@[1] == 0) ==> fits(s@),
{
    proof { lemma_lit(s@); }
    s
}
