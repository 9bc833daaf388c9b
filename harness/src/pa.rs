//! Oracles for lookup, iteration, construction, views and values of operations.
use crate::nums::*;
use crate::refm::*;
use crate::{w, Cx, R};
use num::{One, Zero};
use rust_light::tensor::*;
use std::ops::*;

pub fn shape_for(cx: &mut Cx, zero: bool) -> Vec<usize> {
    let sys = sys_shapes();
    let (big, c) = (big_shapes(), cx.case as usize);
    let mut s = if c < sys.len() { sys[c].clone() } else if c < sys.len() + big.len() { big[c - sys.len()].clone() } else if cx.rng.below(100) == 0 { cx.rng.pick(&big).clone() } else { rand_shape(&mut cx.rng, zero) };
    if !zero { for d in s.iter_mut() { if *d == 0 { *d = 1 } } }
    s
}
fn numbered(s: &[usize]) -> Ref<u64> { Ref { s: s.to_vec(), e: (0..prod(s) as u64).map(|x| x + 7).collect() } }

pub fn c01(cx: &mut Cx) -> R {
    let s = shape_for(cx, true);
    let r = numbered(&s);
    for kind in 0..KINDS {
        let (t, d) = mk(&mut cx.rng, &r, kind);
        cx.say(format!("lookup in {d}"));
        for (p, i) in indices(&s).iter().enumerate() {
            let got = w!(&t, t => t.get(i).map(|x| *x));
            cx.ok(got == Ok(r.e[p]), || format!("get({i:?}) gave {got:?}, the element at row-major position {p} is {}", r.e[p]))?;
            let got = w!(&t, t => t[i]);
            cx.ok(got == r.e[p], || format!("[{i:?}] gave {got:?}, the element at row-major position {p} is {}", r.e[p]))?;
        }
        for k in 0..s.len() {
            if s[k] == 1 { continue; }
            for over in [s[k], s[k] + 1, s[k] + 7, s[k] * 2, usize::MAX / 2, usize::MAX] {
                for lead in 0..2 {
                    let mut i: Vec<usize> = s.iter().map(|&d| if lead == 0 { 0 } else { d.saturating_sub(1) }).collect();
                    i[k] = over;
                    let got = quiet(|| w!(&t, t => t.get(&i).map(|x| *x)));
                    cx.ok(matches!(got, Ok(Err(_))), || format!("get({i:?}) in shape {s:?} gave {got:?}, expected an error"))?;
                }
            }
        }
    }
    Ok(())
}

pub fn c02(cx: &mut Cx) -> R {
    let s = shape_for(cx, true);
    let r = numbered(&s);
    for kind in 0..KINDS {
        let (t, d) = mk(&mut cx.rng, &r, kind);
        cx.say(format!("broadcast lookup in {d}"));
        let idx = indices(&s);
        for i in idx.iter().take(200) {
            for _ in 0..3 {
                let mut j = i.clone();
                for k in 0..s.len() { if s[k] == 1 { j[k] = *cx.rng.pick(&[0, 1, 2, 9, usize::MAX]); } }
                for _ in 0..cx.rng.below(3) { let x = *cx.rng.pick(&[0, 1, 5, 100, usize::MAX]); j.insert(0, x); }
                // leave out leading coordinates
                if cx.rng.below(2) == 0 && j.len() >= s.len() { let cut = cx.rng.range(0, j.len()); j = j[cut..].to_vec(); }
                let omitted = s.len().saturating_sub(j.len());
                let valid = s[..omitted].iter().all(|&d| d == 1);
                let got = quiet(|| w!(&t, t => t.get(&j).map(|x| *x)));
                if valid {
                    let want = r.at(&j);
                    cx.ok(got == Ok(Ok(want)), || format!("get({j:?}) in shape {s:?} gave {got:?}, expected {want}"))?;
                } else {
                    cx.ok(matches!(got, Ok(Err(_))), || format!("get({j:?}) in shape {s:?} gave {got:?}, expected an error: an omitted axis is not of size one"))?;
                }
            }
        }
        for len in 0..s.len() + 2 {
            let j: Vec<usize> = (0..len).map(|_| 0).collect();
            let omitted = s.len().saturating_sub(len);
            let want = s[..omitted].iter().all(|&d| d == 1) && s[omitted..].iter().all(|&d| d > 0);
            let got = quiet(|| w!(&t, t => t.get(&j).map(|x| *x)));
            cx.ok(if want { got == Ok(Ok(r.e[0])) } else { matches!(got, Ok(Err(_))) }, || format!("get({j:?}) in shape {s:?} gave {got:?}, expected {}", if want { "the first element" } else { "an error" }))?;
        }
    }
    Ok(())
}

pub fn c03(cx: &mut Cx) -> R {
    let s = shape_for(cx, true);
    let r = numbered(&s);
    let want = indices(&s);
    for kind in 0..KINDS {
        let (t, d) = mk(&mut cx.rng, &r, kind);
        cx.say(format!("iteration over {d}"));
        let mut it = w!(&t, t => t.iter_indices());
        for (p, i) in want.iter().enumerate() {
            let got = it.next();
            cx.ok(got.as_ref() == Some(i), || format!("index number {p} is {got:?}, expected {i:?}"))?;
        }
        for k in 0..3 { let got = it.next(); cx.ok(got.is_none(), || format!("call {k} after the last index gave {got:?}"))?; }
        let collected = w!(&t, t => t.iter_indices().collect::<Vec<_>>());
        cx.ok(collected == want, || format!("collected indices {collected:?}"))?;
        // skipping, stepping and the sizes an iterator announces agree with stepping one by one
        let (a, b, c) = (cx.rng.below(4) as usize, cx.rng.below(want.len() as u64 + 2) as usize, 1 + cx.rng.below(4) as usize);
        let mut it = w!(&t, t => t.iter_indices());
        for i in want.iter().take(a) { let got = it.next(); cx.ok(got.as_ref() == Some(i), || format!("index {got:?}, expected {i:?}"))?; }
        let left = &want[a.min(want.len())..];
        let (low, high) = it.size_hint();
        cx.ok(low <= left.len() && high.map_or(true, |h| left.len() <= h), || format!("{} indices are left, announced {low} to {high:?}", left.len()))?;
        let got = it.nth(b);
        cx.ok(got.as_ref() == left.get(b), || format!("index number {b} after {a} is {got:?}, expected {:?}", left.get(b)))?;
        let rest: Vec<_> = it.step_by(c).collect();
        let expect: Vec<_> = left.iter().skip(b + 1).step_by(c).cloned().collect();
        cx.ok(rest == expect, || format!("every {c}th index after number {} is {rest:?}, expected {expect:?}", a + b))?;
        let (n, last) = (w!(&t, t => t.iter_indices().count()), w!(&t, t => t.iter_indices().last()));
        cx.ok(n == want.len() && last.as_ref() == want.last(), || format!("{n} indices, the last {last:?}; expected {} and {:?}", want.len(), want.last()))?;
        let mut each = vec![];
        w!(&t, t => t.iter_indices().for_each(|i| each.push(i)));
        cx.ok(each == want, || format!("visited indices {each:?}"))?;
        // elements: the copy of a view is filled by the element iterator, in its order
        let copy = w!(&t, t => t.to_tensor());
        let shown = format!("{copy}");
        let expect = format!("{:?}", r.e);
        cx.ok(shown == expect, || format!("iterated elements {shown}, expected {expect}"))?;
        let ones = RcTensor::new(vec![1u64; r.e.len()], s.clone());
        let prod = w!(&t, t => functional::element_wise_multiplication(t, &ones));
        let got = prod.count();
        cx.ok(got == r.e.len(), || format!("{got} elements visited, expected {}", r.e.len()))?;
        let shown = format!("{}", prod.to_tensor());
        cx.ok(shown == expect, || format!("iterated elements {shown}, expected {expect}"))?;
        let d1 = w!(&t, t => functional::dot_no_derivative(t, &ones));
        let total: u64 = r.e.iter().sum();
        cx.ok(format!("{d1}") == format!("[{total}]"), || format!("elements visited add up to {d1}, expected {total}"))?;
    }
    Ok(())
}

fn count_ok<N: Draw, V: TensorLike<Elem = N>>(cx: &mut Cx, what: &str, t: &V) -> R {
    let s = t.shape().to_vec();
    let n = t.count();
    cx.ok(n == prod(&s), || format!("{what}: count {n}, shape {s:?}"))?;
    let stored = format!("{}", t.to_tensor());
    let k = if stored == "[]" { 0 } else { stored.matches(", ").count() + 1 };
    cx.ok(k == prod(&s), || format!("{what}: stores {k} elements, shape {s:?}"))?;
    read(t)?;
    Ok(())
}
pub fn c04(cx: &mut Cx) -> R {
    let s = shape_for(cx, true);
    let r: Ref<i64> = Ref::draw(&mut cx.rng, &s);
    let n = r.e.len();
    cx.say(format!("construction {}", r.brief()));
    let (a, b) = (RawTensor::new(r.e.clone(), s.clone()), RcTensor::new(r.e.clone(), s.clone()));
    cx.ok(read(&a)?.same(&r), || "RawTensor::new does not keep array and shape".into())?;
    cx.ok(read(&b)?.same(&r), || "RcTensor::new does not keep array and shape".into())?;
    count_ok(cx, "RawTensor::new", &a)?;
    count_ok(cx, "RcTensor::new", &b)?;
    for m in [0, 1, n.saturating_sub(1), n + 1, n + 5, 2 * n, 3 * n] {
        if m == n { continue; }
        let arr = vec![1i64; m];
        cx.ok(refused(|| RawTensor::new(arr.clone(), s.clone())), || format!("RawTensor::new of {m} elements in shape {s:?} accepted"))?;
        cx.ok(refused(|| RcTensor::new(arr.clone(), s.clone())), || format!("RcTensor::new of {m} elements in shape {s:?} accepted"))?;
    }
    let f = i64::draw(&mut cx.rng);
    let want = Ref { s: s.clone(), e: vec![f; n] };
    let (c, d) = (RawTensor::new_with_filler(s.clone(), f), RcTensor::new_with_filler(s.clone(), f));
    cx.ok(read(&c)?.same(&want) && read(&d)?.same(&want), || format!("new_with_filler({s:?}, {f}) is not filled with it"))?;
    count_ok(cx, "RawTensor::new_with_filler", &c)?;
    count_ok(cx, "RcTensor::new_with_filler", &d)?;
    let sc = Ref { s: vec![], e: vec![f] };
    for t in [RcTensor::scalar(f), RcTensor::from(f), RawTensor::scalar(f).to_tensor(), RawTensor::from(f).to_tensor()] {
        cx.ok(read(&t)?.same(&sc), || format!("scalar {f} reads {:?}", t))?;
        cx.ok(t.is_scalar() && t.elem() == f, || format!("scalar {f}"))?;
        count_ok(cx, "scalar", &t)?;
    }
    // nested sequences
    let (p, q, k) = (cx.rng.range(0, 4), cx.rng.range(0, 4), cx.rng.range(0, 3));
    let v1: Vec<i64> = (0..p).map(|_| i64::draw(&mut cx.rng)).collect();
    let v2: Vec<Vec<i64>> = (0..q).map(|_| (0..p).map(|_| i64::draw(&mut cx.rng)).collect()).collect();
    let v3: Vec<Vec<Vec<i64>>> = (0..k).map(|_| (0..q).map(|_| (0..p).map(|_| i64::draw(&mut cx.rng)).collect()).collect()).collect();
    cx.say(format!("construction {}, and from nested {v1:?}, {v2:?}, {v3:?}", r.brief()));
    let w1 = Ref { s: vec![p], e: v1.clone() };
    let inner = |o: usize, i: Vec<usize>| if o == 0 { vec![0] } else { let mut s = vec![o]; s.extend(i); s };
    let w2 = Ref { s: inner(q, vec![p]), e: v2.concat() };
    let w3 = Ref { s: inner(k, inner(q, vec![p])), e: v3.concat().concat() };
    let (g1, g2, g3) = (RawTensor::<i64>::from(v1.clone()), RawTensor::<i64>::from(v2.clone()), RawTensor::<i64>::from(v3.clone()));
    for (g, wnt) in [(&g1, &w1), (&g2, &w2), (&g3, &w3)] {
        count_ok(cx, "RawTensor::from nested", g)?;
        cx.ok(read(g)?.same(wnt), || format!("RawTensor::from nested gave {:?}, expected {}", g, wnt.brief()))?;
    }
    let (g1, g2, g3) = (RcTensor::<i64>::from(v1.clone()), RcTensor::<i64>::from(v2.clone()), RcTensor::<i64>::from(v3.clone()));
    for (g, wnt) in [(&g1, &w1), (&g2, &w2), (&g3, &w3)] {
        count_ok(cx, "RcTensor::from nested", g)?;
        cx.ok(read(g)?.same(wnt), || format!("RcTensor::from nested gave {:?}, expected {}", g, wnt.brief()))?;
    }
    let x = |i: i64| f.wrapping_add(i);
    let arr2 = [[x(0), x(1), x(2)], [x(3), x(4), x(5)]];
    let wa = Ref { s: vec![2, 3], e: (0..6).map(x).collect() };
    let (ga, gb, gc) = (RawTensor::<i64>::from(arr2), RcTensor::<i64>::from(arr2), RcTensor::<i64>::from(vec![arr2[0], arr2[1]]));
    cx.ok(read(&ga)?.same(&wa) && read(&gb)?.same(&wa) && read(&gc)?.same(&wa), || format!("from nested arrays {arr2:?}"))?;
    let arr3 = [[[x(0)], [x(1)]], [[x(2)], [x(3)]], [[x(4)], [x(5)]]];
    let wb = Ref { s: vec![3, 2, 1], e: (0..6).map(x).collect() };
    cx.ok(read(&RawTensor::<i64>::from(arr3))?.same(&wb) && read(&RcTensor::<i64>::from(arr3))?.same(&wb), || format!("from nested arrays {arr3:?}"))?;
    // ragged
    if q >= 2 {
        let at = cx.rng.range(0, q - 1);
        let mut bad = v2.clone();
        match cx.rng.below(3) { 0 => bad[at].push(1), 1 if p > 0 => { bad[at].pop(); } _ => bad[at].extend([1, 2, 3]) }
        cx.say(format!("ragged {bad:?}"));
        cx.ok(refused(|| RawTensor::<i64>::from(bad.clone())), || "RawTensor::from ragged accepted".into())?;
        cx.ok(refused(|| RcTensor::<i64>::from(bad.clone())), || "RcTensor::from ragged accepted".into())?;
        // same total, different split
        let uneven = vec![vec![1i64, 2, 3], vec![4], vec![5, 6]];
        cx.ok(refused(|| RcTensor::<i64>::from(uneven.clone())), || "uneven split accepted".into())?;
        if k >= 1 {
            let mut bad3 = v3.clone();
            let l = bad3.len() - 1;
            bad3[l].push(vec![3; p]);
            if k >= 2 { cx.ok(refused(|| RcTensor::<i64>::from(bad3.clone())), || format!("ragged {bad3:?} accepted"))?; }
        }
    }
    // results of operations
    let base: Ref<i64> = Ref::draw(&mut cx.rng, &s);
    let (xs, ys) = compat_shape(&mut cx.rng, &s);
    let (l, rr): (Ref<i64>, Ref<i64>) = (Ref::draw(&mut cx.rng, &xs), Ref::draw(&mut cx.rng, &ys));
    let (lt, rt) = (rc(&l), rc(&rr));
    cx.say(format!("results of operations on {} / {} / {}", base.brief(), l.brief(), rr.brief()));
    let t = rc(&base);
    count_ok(cx, "neg", &(&t).neg())?;
    count_ok(cx, "sum", &t.sum())?;
    count_ok(cx, "raw sum", &(*t).sum())?;
    count_ok(cx, "dot", &functional::dot(&t, &t))?;
    count_ok(cx, "mul", &(&t * &t))?;
    count_ok(cx, "scalar mul", &(&t * &RcTensor::scalar(2)))?;
    count_ok(cx, "scalar mul", &(&RcTensor::scalar(2) * &t))?;
    count_ok(cx, "add", &(&lt + &rt))?;
    count_ok(cx, "sub", &(&lt - &rt))?;
    count_ok(cx, "raw add", &(raw(&l).add(&rt)))?;
    count_ok(cx, "deep clone", &t.deep_clone())?;
    count_ok(cx, "unary", &functional::generic_unary_op(&t, |x: i64| x))?;
    let (v, _) = mk_any(&mut cx.rng, &base);
    w!(&v, v => { count_ok(cx, "tensor-like", v)?; count_ok(cx, "copy", &v.to_tensor())?; count_ok(cx, "sum", &v.sum())?; count_ok(cx, "deep clone", &v.deep_clone())?; });
    let (m, kk, nn) = (cx.rng.range(0, 4), cx.rng.range(0, 4), cx.rng.range(0, 4));
    for ls in [vec![m, kk], vec![2, m, kk], vec![1, m, kk], vec![0, m, kk]] {
        let a: Ref<i64> = Ref::draw(&mut cx.rng, &ls);
        let b: Ref<i64> = Ref::draw(&mut cx.rng, &[kk, nn]);
        cx.say(format!("matrix product {:?} by {:?}", a.s, b.s));
        count_ok(cx, "bmm", &rc(&a).bmm(&rc(&b)))?;
    }
    Ok(())
}

/// a window of s
fn draw_window(g: &mut Rng, s: &[usize]) -> Vec<(usize, usize)> {
    s.iter().map(|&d| { let a = g.range(0, d); let b = g.range(a, d); if g.below(4) != 0 && a == b && b < d { (a, b + 1) } else { (a, b) } }).collect()
}
fn view_shows<N: Draw + std::iter::Sum>(cx: &mut Cx, what: &str, v: &TensorView<N>, want: &Ref<N>) -> R {
    let got = v.shape().to_vec();
    cx.ok(got == want.s, || format!("{what}: shape {got:?}, expected {:?}", want.s))?;
    let got = read(v)?;
    cx.ok(got.same(want), || format!("{what}: shows {}, expected {}", got.brief(), want.brief()))?;
    for (i, x) in indices(&want.s).iter().zip(&want.e).take(40) { let y = v[i]; cx.ok(N::same(&y, x), || format!("{what}: [{i:?}] is {y:?}, expected {x:?}"))?; }
    let n = v.count();
    cx.ok(n == want.e.len(), || format!("{what}: counts {n}, expected {}", want.e.len()))?;
    let copy = v.to_tensor();
    let got = read(&copy)?;
    cx.ok(got.same(want) && copy.count() == want.e.len(), || format!("{what}: copies {}, expected {}", got.brief(), want.brief()))?;
    cx.ok(format!("{copy}") == format!("{:?}", want.e), || format!("{what}: copies {copy}, expected {:?}", want.e))?;
    cx.ok(*v == rc(want) && *v == copy, || format!("{what}: not equal to a tensor of its contents"))?;
    let sum = read(&v.sum())?;
    let mut acc = N::zero();
    for &x in &want.e { acc = acc + x; }
    cx.ok(sum.s.is_empty() && N::same(&sum.e[0], &acc), || format!("{what}: adds up to {:?}, expected {acc:?}", sum.e))?;
    if !want.e.is_empty() {
        let mut other = want.clone();
        let p = cx.rng.range(0, want.e.len() - 1);
        other.e[p] = other.e[p] + N::one();
        cx.ok(!(*v == rc(&other)), || format!("{what}: equal to a tensor that differs at position {p}"))?;
        let f = *v.get_first_elem();
        cx.ok(N::same(&f, &want.e[0]), || format!("{what}: first element {f:?}, expected {:?}", want.e[0]))?;
    }
    for k in 0..want.s.len() {
        if want.s[k] == 1 { continue; }
        for over in [want.s[k], want.s[k] + 1, want.s[k] + 3, usize::MAX] {
            let mut i: Vec<usize> = vec![0; want.s.len()];
            i[k] = over;
            let got = quiet(|| v.get(&i).map(|x| *x));
            cx.ok(matches!(got, Ok(Err(_))), || format!("{what}: get({i:?}) gave {got:?}, expected an error (shape {:?})", want.s))?;
        }
    }
    Ok(())
}
pub fn c05(cx: &mut Cx) -> R {
    let s = shape_for(cx, true);
    let r: Ref<i64> = Ref::draw(&mut cx.rng, &s);
    for round in 0..4 {
        let win = if round == 0 { s.iter().map(|&d| (0, d)).collect() } else { draw_window(&mut cx.rng, &s) };
        let want = r.window(&win);
        let rs = || ranges(&win);
        cx.say(format!("window {win:?} of {}", r.brief()));
        let t = rc(&r);
        view_shows(cx, "view of a tensor", &t.view(rs()), &want)?;
        view_shows(cx, "slice of a tensor", &t.slice(rs()), &want)?;
        view_shows(cx, "slice of a raw tensor", &raw(&r).slice(rs()), &want)?;
        view_shows(cx, "TensorView::new", &TensorView::new(t.clone(), rs()), &want)?;
        for kind in 2..KINDS {
            let (v, d) = mk(&mut cx.rng, &r, kind);
            cx.say(format!("slice {win:?} of {d}"));
            if let Src::View(v) = &v {
                let sl = v.slice(rs());
                view_shows(cx, "slice of a view", &sl, &want)?;
                let win2 = draw_window(&mut cx.rng, &want.s);
                cx.say(format!("slice {win2:?} of slice {win:?} of {d}"));
                view_shows(cx, "slice of a slice", &sl.slice(ranges(&win2)), &want.window(&win2))?;
                // source unchanged
                let got = read(v)?;
                cx.ok(got.same(&r), || "slicing changed the view".into())?;
                // refusals, relative to the view
                for k in 0..s.len() {
                    let mut bad = win.clone();
                    bad[k].1 = s[k] + 1 + cx.rng.below(2) as usize;
                    cx.ok(refused(|| v.slice(ranges(&bad))), || format!("window {bad:?} of a view of shape {s:?} accepted"))?;
                }
                let mut bad = win.clone();
                bad.push((0, 1));
                cx.ok(refused(|| v.slice(ranges(&bad))), || format!("window {bad:?} of a view of shape {s:?} accepted"))?;
                if bad.len() >= 2 { bad.pop(); bad.pop(); cx.ok(refused(|| v.slice(ranges(&bad))), || format!("window {bad:?} of a view of shape {s:?} accepted"))?; }
            }
        }
        cx.say(format!("windows of {} that do not fit", r.brief()));
        for k in 0..s.len() {
            for (lo, hi) in [(win[k].0, s[k] + 1), (0, s[k] + 2), (s[k], s[k] + 1), (s[k] + 1, s[k] + 1), (s[k] + 1, s[k] + 2), (0, usize::MAX)] {
                let mut bad = win.clone();
                bad[k] = (lo, hi);
                cx.ok(refused(|| t.view(ranges(&bad))), || format!("window {bad:?} of shape {s:?} accepted"))?;
                cx.ok(refused(|| raw(&r).slice(ranges(&bad))), || format!("window {bad:?} of shape {s:?} accepted (raw)"))?;
            }
            if win[k].1 > 0 { let (a, b) = win[k]; cx.ok(a == b || refused(|| SliceRange::new(b, a)), || format!("range {b}..{a} accepted"))?; }
        }
        let mut more = win.clone();
        more.push((0, 1));
        cx.ok(refused(|| t.view(ranges(&more))), || format!("window {more:?} of shape {s:?} accepted"))?;
        more.pop();
        more.insert(0, (0, 1));
        cx.ok(refused(|| t.view(ranges(&more))), || format!("window {more:?} of shape {s:?} accepted"))?;
        if !win.is_empty() {
            cx.ok(refused(|| t.view(ranges(&win[1..]))), || format!("window {:?} of shape {s:?} accepted", &win[1..]))?;
            cx.ok(refused(|| t.view(ranges(&win[..win.len() - 1]))), || format!("window {:?} of shape {s:?} accepted", &win[..win.len() - 1]))?;
        }
    }
    Ok(())
}

pub fn c06(cx: &mut Cx) -> R {
    let s = shape_for(cx, true);
    let r: Ref<i64> = Ref::draw(&mut cx.rng, &s);
    for kind in 2..KINDS {
        let (v, d) = mk(&mut cx.rng, &r, kind);
        let v = match v { Src::View(v) => v, _ => unreachable!() };
        let to = reshape_of(&mut cx.rng, r.e.len());
        let want = Ref { s: to.clone(), e: r.e.clone() };
        cx.say(format!("reshape to {to:?} of {d}"));
        let q = v.reshape(to.clone());
        view_shows(cx, "reshaped view", &q, &want)?;
        let got = read(&v)?;
        cx.ok(got.same(&r), || format!("reshaping changed the view to {}", got.brief()))?;
        let to2 = reshape_of(&mut cx.rng, r.e.len());
        cx.say(format!("reshape to {to2:?} of reshape to {to:?} of {d}"));
        view_shows(cx, "view reshaped twice", &q.reshape(to2.clone()), &Ref { s: to2, e: r.e.clone() })?;
        view_shows(cx, "view reshaped back", &q.reshape(s.clone()), &r)?;
        let win = draw_window(&mut cx.rng, &to);
        cx.say(format!("slice {win:?} of reshape to {to:?} of {d}"));
        view_shows(cx, "slice of a reshaped view", &q.slice(ranges(&win)), &want.window(&win))?;
        cx.say(format!("refused reshapes of {d}"));
        let mut bads = vec![];
        for k in 0..to.len() { let mut b = to.clone(); b[k] += 1; bads.push(b); }
        let mut b = to.clone(); b.push(2); bads.push(b);
        let mut b = to.clone(); b.insert(0, 3); bads.push(b);
        bads.push(vec![r.e.len() + 1]);
        bads.push(vec![]);
        bads.push(vec![0]);
        for b in bads {
            if prod(&b) == r.e.len() { continue; }
            cx.ok(refused(|| v.reshape(b.clone())), || format!("reshape of {} elements to {b:?} accepted", r.e.len()))?;
        }
    }
    Ok(())
}

fn expect<N: Draw, V: TensorLike<Elem = N>>(cx: &mut Cx, what: &str, got: Result<V, String>, want: &Option<Ref<N>>) -> R {
    match (got, want) {
        (Ok(t), Some(wnt)) => {
            let s = t.shape().to_vec();
            cx.ok(s == wnt.s, || format!("{what}: shape {s:?}, expected {:?}", wnt.s))?;
            let g = read(&t)?;
            cx.ok(g.same(wnt), || { let p = g.e.iter().zip(&wnt.e).position(|(a, b)| !N::same(a, b)); format!("{what}: {}, expected {} (position {p:?})", g.brief(), wnt.brief()) })
        }
        (Err(_), None) => cx.ok(true, || String::new()),
        (Ok(t), None) => { let s = t.shape().to_vec(); cx.ok(false, || format!("{what}: accepted, giving shape {s:?}")) }
        (Err(e), Some(wnt)) => cx.ok(false, || format!("{what}: panicked ({}), expected {}", &e[..e.len().min(200)], wnt.brief())),
    }
}
pub fn c07(cx: &mut Cx) -> R {
    let base = shape_for(cx, true);
    let (xs, ys) = match cx.rng.below(5) { 0 => (base.clone(), base.clone()), 1 => (base.clone(), rand_shape(&mut cx.rng, true)), _ => compat_shape(&mut cx.rng, &base) };
    let (x, y): (Ref<Fp>, Ref<Fp>) = (Ref::draw(&mut cx.rng, &xs), Ref::draw(&mut cx.rng, &ys));
    let add = x.bin(&y, |a, b| a + b);
    let sub = x.bin(&y, |a, b| a - b);
    cx.say(format!("{} and {}", x.brief(), y.brief()));
    let (a, b) = (rc(&x), rc(&y));
    expect(cx, "&tensor + &tensor", quiet(|| &a + &b), &add)?;
    expect(cx, "tensor + tensor", quiet(|| a.clone() + b.clone()), &add)?;
    expect(cx, "&tensor - &tensor", quiet(|| &a - &b), &sub)?;
    expect(cx, "tensor - &tensor", quiet(|| a.clone() - &b), &sub)?;
    expect(cx, "tensor - tensor", quiet(|| a.clone() - b.clone()), &sub)?;
    let (ra, rb) = (raw(&x), raw(&y));
    expect(cx, "raw + raw", quiet(|| (&ra).add(&rb)), &add)?;
    expect(cx, "raw + tensor", quiet(|| (&ra).add(&b)), &add)?;
    expect(cx, "raw - raw", quiet(|| (&ra).sub(&rb)), &sub)?;
    expect(cx, "raw - tensor", quiet(|| (&ra).sub(&b)), &sub)?;
    for kind in 2..KINDS {
        let (v, d) = mk(&mut cx.rng, &y, kind);
        cx.say(format!("{} plus {d}", x.brief()));
        if let Src::View(v) = &v { expect(cx, "raw + view", quiet(|| (&ra).add(v)), &add)?; }
        // a copied out view as an operand
        let (u, d) = mk(&mut cx.rng, &x, kind);
        cx.say(format!("copy of {d} and {}", y.brief()));
        let c = w!(&u, u => u.to_tensor());
        expect(cx, "copied view + tensor", quiet(|| &c + &b), &add)?;
        expect(cx, "copied view - tensor", quiet(|| &c - &b), &sub)?;
    }
    let g = read(&a)?;
    cx.ok(g.same(&x), || "left operand changed".into())?;
    // an operand that was itself broadcast from a sum
    if let Some(wnt) = &add {
        cx.say(format!("sums of sums of {} and {}", x.brief(), y.brief()));
        let z = &a + &b;
        expect(cx, "(a + b) - b", quiet(|| &z - &b), &wnt.bin(&y, |p, q| p - q))?;
        expect(cx, "a - (a + b)", quiet(|| &a - &z), &x.bin(wnt, |p, q| p - q))?;
    }
    Ok(())
}

fn special(r: &mut Rng) -> f64 {
    *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1e-300, -1e-300, 1e300, -1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, f64::EPSILON, 20.0, -20.0, 3.75, f64::MAX, f64::MIN])
}
fn exactly(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
fn bits_same(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) }
pub fn c08(cx: &mut Cx) -> R {
    let s = shape_for(cx, true);
    let mut r: Ref<f64> = Ref::draw(&mut cx.rng, &s);
    for x in r.e.iter_mut() { match cx.rng.below(8) { 0 | 1 => *x = special(&mut cx.rng), 2 | 3 => *x = wide(&mut cx.rng), _ => {} } }
    let t = rc(&r);
    let ra = raw(&r);
    cx.say(format!("element-wise functions of {}", r.brief()));
    let fs: Vec<(&str, fn(f64) -> f64)> = vec![("neg", |x| -x), ("abs", |x| x.abs()), ("tanh", |x| x.tanh()), ("relu", |x| if x < 0.0 { 0.0 } else { x })];
    let chk = |cx: &mut Cx, what: &str, got: Result<Ref<f64>, String>, f: fn(f64) -> f64| -> R {
        let got = got.map_err(|e| format!("{what}: {e}"))?;
        cx.ok(got.s == r.s, || format!("{what}: shape {:?}, expected {:?}", got.s, r.s))?;
        for (p, (&x, &y)) in r.e.iter().zip(&got.e).enumerate() { cx.ok(bits_same(y, f(x)), || format!("{what}: element {p} of the result is {y:?}, {what} of {x:?} is {:?}", f(x)))?; }
        Ok(())
    };
    chk(cx, "neg", read(&(&t).neg()), fs[0].1)?;
    chk(cx, "raw neg", read(&(&ra).neg()), fs[0].1)?;
    chk(cx, "abs", read(&t.abs()), fs[1].1)?;
    chk(cx, "tanh", read(&functional::tanh(t.clone())), fs[2].1)?;
    chk(cx, "relu", read(&functional::relu(t.clone())), fs[3].1)?;
    for kind in 0..KINDS {
        let (v, d) = mk(&mut cx.rng, &r, kind);
        cx.say(format!("element-wise functions of {d}"));
        for &(n, f) in &fs {
            let got = quiet(|| w!(&v, v => read(&functional::generic_unary_op(v, f))));
            chk(cx, n, got.and_then(|x| x), f)?;
        }
        let c = w!(&v, v => v.to_tensor());
        chk(cx, "tanh of copy", read(&functional::tanh(c.clone())), fs[2].1)?;
        chk(cx, "relu of copy", read(&functional::relu(c.clone())), fs[3].1)?;
        chk(cx, "neg of copy", read(&(&c).neg()), fs[0].1)?;
        chk(cx, "abs of copy", read(&c.abs()), fs[1].1)?;
    }
    // single precision and integers
    let q: Ref<i64> = Ref::draw(&mut cx.rng, &s);
    let got = read(&(&rc(&q)).neg())?;
    cx.ok(got.same(&q.map(|x| -x)), || format!("neg of {} is {}", q.brief(), got.brief()))?;
    let mut q: Ref<f32> = Ref::draw(&mut cx.rng, &s);
    for x in q.e.iter_mut() { if cx.rng.below(4) == 0 { *x = wide(&mut cx.rng) as f32; } }
    let got = read(&functional::relu(rc(&q)))?;
    cx.ok(got.same(&q.map(|x| if x < 0.0 { 0.0 } else { x })), || format!("relu of {} is {}", q.brief(), got.brief()))?;
    let got = read(&functional::tanh(rc(&q)))?;
    cx.ok(got.same(&q.map(|x| x.tanh())), || format!("tanh of {} is {}", q.brief(), got.brief()))?;
    Ok(())
}

type H = Term<true>;
pub fn c09(cx: &mut Cx) -> R {
    let s = shape_for(cx, true);
    let x: Ref<H> = Ref::draw(&mut cx.rng, &s);
    let y: Ref<H> = Ref::draw(&mut cx.rng, &s);
    let c: Ref<H> = Ref::draw(&mut cx.rng, &[]);
    let bad_shape = { let mut b = s.clone(); match cx.rng.below(4) { 0 => b.push(1), 1 => b.insert(0, 1), 2 if !b.is_empty() => { let k = cx.rng.range(0, b.len() - 1); b[k] += 1; } _ => b.push(2) } b };
    let z: Ref<H> = Ref::draw(&mut cx.rng, &bad_shape);
    let xy = Some(Ref { s: s.clone(), e: x.e.iter().zip(&y.e).map(|(&a, &b)| a * b).collect() });
    let cx_ = Some(x.map(|a| c.e[0] * a));
    let xc = Some(x.map(|a| a * c.e[0]));
    let (ax, ay, ac, az) = (rc(&x), rc(&y), rc(&c), rc(&z));
    let bad = if s.is_empty() || bad_shape.is_empty() { Some(if s.is_empty() { z.map(|b| x.e[0] * b) } else { x.map(|a| a * z.e[0]) }) } else { None };
    let (rx, rcx) = (raw(&x), raw(&c));
    cx.say(format!("products of {}, of shape {:?} and of scalars", x.brief(), bad_shape));
    expect(cx, "&tensor * &tensor", quiet(|| &ax * &ay), &xy)?;
    expect(cx, "tensor * &tensor", quiet(|| ax.clone() * &ay), &xy)?;
    expect(cx, "&tensor * &scalar", quiet(|| &ax * &ac), &xc)?;
    expect(cx, "&scalar * &tensor", quiet(|| &ac * &ax), &cx_)?;
    expect(cx, "scalar * &tensor", quiet(|| ac.clone() * &ax), &cx_)?;
    expect(cx, "&tensor * Box(tensor)", quiet(|| &ax * Box::new(ay.clone()).as_ref()), &xy)?;
    expect(cx, "&raw * &tensor", quiet(|| (&rx).mul(&ay)), &xy)?;
    expect(cx, "&tensor * tensor (derefs to raw)", quiet(|| &ax * ay.clone()), &xy)?;
    expect(cx, "tensor * scalar (derefs to raw)", quiet(|| ax.clone() * ac.clone()), &xc)?;
    expect(cx, "other shape", quiet(|| &ax * &az), &bad)?;
    expect(cx, "other shape, owned", quiet(|| ax.clone() * az.clone()), &bad)?;
    for kind in 0..KINDS {
        let (v, d) = mk(&mut cx.rng, &y, kind);
        cx.say(format!("{} times {d}", x.brief()));
        w!(&v, v => {
            expect(cx, "&tensor * &operand", quiet(|| &ax * v), &xy)?;
            expect(cx, "&raw * &operand", quiet(|| (&rx).mul(v)), &xy)?;
            expect(cx, "&scalar * &operand", quiet(|| &ac * v), &Some(y.map(|b| c.e[0] * b)))?;
            expect(cx, "&raw scalar * &operand", quiet(|| (&rcx).mul(v)), &Some(y.map(|b| c.e[0] * b)))?;
            expect(cx, "left scalar multiplication", quiet(|| v.left_scalar_multiplication(&c.e[0])), &Some(y.map(|b| c.e[0] * b)))?;
            expect(cx, "right scalar multiplication", quiet(|| v.right_scalar_multiplication(&c.e[0])), &Some(y.map(|b| b * c.e[0])))?;
            expect(cx, "element-wise operand * &tensor", quiet(|| functional::element_wise_multiplication(v, &ax)), &Some(Ref { s: s.clone(), e: y.e.iter().zip(&x.e).map(|(&a, &b)| a * b).collect() }))?;
            expect(cx, "other shape", quiet(|| &az * v), &if s.is_empty() { Some(z.map(|b| b * y.e[0])) } else if bad_shape.is_empty() { Some(y.map(|b| z.e[0] * b)) } else { None })?;
            expect(cx, "element-wise other shape", quiet(|| functional::element_wise_multiplication(v, &az)), &None)?;
        });
        let (u, d) = mk(&mut cx.rng, &c, kind);
        cx.say(format!("{} times zero-dimensional {d}", x.brief()));
        w!(&u, u => {
            expect(cx, "&tensor * &scalar operand", quiet(|| &ax * u), &xc)?;
            expect(cx, "&raw * &scalar operand", quiet(|| (&rx).mul(u)), &xc)?;
        });
    }
    Ok(())
}

type G = Term<false>;
pub fn c10(cx: &mut Cx) -> R {
    let s = shape_for(cx, true);
    let x: Ref<G> = Ref::draw(&mut cx.rng, &s);
    let y: Ref<G> = Ref::draw(&mut cx.rng, &s);
    let (sum, dot) = (Some(x.sum()), Some(x.dot(&y)));
    let other = { let mut b = s.clone(); match cx.rng.below(5) { 0 => b.push(1), 1 => b.insert(0, 1), 2 if !b.is_empty() => { let k = cx.rng.range(0, b.len() - 1); b[k] += 1; } 3 if b.len() >= 2 => b.reverse(), _ => b.push(2) } b };
    let z: Ref<G> = Ref::draw(&mut cx.rng, &other);
    cx.say(format!("sum and dot of {}", x.brief()));
    let (a, b, c) = (rc(&x), rc(&y), rc(&z));
    expect(cx, "dot", quiet(|| functional::dot(&a, &b)), &dot)?;
    if other != s { expect(cx, "dot of different shapes", quiet(|| functional::dot(&a, &c)), &None)?; expect(cx, "dot of different shapes", quiet(|| functional::dot(&c, &a)), &None)?; }
    for kind in 0..KINDS {
        let (v, d) = mk(&mut cx.rng, &x, kind);
        let (u, d2) = mk_any(&mut cx.rng, &y);
        cx.say(format!("sum and dot of {d} and {d2}"));
        match &v { Src::Raw(v) => expect(cx, "sum", quiet(|| v.sum()), &sum)?, Src::Rc(v) => expect(cx, "sum", quiet(|| v.sum()), &sum)?, Src::View(v) => expect(cx, "sum", quiet(|| v.sum()), &sum)? }
        w!(&v, v => w!(&u, u => expect(cx, "dot", quiet(|| functional::dot_no_derivative(v, u)), &dot)?));
        if other != s { w!(&v, v => expect(cx, "dot of different shapes", quiet(|| functional::dot_no_derivative(v, &c)), &None)?); }
        if let Src::Raw(v) = &v { expect(cx, "raw dot method", quiet(|| v.dot(&b)), &dot)?; }
    }
    // machine floats, in order
    let f: Ref<f64> = Ref::new(s.clone(), (0..x.e.len()).map(|_| f64::draw(&mut cx.rng) * 1.1).collect());
    let h: Ref<f64> = Ref::new(s.clone(), (0..x.e.len()).map(|_| f64::draw(&mut cx.rng) * 0.7).collect());
    cx.say(format!("sum and dot of {}", f.brief()));
    expect(cx, "float sum", quiet(|| rc(&f).sum()), &Some(f.sum()))?;
    expect(cx, "float dot", quiet(|| functional::dot(&rc(&f), &rc(&h))), &Some(f.dot(&h)))?;
    // elements that are not finite, and zeros of either sign
    let odd = |g: &mut Rng, zeros: bool| if zeros { *g.pick(&[0.0, -0.0, -0.0, -0.0]) } else if g.below(3) == 0 { special(g) } else { f64::draw(g) };
    let zeros = cx.rng.coin();
    let f: Ref<f64> = Ref::new(s.clone(), (0..x.e.len()).map(|_| odd(&mut cx.rng, zeros)).collect());
    let h: Ref<f64> = Ref::new(s.clone(), (0..x.e.len()).map(|_| odd(&mut cx.rng, zeros)).collect());
    let (v, d) = mk_any(&mut cx.rng, &f);
    let (u, d2) = mk_any(&mut cx.rng, &h);
    cx.say(format!("sum of {d} and its dot product with {d2}, elements {:?} and {:?}", &f.e[..f.e.len().min(40)], &h.e[..h.e.len().min(40)]));
    let got = quiet(|| w!(&v, v => read(&v.sum()).map(|r| r.e[0])))??;
    cx.ok(exactly(got, f.sum().e[0]), || format!("sum {got:?}, expected {:?}", f.sum().e[0]))?;
    let got = quiet(|| w!(&v, v => w!(&u, u => read(&functional::dot_no_derivative(v, u)).map(|r| r.e[0]))))??;
    cx.ok(exactly(got, f.dot(&h).e[0]), || format!("dot product {got:?}, expected {:?}", f.dot(&h).e[0]))?;
    let got = quiet(|| read(&functional::dot(&rc(&f), &rc(&h))).map(|r| r.e[0]))??;
    cx.ok(exactly(got, f.dot(&h).e[0]), || format!("dot product of tensors {got:?}, expected {:?}", f.dot(&h).e[0]))?;
    Ok(())
}

pub fn in_pool<A: Send>(n: usize, f: impl FnOnce() -> A + Send) -> A {
    if n == 0 { f() } else { rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap().install(f) }
}
pub fn c11(cx: &mut Cx) -> R {
    let g = &mut cx.rng;
    let dims = [1usize, 2, 3, 4, 5, 31, 32, 33, 64, 65, 100, 130, 260];
    let i = cx.case as usize;
    let large = [(1, 300, 1), (300, 1, 2), (2, 1, 300), (20, 20, 20), (34, 33, 35), (1, 1100, 2), (130, 4, 40), (40, 4, 130), (8, 65, 9), (9, 8, 65)];
    let (m, k, n) = if i < 64 { (1 + i % 4, 1 + i / 4 % 4, 1 + i / 16) } else if i < 64 + large.len() { large[i - 64] } else {
        match g.below(4) { 0 => (g.range(0, 5), g.range(0, 5), g.range(0, 5)), 1 => (*g.pick(&dims), g.range(1, 4), g.range(1, 6)), 2 => (g.range(1, 4), *g.pick(&dims), g.range(1, 4)), _ => (g.range(1, 4), g.range(1, 5), *g.pick(&dims)) }
    };
    let ls = match g.below(3) { 0 => vec![g.range(if i < 64 { 1 } else { 0 }, 4), m, k], _ => vec![m, k] };
    let (x, y): (Ref<G>, Ref<G>) = (Ref::draw(g, &ls), Ref::draw(g, &[k, n]));
    let want = Some(x.bmm(&y));
    let pool = *g.pick(&[0usize, 1, 2, 3, 4, 6, 9, 33]);
    cx.say(format!("matrix product of shapes {ls:?} and {:?}, {pool} workers", y.s));
    let (a, b) = (rc(&x), rc(&y));
    expect(cx, "bmm", quiet(|| in_pool(pool, || a.bmm(&b))), &want)?;
    for kind in 0..KINDS {
        let (v, d) = mk(&mut cx.rng, &x, kind);
        let (u, d2) = mk_any(&mut cx.rng, &y);
        cx.say(format!("matrix product of {d} and {d2}, {pool} workers"));
        match (&v, &u) {
            (Src::Raw(v), Src::Raw(u)) => expect(cx, "bmm", quiet(|| in_pool(pool, || v.bmm(u))), &want)?,
            (Src::Raw(v), Src::Rc(u)) => expect(cx, "bmm", quiet(|| in_pool(pool, || v.bmm(u))), &want)?,
            (Src::Raw(v), Src::View(u)) => expect(cx, "bmm", quiet(|| in_pool(pool, || v.bmm(u))), &want)?,
            (Src::Rc(v), u) => w!(u, u => expect(cx, "bmm", quiet(|| in_pool(pool, || v.bmm(u))), &want)?),
            (Src::View(v), u) => w!(u, u => expect(cx, "bmm", quiet(|| in_pool(pool, || v.bmm(u))), &want)?),
        }
    }
    // elements that are not finite: every product counts
    if m * k * n <= 2000 {
        let g = &mut cx.rng;
        let (mut x, mut y): (Ref<f64>, Ref<f64>) = (Ref::draw(g, &ls), Ref::draw(g, &[k, n]));
        let most = *g.pick(&[1u64, 2, 4, 6, 7]);
        const ODD: [f64; 7] = [0.0, 1.0, -1.0, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
        for v in x.e.iter_mut() { if g.below(3) == 0 { *v = ODD[g.below(most) as usize]; } }
        let most = *g.pick(&[3u64, 5, 6, 7]);
        for v in y.e.iter_mut() { if g.below(3) == 0 { *v = ODD[g.below(most) as usize]; } }
        let want = x.bmm(&y);
        let (v, d) = mk_any(g, &x);
        let (u, d2) = mk_any(g, &y);
        cx.say(format!("matrix product of {d} elements {:?} and {d2} elements {:?}", &x.e[..x.e.len().min(30)], &y.e[..y.e.len().min(30)]));
        let got = quiet(|| in_pool(pool, || w!(&v, v => w!(&u, u => read(&v.bmm_rc(u))))))??;
        cx.ok(got.s == want.s && got.e.iter().zip(&want.e).all(|(&a, &b)| bits_same(a, b)), || format!("gave {:?} {:?}, expected {:?} {:?}", got.s, &got.e[..got.e.len().min(30)], want.s, &want.e[..want.e.len().min(30)]))?;
    }
    // refusals
    let k2 = if cx.rng.coin() { k + 1 } else if k > 0 { k - 1 } else { 2 };
    for (l, r) in [(vec![m, k], vec![k2, n]), (vec![2, m, k], vec![k2, n]), (vec![k], vec![k, n]), (vec![], vec![k, n]), (vec![m, k], vec![k]), (vec![m, k], vec![1, k, n]), (vec![2, m, k], vec![2, k, n]), (vec![k], vec![k]), (vec![1, 1, m, k], vec![k, n]), (vec![2, 3, m, k], vec![k, n]), (vec![2, 1, 1, m, k], vec![k, n])] {
        let (p, q): (Ref<G>, Ref<G>) = (Ref::draw(&mut cx.rng, &l), Ref::draw(&mut cx.rng, &r));
        cx.say(format!("matrix product of shapes {l:?} and {r:?}"));
        let (p, q) = (rc(&p), rc(&q));
        cx.ok(refused(|| p.bmm(&q)), || "accepted".into())?;
        cx.ok(refused(|| (*p).bmm(&*q)), || "accepted on raw tensors".into())?;
    }
    let _ = (Fp::one(), Fp::zero());
    Ok(())
}
