//! Oracles for gradients, networks, copies, equality and threads.
use crate::nums::*;
use crate::pa::{in_pool, shape_for};
use crate::refm::*;
use crate::{w, Cx, R};
use rust_light::nn::{Linear, Mlp, Module};
use rust_light::optim::sgd::sgd_step;
use rust_light::tensor::*;
use std::ops::*;

fn want_grad<N: Draw>(cx: &mut Cx, what: &str, t: &RcTensor<N>, want: &Ref<N>) -> R {
    let got = grad_of(t);
    cx.ok(got.as_ref().map_or(false, |g| g.same(want)), || format!("gradient of {what} is {}, expected {}", got.map_or("none".into(), |g| g.brief()), want.brief()))
}
fn close_grad(cx: &mut Cx, what: &str, t: &RcTensor<f64>, want: &Ref<f64>) -> R {
    let got = grad_of(t);
    cx.ok(got.as_ref().map_or(false, |g| g.s == want.s && close(&g.e, &want.e)), || format!("gradient of {what} is {}, expected {}", got.map_or("none".into(), |g| g.brief()), want.brief()))
}
fn no_grad<N: Draw>(cx: &mut Cx, what: &str, t: &RcTensor<N>) -> R {
    let got = grad_of(t);
    cx.ok(got.is_none(), || format!("{what} has the gradient {}, expected none", got.unwrap().brief()))
}
/// run backward from y so that varied gradients reach it; what reached y is then read from y
fn loss<N: Draw>(g: &mut Rng, y: &RcTensor<N>) -> (RcTensor<N>, String) {
    let s = y.shape().clone();
    let wt = || Ref::<N>::draw(&mut Rng(77), &s);
    match g.below(4) {
        0 => (y.sum(), "sum".into()),
        1 => (functional::dot(y, &rc(&wt())), format!("dot with {}", wt().brief())),
        2 => (functional::dot(&rc(&wt()), y), "dot on the right".into()),
        _ => (functional::dot(&(y + &rc(&wt())), &rc(&wt())), "dot of a shifted copy".into()),
    }
}
fn arrived<N: Draw>(cx: &mut Cx, y: &RcTensor<N>) -> Result<Ref<N>, String> {
    let g = grad_of(y);
    cx.ok(g.is_some(), || "the result got no gradient".into())?;
    let g = g.unwrap();
    cx.ok(g.s == *y.shape(), || format!("gradient of the result has shape {:?}, the result {:?}", g.s, y.shape()))?;
    Ok(g)
}

pub fn c12(cx: &mut Cx) -> R {
    let mut s = shape_for(cx, true);
    // the full jacobian of tanh has the square of the count
    let most = if cx.case % 32 == 5 { 1100 } else if cx.case % 8 == 1 { 320 } else { 150 };
    let large = prod(&s) > most;
    if large && cx.case % 4 != 2 { while prod(&s) > most { s.pop(); } }
    let large = prod(&s) > most;
    let mut x: Ref<f64> = Ref::draw(&mut cx.rng, &s);
    for v in x.e.iter_mut() { if cx.rng.below(4) == 0 { *v = wide(&mut cx.rng); } }
    let fs: Vec<(&str, fn(&RcTensor<f64>) -> RcTensor<f64>, fn(f64) -> f64)> = vec![
        ("negation", |t| t.neg(), |_| -1.0),
        ("absolute value", |t| t.abs(), |v| if v >= 0.0 { 1.0 } else { -1.0 }),
        ("hyperbolic tangent", |t| functional::tanh(t.clone()), |v| 1.0 - v.tanh() * v.tanh()),
        ("rectification", |t| functional::relu(t.clone()), |v| if v < 0.0 { 0.0 } else { 1.0 }),
    ];
    for (name, f, d) in fs {
        if large && name.starts_with("hyp") { continue; }
        let before = grad_of(&rc(&x));
        let _ = before;
        let t = rc(&x);
        let y = f(&t);
        let (l, how) = loss(&mut cx.rng, &y);
        cx.say(format!("backward through {name} of {}, loss: {how}", x.brief()));
        quiet(|| l.backward()).map_err(|e| format!("backward panicked: {e}"))?;
        let g = arrived(cx, &y)?;
        let want = Ref { s: s.clone(), e: x.e.iter().zip(&g.e).map(|(&v, &q)| d(v) * q).collect() };
        close_grad(cx, "the operand", &t, &want)?;
    }
    // elements that are not finite
    let mut q: Ref<f64> = Ref::draw(&mut cx.rng, &s);
    for v in q.e.iter_mut() { if cx.rng.below(3) == 0 { *v = *cx.rng.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, 1e-300]); } }
    let mut c: Ref<f64> = Ref::draw(&mut cx.rng, &s);
    for v in c.e.iter_mut() { if cx.rng.below(3) == 0 { *v = 0.0; } }
    for what in 0..4 {
        if large && what == 2 { continue; }
        let mut q = q.clone();
        // the sign of a NaN is left open
        if what == 1 { for v in q.e.iter_mut() { if v.is_nan() { *v = -2.0; } } }
        let t = rc(&q);
        let y = match what { 0 => t.neg(), 1 => t.abs(), 2 => functional::tanh(t.clone()), _ => functional::relu(t.clone()) };
        let name = ["negation", "absolute value", "hyperbolic tangent", "rectification"][what];
        cx.say(format!("backward through {name} of shape {s:?} elements {:?}, incoming gradient {:?}", &q.e[..q.e.len().min(40)], &c.e[..c.e.len().min(40)]));
        quiet(|| functional::dot(&y, &rc(&c)).backward()).map_err(|e| format!("backward panicked: {e}"))?;
        let got = read(&t.grad())?;
        cx.ok(got.s == s, || format!("gradient of shape {:?}", got.s))?;
        for (p, (&v, (&i, &g))) in q.e.iter().zip(c.e.iter().zip(&got.e)).enumerate() {
            let want = i * match what { 0 => -1.0, 1 => if v >= 0.0 { 1.0 } else { -1.0 }, 2 => 1.0 - v.tanh() * v.tanh(), _ => if v < 0.0 { 0.0 } else { 1.0 } };
            cx.ok(g == want || g.is_nan() && want.is_nan() || (g - want).abs() <= 1e-9, || format!("element {p} of the gradient is {g:?}, expected {want:?}"))?;
        }
    }
    // the operand of one function is the result of another, and a copied view
    if large { return Ok(()); }
    let (v, d) = mk_any(&mut cx.rng, &x);
    let t = w!(&v, v => v.to_tensor());
    let a = t.neg();
    let b = functional::tanh(a.clone());
    let c = functional::relu(b.clone());
    let e = c.abs();
    cx.say(format!("backward through abs(relu(tanh(neg(x)))) of copied {d}"));
    let l = e.sum();
    quiet(|| l.backward()).map_err(|e| format!("backward panicked: {e}"))?;
    for (name, up, down, f) in [("abs", &e, &c, 1), ("relu", &c, &b, 3), ("tanh", &b, &a, 2), ("neg", &a, &t, 0)] {
        let g = arrived(cx, up)?;
        let x = read(down)?;
        let want = Ref { s: s.clone(), e: x.e.iter().zip(&g.e).map(|(&v, &q)| q * match f { 0 => -1.0, 1 => if v >= 0.0 { 1.0 } else { -1.0 }, 2 => 1.0 - v.tanh() * v.tanh(), _ => if v < 0.0 { 0.0 } else { 1.0 } }).collect() };
        close_grad(cx, &format!("the operand of {name}"), down, &want)?;
    }
    let x: Ref<Fp> = Ref::draw(&mut cx.rng, &s);
    let t = rc(&x);
    let y = t.neg();
    let (l, how) = loss(&mut cx.rng, &y);
    cx.say(format!("backward through negation of {}, loss: {how}", x.brief()));
    l.backward();
    let g = arrived(cx, &y)?;
    want_grad(cx, "the operand", &t, &g.map(|q| -q))
}

pub fn c13(cx: &mut Cx) -> R {
    let base = shape_for(cx, true);
    let (xs, ys) = if cx.rng.below(4) == 0 { (base.clone(), base) } else { compat_shape(&mut cx.rng, &base) };
    let (x, y): (Ref<Fp>, Ref<Fp>) = (Ref::draw(&mut cx.rng, &xs), Ref::draw(&mut cx.rng, &ys));
    for (form, minus) in [("&a + &b", false), ("a + b", false), ("&a - &b", true), ("a - &b", true), ("a - b", true)] {
        let (a, b) = (rc(&x), rc(&y));
        let z = match form { "&a + &b" => &a + &b, "a + b" => a.clone() + b.clone(), "&a - &b" => &a - &b, "a - &b" => a.clone() - &b, _ => a.clone() - b.clone() };
        let (l, how) = loss(&mut cx.rng, &z);
        cx.say(format!("backward through {form} of shapes {xs:?} and {ys:?}, loss: {how}"));
        quiet(|| l.backward()).map_err(|e| format!("backward panicked: {e}"))?;
        let g = arrived(cx, &z)?;
        want_grad(cx, "the left operand", &a, &g.unbroadcast(&xs))?;
        let gr = g.unbroadcast(&ys);
        want_grad(cx, "the right operand", &b, &if minus { gr.map(|v| -v) } else { gr })?;
    }
    // the elements of the operands, finite or not, play no part
    {
        let odd = |g: &mut Rng, s: &[usize]| { let mut r: Ref<f64> = Ref::draw(g, s); for v in r.e.iter_mut() { if g.below(3) == 0 { *v = *g.pick(&[0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN]); } } r };
        let (p, q) = (odd(&mut cx.rng, &xs), odd(&mut cx.rng, &ys));
        let minus = cx.rng.coin();
        let (a, b) = (rc(&p), rc(&q));
        let z = if minus { &a - &b } else { &a + &b };
        let mut c: Ref<f64> = Ref::draw(&mut cx.rng, z.shape());
        for v in c.e.iter_mut() { *v = v.round(); }
        cx.say(format!("backward through {} of shapes {xs:?} and {ys:?}, elements {:?} and {:?}", if minus { "a - b" } else { "a + b" }, &p.e[..p.e.len().min(20)], &q.e[..q.e.len().min(20)]));
        quiet(|| functional::dot(&z, &rc(&c)).backward()).map_err(|e| format!("backward panicked: {e}"))?;
        close_grad(cx, "the left operand", &a, &c.unbroadcast(&xs))?;
        let r = c.unbroadcast(&ys);
        close_grad(cx, "the right operand", &b, &if minus { r.map(|v| -v) } else { r })?;
    }
    let a = rc(&x);
    let z = &a + &a;
    let (l, how) = loss(&mut cx.rng, &z);
    cx.say(format!("backward through a + a of shape {xs:?}, loss: {how}"));
    l.backward();
    let g = arrived(cx, &z)?;
    want_grad(cx, "the operand", &a, &g.map(|v| v + v))?;
    let a = rc(&x);
    let z = &a - &a;
    z.sum().backward();
    cx.say(format!("backward through a - a of shape {xs:?}"));
    want_grad(cx, "the operand", &a, &Ref::zeros(&xs))
}

fn mm_grads<N: Draw>(x: &Ref<N>, y: &Ref<N>, g: &Ref<N>) -> (Ref<N>, Ref<N>) {
    let (k, n) = (y.s[0], y.s[1]);
    let m = prod(&x.s[..x.s.len() - 1]);
    let (mut l, mut r) = (Ref::zeros(&x.s), Ref::zeros(&y.s));
    for i in 0..m { for c in 0..k { for j in 0..n {
        l.e[i * k + c] = l.e[i * k + c] + g.e[i * n + j] * y.e[c * n + j];
        r.e[c * n + j] = r.e[c * n + j] + g.e[i * n + j] * x.e[i * k + c];
    } } }
    (l, r)
}
pub fn c14(cx: &mut Cx) -> R {
    let g = &mut cx.rng;
    let i = cx.case as usize;
    let big = [31usize, 32, 33, 63, 64, 65, 100, 130];
    let (m, k, n) = if i < 64 { (1 + i % 4, 1 + i / 4 % 4, 1 + i / 16) }
        else if i < 64 + 24 { let d = big[(i - 64) % 8]; match (i - 64) / 8 { 0 => (d, 1 + i % 3, 1 + i % 2), 1 => (1 + i % 3, d, 1 + i % 2), _ => (1 + i % 2, 1 + i % 3, d) } }
        else if i < 100 { match i - 88 { 0 => (1030, 1, 1), 1 => (1, 1030, 1), 2 => (1, 1, 1030), 3 => (300, 2, 1), 4 => (1, 2, 300), 5 => (2, 300, 1), 6 => (20, 20, 20), 7 => (40, 1, 40), 8 => (33, 33, 2), 9 => (2, 33, 33), 10 => (260, 1, 5), _ => (5, 1, 260) } }
        else { match g.below(6) { 5 => (g.range(0, 3), g.range(0, 3), g.range(0, 3)), 0 => (*g.pick(&big), g.range(1, 6), g.range(1, 4)), 1 => (g.range(1, 6), *g.pick(&big), g.range(1, 4)), 2 => (g.range(1, 4), g.range(1, 6), *g.pick(&big)), 3 => (g.range(5, 20), g.range(5, 20), g.range(5, 20)), _ => (g.range(1, 9), g.range(1, 9), g.range(1, 9)) } };
    let pool = *g.pick(&[0usize, 1, 2, 3, 4, 5, 6, 9, 17, 33]);
    let ls = if g.below(3) == 0 { vec![g.range(if i < 88 { 1 } else { 0 }, 4), m, k] } else { vec![m, k] };
    let (x, y): (Ref<Fp>, Ref<Fp>) = (Ref::draw(g, &ls), Ref::draw(g, &[k, n]));
    let (a, b) = (rc(&x), rc(&y));
    let pre: Option<(Ref<Fp>, Ref<Fp>)> = if g.below(3) == 0 { Some((Ref::draw(g, &ls), Ref::draw(g, &[k, n]))) } else { None };
    if let Some((p, q)) = &pre { a.update_grad(rc(p)); b.update_grad(rc(q)); }
    let z = a.bmm(&b);
    let (l, how) = loss(g, &z);
    cx.say(format!("backward through the product of shapes {ls:?} and {:?}, {pool} workers, loss: {how}", y.s));
    quiet(|| in_pool(pool, || l.backward())).map_err(|e| format!("backward panicked: {e}"))?;
    let gz = arrived(cx, &z)?;
    let (mut wl, mut wr) = mm_grads(&x, &y, &gz);
    if let Some((p, q)) = &pre { wl = p.bin(&wl, |u, v| u + v).unwrap(); wr = q.bin(&wr, |u, v| u + v).unwrap(); }
    want_grad(cx, "the left operand", &a, &wl)?;
    want_grad(cx, "the right operand", &b, &wr)?;
    if prod(&ls) * n > 4000 { return Ok(()); }
    // floats
    let g = &mut cx.rng;
    let (x, y): (Ref<f64>, Ref<f64>) = (Ref::draw(g, &ls), Ref::draw(g, &[k, n]));
    let (a, b) = (rc(&x), rc(&y));
    let z = a.bmm(&b);
    let (l, _) = loss(g, &z);
    in_pool(pool, || l.backward());
    let gz = arrived(cx, &z)?;
    let (wl, wr) = mm_grads(&x, &y, &gz);
    close_grad(cx, "the left operand", &a, &wl)?;
    close_grad(cx, "the right operand", &b, &wr)?;
    // elements that are not finite, and incoming gradients of zero: every product counts
    if prod(&ls) * n <= 400 {
        const ODD: [f64; 8] = [0.0, 1.0, -1.0, 2.0, 0.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
        let g = &mut cx.rng;
        let (mut x, mut y): (Ref<f64>, Ref<f64>) = (Ref::draw(g, &ls), Ref::draw(g, &[k, n]));
        let bound = *g.pick(&[5u64, 6, 7, 8]);
        x.e.iter_mut().chain(y.e.iter_mut()).for_each(|v| *v = if g.below(3) == 0 { ODD[g.below(bound) as usize] } else { ODD[1 + g.below(4) as usize] });
        let (a, b) = (rc(&x), rc(&y));
        let z = a.bmm(&b);
        let mut c: Ref<f64> = Ref::draw(g, z.shape());
        c.e.iter_mut().for_each(|v| *v = [0.0, 1.0, -2.0, 0.0][g.below(4) as usize]);
        cx.say(format!("backward through the product of {:?} {:?} and {:?} {:?}, incoming gradient {:?}", ls, x.e, y.s, y.e, c.e));
        quiet(|| in_pool(pool, || functional::dot(&z, &rc(&c)).backward())).map_err(|e| format!("backward panicked: {e}"))?;
        let (wl, wr) = mm_grads(&x, &y, &c);
        for (what, t, w) in [("the left operand", &a, &wl), ("the right operand", &b, &wr)] {
            let got = read(&t.grad())?;
            cx.ok(got.s == w.s && got.e.iter().zip(&w.e).all(|(u, v)| u == v || u.is_nan() && v.is_nan()), || format!("gradient of {what} is {:?} {:?}, expected {:?} {:?}", got.s, got.e, w.s, w.e))?;
        }
    }
    // a square used on both sides
    if m == k && k == n && ls.len() == 2 {
        let a = rc(&Ref::<Fp>::draw(&mut cx.rng, &ls));
        let z = a.bmm(&a);
        let (l, _) = loss(&mut cx.rng, &z);
        cx.say(format!("backward through a times a, shape {ls:?}"));
        in_pool(pool, || l.backward());
        let gz = arrived(cx, &z)?;
        let xa = read(&a)?;
        let (wl, wr) = mm_grads(&xa, &xa, &gz);
        want_grad(cx, "the operand", &a, &wl.bin(&wr, |u, v| u + v).unwrap())?;
    }
    Ok(())
}

pub fn c15(cx: &mut Cx) -> R {
    let mut s = shape_for(cx, true);
    while prod(&s) > if cx.case % 8 == 0 { 5000 } else { 400 } { s.pop(); }
    let (x, mut y): (Ref<Fp>, Ref<Fp>) = (Ref::draw(&mut cx.rng, &s), Ref::draw(&mut cx.rng, &s));
    // two tensors with the same elements are still two tensors
    if cx.rng.below(6) == 0 { y = x.clone(); }
    {
        let odd = |g: &mut Rng, s: &[usize]| { let mut r: Ref<f64> = Ref::draw(g, s); for v in r.e.iter_mut() { if g.below(3) == 0 { *v = *g.pick(&[0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN]); } } r };
        let (p, q) = (odd(&mut cx.rng, &s), odd(&mut cx.rng, &s));
        let k = *cx.rng.pick(&[0.0, 1.0, -3.0]);
        let (a, b) = (rc(&p), rc(&q));
        let z = functional::dot(&a, &b);
        let z1 = a.sum();
        cx.say(format!("backward through the dot product and the sum of shape {s:?} elements {:?} and {:?}, incoming gradient {k}", &p.e[..p.e.len().min(20)], &q.e[..q.e.len().min(20)]));
        quiet(|| functional::dot(&z, &RcTensor::new(vec![k], vec![1])).backward()).map_err(|e| format!("backward panicked: {e}"))?;
        close_grad(cx, "the left operand of the dot product", &a, &q.map(|v| v * k))?;
        close_grad(cx, "the right operand of the dot product", &b, &p.map(|v| v * k))?;
        a.zero_grad();
        quiet(|| functional::dot(&z1, &RcTensor::scalar(k)).backward()).map_err(|e| format!("backward panicked: {e}"))?;
        close_grad(cx, "the operand of the sum", &a, &p.map(|_| k))?;
    }
    for part in 0..2 {
        for place in 0..9 {
            let (a, b) = (rc(&x), rc(&y));
            let z = if part == 0 { a.sum() } else { functional::dot(&a, &b) };
            let c = Ref::<Fp>::draw(&mut cx.rng, &[3]);
            let l = match place {
                0 => z.clone() + RcTensor::scalar(Fp(5)),
                1 => z.neg(),
                2 => (&z + &rc(&c)).sum(),
                3 => functional::dot(&(&rc(&c) - &z), &rc(&c)),
                4 => (&z + &z).neg(),
                5 => z.sum(),
                6 => functional::dot(&z, &z),
                7 => { let q = &z - &a.sum(); functional::dot(&(&q + &rc(&c)), &rc(&c)) }
                _ => { if part == 1 { z.clone() } else { functional::dot(&z, &RcTensor::scalar(Fp(9))) } }
            };
            cx.say(format!("backward through {} of shape {s:?} used in place {place}", if part == 0 { "the sum" } else { "the dot product" }));
            if place == 8 && part == 1 {
                quiet(|| l.backward()).map_err(|e| format!("backward panicked: {e}"))?;
                want_grad(cx, "the left operand", &a, &y)?;
                want_grad(cx, "the right operand", &b, &x)?;
                continue;
            }
            quiet(|| l.backward()).map_err(|e| format!("backward panicked: {e}"))?;
            let g = arrived(cx, &z)?.e[0];
            if part == 0 {
                let want = if place == 7 { Ref { s: s.clone(), e: vec![g - g; x.e.len()] } } else { x.map(|_| g) };
                want_grad(cx, "the operand of the sum", &a, &want)?;
            } else {
                let mut wl = y.map(|v| v * g);
                if place == 7 { wl = wl.map(|v| v - g); }
                want_grad(cx, "the left operand", &a, &wl)?;
                want_grad(cx, "the right operand", &b, &x.map(|v| v * g))?;
            }
        }
    }
    let a = rc(&x);
    let z = functional::dot(&a, &a);
    let l = z.neg();
    cx.say(format!("backward through the dot product of a with itself, shape {s:?}"));
    l.backward();
    want_grad(cx, "the operand", &a, &x.map(|v| -(v + v)))
}

// ------------------------------------------------------------------ graphs
#[derive(Clone, Debug)]
enum Op { Leaf, Neg(usize), Add(usize, usize), Sub(usize, usize), Sum(usize), Dot(usize, usize), Bmm(usize, usize), Abs(usize), Relu(usize), Tanh(usize) }
struct Graph<N: Draw> { t: Vec<RcTensor<N>>, v: Vec<Ref<N>>, op: Vec<Op> }
trait Fun: Draw { fn un(op: &Op, t: &RcTensor<Self>) -> Option<RcTensor<Self>>; fn unv(op: &Op, x: Self) -> Self; fn der(op: &Op, x: Self) -> Self; fn ok(a: &Ref<Self>, b: &Ref<Self>) -> bool; fn neg(x: Self) -> Self; fn negt(t: &RcTensor<Self>) -> RcTensor<Self>; fn subt(a: &RcTensor<Self>, b: &RcTensor<Self>) -> RcTensor<Self>; const REAL: bool; }
fn a0<N: Numeric>() -> N { N::zero() }
impl Fun for Fp {
    fn un(_: &Op, _: &RcTensor<Fp>) -> Option<RcTensor<Fp>> { None }
    fn unv(_: &Op, x: Fp) -> Fp { x }
    fn der(_: &Op, _: Fp) -> Fp { Fp(1) }
    fn ok(a: &Ref<Fp>, b: &Ref<Fp>) -> bool { a.same(b) }
    fn neg(x: Fp) -> Fp { -x }
    fn negt(t: &RcTensor<Fp>) -> RcTensor<Fp> { t.neg() }
    fn subt(a: &RcTensor<Fp>, b: &RcTensor<Fp>) -> RcTensor<Fp> { a - b }
    const REAL: bool = false;
}
impl Fun for f64 {
    fn un(op: &Op, t: &RcTensor<f64>) -> Option<RcTensor<f64>> { Some(match op { Op::Abs(_) => t.abs(), Op::Relu(_) => functional::relu(t.clone()), Op::Tanh(_) => functional::tanh(t.clone()), _ => return None }) }
    fn unv(op: &Op, x: f64) -> f64 { match op { Op::Abs(_) => x.abs(), Op::Relu(_) => if x < 0.0 { 0.0 } else { x }, _ => x.tanh() } }
    fn der(op: &Op, x: f64) -> f64 { match op { Op::Abs(_) => if x >= 0.0 { 1.0 } else { -1.0 }, Op::Relu(_) => if x < 0.0 { 0.0 } else { 1.0 }, _ => 1.0 - x.tanh() * x.tanh() } }
    fn ok(a: &Ref<f64>, b: &Ref<f64>) -> bool { a.s == b.s && close(&a.e, &b.e) }
    fn neg(x: f64) -> f64 { -x }
    fn negt(t: &RcTensor<f64>) -> RcTensor<f64> { t.neg() }
    fn subt(a: &RcTensor<f64>, b: &RcTensor<f64>) -> RcTensor<f64> { a - b }
    const REAL: bool = true;
}
impl<N: Fun> Graph<N> {
    fn apply(&mut self, op: Op) -> bool {
        let (t, v) = match &op {
            Op::Leaf => return false,
            Op::Neg(a) => (N::negt(&self.t[*a]), self.v[*a].map(N::neg)),
            Op::Add(a, b) => match self.v[*a].bin(&self.v[*b], |x, y| x + y) { None => return false, Some(r) => (&self.t[*a] + &self.t[*b], r) },
            Op::Sub(a, b) => match self.v[*a].bin(&self.v[*b], |x, y| x + N::neg(y)) { None => return false, Some(r) => (N::subt(&self.t[*a], &self.t[*b]), r) },
            Op::Sum(a) => (self.t[*a].sum(), self.v[*a].sum()),
            Op::Dot(a, b) => { if self.v[*a].s != self.v[*b].s { return false; } (functional::dot(&self.t[*a], &self.t[*b]), self.v[*a].dot(&self.v[*b])) }
            Op::Bmm(a, b) => { let (l, r) = (&self.v[*a], &self.v[*b]); if l.s.len() < 2 || l.s.len() > 3 || r.s.len() != 2 || l.s[l.s.len() - 1] != r.s[0] { return false; } (self.t[*a].bmm(&self.t[*b]), l.bmm(r)) }
            Op::Abs(a) | Op::Relu(a) | Op::Tanh(a) => { if self.v[*a].e.len() > 80 { return false; } match N::un(&op, &self.t[*a]) { None => return false, Some(t) => (t, self.v[*a].map(|x| N::unv(&op, x))) } }
        };
        if v.e.len() > 1200 { return false; }
        self.t.push(t); self.v.push(v); self.op.push(op);
        true
    }
    /// summed path products from node r to every node; None where no path leads
    fn adjoints(&self, r: usize) -> Vec<Option<Ref<N>>> {
        let mut g: Vec<Option<Ref<N>>> = vec![None; self.t.len()];
        g[r] = Some(self.v[r].map(|_| N::one()));
        fn add<N: Draw>(g: &mut Option<Ref<N>>, d: Ref<N>) { *g = Some(match g.take() { None => d, Some(o) => o.bin(&d, |a, b| a + b).unwrap() }); }
        for k in (0..=r).rev() {
            let Some(gk) = g[k].clone() else { continue };
            match &self.op[k] {
                Op::Leaf => {}
                Op::Neg(a) => add(&mut g[*a], gk.map(N::neg)),
                Op::Add(a, b) => { add(&mut g[*a], gk.unbroadcast(&self.v[*a].s)); add(&mut g[*b], gk.unbroadcast(&self.v[*b].s)); }
                Op::Sub(a, b) => { add(&mut g[*a], gk.unbroadcast(&self.v[*a].s)); add(&mut g[*b], gk.unbroadcast(&self.v[*b].s).map(N::neg)); }
                Op::Sum(a) => add(&mut g[*a], self.v[*a].map(|_| gk.e[0])),
                Op::Dot(a, b) => { add(&mut g[*a], self.v[*b].map(|x| x * gk.e[0])); add(&mut g[*b], self.v[*a].map(|x| x * gk.e[0])); }
                Op::Bmm(a, b) => { let (l, q) = mm_grads(&self.v[*a], &self.v[*b], &gk); add(&mut g[*a], l); add(&mut g[*b], q); }
                o @ (Op::Abs(a) | Op::Relu(a) | Op::Tanh(a)) => add(&mut g[*a], Ref { s: gk.s.clone(), e: self.v[*a].e.iter().zip(&gk.e).map(|(&x, &q)| N::der(o, x) * q).collect() }),
            }
        }
        g
    }
    fn show(&self) -> String { self.op.iter().zip(&self.v).enumerate().map(|(k, (o, v))| format!("n{k}: {o:?} {:?}", v.s)).collect::<Vec<_>>().join("; ") }
}
fn draw_graph<N: Fun>(g: &mut Rng, size: usize) -> Graph<N> {
    let mut ax = || match g.below(20) { 0 => 0, 1 => *g.pick(&[5usize, 8, 9, 16, 17, 33]), _ => g.range(1, 3) };
    let (m, k) = (ax(), ax());
    let shapes = [vec![m, k], vec![k, m], vec![1, k], vec![k], vec![], vec![1], vec![m, 1], vec![2, m, k], vec![k, k]];
    let mut gr = Graph { t: vec![], v: vec![], op: vec![] };
    for _ in 0..g.range(1, 4) {
        let s = g.pick(&shapes).clone();
        let v = Ref::<N>::draw(g, &s);
        gr.t.push(rc(&v)); gr.v.push(v); gr.op.push(Op::Leaf);
    }
    let mut tries = 0;
    while gr.t.len() < size && tries < 60 {
        tries += 1;
        let n = gr.t.len() as u64;
        let (a, b) = (g.below(n) as usize, if g.below(3) == 0 { n as usize - 1 } else { g.below(n) as usize });
        let op = match g.below(if N::REAL { 13 } else { 10 }) { 0 => Op::Neg(a), 1 | 2 | 3 => Op::Add(a, b), 4 | 5 => Op::Sub(a, b), 6 => Op::Sum(a), 7 => Op::Dot(a, b), 8 | 9 => Op::Bmm(a, b), 10 => Op::Abs(a), 11 => Op::Relu(a), _ => Op::Tanh(a) };
        gr.apply(op);
    }
    let a = gr.t.len() - 1;
    if gr.v[a].e.len() != 1 || matches!(gr.op[a], Op::Leaf) { let op = if g.coin() { Op::Sum(a) } else { Op::Dot(a, a) }; gr.apply(op); }
    gr
}
fn c16_on<N: Fun>(cx: &mut Cx) -> R {
    let size = if cx.case < 30 { 3 } else { cx.rng.range(2, 11) };
    let gr: Graph<N> = draw_graph(&mut cx.rng, size);
    let root = gr.t.len() - 1;
    let mut have: Vec<Option<Ref<N>>> = vec![None; gr.t.len()];
    let mut log = vec![];
    for k in 0..gr.t.len() {
        if cx.rng.below(5) == 0 { let p = Ref::<N>::draw(&mut cx.rng, &gr.v[k].s); gr.t[k].update_grad(rc(&p)); have[k] = Some(p); log.push(format!("n{k} starts with a gradient")); }
    }
    let bystander = rc(&gr.v[0]);
    let by2 = rc(&gr.v[0]);
    by2.update_grad(rc(&gr.v[0]));
    for _ in 0..cx.rng.range(1, 3) {
        // any one-element node reached by an operation can be a root
        let roots: Vec<usize> = (0..gr.t.len()).filter(|&k| gr.v[k].e.len() == 1 && !matches!(gr.op[k], Op::Leaf)).collect();
        let r = if cx.rng.coin() { root } else { *cx.rng.pick(&roots) };
        log.push(format!("backward from n{r}"));
        cx.say(format!("{}; {}", gr.show(), log.join("; ")));
        quiet(|| gr.t[r].backward()).map_err(|e| format!("backward panicked: {e}"))?;
        let adj = gr.adjoints(r);
        for k in 0..gr.t.len() {
            if k != r { if let Some(a) = &adj[k] { have[k] = Some(match &have[k] { None => a.clone(), Some(o) => o.bin(a, |x, y| x + y).unwrap() }); } }
            let got = grad_of(&gr.t[k]);
            let good = match (&got, &have[k]) { (None, None) => true, (Some(a), Some(b)) => N::ok(a, b), _ => false };
            cx.ok(good, || format!("gradient of n{k} is {}, expected {}", got.map_or("none".into(), |g| g.brief()), have[k].as_ref().map_or("none".into(), |g| g.brief())))?;
            let now = read(&gr.t[k])?;
            cx.ok(now.same(&gr.v[k]) || N::REAL && N::ok(&now, &gr.v[k]), || format!("n{k} reads {}, expected {}", now.brief(), gr.v[k].brief()))?;
        }
        no_grad(cx, "a tensor that took no part", &bystander)?;
        want_grad(cx, "a tensor that took no part", &by2, &gr.v[0])?;
        if cx.rng.coin() {
            let z = cx.rng.below(gr.t.len() as u64) as usize;
            gr.t[z].zero_grad();
            have[z] = None;
            log.push(format!("zero n{z}"));
            cx.say(format!("{}; {}", gr.show(), log.join("; ")));
            for k in 0..gr.t.len() {
                let got = grad_of(&gr.t[k]);
                let good = match (&got, &have[k]) { (None, None) => true, (Some(a), Some(b)) => N::ok(a, b), _ => false };
                cx.ok(good, || format!("after zeroing n{z} the gradient of n{k} is {}, expected {}", got.map_or("none".into(), |g| g.brief()), have[k].as_ref().map_or("none".into(), |g| g.brief())))?;
            }
        }
    }
    for k in 0..gr.t.len() {
        if gr.v[k].e.len() != 1 {
            cx.ok(refused(|| gr.t[k].backward()), || format!("backward from n{k} with {} elements accepted", gr.v[k].e.len()))?;
            let got = grad_of(&gr.t[k]);
            let good = match (&got, &have[k]) { (None, None) => true, (Some(a), Some(b)) => N::ok(a, b), _ => false };
            cx.ok(good, || format!("refused backward changed the gradient of n{k}"))?;
        }
    }
    Ok(())
}
pub fn c16(cx: &mut Cx) -> R {
    if cx.case % 3 == 2 { c16_on::<f64>(cx)?; } else { c16_on::<Fp>(cx)?; }
    if cx.case % 16 == 0 {
        // chains, where every node has one path, and ladders, where paths multiply
        let x: Ref<Fp> = Ref::draw(&mut cx.rng, &[2, 2]);
        let n = cx.rng.range(1, 9);
        let (t, mut c, mut f) = (rc(&x), rc(&x), Fp(1));
        c = &c + &t;
        for _ in 0..n { c = &c + &c; f = f + f; }
        cx.say(format!("a ladder of {n} doublings"));
        c.sum().backward();
        want_grad(cx, "the bottom", &t, &x.map(|_| f))?;
        // long chains: alternately negated, added to and subtracted from
        let n = *cx.rng.pick(&[17usize, 33, 50, 70, 101, 140, 260]);
        let x: Ref<Fp> = Ref::draw(&mut cx.rng, &[2]);
        let (top, side) = (rc(&x), rc(&x));
        let (mut c, mut f, mut e) = (top.clone(), Fp(1), Fp(0));
        for k in 0..n { match k % 3 { 0 => { c = c.neg(); f = -f; e = -e; } 1 => { c = &c + &side; e = e + Fp(1); } _ => { c = &side - &c; f = -f; e = Fp(1) - e; } } }
        cx.say(format!("a chain of {n} operations"));
        c.sum().backward();
        // d/dside and d/dtop of the last value, from the recurrences above
        want_grad(cx, "the first operand of the chain", &top, &x.map(|_| f))?;
        want_grad(cx, "the other operand of the chain", &side, &x.map(|_| e))?;
        // many passes over the same history
        let n = *cx.rng.pick(&[5usize, 40, 130]);
        let t = rc(&x);
        let l = (&t).neg().sum();
        cx.say(format!("{n} backward passes over one history"));
        for _ in 0..n { l.backward(); }
        want_grad(cx, "the operand", &t, &x.map(|_| -Fp(n as u64)))?;
        // incoming gradients of refused sizes
        for s in [vec![2], vec![2, 1], vec![0], vec![1, 2, 2]] {
            let z = (&rc(&Ref::<Fp>::draw(&mut cx.rng, &s))).neg();
            cx.say(format!("backward from a result of shape {s:?}"));
            cx.ok(refused(|| z.backward()), || "accepted".into())?;
        }
    }
    Ok(())
}

/// contents and gradients of everything an operation was given
struct Snap<N: Draw> { t: RcTensor<N>, v: Ref<N>, g: Option<Ref<N>> }
fn snap<N: Draw>(t: &RcTensor<N>) -> Result<Snap<N>, String> { Ok(Snap { t: t.clone(), v: read(t)?, g: grad_of(t) }) }
fn same_snap<N: Draw>(cx: &mut Cx, what: &str, s: &Snap<N>) -> R {
    let (v, g) = (read(&s.t)?, grad_of(&s.t));
    cx.ok(v.same(&s.v), || format!("{what} changed an operand from {} to {}", s.v.brief(), v.brief()))?;
    let good = match (&g, &s.g) { (None, None) => true, (Some(a), Some(b)) => a.same(b), _ => false };
    cx.ok(good, || format!("{what} changed the gradient of an operand of shape {:?} from {} to {}", s.v.s, s.g.as_ref().map_or("none".into(), |g| g.brief()), g.as_ref().map_or("none".into(), |g| g.brief())))
}
pub fn c17(cx: &mut Cx) -> R {
    let mut s = shape_for(cx, true);
    while prod(&s) > 100 { s.pop(); }
    let (xs, ys) = compat_shape(&mut cx.rng, &s);
    let g = &mut cx.rng;
    let mkt = |g: &mut Rng, s: &[usize]| -> RcTensor<f64> {
        let t = rc(&Ref::<f64>::draw(g, s));
        let t = if g.below(3) == 0 { t.neg() } else { t };
        if g.coin() { t.update_grad(rc(&Ref::<f64>::draw(g, s))); }
        t
    };
    let (a, b) = (mkt(g, &xs), mkt(g, &ys));
    let (p, q) = (mkt(g, &s), mkt(g, &s));
    let c = mkt(g, &[]);
    let (m, k, n) = (g.range(1, 4), g.range(1, 4), g.range(1, 4));
    let ml = if g.coin() { vec![m, k] } else { vec![2, m, k] };
    let (l, r) = (mkt(g, &ml), mkt(g, &[k, n]));
    let all = [&a, &b, &p, &q, &c, &l, &r];
    let mut snaps = vec![];
    for t in all { snaps.push(snap(t)?); }
    let had: Vec<bool> = snaps.iter().map(|s| s.g.is_some()).collect();
    type O = Box<dyn Fn() -> RcTensor<f64>>;
    let win: Vec<(usize, usize)> = s.iter().map(|&d| (0, d)).collect();
    let mut ops: Vec<(&str, O)> = vec![];
    macro_rules! op { ($name:expr, $($v:ident),* => $e:expr) => { { $(let $v = $v.clone();)* ops.push(($name, Box::new(move || $e))); } } }
    op!("&a + &b", a, b => &a + &b);
    op!("a + b", a, b => a.clone() + b.clone());
    op!("&a - &b", a, b => &a - &b);
    op!("a - b", a, b => a.clone() - b.clone());
    op!("a - &b", a, b => a.clone() - &b);
    op!("p + p", p => &p + &p);
    op!("p * q", p, q => &p * &q);
    op!("p * q owned", p, q => p.clone() * q.clone());
    op!("p * p", p => &p * &p);
    op!("p * scalar", p, c => &p * &c);
    op!("scalar * p", p, c => &c * &p);
    op!("neg", p => p.neg());
    op!("abs", p => p.abs());
    op!("tanh", p => functional::tanh(p.clone()));
    op!("relu", p => functional::relu(p.clone()));
    op!("sum", p => p.sum());
    op!("dot", p, q => functional::dot(&p, &q));
    op!("dot with itself", p => functional::dot(&p, &p));
    op!("dot without derivative", p, q => functional::dot_no_derivative(&p, &q));
    op!("bmm", l, r => l.bmm(&r));
    op!("bmm_rc", l, r => l.bmm_rc(&r));
    op!("raw bmm", l, r => (*l).bmm(&*r).to_tensor());
    op!("raw add", a, b => (&*a).add(&*b).to_tensor());
    op!("raw sub", a, b => (&*a).sub(&*b).to_tensor());
    op!("raw mul", p, q => (&*p).mul(&q).to_tensor());
    op!("raw neg", p => (&*p).neg().to_tensor());
    op!("raw sum", p => (*p).sum().to_tensor());
    op!("raw dot", p, q => (*p).dot(&q));
    op!("element-wise multiplication", p, q => functional::element_wise_multiplication(&p, &q).to_tensor());
    op!("left scalar multiplication", p => p.left_scalar_multiplication(&2.0).to_tensor());
    op!("right scalar multiplication", p => p.right_scalar_multiplication(&2.0).to_tensor());
    op!("deep clone", p => p.deep_clone());
    op!("raw deep clone", p => (*p).deep_clone());
    { let win = win.clone(); op!("view copy", p => p.view(ranges(&win)).to_tensor()); }
    { let win = win.clone(); op!("slice copy", p => p.slice(ranges(&win)).to_tensor()); }
    { let win = win.clone(); op!("view sum", p => p.view(ranges(&win)).sum()); }
    { let win = win.clone(); op!("view bmm", r => { let _ = &win; let v = r.view(ranges(&[(0, r.shape()[0]), (0, r.shape()[1])])); let e = RcTensor::new_with_filler(vec![r.shape()[1], 2], 1.0); v.bmm(&e) }); }
    { let win = win.clone(); op!("view deep clone", p => p.view(ranges(&win)).deep_clone()); }
    for (name, f) in &ops {
        cx.say(format!("{name} (shapes {xs:?} {ys:?} {s:?} {ml:?} {:?}; gradients before {had:?})", [k, n]));
        let res = quiet(|| f()).map_err(|e| format!("panicked: {e}"))?;
        for sn in &snaps { same_snap(cx, name, sn)?; }
        no_grad(cx, &format!("the result of {name}"), &res)?;
        // a gradient given to the result stays with it
        res.update_grad(RcTensor::new(vec![1.0; res.count()], res.shape().clone()));
        for sn in &snaps { same_snap(cx, &format!("a gradient given to the result of {name}"), sn)?; }
    }
    cx.say(format!("reading, comparing and iterating {}", snaps[2].v.brief()));
    let _ = (p == q, *p == *q, p.is_scalar(), p.count(), p.iter_indices().count(), format!("{p} {p:?}"), p.get(&vec![0; s.len()]).is_ok());
    let _ = p.view(ranges(&win)) == q;
    let _ = refused(|| &a + &RcTensor::new(vec![1.0; 7 * 11], vec![7, 11]));
    let _ = refused(|| a.bmm(&RcTensor::new(vec![1.0; 7], vec![7])));
    let _ = refused(|| p.view(vec![SliceRange::new(0, 1); 9]));
    let layer = Linear::new(r.clone(), mkt(&mut cx.rng, &[1, n]), Some(functional::tanh));
    let _ = layer.forward(l.clone());
    let _ = layer.params();
    for sn in &snaps { same_snap(cx, "an evaluation", sn)?; }
    // backward changes gradients only, and no elements
    let root = (&a + &b).sum();
    root.backward();
    for sn in &snaps { let v = read(&sn.t)?; cx.ok(v.same(&sn.v), || format!("backward changed elements from {} to {}", sn.v.brief(), v.brief()))?; }
    for sn in &snaps[2..] { same_snap(cx, "backward of something else", sn)?; }
    a.zero_grad();
    for sn in &snaps { let v = read(&sn.t)?; cx.ok(v.same(&sn.v), || "zeroing changed elements".into())?; }
    Ok(())
}

// ------------------------------------------------------------------ networks
type Act = fn(RcTensor<f64>) -> RcTensor<f64>;
fn act_twice_neg(t: RcTensor<f64>) -> RcTensor<f64> { (&t + &t).neg() }
fn act_abs(t: RcTensor<f64>) -> RcTensor<f64> { t.abs() }
fn act(k: usize) -> (Option<Act>, fn(f64) -> f64, fn(f64) -> f64, &'static str) {
    match k {
        0 => (None, |x| x, |_| 1.0, "identity"),
        1 => (Some(functional::tanh), |x| x.tanh(), |x| 1.0 - x.tanh() * x.tanh(), "tanh"),
        2 => (Some(functional::relu), |x| if x < 0.0 { 0.0 } else { x }, |x| if x < 0.0 { 0.0 } else { 1.0 }, "relu"),
        3 => (Some(act_twice_neg), |x| -(x + x), |_| -2.0, "minus twice"),
        _ => (Some(act_abs), |x| x.abs(), |x| if x >= 0.0 { 1.0 } else { -1.0 }, "abs"),
    }
}
struct Lay { w: Ref<f64>, b: Ref<f64>, k: usize }
impl Lay {
    fn draw(g: &mut Rng, i: usize, o: usize, m: usize) -> Lay {
        let bs = match g.below(4) { 0 => vec![o], 1 => vec![1, o], 2 => vec![1, 1], _ => vec![m, o] };
        Lay { w: Ref::draw(g, &[i, o]), b: Ref::draw(g, &bs), k: g.range(0, 4) }
    }
    fn make(&self) -> Linear<f64> { Linear::new(rc(&self.w), rc(&self.b), act(self.k).0) }
    /// value before and after activation
    fn fwd(&self, x: &Ref<f64>) -> (Ref<f64>, Ref<f64>) { let z = x.bmm(&self.w).bin(&self.b, |p, q| p + q).unwrap(); let y = z.map(act(self.k).1); (z, y) }
    /// gradients of input, weights, bias
    fn bwd(&self, x: &Ref<f64>, z: &Ref<f64>, g: &Ref<f64>) -> (Ref<f64>, Ref<f64>, Ref<f64>) {
        let gz = Ref { s: z.s.clone(), e: z.e.iter().zip(&g.e).map(|(&v, &q)| act(self.k).2(v) * q).collect() };
        let gm = gz.unbroadcast(&x.bmm(&self.w).s);
        let (gx, gw) = mm_grads(x, &self.w, &gm);
        (gx, gw, gz.unbroadcast(&self.b.s))
    }
    fn show(&self) -> String { format!("weights {:?} bias {:?} {}", self.w.s, self.b.s, act(self.k).3) }
}
/// a size of an axis, now and then zero
fn size(g: &mut Rng, to: usize) -> usize { match g.below(24) { 0 => 0, 1 => *g.pick(&[6usize, 7, 8, 9, 16, 17, 33, 40]), _ => g.range(1, to) } }
fn draw_net(g: &mut Rng, n: usize, m: usize) -> (Vec<Lay>, usize) {
    let mut d = size(g, 4);
    let first = d;
    let mut v = vec![];
    for _ in 0..n { let o = size(g, 4); v.push(Lay::draw(g, d, o, m)); d = o; }
    (v, first)
}
fn run_net<const N: usize>(cx: &mut Cx) -> R {
    let m = size(&mut cx.rng, 4);
    let (net, first) = draw_net(&mut cx.rng, N, m);
    let xs = if cx.rng.below(4) == 0 { vec![2, m, first] } else { vec![m, first] };
    let x: Ref<f64> = Ref::draw(&mut cx.rng, &xs);
    cx.say(format!("network of {N} layers [{}] on a batch of shape {xs:?}", net.iter().map(|l| l.show()).collect::<Vec<_>>().join(" | ")));
    let mlp: Mlp<f64, N> = Mlp::new(net.iter().map(|l| l.make()).collect::<Vec<_>>().try_into().unwrap());
    let t = rc(&x);
    let y = quiet(|| mlp.forward(t.clone())).map_err(|e| format!("forward panicked: {e}"))?;
    let mut vals = vec![x.clone()];
    let mut zs = vec![];
    for l in &net { let (z, v) = l.fwd(vals.last().unwrap()); zs.push(z); vals.push(v); }
    let got = read(&y)?;
    let want = vals.last().unwrap();
    cx.ok(got.s == want.s && close(&got.e, &want.e), || format!("output {}, expected {}", got.brief(), want.brief()))?;
    if N == 0 { return Ok(()); }
    let (l, how) = loss(&mut cx.rng, &y);
    quiet(|| l.backward()).map_err(|e| format!("backward panicked: {e}"))?;
    let mut g = arrived(cx, &y)?;
    let ps = mlp.params();
    cx.ok(ps.len() == 2 * N, || format!("{} parameters", ps.len()))?;
    for k in (0..N).rev() {
        let (gx, gw, gb) = net[k].bwd(&vals[k], &zs[k], &g);
        close_grad(cx, &format!("the weights of layer {k} (loss {how})"), &ps[2 * k], &gw)?;
        close_grad(cx, &format!("the bias of layer {k} (loss {how})"), &ps[2 * k + 1], &gb)?;
        g = gx;
    }
    close_grad(cx, "the input", &t, &g)
}
pub fn c18(cx: &mut Cx) -> R {
    let m = size(&mut cx.rng, 4);
    let (i, o) = (size(&mut cx.rng, 5), size(&mut cx.rng, 5));
    for k in 0..5 {
        let mut lay = Lay::draw(&mut cx.rng, i, o, m);
        lay.k = k;
        let xs = match cx.rng.below(3) { 0 => vec![cx.rng.range(1, 3), m, i], _ => vec![m, i] };
        let x: Ref<f64> = Ref::draw(&mut cx.rng, &xs);
        cx.say(format!("layer {} on a batch of shape {xs:?}", lay.show()));
        let lin = lay.make();
        let t = rc(&x);
        let y = quiet(|| lin.forward(t.clone())).map_err(|e| format!("forward panicked: {e}"))?;
        let (z, want) = lay.fwd(&x);
        let got = read(&y)?;
        cx.ok(got.s == want.s && close(&got.e, &want.e), || format!("output {}, expected {}", got.brief(), want.brief()))?;
        let (l, how) = loss(&mut cx.rng, &y);
        quiet(|| l.backward()).map_err(|e| format!("backward panicked: {e}"))?;
        let g = arrived(cx, &y)?;
        let (gx, gw, gb) = lay.bwd(&x, &z, &g);
        close_grad(cx, &format!("the weights (loss {how})"), &lin.weights, &gw)?;
        close_grad(cx, &format!("the bias (loss {how})"), &lin.bias, &gb)?;
        close_grad(cx, &format!("the input (loss {how})"), &t, &gx)?;
    }
    match cx.case % 5 { 0 => run_net::<0>(cx), 1 => run_net::<1>(cx), 2 => run_net::<2>(cx), 3 => run_net::<3>(cx), _ => if cx.case % 10 == 4 { run_net::<9>(cx) } else { run_net::<4>(cx) } }
}

/// is it the same tensor: a gradient given to one shows in the other
fn identical(a: &RcTensor<f64>, b: &RcTensor<f64>) -> bool {
    let keep = grad_of(a);
    a.zero_grad();
    let before = grad_of(b).is_none();
    let mark: Vec<f64> = (0..a.count()).map(|k| k as f64 + 0.125).collect();
    a.update_grad(RcTensor::new(mark.clone(), a.shape().clone()));
    let r = before && grad_of(b).map_or(false, |g| g.e == mark && g.s == *a.shape());
    a.zero_grad();
    let r = r && grad_of(b).is_none();
    if let Some(k) = keep { a.update_grad(rc(&k)); }
    r
}
fn params_net<const N: usize>(cx: &mut Cx) -> R {
    let m = cx.rng.range(1, 3);
    let (net, first) = draw_net(&mut cx.rng, N, m);
    cx.say(format!("parameters of a network of {N} layers [{}]", net.iter().map(|l| l.show()).collect::<Vec<_>>().join(" | ")));
    let layers: Vec<Linear<f64>> = net.iter().map(|l| l.make()).collect();
    let orig: Vec<RcTensor<f64>> = layers.iter().flat_map(|l| vec![l.weights.clone(), l.bias.clone()]).collect();
    let mut mlp: Mlp<f64, N> = Mlp::new(layers.try_into().unwrap());
    let ps = mlp.params();
    cx.ok(ps.len() == 2 * N, || format!("{} parameters", ps.len()))?;
    for (k, (p, o)) in ps.iter().zip(&orig).enumerate() { cx.ok(identical(p, o), || format!("parameter {k} is not that of the layer"))?; }
    // some constant, some equal to those before
    let fresh: Vec<Lay> = net.iter().map(|l| { let mut q = Lay { w: Ref::draw(&mut cx.rng, &l.w.s), b: Ref::draw(&mut cx.rng, &l.b.s), k: l.k }; match (cx.rng.below(5), q.w.e.len()) { (0, 1..) => q.w.e[0] = 0.0, (1, _) => { q.w = q.w.map(|_| 1.0); q.b = q.b.map(|_| 1.0); } (2, _) => { q.w = l.w.clone(); q.b = l.b.clone(); } _ => {} } q }).collect();
    let list: Vec<RcTensor<f64>> = fresh.iter().flat_map(|l| vec![rc(&l.w), rc(&l.b)]).collect();
    quiet(|| mlp.update_params(list.clone())).map_err(|e| format!("update_params panicked: {e}"))?;
    let ps = mlp.params();
    cx.ok(ps.len() == 2 * N, || format!("{} parameters after replacement", ps.len()))?;
    for (k, (p, o)) in ps.iter().zip(&list).enumerate() { cx.ok(identical(p, o), || format!("parameter {k} is not the one given"))?; }
    for (k, l) in fresh.iter().enumerate() { let (w, b) = (read(&ps[2 * k])?, read(&ps[2 * k + 1])?); cx.ok(w.same(&l.w) && b.same(&l.b), || format!("parameters of layer {k} changed"))?; }
    for (k, l) in net.iter().enumerate() { let (w, b) = (read(&orig[2 * k])?, read(&orig[2 * k + 1])?); cx.ok(w.same(&l.w) && b.same(&l.b), || format!("old parameters of layer {k} changed"))?; }
    let x: Ref<f64> = Ref::draw(&mut cx.rng, &[m, first]);
    let y = mlp.forward(rc(&x));
    let mut v = x.clone();
    for l in &fresh { v = l.fwd(&v).1; }
    let got = read(&y)?;
    cx.ok(got.s == v.s && close(&got.e, &v.e), || format!("output after replacement {}, expected {}", got.brief(), v.brief()))?;
    // putting the old ones back
    mlp.update_params(orig.clone());
    for (k, (p, o)) in mlp.params().iter().zip(&orig).enumerate() { cx.ok(identical(p, o), || format!("parameter {k} is not the old one put back"))?; }
    Ok(())
}
pub fn c19(cx: &mut Cx) -> R {
    let (i, o, m) = (size(&mut cx.rng, 4), size(&mut cx.rng, 4), size(&mut cx.rng, 3));
    let lay = Lay::draw(&mut cx.rng, i, o, m);
    cx.say(format!("parameters of a layer with {}", lay.show()));
    let mut lin = lay.make();
    let (w, b) = (lin.weights.clone(), lin.bias.clone());
    let ps = Module::params(&lin);
    cx.ok(ps.len() == 2 && identical(&ps[0], &w) && identical(&ps[1], &b), || "parameters are not weights then bias".into())?;
    let it: Vec<_> = Linear::<f64>::params(&mut lin).collect();
    cx.ok(it.len() == 2 && identical(&it[0], &w) && identical(&it[1], &b), || "iterated parameters are not weights then bias".into())?;
    let nl = if cx.rng.below(5) == 0 { Lay { w: lay.w.clone(), b: lay.b.clone(), k: lay.k } } else { Lay { w: Ref::draw(&mut cx.rng, &lay.w.s), b: Ref::draw(&mut cx.rng, &lay.b.s), k: lay.k } };
    let (nw, nb) = (rc(&nl.w), rc(&nl.b));
    lin.update_params(vec![nw.clone(), nb.clone()]);
    cx.ok(identical(&lin.weights, &nw) && identical(&lin.bias, &nb), || "replaced weights and bias are not those given".into())?;
    let ps = Module::params(&lin);
    cx.ok(ps.len() == 2 && identical(&ps[0], &nw) && identical(&ps[1], &nb), || "parameters after replacement are not those given".into())?;
    let x: Ref<f64> = Ref::draw(&mut cx.rng, &[m, i]);
    let got = read(&lin.forward(rc(&x)))?;
    let want = nl.fwd(&x).1;
    cx.ok(got.s == want.s && close(&got.e, &want.e), || "output after replacement".into())?;
    match cx.case % 5 { 0 => params_net::<0>(cx), 1 => params_net::<1>(cx), 2 => params_net::<2>(cx), 3 => params_net::<3>(cx), _ => if cx.case % 10 == 4 { params_net::<11>(cx) } else { params_net::<5>(cx) } }
}

fn step_check<U: Module<f64>>(cx: &mut Cx, what: &str, m: &mut U, step: f64, again: impl Fn(&U)) -> R {
    let old = m.params();
    let mut want = vec![];
    for p in &old {
        let v = read(p)?;
        let g = grad_of(p).ok_or("a parameter has no gradient")?;
        want.push((v.clone(), Ref { s: v.s.clone(), e: v.e.iter().zip(&g.e).map(|(&a, &b)| a - step * b).collect() }, g));
    }
    quiet(|| sgd_step(m, RcTensor::scalar(step))).map_err(|e| format!("{what}: step panicked: {e}"))?;
    let new = m.params();
    cx.ok(new.len() == old.len(), || format!("{what}: {} parameters became {}", old.len(), new.len()))?;
    for (k, p) in new.iter().enumerate() {
        let v = read(p)?;
        cx.ok(v.s == want[k].1.s && close(&v.e, &want[k].1.e), || format!("{what}: parameter {k} became {}, expected {} (was {}, gradient {})", v.brief(), want[k].1.brief(), want[k].0.brief(), want[k].2.brief()))?;
        no_grad(cx, &format!("{what}: new parameter {k}"), p)?;
        let r = read(&old[k])?;
        cx.ok(r.same(&want[k].0), || format!("{what}: the step changed the old parameter {k}"))?;
    }
    // history: nothing flows from the new parameters back to the old ones
    let before: Vec<_> = old.iter().map(grad_of).collect();
    again(m);
    for (k, p) in new.iter().enumerate() { let l = p.sum(); quiet(|| l.backward()).map_err(|e| format!("{what}: backward after the step: {e}"))?; if p.count() == 1 { cx.ok(refused(|| p.backward()), || format!("{what}: new parameter {k} has a recorded history"))?; } }
    for (k, p) in old.iter().enumerate() {
        let now = grad_of(p);
        cx.ok(match (&now, &before[k]) { (Some(a), Some(b)) => a.same(b), (None, None) => true, _ => false }, || format!("{what}: a backward pass after the step reached the old parameter {k}"))?;
    }
    for p in &new { p.zero_grad(); }
    Ok(())
}
fn sgd_net<const N: usize>(cx: &mut Cx) -> R {
    let m = cx.rng.range(1, 3);
    let (net, first) = draw_net(&mut cx.rng, N, m);
    let step = *cx.rng.pick(&[0.5, 1e-3, 1.0, 2.25, 0.0, -0.5]);
    let share = cx.rng.below(3) == 0;
    let mut layers: Vec<Linear<f64>> = net.iter().map(|l| l.make()).collect();
    // the same tensor may be a parameter in several places
    if share { for k in 1..layers.len() { for j in 0..k {
        if net[j].w.s == net[k].w.s { layers[k].weights = layers[j].weights.clone(); }
        if net[j].b.s == net[k].b.s { layers[k].bias = layers[j].bias.clone(); }
    } } }
    let mut mlp: Mlp<f64, N> = Mlp::new(layers.try_into().unwrap());
    let x: Ref<f64> = Ref::draw(&mut cx.rng, &[m, first]);
    for round in 0..cx.rng.range(1, 3) {
        cx.say(format!("step {round} of size {step} on a network of {N} layers{} [{}]", if share { " sharing parameters of equal shape" } else { "" }, net.iter().map(|l| l.show()).collect::<Vec<_>>().join(" | ")));
        mlp.forward(rc(&x)).sum().backward();
        step_check(cx, "network", &mut mlp, step, |n| { if N > 0 { n.forward(rc(&x)).sum().backward() } })?;
    }
    Ok(())
}
pub fn c20(cx: &mut Cx) -> R {
    let (i, o, m) = (cx.rng.range(1, 5), cx.rng.range(1, 5), cx.rng.range(1, 4));
    let lay = Lay::draw(&mut cx.rng, i, o, m);
    let step = *cx.rng.pick(&[0.5, 1e-3, 1.0, 3.0, 0.0]);
    let mut lin = lay.make();
    let x: Ref<f64> = Ref::draw(&mut cx.rng, &[m, i]);
    for round in 0..3 {
        cx.say(format!("step {round} of size {step} on a layer with {} and a batch of shape {:?}", lay.show(), x.s));
        let y = lin.forward(rc(&x));
        let (l, _) = loss(&mut cx.rng, &y);
        l.backward();
        if cx.rng.coin() { lin.weights.update_grad(rc(&Ref::draw(&mut cx.rng, &lay.w.s))); }
        step_check(cx, "layer", &mut lin, step, |n| { n.forward(rc(&x)).sum().backward() })?;
    }
    match cx.case % 5 { 0 => sgd_net::<1>(cx), 1 => sgd_net::<2>(cx), 2 => sgd_net::<3>(cx), 3 => sgd_net::<9>(cx), _ => sgd_net::<4>(cx) }
}

pub fn c21(cx: &mut Cx) -> R {
    let threads = if cx.case % 7 == 6 { 24 } else { cx.rng.range(2, 8) };
    let n = *cx.rng.pick(&[1usize, 7, 300, 3000]);
    let rounds = if n > 1000 { 20 } else { 60 };
    let pre = cx.rng.coin();
    cx.say(format!("{threads} threads add {rounds} gradients each to a tensor of {n} elements{}", if pre { " that already has one" } else { "" }));
    let t = RcTensor::new(vec![Fp(1); n], vec![n]);
    let mut want = vec![Fp(0); n];
    if pre { let p = Ref::<Fp>::draw(&mut cx.rng, &[n]); t.update_grad(rc(&p)); want = p.e; }
    let gs: Vec<Vec<RcTensor<Fp>>> = (0..threads).map(|k| (0..rounds).map(|r| RcTensor::new(vec![Fp((k * 1000 + r) as u64 + 1); n], vec![n])).collect()).collect();
    for (k, v) in gs.iter().enumerate() { for (r, _) in v.iter().enumerate() { for w in want.iter_mut() { *w = *w + Fp((k * 1000 + r) as u64 + 1); } } }
    let bar = std::sync::Barrier::new(threads);
    std::thread::scope(|s| { for v in &gs { let (t, bar) = (&t, &bar); s.spawn(move || { bar.wait(); for g in v { t.update_grad(g.clone()); } }); } });
    want_grad(cx, "the tensor", &t, &Ref { s: vec![n], e: want })?;
    // whole backward passes through a shared tensor
    let m = *cx.rng.pick(&[1usize, 4, 500]);
    cx.say(format!("{threads} threads run backward through a shared tensor of {m} elements"));
    let wt = RcTensor::new(vec![Fp(3); m], vec![m]);
    let reps = 10;
    let bar = std::sync::Barrier::new(threads);
    std::thread::scope(|s| { for k in 0..threads { let (wt, bar) = (&wt, &bar); s.spawn(move || { let c = RcTensor::new(vec![Fp(k as u64 + 1); m], vec![m]); let ls: Vec<_> = (0..reps).map(|_| functional::dot(wt, &c)).collect(); bar.wait(); for l in ls { l.backward(); } }); } });
    let total = (1..=threads as u64).sum::<u64>() * reps as u64;
    want_grad(cx, "the shared tensor", &wt, &Ref { s: vec![m], e: vec![Fp(total); m] })
}

pub fn c22(cx: &mut Cx) -> R {
    let s = shape_for(cx, true);
    let r: Ref<f64> = Ref::draw(&mut cx.rng, &s);
    let shape_one = |s: &[usize]| RcTensor::new(vec![0.5; prod(s)], s.to_vec());
    for kind in 0..KINDS {
        for hist in 0..2 {
            let g0: Option<Ref<f64>> = if cx.rng.coin() { Some(Ref::draw(&mut cx.rng, &s)) } else { None };
            if kind < 2 {
                let base = rc(&r.map(|x| -x));
                let src = if hist == 1 { base.neg() } else { rc(&r) };
                if let Some(g) = &g0 { src.update_grad(rc(g)); }
                cx.say(format!("deep copy of a {} {} (history {hist}, gradient {})", if kind == 0 { "raw tensor" } else { "tensor" }, r.brief(), g0.is_some()));
                let c = quiet(|| if kind == 0 { (*src).deep_clone() } else { src.deep_clone() }).map_err(|e| format!("panicked: {e}"))?;
                let now = grad_of(&src);
                cx.ok(match (&now, &g0) { (None, None) => true, (Some(a), Some(b)) => a.same(b), _ => false }, || format!("copying changed the original's gradient to {}", now.as_ref().map_or("none".into(), |g| g.brief())))?;
                let got = read(&c)?;
                cx.ok(got.same(&r), || format!("the copy shows {}, expected {}", got.brief(), r.brief()))?;
                no_grad(cx, "the copy", &c)?;
                cx.ok(c.count() != 1 || refused(|| c.backward()), || "the copy has a recorded derivative".into())?;
                c.sum().backward();
                no_grad(cx, "what the original was made from", &base)?;
                let now = grad_of(&src);
                cx.ok(match (&now, &g0) { (None, None) => true, (Some(a), Some(b)) => a.same(b), _ => false }, || "a gradient of the copy shows in the original".into())?;
                c.zero_grad();
                c.update_grad(shape_one(&s));
                let now = grad_of(&src);
                cx.ok(match (&now, &g0) { (None, None) => true, (Some(a), Some(b)) => a.same(b), _ => false }, || "a gradient given to the copy shows in the original".into())?;
                c.zero_grad();
                src.update_grad(shape_one(&s));
                no_grad(cx, "the copy, after one was given to the original,", &c)?;
                src.zero_grad();
                c.update_grad(shape_one(&s));
                src.zero_grad();
                want_grad(cx, "the copy, after zeroing the original,", &c, &Ref { s: s.clone(), e: vec![0.5; r.e.len()] })?;
                let got = read(&src)?;
                cx.ok(got.same(&r), || "the original changed".into())?;
            } else {
                let (v, d) = mk(&mut cx.rng, &r, kind);
                cx.say(format!("deep copy of {d}"));
                if let Src::View(v) = &v {
                    if let Some(_) = &g0 { let t = v.tensor(); t.update_grad(shape_one(&t.shape().clone())); }
                    let under = v.tensor();
                    let before = grad_of(&under);
                    let c = quiet(|| v.deep_clone()).map_err(|e| format!("panicked: {e}"))?;
                    let got = read(&c)?;
                    cx.ok(got.same(&r), || format!("the copy shows {}, expected {}", got.brief(), r.brief()))?;
                    no_grad(cx, "the copy", &c)?;
                    c.update_grad(shape_one(&s));
                    let now = grad_of(&under);
                    cx.ok(match (&now, &before) { (None, None) => true, (Some(a), Some(b)) => a.same(b), _ => false }, || "a gradient given to the copy shows in the tensor under the view".into())?;
                    c.zero_grad();
                    under.update_grad(shape_one(&under.shape().clone()));
                    no_grad(cx, "the copy", &c)?;
                }
            }
        }
    }
    // a copy of a copy, and of something computed
    let a = rc(&r);
    let y = functional::tanh(a.clone());
    let c = y.deep_clone().deep_clone();
    cx.say(format!("deep copy of a deep copy of tanh of {}", r.brief()));
    c.sum().backward();
    no_grad(cx, "the operand", &a)?;
    no_grad(cx, "the source", &y)
}

pub fn c23(cx: &mut Cx) -> R {
    let s = shape_for(cx, true);
    let r: Ref<i64> = Ref::draw(&mut cx.rng, &s);
    let n = r.e.len();
    let to = reshape_of(&mut cx.rng, n);
    let mut others: Vec<(Ref<i64>, bool)> = vec![(r.clone(), true), (Ref { s: to.clone(), e: r.e.clone() }, to == s)];
    let mut one = s.clone(); one.insert(0, 1); others.push((Ref { s: one, e: r.e.clone() }, false));
    let mut one = s.clone(); one.push(1); others.push((Ref { s: one, e: r.e.clone() }, false));
    if s.len() >= 2 { let mut p = s.clone(); p.reverse(); let eq = p == s; others.push((Ref { s: p, e: r.e.clone() }, eq)); }
    if n > 0 {
        for p in [0, n - 1, n / 2, cx.rng.range(0, n - 1)] { let mut q = r.clone(); q.e[p] += 1; others.push((q, false)); }
        let mut q = r.clone(); q.e.rotate_left(1); let eq = q.e == r.e; others.push((q, eq));
        let mut q = r.clone(); q.s = vec![n + 1]; q.e.push(0); others.push((q, false));
    }
    for (o, eq) in &others {
        cx.say(format!("comparing {} with {}", r.brief(), o.brief()));
        let (a, b) = (rc(&r), rc(o));
        if cx.rng.coin() { a.update_grad(rc(&r)); }
        let b = if cx.rng.coin() { b.neg().neg() } else { b };
        cx.ok(a == a.clone() && *b == *b, || "a tensor differs from itself".into())?;
        cx.ok((a == b) == *eq && (b == a) == *eq, || format!("tensors compare {}, expected {eq}", a == b))?;
        cx.ok((*a == *b) == *eq && (*b == *a) == *eq, || format!("raw tensors compare {}, expected {eq}", *a == *b))?;
        cx.ok((a != b) != *eq, || "tensors compare both equal and different".into())?;
        for kind in 2..KINDS {
            let (v, d) = mk(&mut cx.rng, &r, kind);
            let (u, d2) = mk_any(&mut cx.rng, o);
            cx.say(format!("comparing {d} with {d2}"));
            if let Src::View(v) = &v {
                let got = quiet(|| w!(&u, u => *v == *u)).map_err(|e| format!("panicked: {e}"))?;
                cx.ok(got == *eq, || format!("compare {got}, expected {eq}"))?;
            }
        }
    }
    let mut f: Ref<f64> = Ref::draw(&mut cx.rng, &s);
    if n > 0 {
        let p = cx.rng.range(0, n - 1);
        f.e[p] = f64::NAN;
        cx.say(format!("comparing {} with a copy", f.brief()));
        let (a, b) = (rc(&f), rc(&f));
        cx.ok(a != b, || "tensors with an element that is not equal to itself compare equal".into())?;
        cx.ok(a != a.clone() && *a != *a, || "a tensor with an element that is not equal to itself compares equal to itself".into())?;
        let v = a.view(ranges(&s.iter().map(|&d| (0, d)).collect::<Vec<_>>()));
        cx.ok(!(v == v.clone()) && !(v == a), || "a view with an element that is not equal to itself compares equal to itself".into())?;
        let v = a.view(ranges(&s.iter().map(|&d| (0, d)).collect::<Vec<_>>()));
        cx.ok(!(v == b), || "view with an element that is not equal to itself compares equal".into())?;
    }
    Ok(())
}

// ------------------------------------------------------------------ worker pools
fn pool_job(m: usize, k: usize, n: usize) -> bool {
    let x = Ref::<Fp>::new(vec![m, k], (0..m * k).map(|i| Fp(i as u64 + 1)).collect());
    let y = Ref::<Fp>::new(vec![k, n], (0..k * n).map(|i| Fp(i as u64 * 7 + 3)).collect());
    let (a, b) = (rc(&x), rc(&y));
    let z = a.bmm(&b);
    z.sum().backward();
    let gz = Ref::<Fp>::new(vec![m, n], vec![Fp(1); m * n]);
    let (l, r) = mm_grads(&x, &y, &gz);
    read(&z).unwrap().same(&x.bmm(&y)) && grad_of(&a).map_or(false, |g| g.same(&l)) && grad_of(&b).map_or(false, |g| g.same(&r))
}
/// runs in a process of its own: workers, where it is called from, sizes
pub fn pool_child(a: &[String]) {
    let (n, how, sz): (usize, usize, usize) = (a[0].parse().unwrap(), a[1].parse().unwrap(), a[2].parse().unwrap());
    let jobs: Vec<(usize, usize, usize)> = vec![(1, 1, 1), (2, 3, 2), (1, sz, 1), (sz, 1, 2), (2, 2, sz), (sz / 4 + 1, sz / 4 + 1, sz / 4 + 1)];
    // one job with many messages for the same positions
    let long = [(1, 40, 300), (300, 40, 1), (3, 70, 33), (1, 40, 520)][(n + sz) % 4];
    let ok = match how {
        // the global pool (its size comes from RAYON_NUM_THREADS), from outside it
        0 => jobs.iter().chain([&long, &(1, 40, 300)]).all(|&(m, k, l)| pool_job(m, k, l)),
        // inside a worker of a pool
        1 => { let p = rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap(); p.install(|| jobs.iter().chain([&long]).all(|&(m, k, l)| pool_job(m, k, l))) }
        // many at once inside a pool
        2 => {
            let p = rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
            let bad = std::sync::atomic::AtomicUsize::new(0);
            p.scope(|s| { for r in 0..2 * n { for &(m, k, l) in &jobs { let bad = &bad; s.spawn(move |_| { if !pool_job(m + r % 2, k, l) { bad.fetch_add(1, std::sync::atomic::Ordering::SeqCst); } }); } } });
            bad.into_inner() == 0
        }
        // nested: a job inside a job's pool inside another pool
        _ => { let p = rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap(); p.install(|| rayon::join(|| pool_job(3, sz, 2), || rayon::join(|| pool_job(sz, 3, 2), || pool_job(2, 2, sz)))) == (true, (true, true)) }
    };
    println!("{}", if ok { "done" } else { "wrong" });
}
pub fn c24(cx: &mut Cx) -> R {
    let i = cx.case as usize;
    let n = if i < 32 { [1, 2, 3, 4, 5, 8, 16, 33][i / 4] } else { cx.rng.range(1, 40) };
    let how = i % 4;
    let sz = *cx.rng.pick(&[2usize, 9, 33, 40, 64, 90]);
    cx.say(format!("{n} workers, {} sizes up to {sz}", ["called from outside,", "called from inside a worker,", "many at once inside workers,", "nested joins inside workers,"][how]));
    let exe = std::env::current_exe().unwrap();
    let mut c = std::process::Command::new(exe).args(["pool-child", &n.to_string(), &how.to_string(), &sz.to_string()]).env("RAYON_NUM_THREADS", n.to_string()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().map_err(|e| format!("cannot start: {e}"))?;
    let t = std::time::Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            let mut s = String::new();
            use std::io::Read;
            c.stdout.take().unwrap().read_to_string(&mut s).ok();
            // a wrong value is another property's business: this one asks for an end
            return cx.ok(st.success() && !s.is_empty(), || format!("ended with {st}, output {s:?}"));
        }
        if t.elapsed().as_secs() > 90 { c.kill().ok(); c.wait().ok(); return cx.ok(false, || "did not end within 90 s (jobs that take less than a second)".into()); }
        std::thread::sleep(std::time::Duration::from_millis(5));
    }
}
pub fn _u() -> Fp { a0::<Fp>() }
