//! Reference model: a shape and its elements in row-major order, and generators of everything in
//! the crate that can show those contents.
use crate::nums::*;
use num::{One, Zero};
use rust_light::tensor::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Ref<N> { pub s: Vec<usize>, pub e: Vec<N> }

pub fn prod(s: &[usize]) -> usize { s.iter().product() }
/// all in-range indices in row-major order
pub fn indices(s: &[usize]) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    for &d in s {
        let mut next = Vec::with_capacity(out.len() * d);
        for p in &out { for x in 0..d { let mut q = p.clone(); q.push(x); next.push(q); } }
        out = next;
    }
    out
}
pub fn flat(i: &[usize], s: &[usize]) -> usize { i.iter().zip(s).fold(0, |a, (&x, &d)| a * d + x) }
/// index looked up in an operand of shape s: size-one axes read zero, surplus leading coordinates dropped
pub fn bidx(i: &[usize], s: &[usize]) -> Vec<usize> {
    let off = i.len() as isize - s.len() as isize;
    s.iter().enumerate().map(|(k, &d)| { let p = k as isize + off; if d == 1 || p < 0 { 0 } else { i[p as usize] } }).collect()
}
pub fn bshape(a: &[usize], b: &[usize]) -> Option<Vec<usize>> {
    let n = a.len().max(b.len());
    let mut r = vec![0; n];
    for k in 0..n {
        let x = if k < a.len() { Some(a[a.len() - 1 - k]) } else { None };
        let y = if k < b.len() { Some(b[b.len() - 1 - k]) } else { None };
        r[n - 1 - k] = match (x, y) {
            (Some(x), Some(y)) => if x == y || y == 1 { x } else if x == 1 { y } else { return None },
            (Some(x), None) => x,
            (None, Some(y)) => y,
            (None, None) => unreachable!(),
        };
    }
    Some(r)
}
impl<N: Draw> Ref<N> {
    pub fn new(s: Vec<usize>, e: Vec<N>) -> Ref<N> { assert_eq!(prod(&s), e.len()); Ref { s, e } }
    pub fn draw(r: &mut Rng, s: &[usize]) -> Ref<N> { let n = prod(s); Ref { s: s.to_vec(), e: (0..n).map(|_| N::draw(r)).collect() } }
    pub fn zeros(s: &[usize]) -> Ref<N> { Ref { s: s.to_vec(), e: vec![N::zero(); prod(s)] } }
    pub fn at(&self, i: &[usize]) -> N { self.e[flat(&bidx(i, &self.s), &self.s)] }
    pub fn map(&self, f: impl Fn(N) -> N) -> Ref<N> { Ref { s: self.s.clone(), e: self.e.iter().map(|&x| f(x)).collect() } }
    pub fn bin(&self, o: &Ref<N>, f: impl Fn(N, N) -> N) -> Option<Ref<N>> {
        let s = bshape(&self.s, &o.s)?;
        let e = indices(&s).iter().map(|i| f(self.at(i), o.at(i))).collect();
        Some(Ref { s, e })
    }
    /// sums of this (shaped like a broadcast result) over the elements an operand of shape s was broadcast to
    pub fn unbroadcast(&self, s: &[usize]) -> Ref<N> {
        let mut r = Ref::zeros(s);
        for (p, i) in indices(&self.s).iter().enumerate() { let q = flat(&bidx(i, s), s); r.e[q] = r.e[q] + self.e[p]; }
        r
    }
    pub fn window(&self, w: &[(usize, usize)]) -> Ref<N> {
        let s: Vec<usize> = w.iter().map(|(a, b)| b - a).collect();
        let e = indices(&s).iter().map(|i| { let j: Vec<usize> = i.iter().zip(w).map(|(&x, &(a, _))| x + a).collect(); self.e[flat(&j, &self.s)] }).collect();
        Ref { s, e }
    }
    /// rows over all batch entries, inner size, columns
    pub fn bmm(&self, o: &Ref<N>) -> Ref<N> {
        let (k, n) = (o.s[0], o.s[1]);
        let m = prod(&self.s[..self.s.len() - 1]);
        let mut e = Vec::with_capacity(m * n);
        for i in 0..m { for j in 0..n { let mut v = N::zero(); for c in 0..k { v = v + self.e[i * k + c] * o.e[c * n + j]; } e.push(v); } }
        let mut s = self.s.clone();
        *s.last_mut().unwrap() = n;
        Ref { s, e }
    }
    pub fn sum(&self) -> Ref<N> { let mut v = N::zero(); for &x in &self.e { v = v + x; } Ref { s: vec![], e: vec![v] } }
    pub fn dot(&self, o: &Ref<N>) -> Ref<N> { let mut v = N::zero(); for (&x, &y) in self.e.iter().zip(&o.e) { v = v + x * y; } Ref { s: vec![1], e: vec![v] } }
    pub fn same(&self, o: &Ref<N>) -> bool { self.s == o.s && self.e.len() == o.e.len() && self.e.iter().zip(&o.e).all(|(a, b)| N::same(a, b)) }
    pub fn brief(&self) -> String {
        if self.e.len() <= 12 { format!("shape {:?} elements {:?}", self.s, self.e) } else { format!("shape {:?} elements {:?}..({})", self.s, &self.e[..8], self.e.len()) }
    }
}
/// tolerance-based comparison for floating point results that may be reassociated
pub fn close(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || (x - y).abs() <= 1e-9 * (1.0 + x.abs().max(y.abs())) || (x.is_nan() && y.is_nan()))
}

// ------------------------------------------------------------------ what the crate shows
pub fn read<N: Draw, V: TensorLike<Elem = N>>(t: &V) -> Result<Ref<N>, String> {
    let s = t.shape().to_vec();
    let mut e = Vec::with_capacity(prod(&s));
    for i in indices(&s) {
        match t.get(&i) { Ok(&x) => e.push(x), Err(m) => return Err(format!("lookup of in-range index {i:?} in shape {s:?} failed: {}", &m[..m.len().min(120)])) }
    }
    Ok(Ref { s, e })
}
pub fn quiet<A>(f: impl FnOnce() -> A) -> Result<A, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        if let Some(s) = p.downcast_ref::<String>() { s.clone() } else if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else { "panic".into() }
    })
}
pub fn refused<A>(f: impl FnOnce() -> A) -> bool { quiet(|| { f(); }).is_err() }
/// stored gradient, if any
pub fn grad_of<N: Draw>(t: &RcTensor<N>) -> Option<Ref<N>> { quiet(|| read(&t.grad()).unwrap()).ok() }

// ------------------------------------------------------------------ generators
pub enum Src<N: Numeric> { Raw(RawTensor<N>), Rc(RcTensor<N>), View(TensorView<N>) }
#[macro_export]
macro_rules! w { ($s:expr, $t:ident => $e:expr) => { match $s { $crate::refm::Src::Raw($t) => $e, $crate::refm::Src::Rc($t) => $e, $crate::refm::Src::View($t) => $e } } }
impl<N: Draw> Src<N> {
    pub fn read(&self) -> Result<Ref<N>, String> { w!(self, t => read(t)) }
}
pub fn rc<N: Draw>(r: &Ref<N>) -> RcTensor<N> { RcTensor::new(r.e.clone(), r.s.clone()) }
pub fn raw<N: Draw>(r: &Ref<N>) -> RawTensor<N> { RawTensor::new(r.e.clone(), r.s.clone()) }
pub fn ranges(w: &[(usize, usize)]) -> Vec<SliceRange> { w.iter().map(|&(a, b)| SliceRange::new(a, b)).collect() }
/// a larger tensor, and the window of it that shows r
pub fn embed<N: Draw>(g: &mut Rng, r: &Ref<N>) -> (Ref<N>, Vec<(usize, usize)>) {
    let mut big = vec![];
    let mut win = vec![];
    // many axes: margins on a few of them only, so that the surrounding tensor stays small
    let mut room = if r.s.len() > 6 { 3 } else { usize::MAX };
    for &d in &r.s {
        let (a, b) = if room > 0 && (r.s.len() <= 6 || g.below(3) == 0) { room -= 1; (g.range(0, 2), g.range(0, 2)) } else { (0, 0) };
        big.push(a + d + b);
        win.push((a, a + d));
    }
    let mut t = Ref::<N>::draw(g, &big);
    for (p, i) in indices(&r.s).iter().enumerate() {
        let j: Vec<usize> = i.iter().zip(&win).map(|(&x, w)| x + w.0).collect();
        let q = flat(&j, &big);
        t.e[q] = r.e[p];
    }
    (t, win)
}
/// another shape with the same number of elements
pub fn reshape_of(g: &mut Rng, n: usize) -> Vec<usize> {
    if n == 0 { return match g.below(3) { 0 => vec![0], 1 => vec![0, 3], _ => vec![2, 0] }; }
    let mut rest = n;
    let mut s = vec![];
    while rest > 1 {
        let ds: Vec<usize> = (2..=rest).filter(|d| rest % d == 0).collect();
        let d = *g.pick(&ds);
        s.push(d);
        rest /= d;
    }
    for _ in 0..g.below(3) { let p = g.range(0, s.len()); s.insert(p, 1); }
    s
}
pub const KINDS: usize = 7;
/// something that shows exactly r, of the given kind
pub fn mk<N: Draw>(g: &mut Rng, r: &Ref<N>, kind: usize) -> (Src<N>, String) {
    match kind % KINDS {
        0 => (Src::Raw(raw(r)), format!("raw tensor {}", r.brief())),
        1 => (Src::Rc(rc(r)), format!("tensor {}", r.brief())),
        2 => { let w: Vec<_> = r.s.iter().map(|&d| (0, d)).collect(); (Src::View(rc(r).view(ranges(&w))), format!("full view of {}", r.brief())) }
        3 => { let (t, w) = embed(g, r); (Src::View(rc(&t).view(ranges(&w))), format!("window {w:?} of tensor of shape {:?} showing {}", t.s, r.brief())) }
        4 => {
            let s = reshape_of(g, r.e.len());
            let b = Ref { s: s.clone(), e: r.e.clone() };
            let (t, w) = embed(g, &b);
            (Src::View(rc(&t).view(ranges(&w)).reshape(r.s.clone())), format!("window {w:?} of shape {:?} reshaped, showing {}", t.s, r.brief()))
        }
        5 => { let (t, w) = embed(g, r); let (t2, w2) = embed(g, &t); (Src::View(rc(&t2).view(ranges(&w2)).slice(ranges(&w))), format!("slice {w:?} of window {w2:?} of shape {:?} showing {}", t2.s, r.brief())) }
        _ => {
            let (t, w) = embed(g, r);
            let s = reshape_of(g, t.e.len());
            let b = Ref { s: s.clone(), e: t.e.clone() };
            let full: Vec<_> = s.iter().map(|&d| (0, d)).collect();
            (Src::View(rc(&b).view(ranges(&full)).reshape(t.s.clone()).slice(ranges(&w))), format!("slice {w:?} of view of shape {s:?} reshaped to {:?}, showing {}", t.s, r.brief()))
        }
    }
}
pub fn mk_any<N: Draw>(g: &mut Rng, r: &Ref<N>) -> (Src<N>, String) { let k = g.range(0, KINDS - 1); mk(g, r, k) }

/// shapes tried first, in this order
pub fn sys_shapes() -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    let ds = [1usize, 2, 3];
    for a in [1, 2, 3, 5, 0] { v.push(vec![a]); }
    for a in ds { for b in ds { v.push(vec![a, b]); } }
    for a in ds { for b in ds { for c in ds { v.push(vec![a, b, c]); } } }
    for s in [vec![0, 2], vec![2, 0], vec![1, 0], vec![0, 1], vec![2, 0, 3], vec![0, 0], vec![1, 1, 1, 1], vec![2, 1, 2, 1], vec![1, 2, 1, 2], vec![2, 3, 2, 2], vec![3, 2, 1, 4], vec![2, 2, 2, 2, 2], vec![1, 3, 1, 2, 1],
        vec![31], vec![32], vec![33], vec![64], vec![65], vec![7, 9], vec![2, 33], vec![33, 2], vec![4, 5, 6], vec![1, 64], vec![64, 1], vec![2, 3, 4, 5], vec![1, 40, 1]] { v.push(s); }
    v
}
/// larger than any cut-off an implementation is likely to have
pub fn big_shapes() -> Vec<Vec<usize>> {
    vec![vec![2, 2, 2, 2, 2, 2], vec![1030], vec![1, 2, 1, 3, 1, 2, 1], vec![70, 70], vec![128, 3], vec![3, 130], vec![17, 257], vec![2, 1, 2, 1, 2, 1, 2, 3], vec![1, 300], vec![300, 1, 2], vec![10, 10, 10, 3], vec![4100], vec![2, 600], vec![65, 1, 65], vec![256], vec![8, 8, 8], vec![2, 2, 2, 2, 2, 2, 2, 2, 2], vec![2, 1, 1, 2, 1, 1, 1, 3, 1, 2], vec![1, 1, 1, 1, 1, 1, 1, 2, 1, 1, 1, 1, 1, 1, 3, 1, 1]]
}
pub fn rand_shape(g: &mut Rng, zero: bool) -> Vec<usize> {
    let r = match g.below(10) { 0 => 0, 1..=2 => 1, 3..=5 => 2, 6..=7 => 3, 8 => 4, _ => 5 };
    let big = g.below(10) == 0;
    (0..r).map(|_| if zero && g.below(25) == 0 { 0 } else if big && r <= 2 { g.range(1, 40) } else { match g.below(6) { 0 | 1 => 1, 2 => 2, 3 => 3, 4 => 4, _ => g.range(1, 6) } }).collect()
}
/// a shape that broadcasts with s
pub fn compat_shape(g: &mut Rng, s: &[usize]) -> (Vec<usize>, Vec<usize>) {
    let mut a = s.to_vec();
    let mut b = s.to_vec();
    for k in 0..s.len() { match g.below(5) { 0 => a[k] = 1, 1 => b[k] = 1, _ => {} } }
    let cut = |g: &mut Rng, v: Vec<usize>| if g.below(3) == 0 { let n = g.range(0, v.len()); v[n..].to_vec() } else { v };
    if g.coin() { (cut(g, a), b) } else { let bb = cut(g, b); (a, bb) }
}
pub fn _unused() -> bool { Fp::zero() == Fp::one() }
