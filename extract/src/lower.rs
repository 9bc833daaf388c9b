//! Lowers one function body to the Verus dialect. Every rule is syntactic and general; the list
//! of rules and what each of them drops is in /verif/DESIGN.md (section "Extraction").
use crate::contracts::Contract;
use crate::model::*;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Shared<'a> {
    pub model: &'a Model,
    pub contracts: &'a BTreeMap<String, Contract>,
    pub heap_fns: BTreeSet<String>, // plain names of functions that take the gradient token
    pub jvp_variants: BTreeMap<String, String>, // variant -> fn key
    pub act_variants: BTreeMap<String, String>,
    pub lifted: Vec<FnInfo>,
}

#[derive(Clone)]
pub enum Item_ {
    Val(Expr),
    RefPlace(Expr),
    MutPlace(Expr),
    Tuple(Vec<Item_>),
}
type At = Rc<dyn Fn(&Expr) -> Item_>;
#[derive(Clone)]
enum Cur {
    Idx { len: Expr, at: At },
    Leaf { it: Ident, ty: Option<Type> },
    Zip(Box<Cur>, Box<Cur>),
    Map(Box<Cur>, Expr),
    Enum(Box<Cur>, Ident),
    Flat(Box<Cur>, Expr),
}

pub struct Lower<'a, 'b> {
    pub sh: &'b mut Shared<'a>,
    pub fi: FnInfo,
    pub contract: Contract,
    pub heap: bool,
    pub loops: usize,
    pub tmp: usize,
    pub scopes: Vec<HashMap<String, Option<Type>>>,
    pub closures: HashMap<String, ExprClosure>,
    pub guards: Vec<Vec<(String, Expr)>>,
    pub rscopes: BTreeSet<String>,
    pub effects: Vec<String>,
    pub unsupported: Vec<String>,
    pub locals: Vec<String>,
    pub calls: Vec<(String, usize)>,
    pub call_count: HashMap<String, usize>,
    pub called: BTreeSet<String>,
    pub clo_count: usize,
    pub lift_count: usize,
    pub clo_specs: BTreeMap<usize, String>,
    pub kinds: Vec<String>,
    pub extra: std::cell::RefCell<Vec<HashMap<String, Option<Type>>>>,
    pub regions: HashMap<String, String>,
    pub region_names: BTreeSet<String>,
    pub aliases: HashMap<String, String>,          // let a = &mut b;
    pub writers: HashMap<String, (Expr, FnInfo)>,  // let w = x.f(); with f returning a closure
    pub wbase: HashMap<String, String>,            // values that hold slices of a local vector
    pub rdepth: usize,
    pub inlining: Vec<String>,
    pub accs: Vec<String>,                         // accumulators of iterator terminals, in order
    pub muts: Vec<String>,                         // locals declared `mut`, in order
    pub inits: Vec<(usize, usize, String, String)>, // loops a..b lie in the initialiser of local n and fill accumulator c
}

fn id(s: &str) -> Ident {
    format_ident(s)
}
fn strip(t: &Type) -> Type {
    match t {
        Type::Reference(r) => strip(&r.elem),
        _ => t.clone(),
    }
}
fn is_ref(t: &Type) -> bool {
    matches!(t, Type::Reference(_))
}
fn head(t: &Type) -> String {
    if let Type::Path(p) = t {
        p.path.segments.last().unwrap().ident.to_string()
    } else {
        String::new()
    }
}
fn arg0(t: &Type) -> Option<Type> {
    if let Type::Path(p) = t {
        if let PathArguments::AngleBracketed(a) = &p.path.segments.last()?.arguments {
            for x in &a.args {
                if let GenericArgument::Type(t) = x {
                    return Some(t.clone());
                }
            }
        }
    }
    None
}
fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        _ => e,
    }
}
fn ident_of(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = unparen(e) {
        p.path.get_ident().map(|i| i.to_string())
    } else {
        None
    }
}
fn is_place(e: &Expr) -> bool {
    match unparen(e) {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => is_place(&f.base),
        _ => false,
    }
}
const TENSORS: [&str; 3] = ["RcTensor", "RawTensor", "TensorView"];

struct RenId<'a>(&'a str, &'a str);
impl<'a> VisitMut for RenId<'a> {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == self.0 {
            *i = Ident::new(self.1, i.span());
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        fn go(ts: proc_macro2::TokenStream, a: &str, b: &str) -> proc_macro2::TokenStream {
            use proc_macro2::{Group, TokenTree};
            ts.into_iter()
                .map(|t| match t {
                    TokenTree::Ident(i) if i == a => TokenTree::Ident(Ident::new(b, i.span())),
                    TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), go(g.stream(), a, b))),
                    t => t,
                })
                .collect()
        }
        m.tokens = go(m.tokens.clone(), self.0, self.1);
    }
}
struct Subst {
    name: String,
    place: Expr,
    bad: bool,
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if matches!(u.op, UnOp::Deref(_)) && ident_of(&u.expr).as_deref() == Some(&self.name) {
                *e = self.place.clone();
                return;
            }
        }
        // auto-deref: a method call or a field of the item is one of the place
        let base = match e {
            Expr::MethodCall(m) => Some(&mut m.receiver),
            Expr::Field(f) => Some(&mut f.base),
            Expr::Index(i) => Some(&mut i.expr),
            _ => None,
        };
        if let Some(b) = base {
            if ident_of(b).as_deref() == Some(&self.name) {
                **b = self.place.clone();
            }
        }
        if ident_of(e).as_deref() == Some(&self.name) {
            self.bad = true;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl<'a, 'b> Lower<'a, 'b> {
    pub fn new(sh: &'b mut Shared<'a>, fi: FnInfo, contract: Contract, heap: bool) -> Self {
        Lower {
            sh,
            fi,
            contract,
            heap,
            loops: 0,
            tmp: 0,
            scopes: vec![HashMap::new()],
            closures: HashMap::new(),
            guards: vec![],
            rscopes: BTreeSet::new(),
            effects: vec![],
            unsupported: vec![],
            locals: vec![],
            calls: vec![],
            call_count: HashMap::new(),
            called: BTreeSet::new(),
            clo_count: 0,
            lift_count: 0,
            clo_specs: BTreeMap::new(),
            kinds: vec![],
            extra: Default::default(),
            regions: HashMap::new(),
            region_names: BTreeSet::new(),
            aliases: HashMap::new(),
            writers: HashMap::new(),
            wbase: HashMap::new(),
            rdepth: 0,
            inlining: vec![],
            accs: vec![],
            muts: vec![],
            inits: vec![],
        }
    }
    fn bad(&mut self, what: &str) {
        self.unsupported.push(what.to_string());
    }
    fn fresh(&mut self, p: &str) -> Ident {
        self.tmp += 1;
        id(&format!("vx_{p}{}", self.tmp - 1))
    }
    fn bind(&mut self, n: &str, t: Option<Type>) {
        self.locals.push(n.to_string());
        self.scopes.last_mut().unwrap().insert(n.to_string(), t);
    }
    fn var(&self, n: &str) -> Option<Option<Type>> {
        for s in self.extra.borrow().iter().rev() {
            if let Some(t) = s.get(n) {
                return Some(t.clone());
            }
        }
        for s in self.scopes.iter().rev() {
            if let Some(t) = s.get(n) {
                return Some(t.clone());
            }
        }
        None
    }
    fn tyctx<R>(&self, f: impl FnOnce(&TyCtx) -> R) -> R {
        let c = TyCtx { gmap: &self.fi.gmap, self_ty: self.fi.self_ty.as_ref(), assoc: &self.fi.assoc };
        f(&c)
    }
    fn lty(&self, t: &Type) -> Type {
        self.tyctx(|c| lower_type(t, c))
    }

    // ---------------------------------------------------------------- types
    pub fn find_method(&self, t: &Type, m: &str) -> Option<FnInfo> {
        let h = head(t);
        let mut cands: Vec<&FnInfo> = self
            .sh
            .model
            .fns
            .values()
            .filter(|f| f.sig.ident == m && f.self_ty.as_ref().map_or(false, |s| head(&strip(s)) == h))
            .collect();
        cands.sort_by_key(|f| (f.self_mut && f.trait_name.is_none(), f.trait_name.is_some(), f.line));
        if let Some(f) = cands.first() {
            return Some((*f).clone());
        }
        if let Some(f) = self.sh.model.fns.get(&format!("TensorLike::{m}")) {
            return Some(f.clone());
        }
        if h == "RcTensor" {
            return self.find_method(&ty("RawTensor"), m);
        }
        if h == "Arc" {
            return self.find_method(&arg0(t)?, m);
        }
        if self.fi.gmap.iter().any(|g| g.0 == h && matches!(g.1, GKind::Keep)) {
            return self
                .sh
                .model
                .fns
                .values()
                .find(|f| {
                    f.sig.ident == m
                        && f.trait_name.as_deref() == Some("TensorLike")
                        && f.self_ty.as_ref().map(head).as_deref() == Some("RawTensor")
                })
                .cloned();
        }
        if self.fi.gmap.iter().any(|g| g.0 == h && matches!(g.1, GKind::ModuleLike)) {
            return self.sh.model.fns.values().find(|f| f.sig.ident == m && f.trait_name.as_deref() == Some("Module")).cloned();
        }
        None
    }
    fn field_ty(&self, t: &Type, f: &str) -> Option<Type> {
        let t = strip(t);
        let h = head(&t);
        if h == "Arc" {
            return self.field_ty(&arg0(&t)?, f);
        }
        if let Some(s) = self.sh.model.structs.get(&h) {
            if let Some(x) = s.fields.iter().find(|x| x.0 == f) {
                return Some(x.1.clone());
            }
        }
        if h == "RcTensor" {
            return self.field_ty(&ty("RawTensor"), f);
        }
        if let Type::Tuple(tt) = &t {
            return tt.elems.iter().nth(f.parse().ok()?).cloned();
        }
        None
    }
    pub fn infer(&self, e: &Expr) -> Option<Type> {
        match e {
            Expr::Paren(p) => self.infer(&p.expr),
            Expr::Group(p) => self.infer(&p.expr),
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    return self.var(&i.to_string()).flatten();
                }
                None
            }
            Expr::Reference(r) => {
                let t = self.infer(&r.expr)?;
                if r.mutability.is_some() {
                    Some(parse_quote!(&mut #t))
                } else {
                    Some(parse_quote!(& #t))
                }
            }
            Expr::Unary(u) => match u.op {
                UnOp::Deref(_) => {
                    let t = self.infer(&u.expr)?;
                    match &t {
                        Type::Reference(r) => Some((*r.elem).clone()),
                        t if head(t) == "RcTensor" => Some(ty("RawTensor")),
                        t if head(t) == "Arc" => arg0(t),
                        _ => Some(t),
                    }
                }
                UnOp::Not(_) => Some(ty("bool")),
                _ => self.infer(&u.expr),
            },
            Expr::Lit(l) => match &l.lit {
                Lit::Int(_) => Some(ty("usize")),
                Lit::Bool(_) => Some(ty("bool")),
                _ => None,
            },
            Expr::Field(f) => {
                let b = self.infer(&f.base)?;
                let n = match &f.member {
                    Member::Named(i) => i.to_string(),
                    Member::Unnamed(i) => i.index.to_string(),
                };
                self.field_ty(&b, &n)
            }
            Expr::Index(i) => {
                let b = strip(&self.infer(&i.expr)?);
                if matches!(unparen(&i.index), Expr::Range(_)) {
                    return Some(b);
                }
                if head(&b) == "Vec" {
                    arg0(&b)
                } else if head(&b) == "Arc" && arg0(&b).map(|t| head(&t)).as_deref() == Some("Vec") {
                    arg0(&arg0(&b)?)
                } else {
                    Some(ty("T"))
                }
            }
            Expr::Binary(b) => {
                use BinOp::*;
                match b.op {
                    Eq(_) | Ne(_) | Lt(_) | Le(_) | Gt(_) | Ge(_) | And(_) | Or(_) => Some(ty("bool")),
                    _ => {
                        let l = self.infer(&b.left).map(|t| strip(&t));
                        let r = self.infer(&b.right).map(|t| strip(&t));
                        l.or(r)
                    }
                }
            }
            Expr::Macro(m) => {
                if m.mac.path.is_ident("vec") {
                    let first = parse_vec(&m.mac)?;
                    let t = match first {
                        VecLit::List(l) => l.first().and_then(|e| self.infer(e)),
                        VecLit::Rep(e, _) => self.infer(&e),
                    };
                    return t.map(|t| parse_quote!(Vec<#t>)).or(None);
                }
                if m.mac.path.is_ident("format") {
                    return Some(ty("String"));
                }
                None
            }
            Expr::Tuple(t) => {
                let ts: Option<Vec<Type>> = t.elems.iter().map(|e| self.infer(e)).collect();
                let ts = ts?;
                Some(parse_quote!((#(#ts),*)))
            }
            Expr::Struct(s) => Some(ty(&s.path.segments.last()?.ident.to_string()).clone()).map(|t| self.lty(&t)),
            Expr::If(i) => {
                let t = i.then_branch.stmts.last();
                if let Some(Stmt::Expr(e, None)) = t {
                    self.infer(e)
                } else {
                    None
                }
            }
            Expr::Block(b) => {
                if let Some(Stmt::Expr(e, None)) = b.block.stmts.last() {
                    self.infer(e)
                } else {
                    None
                }
            }
            Expr::Try(t) => arg0(&self.infer(&t.expr)?),
            Expr::Call(c) => {
                if let Expr::Field(_) = unparen(&c.func) {
                    return match head(&self.infer(&c.func)?).as_str() {
                        "JvpFn" => Some(ty("Vec<RcTensor>")),
                        "ActFn" => Some(ty("RcTensor")),
                        _ => None,
                    };
                }
                let (f, _) = self.resolve(&c.func)?;
                f.ret.clone()
            }
            Expr::MethodCall(m) => self.infer_method(m),
            Expr::Match(m) => {
                let t = self.infer(&m.expr);
                for a in &m.arms {
                    let mut env = HashMap::new();
                    if let (Pat::TupleStruct(ts), Some(t)) = (&a.pat, &t) {
                        if ts.path.is_ident("Some") || ts.path.is_ident("Ok") {
                            let i = arg0(&strip(t)).map(|i| if is_ref(t) { parse_quote!(&#i) } else { i });
                            ts.elems.iter().for_each(|p| self.extra_pat(p, i.clone(), &mut env));
                        }
                    }
                    self.extra.borrow_mut().push(env);
                    let r = match unparen(&a.body) {
                        // Some(x) / Ok(x)
                        Expr::Call(c) if ident_of(&c.func).map_or(false, |n| n == "Some") => self.infer(&c.args[0]).map(|t| parse_quote!(Option<#t>)),
                        b => self.infer(b),
                    };
                    self.extra.borrow_mut().pop();
                    if r.is_some() {
                        return r;
                    }
                }
                None
            }
            _ => None,
        }
    }
    /// bind the names of a closure parameter pattern for inference only
    fn extra_pat(&self, p: &Pat, t: Option<Type>, env: &mut HashMap<String, Option<Type>>) {
        match p {
            Pat::Ident(pi) => {
                env.insert(pi.ident.to_string(), t);
            }
            Pat::Reference(r) => {
                let t = t.map(|t| match t { Type::Reference(r) => *r.elem, t => t });
                self.extra_pat(&r.pat, t, env)
            }
            Pat::Tuple(tt) => {
                let ts: Vec<Option<Type>> = match &t {
                    Some(Type::Tuple(x)) if x.elems.len() == tt.elems.len() => x.elems.iter().cloned().map(Some).collect(),
                    _ => tt.elems.iter().map(|_| None).collect(),
                };
                for (p, t) in tt.elems.iter().zip(ts) {
                    self.extra_pat(p, t, env)
                }
            }
            Pat::Type(pt) => {
                let t = self.lty(&pt.ty);
                self.extra_pat(&pt.pat, Some(t), env)
            }
            Pat::Paren(p) => self.extra_pat(&p.pat, t, env),
            _ => {}
        }
    }
    /// type of the items of an iterator expression
    fn iter_item(&self, e: &Expr) -> Option<Type> {
        match unparen(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" | "iter_mut" => {
                        let t = strip(&self.infer(&m.receiver)?);
                        if head(&t) != "Vec" {
                            return None;
                        }
                        let a = arg0(&t)?;
                        Some(if n == "iter" { parse_quote!(&#a) } else { parse_quote!(&mut #a) })
                    }
                    "into_iter" => {
                        if let Some(t) = self.infer(&m.receiver) {
                            if head(&strip(&t)) == "Vec" {
                                let a = arg0(&strip(&t))?;
                                return Some(if is_ref(&t) { parse_quote!(&#a) } else { a });
                            }
                        }
                        self.iter_item(&m.receiver)
                    }
                    "rev" | "skip" | "take" | "filter" => self.iter_item(&m.receiver),
                    "cloned" | "copied" => Some(strip(&self.iter_item(&m.receiver)?)),
                    "enumerate" => {
                        let a = self.iter_item(&m.receiver)?;
                        Some(parse_quote!((usize, #a)))
                    }
                    "zip" => {
                        let a = self.iter_item(&m.receiver)?;
                        let b = self.iter_item(&m.args[0])?;
                        Some(parse_quote!((#a, #b)))
                    }
                    "map" => {
                        let a = self.iter_item(&m.receiver);
                        match unparen(&m.args[0]) {
                            Expr::Closure(c) => {
                                let mut env = HashMap::new();
                                self.extra_pat(c.inputs.first()?, a, &mut env);
                                self.extra.borrow_mut().push(env);
                                let r = self.infer(&c.body);
                                self.extra.borrow_mut().pop();
                                r
                            }
                            f => self.resolve(f)?.0.ret.clone(),
                        }
                    }
                    _ => Self::item_ty(&self.infer(e).map(|t| strip(&t))),
                }
            }
            Expr::Range(_) => Some(ty("usize")),
            e => {
                let t = self.infer(e)?;
                if head(&strip(&t)) == "Vec" {
                    let a = arg0(&strip(&t))?;
                    return Some(if is_ref(&t) { parse_quote!(&#a) } else { a });
                }
                Self::item_ty(&Some(strip(&t)))
            }
        }
    }
    /// The combinators of Option and Result as the `match` they are defined to be.
    fn combinator(&self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        if !["map", "and_then", "map_or", "map_or_else", "unwrap_or", "unwrap_or_else", "ok_or", "ok_or_else", "map_err", "is_some_and", "is_ok_and", "is_none_or", "or_else"].contains(&name.as_str()) {
            return None;
        }
        let opt = match head(&self.infer(&m.receiver)?).as_str() {
            "Option" => true,
            "Result" => false,
            _ => return None,
        };
        let x = &m.receiver;
        // pattern and value of a function argument
        let app = |f: &Expr, bad: bool| -> Option<(Pat, Expr)> {
            match unparen(f) {
                Expr::Closure(c) if c.inputs.len() == 1 => {
                    if c.body.to_token_stream().to_string().contains("return") {
                        return None;
                    }
                    let p = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                    Some((p, (*c.body).clone()))
                }
                Expr::Path(p) => {
                    let v = id(if bad { "vx_e" } else { "vx_v" });
                    Some((parse_quote!(#v), parse_quote!(#p(#v))))
                }
                _ => None,
            }
        };
        let none = |f: &Expr| -> Option<(Pat, Expr)> {
            match unparen(f) {
                Expr::Closure(c) if c.inputs.is_empty() && opt => Some((parse_quote!(None), (*c.body).clone())),
                f if !opt => {
                    let (p, e) = app(f, true)?;
                    Some((parse_quote!(Err(#p)), e))
                }
                _ => None,
            }
        };
        let plain = |e: &Expr| matches!(unparen(e), Expr::Lit(_) | Expr::Path(_) | Expr::Closure(_));
        let some: Ident = id(if opt { "Some" } else { "Ok" });
        let miss: Arm = if opt { parse_quote!(None => None,) } else { parse_quote!(Err(vx_e) => Err(vx_e),) };
        let missp: Pat = if opt { parse_quote!(None) } else { parse_quote!(Err(_)) };
        let n = m.args.len();
        Some(match (name.as_str(), n) {
            ("map", 1) => {
                let (p, e) = app(&m.args[0], false)?;
                parse_quote!(match #x { #some(#p) => #some(#e), #miss })
            }
            ("and_then", 1) => {
                let (p, e) = app(&m.args[0], false)?;
                parse_quote!(match #x { #some(#p) => #e, #miss })
            }
            ("map_or", 2) if plain(&m.args[0]) => {
                let (p, e) = app(&m.args[1], false)?;
                let d = &m.args[0];
                parse_quote!(match #x { #some(#p) => #e, #missp => #d })
            }
            ("map_or_else", 2) => {
                let (p, e) = app(&m.args[1], false)?;
                let (q, d) = none(&m.args[0])?;
                parse_quote!(match #x { #some(#p) => #e, #q => #d })
            }
            ("unwrap_or", 1) if plain(&m.args[0]) => {
                let d = &m.args[0];
                parse_quote!(match #x { #some(vx_v) => vx_v, #missp => #d })
            }
            ("unwrap_or_else", 1) => {
                let (q, d) = none(&m.args[0])?;
                parse_quote!(match #x { #some(vx_v) => vx_v, #q => #d })
            }
            ("or_else", 1) => {
                let (q, d) = none(&m.args[0])?;
                parse_quote!(match #x { #some(vx_v) => #some(vx_v), #q => #d })
            }
            ("ok_or", 1) if opt => {
                let d = &m.args[0];
                parse_quote!(match #x { Some(vx_v) => Ok(vx_v), None => Err(#d) })
            }
            ("ok_or_else", 1) if opt => {
                let (q, d) = none(&m.args[0])?;
                parse_quote!(match #x { Some(vx_v) => Ok(vx_v), #q => Err(#d) })
            }
            ("map_err", 1) if !opt => {
                let (q, d) = none(&m.args[0])?;
                parse_quote!(match #x { Ok(vx_v) => Ok(vx_v), #q => Err(#d) })
            }
            ("is_some_and", 1) | ("is_ok_and", 1) => {
                let (p, e) = app(&m.args[0], false)?;
                parse_quote!(match #x { #some(#p) => #e, #missp => false })
            }
            ("is_none_or", 1) if opt => {
                let (p, e) = app(&m.args[0], false)?;
                parse_quote!(match #x { Some(#p) => #e, None => true })
            }
            _ => return None,
        })
    }
    fn infer_method(&self, m: &ExprMethodCall) -> Option<Type> {
        let name = m.method.to_string();
        if let Some(e) = self.combinator(m) {
            if let Some(t) = self.infer(&e) {
                return Some(t);
            }
        }
        match name.as_str() {
            "collect" => {
                if let Expr::MethodCall(m2) = unparen(&m.receiver) {
                    if m2.method == "chunks_mut" && self.infer(&m2.receiver).map(|t| head(&strip(&t))).as_deref() == Some("VxRange") {
                        return Some(ty("Vec<VxRange>"));
                    }
                }
                let a = self.iter_item(&m.receiver)?;
                return Some(parse_quote!(Vec<#a>));
            }
            "unzip" => {
                let a = self.iter_item(&m.receiver)?;
                if let Type::Tuple(t) = a {
                    let (x, y) = (&t.elems[0], &t.elems[1]);
                    return Some(parse_quote!((Vec<#x>, Vec<#y>)));
                }
                return None;
            }
            "fold" => return self.infer(&m.args[0]),
            _ => {}
        }
        let rt = self.infer(&m.receiver);
        match name.as_str() {
            "len" | "product" => return Some(ty("usize")),
            "is_empty" | "contains" | "is_some" | "is_none" | "all" | "any" => return Some(ty("bool")),
            _ => {}
        }
        let rt = rt?;
        let r = strip(&rt);
        match name.as_str() {
            "clone" => return Some(r),
            "to_vec" => return Some(r),
            "as_ref" => {
                let a = arg0(&r)?;
                return Some(parse_quote!(Option<&#a>));
            }
            "unwrap" | "expect" if ["Option", "Result"].contains(&head(&r).as_str()) => return arg0(&r),
            "unwrap" if head(&r) == "GradGuard" => return Some(ty("GradGuard")),
            "deref" => {
                return match head(&r).as_str() {
                    "Arc" => arg0(&r).map(|a| parse_quote!(&#a)),
                    "RcTensor" if !self.erased(&m.receiver) => Some(ty("&RawTensor")),
                    _ => Some(parse_quote!(&#r)),
                }
            }
            "get" | "first" | "last" if head(&r) == "Vec" && !m.args.iter().any(|a| matches!(unparen(a), Expr::Range(_))) => return arg0(&r).map(|a| parse_quote!(Option<&#a>)),
            "pop" if head(&r) == "Vec" => return arg0(&r).map(|a| parse_quote!(Option<#a>)),
            "next" if ["VecIter", "VecRevIter"].contains(&head(&r).as_str()) => return arg0(&r).map(|a| parse_quote!(Option<#a>)),
            "remove" | "swap_remove" if head(&r) == "Vec" => return arg0(&r),
            "neg" if head(&r) == "T" => return Some(ty("T")),
            "tanh" | "abs" | "powi" if head(&r) == "T" => return Some(ty("T")),
            "read" | "write" if head(&r) == "GradCell" => return Some(ty("GradGuard")),
            _ => {}
        }
        let f = self.find_method(&r, &name)?;
        f.ret.clone()
    }
    /// was this expression the name of a smart-pointer generic parameter?
    fn erased(&self, e: &Expr) -> bool {
        if let Some(n) = ident_of(e) {
            return self.fi.params.iter().any(|p| p.0 == n && p.2);
        }
        false
    }
    fn resolve(&self, f: &Expr) -> Option<(FnInfo, bool)> {
        if let Expr::Path(p) = unparen(f) {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let n = segs.last()?.clone();
            if segs.len() == 1 {
                if self.var(&n).is_some() {
                    return None;
                }
                return self.sh.model.fns.get(&n).map(|f| (f.clone(), false));
            }
            let tyname = segs[segs.len() - 2].clone();
            let t = self.lty(&ty(&tyname));
            let h = head(&strip(&t));
            if self.sh.model.structs.contains_key(&h) {
                if let Some(f) = self.sh.model.fns.get(&format!("{h}::{n}")) {
                    return Some((f.clone(), true));
                }
                let c: Vec<&FnInfo> = self
                    .sh
                    .model
                    .fns
                    .values()
                    .filter(|f| f.sig.ident == n && f.self_ty.as_ref().map_or(false, |s| head(&strip(s)) == h))
                    .collect();
                return c.first().map(|f| ((*f).clone(), true));
            }
            if p.qself.is_none() {
                return self.sh.model.fns.get(&n).map(|f| (f.clone(), false));
            }
        }
        None
    }

    // ---------------------------------------------------------------- hints
    fn hint(&self, name: &str) -> Vec<Stmt> {
        if self.contract.hints.contains_key(name) {
            let n = name.replace(' ', "_").replace('#', "_n");
            let i = id(&format!("H_{}", n.replace(|c: char| !c.is_alphanumeric() && c != '_', "_")));
            vec![parse_quote!(__vx_hint!(#i);)]
        } else {
            vec![]
        }
    }
    fn note_call(&mut self, n: &str) {
        let c = self.call_count.entry(n.to_string()).or_insert(0);
        let k = *c;
        *c += 1;
        self.calls.push((n.to_string(), k));
    }

    // ---------------------------------------------------------------- blocks
    pub fn lower_fn(&mut self) -> Block {
        let fi = self.fi.clone();
        if let Some(st) = &fi.self_ty {
            if fi.has_self {
                let st = if fi.self_by_ref && !is_ref(st) {
                    if fi.self_mut { parse_quote!(&mut #st) } else { parse_quote!(& #st) }
                } else {
                    st.clone()
                };
                self.scopes[0].insert("self".into(), Some(st));
            }
        }
        let mut pre: Vec<Stmt> = vec![];
        let typed: Vec<&PatType> = fi
            .sig
            .inputs
            .iter()
            .filter_map(|a| if let FnArg::Typed(t) = a { Some(t) } else { None })
            .filter(|t| !matches!(&*t.pat, Pat::Ident(pi) if fi.scopes.contains(&pi.ident.to_string())))
            .collect();
        for s in &fi.scopes {
            self.rscopes.insert(s.clone());
        }
        if !fi.scopes.is_empty() {
            self.rdepth += 1;
        }
        if self.contract.chanroot {
            pre.push(parse_quote!(__vx_chanroot!();));
        }
        for (i, (n, t, _)) in fi.params.iter().enumerate() {
            let mut t2 = t.clone();
            let pn = id(n);
            if let Some(pt) = typed.get(i) {
                match &*pt.pat {
                    Pat::Reference(_) => {
                        t2 = match t { Type::Reference(r) => (*r.elem).clone(), _ => t.clone() };
                        pre.push(parse_quote!(let #pn = *#pn;));
                    }
                    Pat::Ident(pi) if pi.mutability.is_some() => {
                        pre.push(parse_quote!(let mut #pn = #pn;));
                    }
                    Pat::Ident(_) | Pat::Wild(_) => {}
                    _ => self.bad("parameter pattern"),
                }
            }
            self.scopes[0].insert(n.clone(), Some(t2));
        }
        let mut block = crate::inline::split_or(&crate::inline::while_let_loops(&crate::inline::tail_loops(&fi.block.clone().unwrap())));
        if fi.has_self && !fi.self_by_ref && fi.self_mut {
            // `mut self`: a named local
            pre.push(parse_quote!(let mut vx_self = self;));
            RenId("self", "vx_self").visit_block_mut(&mut block);
            let t = self.scopes[0].get("self").cloned().flatten();
            self.scopes[0].insert("vx_self".into(), t);
        }
        self.region_names = region_scan(&block);
        let mut b = self.lower_block_exp(&block, fi.ret.clone(), true);
        let mut stmts = pre;
        stmts.extend(self.hint("start"));
        stmts.extend(std::mem::take(&mut b.stmts));
        b.stmts = stmts;
        b
    }
    fn lower_block(&mut self, b: &Block) -> Block {
        self.lower_block_exp(b, None, false)
    }
    fn lower_block_exp(&mut self, b: &Block, exp: Option<Type>, fn_level: bool) -> Block {
        self.scopes.push(HashMap::new());
        self.guards.push(vec![]);
        let mut out: Vec<Stmt> = vec![];
        let n = b.stmts.len();
        for (k, s) in b.stmts.iter().enumerate() {
            let start = self.calls.len();
            let last = k + 1 == n;
            let mut ss = if last {
                match s {
                    Stmt::Expr(e, None) => {
                        let l = self.lower_tail(e, exp.clone());
                        match l {
                            Expr::Block(eb) if eb.label.is_none() && eb.attrs.is_empty() && matches!(unparen(e), Expr::Call(_)) && !fn_level && false => eb.block.stmts,
                            l => vec![Stmt::Expr(l, None)],
                        }
                    }
                    s => self.lower_stmt(s),
                }
            } else {
                self.lower_stmt(s)
            };
            let mine: Vec<(String, usize)> = self.calls.drain(start..).collect();
            let mut befores = vec![];
            let mut afters = vec![];
            for (c, i) in &mine {
                befores.extend(self.hint(&format!("before {c}#{i}")));
                afters.extend(self.hint(&format!("after {c}#{i}")));
            }
            if !afters.is_empty() && matches!(ss.last(), Some(Stmt::Expr(_, None))) && last {
                // bind the tail so that the hint can follow it
                if let Some(Stmt::Expr(e, None)) = ss.pop() {
                    ss.push(parse_quote!(let vx_tail = #e;));
                    afters.push(Stmt::Expr(parse_quote!(vx_tail), None));
                }
            }
            out.extend(befores);
            out.extend(ss);
            out.extend(afters);
        }
        let gs = self.guards.pop().unwrap();
        let tail_bind = (fn_level && (self.contract.hints.contains_key("end"))) || !gs.is_empty();
        if tail_bind {
            let has_tail = matches!(out.last(), Some(Stmt::Expr(_, None)));
            let tail = if has_tail { out.pop() } else { None };
            if let Some(Stmt::Expr(e, None)) = tail {
                let is_unit = fn_level && self.fi.ret.is_none();
                if is_unit {
                    out.push(parse_quote!(#e;));
                } else {
                    out.push(parse_quote!(let vx_ret = #e;));
                }
                self.release(&gs, &mut out);
                if fn_level {
                    out.extend(self.hint("end"));
                }
                if !is_unit {
                    out.push(Stmt::Expr(parse_quote!(vx_ret), None));
                }
            } else {
                self.release(&gs, &mut out);
                if fn_level {
                    out.extend(self.hint("end"));
                }
            }
        }
        self.scopes.pop();
        Block { brace_token: Default::default(), stmts: out }
    }
    fn release(&mut self, gs: &[(String, Expr)], out: &mut Vec<Stmt>) {
        for (g, cell) in gs.iter().rev() {
            let gi = id(g);
            out.push(parse_quote!(#cell.release(#gi, Tracked(vx_h));));
        }
    }
    fn lower_tail(&mut self, e: &Expr, exp: Option<Type>) -> Expr {
        self.lower_e(e, exp)
    }

    fn lower_stmt(&mut self, s: &Stmt) -> Vec<Stmt> {
        match s {
            Stmt::Local(l) => self.lower_local(l),
            Stmt::Item(_) => vec![],
            Stmt::Macro(m) => self.lower_macro_stmt(&m.mac),
            Stmt::Expr(Expr::Macro(m), _) => self.lower_macro_stmt(&m.mac),
            Stmt::Expr(e, semi) => {
                // explicit drop of a lock guard
                if let Expr::Call(c) = e {
                    if let Expr::Path(p) = &*c.func {
                        if p.path.segments.last().unwrap().ident == "drop" && c.args.len() == 1 {
                            if let Some(n) = ident_of(&c.args[0]) {
                                for k in 0..self.guards.len() {
                                    if let Some(i) = self.guards[k].iter().position(|g| g.0 == n) {
                                        let g = self.guards[k].remove(i);
                                        let mut out = vec![];
                                        self.release(&[g], &mut out);
                                        return out;
                                    }
                                }
                            }
                            return vec![];
                        }
                    }
                }
                if let Some(v) = self.lower_assign_stmt(e) {
                    return v;
                }
                match e {
                    Expr::ForLoop(f) => return self.lower_for(f),
                    Expr::MethodCall(m) if m.method == "for_each" => {
                        if let Some(v) = self.lower_for_each(m) {
                            return v;
                        }
                    }
                    _ => {}
                }
                let l = self.lower_e(e, None);
                // the body of an inlined helper joins the statements around it when no name of it can be
                // confused with one of theirs, so that what a hint in it introduces stays known
                if let (Expr::Call(_) | Expr::MethodCall(_), Expr::Block(b)) = (e, &l) {
                    let clash = |s: &Stmt| match s {
                        Stmt::Local(l) => match (&l.pat, &l.init) {
                            (Pat::Ident(p), i) => {
                                let n = p.ident.to_string();
                                let same = i.as_ref().map_or(false, |i| ident_of(&i.expr).as_deref() == Some(n.as_str()));
                                !same && self.scopes.iter().any(|s| s.contains_key(&n))
                            }
                            _ => true,
                        },
                        _ => false,
                    };
                    let open = !matches!(b.block.stmts.last(), Some(Stmt::Expr(_, None)));
                    if open && b.label.is_none() && b.attrs.is_empty() && !b.block.stmts.iter().any(clash) {
                        return b.block.stmts.clone();
                    }
                }
                let semi = match &l {
                    Expr::If(_) | Expr::While(_) | Expr::Loop(_) | Expr::Block(_) | Expr::Match(_) => *semi,
                    _ => Some(semi.unwrap_or_default()),
                };
                vec![Stmt::Expr(l, semi)]
            }
        }
    }
    fn deref_operand(&mut self, e: &Expr) -> Expr {
        // a reference to a machine word or element used as an arithmetic operand
        let t = self.infer(e);
        let l = self.lower_e(e, None);
        if let Some(Type::Reference(r)) = t {
            let h = head(&strip(&r.elem));
            if ["usize", "T"].contains(&h.as_str()) {
                return if matches!(*r.elem, Type::Reference(_)) { parse_quote!(**#l) } else { parse_quote!(*#l) };
            }
        }
        l
    }
    fn lower_assign_stmt(&mut self, e: &Expr) -> Option<Vec<Stmt>> {
        match e {
            Expr::Assign(a) => {
                // (x, y) = f(..)
                if let Expr::Tuple(t) = &*a.left {
                    let names: Option<Vec<String>> = t.elems.iter().map(|e| if let Expr::Infer(_) = e { Some("_".into()) } else { ident_of(e) }).collect();
                    if let Some(names) = names {
                        if let Some(v) = self.split_region(&names, &a.right, false) {
                            return Some(v);
                        }
                    }
                    let r = self.lower_e(&a.right, None);
                    let names: Vec<Ident> = t.elems.iter().map(|_| self.fresh("d")).collect();
                    let mut out: Vec<Stmt> = vec![parse_quote!(let (#(#names),*) = #r;)];
                    for (x, n) in t.elems.iter().zip(names.iter()) {
                        let l = self.lower_e(x, None);
                        out.push(parse_quote!(#l = #n;));
                    }
                    return Some(out);
                }
                // *cell.write().unwrap() = v
                if let Expr::Unary(u) = unparen(&a.left) {
                    if matches!(u.op, UnOp::Deref(_)) {
                        if let Some((cell, true)) = self.lock_expr(&u.expr) {
                            let v = self.lower_e(&a.right, None);
                            self.effects.push("write".into());
                            return Some(vec![parse_quote!(#cell.store(#v, Tracked(vx_h));)]);
                        }
                        if let Some(n) = ident_of(&u.expr) {
                            if self.is_guard(&n) {
                                let v = self.lower_e(&a.right, None);
                                let n = id(&n);
                                return Some(vec![parse_quote!(#n = #v;)]);
                            }
                        }
                    }
                }
                let exp = self.infer(&a.left);
                let l = self.lower_e(&a.left, None);
                // dropping the senders closes their channels
                if exp.as_ref().map(tstr).map_or(false, |s| s.contains("VxTx")) {
                    if ident_of(&a.right).as_deref() == Some("None") {
                        let tk = self.chan_tok();
                        return Some(vec![parse_quote!(vx_drop_senders(&mut #l, #tk);)]);
                    }
                    self.bad("assignment of senders");
                }
                let r = self.lower_e(&a.right, exp);
                Some(vec![parse_quote!(#l = #r;)])
            }
            Expr::Binary(b) => {
                use BinOp::*;
                let op: Option<BinOp> = match b.op {
                    AddAssign(_) => Some(parse_quote!(+)),
                    SubAssign(_) => Some(parse_quote!(-)),
                    MulAssign(_) => Some(parse_quote!(*)),
                    DivAssign(_) => Some(parse_quote!(/)),
                    RemAssign(_) => Some(parse_quote!(%)),
                    _ => None,
                };
                let op = op?;
                let bin = Expr::Binary(ExprBinary { attrs: vec![], left: b.left.clone(), op, right: b.right.clone() });
                let l = self.lower_e(&b.left, None);
                // keep the precedence of the right-hand side
                let r = if let Expr::Binary(bb) = &bin {
                    let rr = &bb.right;
                    let right: Expr = match unparen(rr) {
                        Expr::Binary(_) => parse_quote!((#rr)),
                        _ => (**rr).clone(),
                    };
                    Expr::Binary(ExprBinary { attrs: vec![], left: bb.left.clone(), op: bb.op, right: Box::new(right) })
                } else {
                    bin
                };
                let r = self.lower_e(&r, None);
                Some(vec![parse_quote!(#l = #r;)])
            }
            _ => None,
        }
    }
    /// (a, b) = s.split_at_mut(n) on ranges of one vector
    fn split_region(&mut self, names: &[String], e: &Expr, fresh: bool) -> Option<Vec<Stmt>> {
        let m = if let Expr::MethodCall(m) = unparen(e) { m } else { return None };
        if m.method != "split_at_mut" || names.len() != 2 {
            return None;
        }
        let src = ident_of(&m.receiver)?;
        let base = self.regions.get(&src)?.clone();
        let n = self.lower_e(&m.args[0], None);
        let mid = self.fresh("m");
        let (slo, shi) = (id(&format!("{src}_lo")), id(&format!("{src}_hi")));
        let end = self.fresh("e");
        let beg = self.fresh("b");
        let mut out: Vec<Stmt> = vec![
            parse_quote!(let #beg: usize = #slo;),
            parse_quote!(let #end: usize = #shi;),
            parse_quote!(let #mid: usize = vx_split(#beg, #end, #n);),
        ];
        for (k, x) in names.iter().enumerate() {
            if x == "_" {
                continue;
            }
            let (lo, hi) = (id(&format!("{x}_lo")), id(&format!("{x}_hi")));
            let (a, b) = if k == 0 { (beg.clone(), mid.clone()) } else { (mid.clone(), end.clone()) };
            if self.var(&lo.to_string()).is_some() && !fresh {
                if self.regions.get(x) != Some(&base) {
                    self.bad("slice of another vector");
                }
                out.push(parse_quote!(#lo = #a;));
                out.push(parse_quote!(#hi = #b;));
            } else {
                self.regions.insert(x.clone(), base.clone());
                self.bind(&lo.to_string(), Some(ty("usize")));
                self.bind(&hi.to_string(), Some(ty("usize")));
                out.push(parse_quote!(let mut #lo: usize = #a;));
                out.push(parse_quote!(let mut #hi: usize = #b;));
            }
        }
        Some(out)
    }
    fn is_guard(&self, n: &str) -> bool {
        self.guards.iter().any(|g| g.iter().any(|x| x.0 == n))
    }
    /// X.grad.read().unwrap() / X.grad.write().unwrap()
    fn lock_expr(&mut self, e: &Expr) -> Option<(Expr, bool)> {
        if let Expr::MethodCall(m) = unparen(e) {
            if m.method == "unwrap" || m.method == "expect" {
                if let Expr::MethodCall(m2) = unparen(&m.receiver) {
                    if m2.method == "read" || m2.method == "write" {
                        if self.infer(&m2.receiver).map(|t| head(&strip(&t))).as_deref() == Some("GradCell") {
                            let c = self.lower_e(&m2.receiver, None);
                            return Some((c, m2.method == "write"));
                        }
                    }
                }
            }
        }
        None
    }
    fn lower_local(&mut self, l: &Local) -> Vec<Stmt> {
        let (pat, tyann) = match &l.pat {
            Pat::Type(pt) => ((*pt.pat).clone(), Some(self.lty_hole(&pt.ty))),
            p => (p.clone(), None),
        };
        let init = match &l.init {
            None => {
                if let Pat::Ident(pi) = &pat {
                    if self.region_names.contains(&pi.ident.to_string()) {
                        self.locals.push(pi.ident.to_string());
                        return vec![];
                    }
                    self.bind(&pi.ident.to_string(), tyann);
                    return vec![parse_quote!(let #pat;)];
                }
                self.bad("let without initialiser");
                return vec![];
            }
            Some(i) => {
                if i.diverge.is_some() {
                    self.bad("let-else");
                }
                &*i.expr
            }
        };
        if let Pat::Ident(pi) = &pat {
            let n = pi.ident.to_string();
            if self.region_names.contains(&n) {
                if let Expr::Reference(r) = unparen(init) {
                    let base = match unparen(&r.expr) {
                        Expr::Index(i) if matches!(unparen(&i.index), Expr::Range(rg) if rg.start.is_none() && rg.end.is_none()) => ident_of(&i.expr),
                        e => ident_of(e),
                    };
                    if let (Some(b), true) = (base, r.mutability.is_some()) {
                        let (lo, hi, bi) = (id(&format!("{n}_lo")), id(&format!("{n}_hi")), id(&b));
                        self.locals.push(n.clone());
                        self.regions.insert(n, b);
                        self.bind(&lo.to_string(), Some(ty("usize")));
                        self.bind(&hi.to_string(), Some(ty("usize")));
                        return vec![parse_quote!(let mut #lo: usize = 0;), parse_quote!(let mut #hi: usize = #bi.len();)];
                    }
                }
                self.bad("mutable slice initialiser");
            }
        }
        if let Pat::Tuple(t) = &pat {
            let names: Option<Vec<String>> = t.elems.iter().map(|p| if let Pat::Ident(pi) = p { Some(pi.ident.to_string()) } else { None }).collect();
            if let Some(names) = names {
                if let Some(v) = self.split_region(&names, init, true) {
                    return v;
                }
            }
        }
        // let a = &mut b; for a local b: another name for b
        if let (Pat::Ident(pi), Expr::Reference(r)) = (&pat, unparen(init)) {
            if let (true, Some(b)) = (r.mutability.is_some(), ident_of(&r.expr)) {
                let b = self.aliases.get(&b).cloned().unwrap_or(b);
                if self.var(&b).is_some() && b != pi.ident.to_string() {
                    let t = self.infer(&r.expr);
                    self.bind(&pi.ident.to_string(), t);
                    self.aliases.insert(pi.ident.to_string(), b);
                    return vec![];
                }
            }
        }
        // let w = x.f(); where f returns a closure: calls of w become calls of x.f
        if let (Pat::Ident(pi), Expr::MethodCall(m)) = (&pat, unparen(init)) {
            let f = self.infer(&m.receiver).map(|t| strip(&t)).and_then(|t| self.find_method(&t, &m.method.to_string()));
            if let Some(f) = f {
                if f.curried > 0 && m.args.is_empty() {
                    if self.rdepth == 0 {
                        self.bad("a writer that outlives the parallel section");
                    }
                    self.locals.push(pi.ident.to_string());
                    self.writers.insert(pi.ident.to_string(), ((*m.receiver).clone(), f));
                    return vec![];
                }
            }
        }
        // let (a, b) = iter::repeat_with(unbounded).take(n).unzip(): n channels
        if let (Pat::Tuple(_), Expr::MethodCall(m)) = (&pat, unparen(init)) {
            if m.method == "unzip" {
                if let Expr::MethodCall(m2) = unparen(&m.receiver) {
                    let cap = if m2.method == "take" { made_by(&m2.receiver) } else { None };
                    if let Some(cap) = cap {
                        let n = self.lower_e(&m2.args[0], None);
                        let tk = self.chan_tok();
                        let made: Expr = match cap {
                            None => parse_quote!(vx_channels(#n, #tk)),
                            Some(c) => {
                                let c = self.lower_e(&c, None);
                                parse_quote!(vx_bounded_channels(#n, #c, #tk))
                            }
                        };
                        let mut out = vec![];
                        self.bind_pat(&pat, Item_::Val(made), Some(ty("(Vec<VxTx>, Vec<VxRx>)")), &mut out);
                        return out;
                    }
                }
            }
        }
        // let x = F(&mut a[..]); x holds slices of a
        if let (Pat::Ident(pi), Expr::Call(c)) = (&pat, unparen(init)) {
            let f = self.resolve(&c.func).map(|x| x.0);
            if let Some(f) = f {
                for (i, p) in f.params.iter().enumerate() {
                    if head(&p.1) == "VxRange" {
                        let base = c.args.iter().nth(i).and_then(|a| match unparen(a) {
                            Expr::Reference(r) if r.mutability.is_some() => match unparen(&r.expr) {
                                Expr::Index(ix) if matches!(unparen(&ix.index), Expr::Range(rg) if rg.start.is_none() && rg.end.is_none()) => ident_of(&ix.expr),
                                e => ident_of(e),
                            },
                            _ => None,
                        });
                        match base {
                            Some(b) => {
                                self.wbase.insert(pi.ident.to_string(), b);
                            }
                            None => self.bad("slice argument"),
                        }
                    }
                }
            }
        }
        if let (Pat::Ident(pi), Expr::Closure(c)) = (&pat, unparen(init)) {
            self.closures.insert(pi.ident.to_string(), c.clone());
            return vec![];
        }
        if let Pat::Ident(pi) = &pat {
            if let Some((cell, w)) = self.lock_expr(init) {
                let n = pi.ident.clone();
                self.bind(&n.to_string(), Some(ty("Option<RcTensor>")));
                if w {
                    self.effects.push("write".into());
                    self.guards.last_mut().unwrap().push((n.to_string(), cell.clone()));
                    return vec![parse_quote!(let mut #n = #cell.acquire(Tracked(vx_h));)];
                }
                let r = self.read_cell(&cell);
                return vec![parse_quote!(let #n = #r;)];
            }
        }
        // let (&a, &b) = (x, y);
        if let (Pat::Tuple(pt), Expr::Tuple(et)) = (&pat, unparen(init)) {
            if pt.elems.len() == et.elems.len() {
                let mut out = vec![];
                let vals: Vec<(Expr, Option<Type>)> = et.elems.iter().map(|e| (self.lower_e(e, None), self.infer(e))).collect();
                for (p, (v, t)) in pt.elems.iter().zip(vals) {
                    self.bind_pat(p, Item_::Val(v), t, &mut out);
                }
                return out;
            }
        }
        let mut out = vec![];
        let has_hole = tyann.as_ref().map_or(false, |t| tstr(t).contains('_') && (tstr(t).contains("<_>") || tstr(t) == "_"));
        let t = if has_hole { self.infer(init).or(tyann.clone()) } else { tyann.clone().or_else(|| self.infer(init)) };
        let tyann = if has_hole { t.clone().filter(|t| !tstr(t).contains("<_>")) } else { tyann };
        // an iterator kept in a variable
        if let Pat::Ident(pi) = &pat {
            if let Some(v) = self.lower_iter_local(pi, init) {
                return v;
            }
        }
        let (l0, a0) = (self.loops, self.accs.len());
        // a function value chosen by a match: its type says what the closures among the arms are
        let want = tyann.clone().or_else(|| t.clone().filter(|t| matches!(unparen(init), Expr::Match(_) | Expr::If(_)) && ["JvpFn", "ActFn"].contains(&head(t).as_str())));
        let e = self.lower_e(init, want);
        if let Pat::Ident(pi) = &pat {
            let n = pi.ident.to_string();
            if self.accs.len() == a0 + 1 && self.var(&n).is_none() {
                self.inits.push((l0, self.loops, n.clone(), self.accs[a0].clone()));
            }
            if pi.mutability.is_some() {
                self.muts.push(n);
            }
        }
        match (&pat, &tyann) {
            (Pat::Ident(pi), Some(ta)) if pi.by_ref.is_none() => {
                let n = &pi.ident;
                let m = &pi.mutability;
                self.bind(&n.to_string(), t);
                out.push(parse_quote!(let #m #n: #ta = #e;));
            }
            _ => self.bind_pat(&pat, Item_::Val(e), t, &mut out),
        }
        out
    }
    fn lty_hole(&self, t: &Type) -> Type {
        self.lty(t)
    }
    fn read_cell(&mut self, cell: &Expr) -> Expr {
        if self.heap {
            parse_quote!(#cell.read_val(Tracked(vx_h)))
        } else {
            parse_quote!(#cell.read_any())
        }
    }
    /// `let mut it = v.into_iter().rev();` with `it.next()` becomes popping from the back.
    fn lower_iter_local(&mut self, pi: &PatIdent, init: &Expr) -> Option<Vec<Stmt>> {
        if let Expr::MethodCall(m) = unparen(init) {
            if m.method == "rev" {
                if let Expr::MethodCall(m2) = unparen(&m.receiver) {
                    if m2.method == "into_iter" {
                        let t = self.infer(&m2.receiver)?;
                        if head(&t) == "Vec" {
                            let e = self.lower_e(&m2.receiver, None);
                            let n = &pi.ident;
                            let a = arg0(&t)?;
                            self.bind(&n.to_string(), Some(parse_quote!(VecRevIter<#a>)));
                            return Some(vec![parse_quote!(let mut #n = #e;)]);
                        }
                    }
                }
            } else if m.method == "into_iter" {
                let t = self.infer(&m.receiver)?;
                if head(&t) == "Vec" {
                    let e = self.lower_e(&m.receiver, None);
                    let n = &pi.ident;
                    let a = arg0(&t)?;
                    self.bind(&n.to_string(), Some(parse_quote!(VecIter<#a>)));
                    return Some(vec![parse_quote!(let mut #n = #e;)]);
                }
            }
        }
        None
    }

    // ---------------------------------------------------------------- patterns
    /// remove reference patterns, for values that were made by value
    fn clean_pat(&mut self, p: &Pat) -> Pat {
        match p {
            Pat::Reference(r) => self.clean_pat(&r.pat),
            Pat::Tuple(t) => {
                let mut t = t.clone();
                let es: Vec<Pat> = t.elems.iter().map(|e| self.clean_pat(e)).collect();
                t.elems = es.into_iter().collect();
                Pat::Tuple(t)
            }
            Pat::TupleStruct(t) => {
                let mut t = t.clone();
                let es: Vec<Pat> = t.elems.iter().map(|e| self.clean_pat(e)).collect();
                t.elems = es.into_iter().collect();
                Pat::TupleStruct(t)
            }
            Pat::Paren(p) => self.clean_pat(&p.pat),
            p => p.clone(),
        }
    }
    fn bind_pat(&mut self, p: &Pat, it: Item_, t: Option<Type>, out: &mut Vec<Stmt>) {
        match (p, it) {
            (Pat::Paren(p), it) => self.bind_pat(&p.pat, it, t, out),
            (Pat::Type(pt), it) => {
                let t = Some(self.lty(&pt.ty));
                self.bind_pat(&pt.pat, it, t, out)
            }
            (Pat::Wild(_), Item_::Val(e)) => {
                if !matches!(e, Expr::Path(_) | Expr::Index(_)) {
                    out.push(parse_quote!(let _ = #e;));
                }
            }
            (Pat::Wild(_), _) => {}
            (Pat::Tuple(pt), Item_::Tuple(items)) => {
                for (p, i) in pt.elems.iter().zip(items) {
                    self.bind_pat(p, i, None, out);
                }
            }
            (Pat::Reference(r), Item_::RefPlace(e)) => {
                let t = self.place_ty(&e);
                self.bind_pat(&r.pat, Item_::Val(e), t, out)
            }
            (Pat::Reference(r), Item_::Val(e)) => {
                let t2 = t.map(|t| match t { Type::Reference(r) => *r.elem, t => t });
                self.bind_pat(&r.pat, Item_::Val(parse_quote!(*#e)), t2, out)
            }
            (Pat::Ident(pi), Item_::RefPlace(e)) => {
                let n = &pi.ident;
                let m = &pi.mutability;
                let t = self.place_ty(&e).map(|t| parse_quote!(&#t));
                self.bind(&n.to_string(), t);
                out.push(parse_quote!(let #m #n = &#e;));
            }
            (Pat::Ident(pi), Item_::Val(e)) => {
                let n = &pi.ident;
                let m = &pi.mutability;
                self.bind(&n.to_string(), t);
                out.push(parse_quote!(let #m #n = #e;));
            }
            (Pat::Tuple(pt), Item_::Val(e)) => {
                let ts: Vec<Option<Type>> = match &t {
                    Some(Type::Tuple(tt)) => tt.elems.iter().map(|t| Some(t.clone())).collect(),
                    _ => pt.elems.iter().map(|_| None).collect(),
                };
                for (p, t) in pt.elems.iter().zip(ts) {
                    self.bind_names(p, t);
                }
                let p = self.clean_pat(p);
                out.push(parse_quote!(let #p = #e;));
            }
            (p, Item_::Val(e)) => {
                self.bind_names(p, t);
                out.push(parse_quote!(let #p = #e;));
            }
            (p, Item_::Tuple(items)) if matches!(p, Pat::Ident(_)) => {
                let e = self.item_expr(Item_::Tuple(items));
                self.bind_pat(p, Item_::Val(e), t, out)
            }
            _ => self.bad("pattern"),
        }
    }
    fn place_ty(&self, e: &Expr) -> Option<Type> {
        // lowered places name only locals and fields
        self.infer(e)
    }
    fn bind_names(&mut self, p: &Pat, t: Option<Type>) {
        match p {
            Pat::Ident(pi) => self.bind(&pi.ident.to_string(), t),
            Pat::Tuple(tt) => tt.elems.iter().for_each(|e| self.bind_names(e, None)),
            Pat::TupleStruct(ts) => {
                let inner = t.and_then(|t| arg0(&strip(&t)).map(|i| if is_ref(&t) { parse_quote!(&#i) } else { i }));
                ts.elems.iter().for_each(|e| self.bind_names(e, inner.clone()))
            }
            Pat::Reference(r) => {
                let t = t.map(|t| match t { Type::Reference(r) => *r.elem, t => t });
                self.bind_names(&r.pat, t)
            }
            Pat::Paren(p) => self.bind_names(&p.pat, t),
            _ => {}
        }
    }
    fn item_expr(&mut self, i: Item_) -> Expr {
        match i {
            Item_::Val(e) => e,
            Item_::RefPlace(e) => parse_quote!(&#e),
            Item_::MutPlace(_) => {
                self.bad("mutable iteration item as a value");
                parse_quote!(())
            }
            Item_::Tuple(v) => {
                let es: Vec<Expr> = v.into_iter().map(|x| self.item_expr(x)).collect();
                parse_quote!((#(#es),*))
            }
        }
    }

    // ---------------------------------------------------------------- cursors
    fn source(&mut self, e: &Expr, setup: &mut Vec<Stmt>) -> (Expr, Option<Type>) {
        let t = self.infer(e);
        if is_place(e) {
            let l = self.lower_e(e, None);
            return (l, t.map(|t| strip(&t)));
        }
        if let Expr::Field(f) = unparen(e) {
            // a field of a temporary: the temporary gets a name
            let (b, _) = self.source(&f.base, setup);
            let m = &f.member;
            return (parse_quote!(#b.#m), t.map(|t| strip(&t)));
        }
        let n = self.fresh("s");
        let l = self.lower_e(e, None);
        self.scopes.last_mut().unwrap().insert(n.to_string(), t.clone());
        setup.push(parse_quote!(let #n = #l;));
        (parse_quote!(#n), t.map(|t| strip(&t)))
    }
    fn idx_cursor(&mut self, src: &Expr, kind: &str, setup: &mut Vec<Stmt>) -> Option<Cur> {
        // X[a..b] or X
        let (base, range) = match unparen(src) {
            Expr::Index(i) if matches!(unparen(&i.index), Expr::Range(_)) => {
                let r = match unparen(&i.index) { Expr::Range(r) => r.clone(), _ => unreachable!() };
                ((*i.expr).clone(), Some(r))
            }
            e => (e.clone(), None),
        };
        let (b, t) = self.source(&base, setup);
        let th = t.as_ref().map(|t| head(t)).unwrap_or_default();
        if th != "Vec" {
            return None;
        }
        let elem = t.as_ref().and_then(arg0);
        let (lo, len): (Option<Expr>, Expr) = match range {
            None => (None, parse_quote!(#b.len())),
            Some(r) => {
                let hi: Expr = match &r.end {
                    Some(e) => self.lower_e(e, None),
                    None => parse_quote!(#b.len()),
                };
                if matches!(r.limits, RangeLimits::Closed(_)) {
                    self.bad("inclusive slice range");
                }
                match &r.start {
                    None => {
                        let h = self.fresh("hi");
                        setup.push(parse_quote!(let #h: usize = #hi;));
                        setup.push(parse_quote!(vx_check_range(0, #h, #b.len());));
                        (None, parse_quote!(#h))
                    }
                    Some(s) => {
                        let s = self.lower_e(s, None);
                        let l = self.fresh("lo");
                        let h = self.fresh("hi");
                        let (x, y): (Stmt, Stmt) = (parse_quote!(let #l: usize = #s;), parse_quote!(let #h: usize = #hi;));
                        // an open end is a length: naming it first changes nothing and gives the solver its bound
                        if r.end.is_none() {
                            setup.extend([y, x]);
                        } else {
                            setup.extend([x, y]);
                        }
                        setup.push(parse_quote!(vx_check_range(#l, #h, #b.len());));
                        (Some(parse_quote!(#l)), parse_quote!((#h - #l)))
                    }
                }
            }
        };
        let kind = kind.to_string();
        let copy = elem.as_ref().map_or(false, |t| ["usize", "T"].contains(&head(t).as_str()));
        let at: At = Rc::new(move |p: &Expr| {
            let ix: Expr = match &lo {
                None => p.clone(),
                Some(l) => parse_quote!(#l + #p),
            };
            let place: Expr = parse_quote!(#b[#ix]);
            match kind.as_str() {
                "iter" => Item_::RefPlace(place),
                "iter_mut" => Item_::MutPlace(place),
                _ => {
                    if copy {
                        Item_::Val(place)
                    } else {
                        Item_::Val(parse_quote!(vx_move_out(&#b, #ix)))
                    }
                }
            }
        });
        Some(Cur::Idx { len, at })
    }
    fn named_len(&mut self, len: Expr, setup: &mut Vec<Stmt>) -> Expr {
        if matches!(len, Expr::Path(_)) {
            return len;
        }
        let n = self.fresh("len");
        setup.push(parse_quote!(let #n: usize = #len;));
        parse_quote!(#n)
    }
    fn cursor(&mut self, e: &Expr, setup: &mut Vec<Stmt>) -> Option<Cur> {
        match unparen(e) {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match name.as_str() {
                    "iter" | "into_iter" if m.args.is_empty() && self.infer(&m.receiver).map(|t| head(&strip(&t))).as_deref() == Some("VxRx") => self.leaf(&m.receiver, setup),
                    "iter" | "iter_mut" if m.args.is_empty() => self.idx_cursor(&m.receiver, &name, setup),
                    "into_iter" if m.args.is_empty() => {
                        let t = self.infer(&m.receiver)?;
                        if is_ref(&t) {
                            self.idx_cursor(&m.receiver, "iter", setup)
                        } else if head(&t) == "Vec" {
                            self.idx_cursor(&m.receiver, "into_iter", setup)
                        } else {
                            self.cursor(&m.receiver, setup)
                        }
                    }
                    "cloned" | "copied" => {
                        let c = self.cursor(&m.receiver, setup)?;
                        if let Cur::Idx { len, at } = c {
                            let a2: At = Rc::new(move |p| match at(p) {
                                Item_::RefPlace(e) => Item_::Val(e),
                                i => i,
                            });
                            Some(Cur::Idx { len, at: a2 })
                        } else {
                            None
                        }
                    }
                    "rev" => {
                        let c = self.cursor(&m.receiver, setup)?;
                        if let Cur::Idx { len, at } = c {
                            let len = self.named_len(len, setup);
                            let l2 = len.clone();
                            let a2: At = Rc::new(move |p| {
                                at(&parse_quote!((#l2 - 1 - #p)))
                            });
                            Some(Cur::Idx { len, at: a2 })
                        } else {
                            None
                        }
                    }
                    "skip" | "take" => {
                        let c = self.cursor(&m.receiver, setup)?;
                        let n = self.lower_e(&m.args[0], None);
                        if let Cur::Idx { len, at } = c {
                            let k = self.fresh("k");
                            if name == "skip" {
                                let len = self.named_len(len, setup);
                                setup.push(parse_quote!(let #k: usize = vx_min(#n, #len);));
                                let a2: At = Rc::new(move |p| at(&parse_quote!((#k + #p))));
                                let k2 = id(&quote!(#len).to_string().replace(' ', ""));
                                let _ = k2;
                                let kk = setup.len();
                                let _ = kk;
                                let kid = match setup.last() { Some(Stmt::Local(l)) => l.pat.clone(), _ => unreachable!() };
                                let kid: Ident = match kid { Pat::Type(pt) => match *pt.pat { Pat::Ident(pi) => pi.ident, _ => unreachable!() }, _ => unreachable!() };
                                Some(Cur::Idx { len: parse_quote!((#len - #kid)), at: a2 })
                            } else {
                                Some(Cur::Idx { len: parse_quote!(vx_min(#len, #n)), at })
                            }
                        } else {
                            None
                        }
                    }
                    "enumerate" => {
                        let c = self.cursor(&m.receiver, setup)?;
                        match c {
                            Cur::Idx { len, at } => {
                                let a2: At = Rc::new(move |p| Item_::Tuple(vec![Item_::Val(p.clone()), at(p)]));
                                Some(Cur::Idx { len, at: a2 })
                            }
                            c => {
                                let n = self.fresh("e");
                                setup.push(parse_quote!(let mut #n: usize = 0;));
                                Some(Cur::Enum(Box::new(c), n))
                            }
                        }
                    }
                    "zip" => {
                        let a = self.cursor(&m.receiver, setup)?;
                        let b = self.cursor(&m.args[0], setup)?;
                        match (a, b) {
                            (Cur::Idx { len: l1, at: a1 }, Cur::Idx { len: l2, at: a2 }) => {
                                let l1 = self.named_len(l1, setup);
                                let l2 = self.named_len(l2, setup);
                                let at: At = Rc::new(move |p| Item_::Tuple(vec![a1(p), a2(p)]));
                                Some(Cur::Idx { len: parse_quote!(vx_min(#l1, #l2)), at })
                            }
                            (a, b) => Some(Cur::Zip(Box::new(a), Box::new(b))),
                        }
                    }
                    "zip_longest" => {
                        let a = self.cursor(&m.receiver, setup)?;
                        let b = self.cursor(&m.args[0], setup)?;
                        if let (Cur::Idx { len: l1, at: a1 }, Cur::Idx { len: l2, at: a2 }) = (a, b) {
                            let l1 = self.named_len(l1, setup);
                            let l2 = self.named_len(l2, setup);
                            let (m1, m2) = (l1.clone(), l2.clone());
                            let val = |i: Item_| -> Expr {
                                match i { Item_::Val(e) => e, Item_::RefPlace(e) => e, _ => parse_quote!(unsupported) }
                            };
                            let at: At = Rc::new(move |p| {
                                let (x, y) = (val(a1(p)), val(a2(p)));
                                Item_::Val(parse_quote!((if #p < #m1 && #p < #m2 { EitherOrBoth::Both(#x, #y) } else if #p < #m1 { EitherOrBoth::Left(#x) } else { EitherOrBoth::Right(#y) })))
                            });
                            Some(Cur::Idx { len: parse_quote!(vx_max(#l1, #l2)), at })
                        } else {
                            None
                        }
                    }
                    "map" => {
                        let c = self.cursor(&m.receiver, setup)?;
                        Some(Cur::Map(Box::new(c), m.args[0].clone()))
                    }
                    "flat_map" => {
                        let c = self.cursor(&m.receiver, setup)?;
                        Some(Cur::Flat(Box::new(c), m.args[0].clone()))
                    }
                    _ => self.leaf(e, setup),
                }
            }
            Expr::Range(r) => {
                let s = match &r.start { Some(s) => self.lower_e(s, None), None => return None };
                let en = match &r.end { Some(s) => self.lower_e(s, None), None => return None };
                let zero = quote!(#s).to_string() == "0";
                let en: Expr = if matches!(r.limits, RangeLimits::Closed(_)) { parse_quote!((#en + 1)) } else { en };
                if zero {
                    let len = self.named_len(en, setup);
                    let at: At = Rc::new(|p| Item_::Val(p.clone()));
                    Some(Cur::Idx { len, at })
                } else {
                    let lo = self.fresh("lo");
                    let hi = self.fresh("hi");
                    setup.push(parse_quote!(let #lo: usize = #s;));
                    setup.push(parse_quote!(let #hi: usize = #en;));
                    let l2 = lo.clone();
                    let at: At = Rc::new(move |p| Item_::Val(parse_quote!(#l2 + #p)));
                    Some(Cur::Idx { len: parse_quote!((if #lo <= #hi { #hi - #lo } else { 0 })), at })
                }
            }
            Expr::Reference(r) => {
                let k = if r.mutability.is_some() { "iter_mut" } else { "iter" };
                self.idx_cursor(&r.expr, k, setup)
            }
            _ => self.leaf(e, setup),
        }
    }
    fn leaf(&mut self, e: &Expr, setup: &mut Vec<Stmt>) -> Option<Cur> {
        let t = self.infer(e)?;
        let h = head(&strip(&t));
        if ["ElementIterator", "IndexIterator"].contains(&h.as_str()) {
            let l = self.lower_e(e, None);
            let n = self.fresh("it");
            setup.push(parse_quote!(let mut #n = #l;));
            return Some(Cur::Leaf { it: n, ty: Some(strip(&t)) });
        }
        if h == "VxRx" {
            if let Some(n) = ident_of(e) {
                return Some(Cur::Leaf { it: id(&n), ty: Some(strip(&t)) });
            }
        }
        if h == "Vec" {
            return self.idx_cursor(e, if is_ref(&t) { "iter" } else { "into_iter" }, setup);
        }
        None
    }
    fn item_ty(t: &Option<Type>) -> Option<Type> {
        match t.as_ref().map(head).as_deref() {
            Some("ElementIterator") => Some(ty("T")),
            Some("IndexIterator") => Some(ty("Vec<usize>")),
            Some("VxRx") => Some(ty("(usize, T)")),
            _ => None,
        }
    }
    /// Statements that produce the next item of a cursor that is driven by `next`.
    fn step(&mut self, c: &Cur, out: &mut Vec<Stmt>, pre: &mut Vec<Stmt>) -> (Item_, Option<Type>) {
        match c {
            Cur::Leaf { it, ty } => {
                let o = self.fresh("o");
                let v = self.fresh("v");
                if ty.as_ref().map(head).as_deref() == Some("VxRx") {
                    let tk = self.chan_tok();
                    out.push(parse_quote!(let #o = #it.next(#tk);));
                } else {
                    self.called.insert(format!("{}::next", ty.as_ref().map(head).unwrap_or_default()));
                    out.push(parse_quote!(let #o = #it.next();));
                }
                out.push(parse_quote!(if #o.is_none() { break; }));
                out.push(parse_quote!(let #v = #o.unwrap();));
                (Item_::Val(parse_quote!(#v)), Self::item_ty(ty))
            }
            Cur::Idx { len, at } => {
                let p = self.fresh("q");
                let n = self.named_len(len.clone(), pre);
                pre.push(parse_quote!(let mut #p: usize = 0;));
                let c = self.fresh("c");
                out.push(parse_quote!(if !(#p < #n) { break; }));
                out.push(parse_quote!(let #c = #p;));
                out.push(parse_quote!(#p = #p + 1;));
                (at(&parse_quote!(#c)), None)
            }
            Cur::Zip(a, b) => {
                let x = self.step(a, out, pre);
                let y = self.step(b, out, pre);
                let t = match (&x.1, &y.1) {
                    (Some(a), Some(b)) => Some(parse_quote!((#a, #b))),
                    _ => None,
                };
                (Item_::Tuple(vec![x.0, y.0]), t)
            }
            Cur::Enum(c, n) => {
                let x = self.step(c, out, pre);
                let k = self.fresh("c");
                out.push(parse_quote!(let #k = #n;));
                out.push(parse_quote!(#n = #n + 1;));
                (Item_::Tuple(vec![Item_::Val(parse_quote!(#k)), x.0]), None)
            }
            Cur::Map(c, f) => {
                let x = self.step(c, out, pre);
                let (e, t) = self.apply(f, vec![x], out);
                (Item_::Val(e), t)
            }
            Cur::Flat(..) => {
                self.bad("flat_map");
                (Item_::Val(parse_quote!(())), None)
            }
        }
    }
    /// Apply a closure or function path to items, statements going to `out`.
    fn apply(&mut self, f: &Expr, args: Vec<(Item_, Option<Type>)>, out: &mut Vec<Stmt>) -> (Expr, Option<Type>) {
        match unparen(f) {
            Expr::Closure(c) => {
                if c.inputs.len() != args.len() {
                    self.bad("closure arity");
                    return (parse_quote!(()), None);
                }
                let mut body = (*c.body).clone();
                for (p, (i, t)) in c.inputs.iter().zip(args) {
                    self.bind_item(p, i, t, out, &mut body);
                }
                let t = self.infer(&body);
                let t = t.or_else(|| self.infer_block_tail(&body));
                let e = self.lower_e(&body, None);
                (e, t)
            }
            Expr::Path(_) => {
                let mut es: Vec<Expr> = vec![];
                for (i, _) in args {
                    es.push(self.item_expr(i));
                }
                let t = self.resolve(f).and_then(|x| x.0.ret.clone());
                let p = self.lower_callee(f);
                (parse_quote!(#p(#(#es),*)), t)
            }
            _ => {
                self.bad("iterator closure");
                (parse_quote!(()), None)
            }
        }
    }
    fn infer_block_tail(&self, _e: &Expr) -> Option<Type> {
        None
    }
    fn bind_item(&mut self, p: &Pat, i: Item_, t: Option<Type>, out: &mut Vec<Stmt>, body: &mut Expr) {
        match (p, i) {
            (Pat::Paren(p), i) => self.bind_item(&p.pat, i, t, out, body),
            (Pat::Tuple(pt), Item_::Tuple(items)) if pt.elems.len() == items.len() => {
                let ts: Vec<Option<Type>> = match &t {
                    Some(Type::Tuple(tt)) => tt.elems.iter().cloned().map(Some).collect(),
                    _ => items.iter().map(|_| None).collect(),
                };
                for ((p, i), t) in pt.elems.iter().zip(items).zip(ts) {
                    self.bind_item(p, i, t, out, body);
                }
            }
            (Pat::Ident(pi), Item_::MutPlace(place)) => {
                let mut s = Subst { name: pi.ident.to_string(), place, bad: false };
                s.visit_expr_mut(body);
                if s.bad {
                    self.bad("mutable iteration item used other than through *");
                }
            }
            (p, i) => self.bind_pat(p, i, t, out),
        }
    }
    fn inv_marker(&mut self, k: usize) -> Stmt {
        let n = id(&format!("L{k}"));
        parse_quote!(__vx_inv!(#n);)
    }
    /// Build the loop over a cursor. `body` gets the item and returns the loop body statements.
    fn build_loop(&mut self, c: Cur, mut setup: Vec<Stmt>, body: &mut dyn FnMut(&mut Self, Item_, Option<Type>, &mut Vec<Stmt>)) -> Vec<Stmt> {
        let k = self.loops;
        self.loops += 1;
        match &c {
            Cur::Idx { len, at } => {
                self.kinds.push("idx".into());
                let n = id(&format!("vx_n{k}"));
                let p = id(&format!("vx_p{k}"));
                setup.push(parse_quote!(let #n: usize = #len;));
                setup.push(parse_quote!(let mut #p: usize = 0;));
                self.bind(&n.to_string(), Some(ty("usize")));
                self.bind(&p.to_string(), Some(ty("usize")));
                setup.extend(self.hint(&format!("loop{k} pre")));
                self.scopes.push(HashMap::new());
                self.guards.push(vec![]);
                let mut b: Vec<Stmt> = vec![self.inv_marker(k)];
                let q = id(&format!("vx_i{k}"));
                b.push(parse_quote!(let #q = #p;));
                self.bind(&q.to_string(), Some(ty("usize")));
                b.push(parse_quote!(#p = #p + 1;));
                let item = at(&parse_quote!(#q));
                let hb = self.hint(&format!("loop{k} begin"));
                let mut inner = vec![];
                body(self, item, None, &mut inner);
                // `begin` hints go after the bindings made by the body callback
                b.extend(hb);
                b.extend(inner);
                b.extend(self.hint(&format!("loop{k} end")));
                self.guards.pop();
                self.scopes.pop();
                setup.push(parse_quote!(while #p < #n { #(#b)* }));
            }
            Cur::Map(inner, f) if matches!(**inner, Cur::Idx { .. }) => {
                let f = f.clone();
                self.loops -= 1;
                let ic = (**inner).clone();
                return self.build_loop(ic, setup, &mut |me, item, t, out| {
                    let (e, t2) = me.apply(&f, vec![(item, t)], out);
                    let v = me.fresh("v");
                    out.push(parse_quote!(let #v = #e;));
                    me.scopes.last_mut().unwrap().insert(v.to_string(), t2.clone());
                    body(me, Item_::Val(parse_quote!(#v)), t2, out)
                });
            }
            c => {
                self.kinds.push("next".into());
                setup.extend(self.hint(&format!("loop{k} pre")));
                self.scopes.push(HashMap::new());
                self.guards.push(vec![]);
                let mut b: Vec<Stmt> = vec![self.inv_marker(k)];
                b.extend(self.hint(&format!("loop{k} first")));
                let mut pre = vec![];
                let mut stmts = vec![];
                let (item, t) = self.step(c, &mut stmts, &mut pre);
                b.extend(stmts);
                b.extend(self.hint(&format!("loop{k} begin")));
                let mut inner = vec![];
                body(self, item, t, &mut inner);
                b.extend(inner);
                b.extend(self.hint(&format!("loop{k} end")));
                self.guards.pop();
                self.scopes.pop();
                setup.extend(pre);
                setup.push(parse_quote!(loop { #(#b)* }));
            }
        }
        setup.extend(self.hint(&format!("loop{k} after")));
        setup
    }
    fn lower_for(&mut self, f: &ExprForLoop) -> Vec<Stmt> {
        if f.label.is_some() {
            self.bad("labelled loop");
        }
        let mut setup = vec![];
        let c = match self.cursor(&f.expr, &mut setup) {
            Some(c) => c,
            None => {
                self.bad(&format!("for over {}", f.expr.to_token_stream()));
                return vec![];
            }
        };
        let pat = f.pat.clone();
        let blk = f.body.clone();
        self.build_loop(c, setup, &mut |me, item, t, out| {
            let mut body = Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk.clone() });
            me.bind_item(&pat, item, t, out, &mut body);
            if let Expr::Block(b) = body {
                let lb = me.lower_block(&b.block);
                out.extend(lb.stmts);
                // a trailing expression statement of unit type
                if let Some(Stmt::Expr(_, s @ None)) = out.last_mut() {
                    *s = Some(Default::default());
                }
            }
        })
    }
    fn lower_for_each(&mut self, m: &ExprMethodCall) -> Option<Vec<Stmt>> {
        let mut setup = vec![];
        let ity = self.iter_item(&m.receiver);
        let c = self.cursor(&m.receiver, &mut setup)?;
        let f = m.args[0].clone();
        Some(self.build_loop(c, setup, &mut |me, item, t, out| {
            let (e, _) = me.apply(&f, vec![(item, t.or_else(|| ity.clone()))], out);
            out.push(parse_quote!(#e;));
        }))
    }
    /// Terminal iterator operations in expression position become a block with a loop.
    fn lower_terminal(&mut self, m: &ExprMethodCall, exp: Option<Type>) -> Option<Expr> {
        let name = m.method.to_string();
        if !["product", "sum", "fold", "all", "any", "collect", "unzip"].contains(&name.as_str()) {
            return None;
        }
        if name == "collect" {
            if let Expr::MethodCall(m2) = unparen(&m.receiver) {
                if m2.method == "chunks_mut" && self.infer(&m2.receiver).map(|t| head(&strip(&t))).as_deref() == Some("VxRange") {
                    let x = self.lower_e(&m2.receiver, None);
                    let w = self.lower_e(&m2.args[0], None);
                    self.note_call("chunks_mut");
                    return Some(parse_quote!(vx_chunks(&#x, #w)));
                }
            }
        }
        if ["sum"].contains(&name.as_str()) {
            // TensorLike::sum takes the same name
            if self.infer(&m.receiver).map_or(false, |t| {
                let h = head(&strip(&t));
                TENSORS.contains(&h.as_str()) || self.fi.gmap.iter().any(|g| g.0 == h)
            }) {
                return None;
            }
        }
        // plain product of a shape
        if name == "product" {
            if let Expr::MethodCall(it) = unparen(&m.receiver) {
                if it.method == "iter" {
                    if let Expr::Index(ix) = unparen(&it.receiver) {
                        if let Expr::Range(r) = unparen(&ix.index) {
                            if let Some(Expr::MethodCall(_)) = Some(unparen(&ix.expr)) {}
                            let bt = self.infer(&ix.expr).map(|t| strip(&t));
                            if bt.as_ref().map(tstr).as_deref() == Some("Vec<usize>") {
                                let b = self.as_ref_expr(&ix.expr);
                                let s: Expr = r.start.as_ref().map(|e| self.lower_e(e, None)).unwrap_or(parse_quote!(0));
                                let e: Expr = match &r.end { Some(e) => self.lower_e(e, None), None => parse_quote!(#b.len()) };
                                self.note_call("product");
                                return Some(parse_quote!(vx_product_range(#b, #s, #e)));
                            }
                        }
                    }
                    let bt = self.infer(&it.receiver).map(|t| strip(&t));
                    if bt.as_ref().map(tstr).as_deref() == Some("Vec<usize>") {
                        let b = self.as_ref_expr(&it.receiver);
                        self.note_call("product");
                        return Some(parse_quote!(vx_product(#b)));
                    }
                }
            }
        }
        self.scopes.push(HashMap::new());
        let r = self.lower_terminal2(m, &name, exp);
        self.scopes.pop();
        r
    }
    fn lower_terminal2(&mut self, m: &ExprMethodCall, name: &str, exp: Option<Type>) -> Option<Expr> {
        let mut setup = vec![];
        let c = self.cursor(&m.receiver, &mut setup)?;
        let ity = self.iter_item(&m.receiver);
        let acc = self.fresh("acc");
        self.locals.push(acc.to_string());
        self.accs.push(acc.to_string());
        match name {
            "fold" => {
                let init = self.lower_e(&m.args[0], None);
                let it = self.infer(&m.args[0]);
                self.scopes.last_mut().unwrap().insert(acc.to_string(), it.clone());
                let mut pre: Vec<Stmt> = vec![parse_quote!(let mut #acc = #init;)];
                pre.extend(setup);
                let f = m.args[1].clone();
                let a2 = acc.clone();
                let out = self.build_loop(c, pre, &mut |me, item, t, out| {
                    let (e, _) = me.apply(&f, vec![(Item_::Val(parse_quote!(#a2)), it.clone()), (item, t)], out);
                    out.push(parse_quote!(#a2 = #e;));
                });
                Some(parse_quote!({ #(#out)* #acc }))
            }
            "product" => {
                let mut pre: Vec<Stmt> = vec![parse_quote!(let mut #acc: usize = 1;)];
                pre.extend(setup);
                let a2 = acc.clone();
                let out = self.build_loop(c, pre, &mut |me, item, _t, out| {
                    let e = match item { Item_::RefPlace(e) => e, i => me.item_expr(i) };
                    out.push(parse_quote!(#a2 = #a2 * #e;));
                });
                Some(parse_quote!({ #(#out)* #acc }))
            }
            "all" | "any" => {
                let is_all = name == "all";
                let start: Expr = if is_all { parse_quote!(true) } else { parse_quote!(false) };
                let mut pre: Vec<Stmt> = vec![parse_quote!(let mut #acc: bool = #start;)];
                pre.extend(setup);
                let f = m.args[0].clone();
                let a2 = acc.clone();
                let out = self.build_loop(c, pre, &mut |me, item, t, out| {
                    let (e, _) = me.apply(&f, vec![(item, t)], out);
                    if is_all {
                        out.push(parse_quote!(if !(#e) { #a2 = false; break; }));
                    } else {
                        out.push(parse_quote!(if #e { #a2 = true; break; }));
                    }
                });
                Some(parse_quote!({ #(#out)* #acc }))
            }
            "collect" => {
                let et = exp.as_ref().and_then(arg0).filter(|t| !matches!(t, Type::Infer(_)));
                let mut pre: Vec<Stmt> = match &et {
                    Some(t) => vec![parse_quote!(let mut #acc: Vec<#t> = Vec::new();)],
                    None => vec![parse_quote!(let mut #acc = Vec::new();)],
                };
                pre.extend(setup);
                let a2 = acc.clone();
                if let Cur::Flat(inner, f) = c {
                    let fty = if let Expr::MethodCall(fm) = unparen(&m.receiver) { self.iter_item(&fm.receiver) } else { None };
                    let out = self.build_loop(*inner, pre, &mut |me, item, t, out| {
                        let t = t.or(fty.clone());
                        let mut inner_setup = vec![];
                        // bind the item, then iterate over what the closure gives
                        if let Expr::Closure(cl) = unparen(&f) {
                            let mut body = (*cl.body).clone();
                            me.bind_item(&cl.inputs[0], item.clone(), t.clone(), out, &mut body);
                            match me.cursor(&body, &mut inner_setup) {
                                Some(c2) => {
                                    let a3 = a2.clone();
                                    let o2 = me.build_loop(c2, inner_setup, &mut |me, item, _t, out| {
                                        let e = me.item_expr(item);
                                        out.push(parse_quote!(#a3.push(#e);));
                                    });
                                    out.extend(o2);
                                }
                                None => me.bad("flat_map body"),
                            }
                        } else {
                            me.bad("flat_map");
                        }
                    });
                    return Some(parse_quote!({ #(#out)* #acc }));
                }
                let out = self.build_loop(c, pre, &mut |me, item, _t, out| {
                    let e = me.item_expr(item);
                    out.push(parse_quote!(#a2.push(#e);));
                });
                Some(parse_quote!({ #(#out)* #acc }))
            }
            "unzip" => {
                let acc2 = self.fresh("acc");
                let tys = match &ity { Some(Type::Tuple(t)) if t.elems.len() == 2 => Some((t.elems[0].clone(), t.elems[1].clone())), _ => None };
                let mut pre: Vec<Stmt> = match tys {
                    Some((x, y)) => vec![parse_quote!(let mut #acc: Vec<#x> = Vec::new();), parse_quote!(let mut #acc2: Vec<#y> = Vec::new();)],
                    None => vec![parse_quote!(let mut #acc = Vec::new();), parse_quote!(let mut #acc2 = Vec::new();)],
                };
                pre.extend(setup);
                let (a1, a2) = (acc.clone(), acc2.clone());
                let out = self.build_loop(c, pre, &mut |me, item, _t, out| {
                    let e = me.item_expr(item);
                    out.push(parse_quote!(let (vx_x, vx_y) = #e;));
                    out.push(parse_quote!(#a1.push(vx_x);));
                    out.push(parse_quote!(#a2.push(vx_y);));
                });
                Some(parse_quote!({ #(#out)* (#acc, #acc2) }))
            }
            _ => {
                self.bad(name);
                None
            }
        }
    }

    // ---------------------------------------------------------------- macros
    fn panic_expr(&mut self, stmt: bool) -> Expr {
        self.note_call("panic");
        if stmt {
            parse_quote!({ __vx_acc!(); vx_panic::<()>(); })
        } else {
            parse_quote!({ __vx_acc!(); vx_panic() })
        }
    }
    fn macro_args(&mut self, mac: &Macro) -> Vec<Expr> {
        mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
            .map(|p| p.into_iter().collect())
            .unwrap_or_default()
    }
    fn lower_macro_stmt(&mut self, mac: &Macro) -> Vec<Stmt> {
        let n = mac.path.segments.last().unwrap().ident.to_string();
        match n.as_str() {
            "assert" | "debug_assert" => {
                let a = self.macro_args(mac);
                let c = self.lower_e(&a[0], None);
                let p = self.panic_expr(true);
                vec![parse_quote!(if !(#c) #p)]
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                let a = self.macro_args(mac);
                if a.len() < 2 {
                    self.bad("assert_eq arguments");
                    return vec![];
                }
                let (x, y) = (&a[0], &a[1]);
                let e: Expr = if n.ends_with("ne") { parse_quote!(#x != #y) } else { parse_quote!(#x == #y) };
                let c = self.lower_e(&e, None);
                let p = self.panic_expr(true);
                vec![parse_quote!(if !(#c) #p)]
            }
            "panic" | "todo" | "unreachable" | "unimplemented" => {
                let p = self.panic_expr(true);
                vec![Stmt::Expr(p, Some(Default::default()))]
            }
            "println" | "print" | "eprintln" | "dbg" => vec![],
            _ => {
                let e = self.lower_macro(mac, None);
                vec![Stmt::Expr(e, Some(Default::default()))]
            }
        }
    }
    fn lower_macro(&mut self, mac: &Macro, exp: Option<Type>) -> Expr {
        let n = mac.path.segments.last().unwrap().ident.to_string();
        match n.as_str() {
            "vec" => {
                let et = exp.as_ref().and_then(arg0);
                match parse_vec(mac) {
                    Some(VecLit::List(l)) => {
                        let es: Vec<Expr> = l.iter().map(|e| self.lower_e(e, et.clone())).collect();
                        parse_quote!(vec![#(#es),*])
                    }
                    Some(VecLit::Rep(e, k)) => {
                        let e = self.lower_e(&e, et);
                        let k = self.lower_e(&k, None);
                        parse_quote!(vec![#e; #k])
                    }
                    None => {
                        self.bad("vec!");
                        parse_quote!(vec![])
                    }
                }
            }
            "format" | "concat" => parse_quote!(vx_msg()),
            "panic" | "todo" | "unreachable" | "unimplemented" => self.panic_expr(false),
            "assert" | "assert_eq" | "debug_assert" | "debug_assert_eq" | "assert_ne" => {
                let s = self.lower_macro_stmt(mac);
                parse_quote!({ #(#s)* })
            }
            _ => {
                self.bad(&format!("macro {n}"));
                parse_quote!(())
            }
        }
    }

    // ---------------------------------------------------------------- expressions
    fn as_ref_expr(&mut self, e: &Expr) -> Expr {
        let e2 = unparen(e);
        let t = self.infer(e2);
        // &X[..] and *X
        if let Expr::Unary(u) = e2 {
            if matches!(u.op, UnOp::Deref(_)) {
                if let Some(t) = self.infer(&u.expr) {
                    if is_ref(&t) || head(&t) == "Vec" {
                        return self.as_ref_expr(&u.expr);
                    }
                }
            }
        }
        let l = self.lower_e(e2, None);
        match t {
            Some(t) if is_ref(&t) => l,
            _ => parse_quote!(&#l),
        }
    }
    fn recv_ref(&mut self, e: &Expr) -> Expr {
        // receiver of a provided TensorLike method, as a reference
        let t = self.infer(e);
        let l = self.lower_e(e, None);
        match t {
            Some(t) if is_ref(&t) => {
                if let Type::Reference(r) = &t {
                    if is_ref(&r.elem) {
                        return parse_quote!(&**#l);
                    }
                }
                l
            }
            Some(t) if head(&t) == "Arc" => parse_quote!(&*#l),
            _ => parse_quote!(&#l),
        }
    }
    fn lower_callee(&mut self, f: &Expr) -> Expr {
        if let Some((fi, assoc)) = self.resolve(f) {
            self.called.insert(fi.key.clone());
            if let Expr::Path(p) = unparen(f) {
                let segs = &p.path.segments;
                let n = id(&if fi.trait_name.as_deref() == Some("From") { "from_".to_string() } else { fi.name.clone() });
                if assoc {
                    let t = self.lty(&ty(&segs[segs.len() - 2].ident.to_string()));
                    let t = strip(&t);
                    return parse_quote!(#t::#n);
                }
                return parse_quote!(#n);
            }
        }
        if let Expr::Path(p) = unparen(f) {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if let Some(q) = &p.qself {
                // <X as Trait<..>>::f
                let t = self.lty(&q.ty);
                let n = segs.last().unwrap().clone();
                if n == "from" {
                    if segs.len() >= 2 {
                        if let PathArguments::AngleBracketed(a) = &p.path.segments[segs.len() - 2].arguments {
                            if let Some(GenericArgument::Type(x)) = a.args.first() {
                                let x = self.lty(x);
                                return parse_quote!(<#t as VxFrom<#x>>::from_);
                            }
                        }
                    }
                    return parse_quote!(#t::from_);
                }
                let n = id(&n);
                return parse_quote!(#t::#n);
            }
            if segs.len() >= 2 {
                let n = segs.last().unwrap().as_str();
                let q = segs[segs.len() - 2].as_str();
                if segs[0] == "Self" && segs.len() == 3 && segs[1] == "Elem" || (self.is_elem_generic(q)) {
                    let n = id(n);
                    return parse_quote!(T::#n);
                }
                if q == "RwLock" && n == "new" {
                    return parse_quote!(GradCell::new);
                }
                if q == "From" && n == "from" {
                    return parse_quote!(VxFrom::from_);
                }
                if n == "max" || n == "min" {
                    let n = id(&format!("vx_{n}"));
                    return parse_quote!(#n);
                }
                let lt = self.lty(&ty(q));
                let h = head(&strip(&lt));
                if self.sh.model.structs.contains_key(&h) && n == "from" {
                    let h = id(&h);
                    return parse_quote!(#h::from_);
                }
                if ["Vec", "Arc", "Default", "Option", "String", "Rc", "Box"].contains(&q) {
                    let (a, b) = (id(q), id(n));
                    return parse_quote!(#a::#b);
                }
                if self.sh.model.structs.contains_key(&h) {
                    let (a, b) = (id(&h), id(n));
                    return parse_quote!(#a::#b);
                }
                self.bad(&format!("path {}", segs.join("::")));
                return f.clone();
            }
            let n = segs[0].as_str();
            if self.var(n).is_none() {
                match n {
                    "max" | "min" => {
                        let n = id(&format!("vx_{n}"));
                        return parse_quote!(#n);
                    }
                    "Some" | "Ok" | "Err" | "None" => return f.clone(),
                    s if self.sh.model.structs.contains_key(s) => return f.clone(),
                    _ => {
                        self.bad(&format!("unknown function {n}"));
                    }
                }
            }
            return f.clone();
        }
        self.lower_e(f, None)
    }
    fn is_elem_generic(&self, n: &str) -> bool {
        self.fi.gmap.iter().any(|g| g.0 == n && matches!(g.1, GKind::Elem))
    }
    fn lower_args(&mut self, args: &punctuated::Punctuated<Expr, Token![,]>, fi: Option<&FnInfo>) -> Vec<Expr> {
        let mut v = vec![];
        let args: Vec<&Expr> = args
            .iter()
            .filter(|a| !(fi.map_or(false, |f| !f.scopes.is_empty()) && ident_of(a).map_or(false, |n| self.rscopes.contains(&n))))
            .collect();
        for (i, a) in args.into_iter().enumerate() {
            let (pt, er) = match fi.and_then(|f| f.params.get(i)) {
                Some(p) => (Some(p.1.clone()), p.2),
                None => (None, false),
            };
            if pt.as_ref().map(head).as_deref() == Some("VxRange") {
                if let Expr::Reference(r) = unparen(a) {
                    let b = match unparen(&r.expr) {
                        Expr::Index(ix) if matches!(unparen(&ix.index), Expr::Range(rg) if rg.start.is_none() && rg.end.is_none()) => &*ix.expr,
                        e => e,
                    };
                    let b = self.lower_e(b, None);
                    v.push(parse_quote!(vx_whole(#b.len())));
                    continue;
                }
            }
            let mut l = self.lower_e(a, pt);
            if fi.map_or(false, |f| f.params.get(i).map_or(false, |p| p.0 == "shape") && ["RawTensor", "RcTensor"].iter().any(|t| f.key.starts_with(&format!("{t}::new")))) {
                if let Expr::Macro(m) = unparen(a) {
                    if m.mac.path.is_ident("vec") {
                        // what the size of a shape that is written out is
                        l = parse_quote!(vx_lit(#l));
                    }
                }
            }
            let double = matches!(self.infer(a), Some(Type::Reference(r)) if is_ref(&r.elem));
            if let (Some(Type::Reference(r)), true) = (fi.and_then(|f| f.params.get(i)).map(|p| p.1.clone()), ident_of(a).map_or(false, |n| self.aliases.contains_key(&n))) {
                if !matches!(&l, Expr::Reference(_)) {
                    v.push(if r.mutability.is_some() { parse_quote!(&mut #l) } else { parse_quote!(&#l) });
                    continue;
                }
            }
            if er && double {
                v.push(parse_quote!(&**(#l)));
            } else if er {
                v.push(parse_quote!(&*(#l)));
            } else {
                v.push(l);
            }
        }
        v
    }
    /// the channel token, as an argument
    fn chan_tok(&mut self) -> Expr {
        if self.contract.chanroot {
            parse_quote!(Tracked(&mut vx_c))
        } else if self.contract.chan {
            parse_quote!(Tracked(vx_c))
        } else {
            self.bad("channel operation");
            parse_quote!(Tracked(vx_c))
        }
    }
    /// buffer and channel token for callees that take them
    fn chan_args(&mut self, fi: &FnInfo, recv: Option<&Expr>, v: &mut Vec<Expr>) {
        let (b, c) = match self.sh.contracts.get(&fi.key) {
            Some(c) => (c.buf, c.chan),
            None => return,
        };
        if b {
            let base = recv.and_then(ident_of).map(|n| self.aliases.get(&n).cloned().unwrap_or(n)).and_then(|n| self.wbase.get(&n).cloned());
            match base {
                Some(n) => {
                    let n = id(&n);
                    v.push(parse_quote!(&mut #n));
                }
                None => self.bad("slices of an unknown vector"),
            }
        }
        if c {
            let t = self.chan_tok();
            v.push(t);
        }
    }
    /// the variant of a constructor that carries the gradient token, where the contract asks for it
    fn birth(&self, key: &str) -> Option<String> {
        let k = format!("{key}$h");
        (self.contract.births && self.heap && self.sh.contracts.contains_key(&k)).then_some(k)
    }
    fn heap_arg(&mut self, name: &str, v: &mut Vec<Expr>) {
        if self.sh.heap_fns.contains(name) {
            self.effects.push(format!("call {name}"));
            v.push(parse_quote!(Tracked(vx_h)));
        }
    }

    pub fn lower_e(&mut self, e: &Expr, exp: Option<Type>) -> Expr {
        match e {
            Expr::Paren(p) => {
                let i = self.lower_e(&p.expr, exp);
                parse_quote!((#i))
            }
            Expr::Group(p) => self.lower_e(&p.expr, exp),
            Expr::Lit(_) => e.clone(),
            Expr::Path(p) => {
                if let Some(b) = ident_of(e).and_then(|n| self.aliases.get(&n).cloned()) {
                    let b = id(&b);
                    return parse_quote!(#b);
                }
                if let Some(t) = &exp {
                    match head(t).as_str() {
                        "JvpFn" | "ActFn" => {
                            if let Some((fi, _)) = self.resolve(e) {
                                let v = id(&fi.name);
                                self.called.insert(fi.key.clone());
                                if head(t) == "JvpFn" {
                                    self.sh.jvp_variants.insert(fi.name.clone(), fi.key.clone());
                                    return parse_quote!(JvpFn::#v);
                                }
                                self.sh.act_variants.insert(fi.name.clone(), fi.key.clone());
                                return parse_quote!(ActFn::#v);
                            }
                        }
                        "OpFn1" | "OpFn2" => {
                            if p.path.get_ident().map_or(true, |i| self.var(&i.to_string()).is_none()) {
                                return self.lower_callee(e);
                            }
                        }
                        _ => {}
                    }
                }
                if p.path.segments.len() > 1 {
                    return self.lower_callee(e);
                }
                e.clone()
            }
            Expr::Macro(m) => self.lower_macro(&m.mac, exp),
            Expr::Reference(r) => {
                // &X[..]
                if let Expr::Index(i) = unparen(&r.expr) {
                    if let Expr::Range(rg) = unparen(&i.index) {
                        if rg.start.is_none() && rg.end.is_none() {
                            let t = self.infer(&i.expr);
                            let l = self.lower_e(&i.expr, None);
                            return match t {
                                Some(t) if is_ref(&t) => l,
                                _ if r.mutability.is_some() => parse_quote!(&mut #l),
                                _ => parse_quote!(&#l),
                            };
                        }
                    }
                }
                let inner_exp = match exp { Some(Type::Reference(r)) => Some(*r.elem), _ => None };
                let i = self.lower_e(&r.expr, inner_exp);
                if r.mutability.is_some() {
                    parse_quote!(&mut #i)
                } else {
                    parse_quote!(&#i)
                }
            }
            Expr::Unary(u) => match u.op {
                UnOp::Deref(_) => {
                    if let Some(n) = ident_of(&u.expr) {
                        if self.is_guard(&n) {
                            return (*u.expr).clone();
                        }
                    }
                    let i = self.lower_e(&u.expr, None);
                    parse_quote!(*#i)
                }
                UnOp::Neg(_) if !matches!(unparen(&u.expr), Expr::Lit(_)) => {
                    let i = self.lower_e(&u.expr, None);
                    parse_quote!((#i).neg())
                }
                op => {
                    let i = self.lower_e(&u.expr, None);
                    Expr::Unary(ExprUnary { attrs: vec![], op, expr: Box::new(i) })
                }
            },
            Expr::Binary(b) => self.lower_binary(b),
            Expr::Field(f) => {
                let b = self.lower_e(&f.base, None);
                let m = &f.member;
                parse_quote!(#b.#m)
            }
            Expr::Index(i) => {
                if let Some(n) = ident_of(&i.expr) {
                    if let Some(b) = self.regions.get(&n).cloned() {
                        let ix = self.lower_e(&i.index, None);
                        let (lo, hi, b) = (id(&format!("{n}_lo")), id(&format!("{n}_hi")), id(&b));
                        return parse_quote!(#b[vx_off(#lo, #hi, #ix)]);
                    }
                }
                let bt = self.infer(&i.expr).map(|t| strip(&t));
                if bt.as_ref().map(head).as_deref() == Some("VxRange") {
                    if !self.contract.buf {
                        self.bad("element of a stored slice");
                    }
                    let b = self.lower_e(&i.expr, None);
                    let ix = self.lower_e(&i.index, None);
                    return parse_quote!(vx_buf[vx_off(#b.lo, #b.hi, #ix)]);
                }
                if bt.as_ref().map(head).as_deref() == Some("Arc") {
                    let b = self.lower_e(&i.expr, None);
                    let ix = self.lower_e(&i.index, None);
                    return parse_quote!((*#b)[#ix]);
                }
                if matches!(unparen(&i.index), Expr::Reference(_)) {
                    let b = self.lower_e(&i.expr, None);
                    let ix = self.lower_e(&i.index, None);
                    self.note_call("index");
                    if let Some(t) = self.infer(&i.expr) {
                        if let Some(f) = self.find_method(&strip(&t), "index") {
                            self.called.insert(f.key);
                        }
                    }
                    return parse_quote!((*#b.index(#ix)));
                }
                if matches!(unparen(&i.index), Expr::Range(_)) {
                    self.bad("slice expression");
                }
                let it = self.infer(&i.index);
                let b = self.lower_e(&i.expr, None);
                let ix = self.lower_e(&i.index, None);
                if let Some(Type::Reference(_)) = it {
                    return parse_quote!((*#b.index(#ix)));
                }
                parse_quote!(#b[#ix])
            }
            Expr::Call(c) => self.lower_call(c, exp),
            Expr::MethodCall(m) => self.lower_method(m, exp),
            Expr::Struct(s) => self.lower_struct(s),
            Expr::Tuple(t) => {
                let es: Vec<Expr> = t.elems.iter().map(|x| self.lower_e(x, None)).collect();
                if es.len() == 1 {
                    let x = &es[0];
                    parse_quote!((#x,))
                } else {
                    parse_quote!((#(#es),*))
                }
            }
            Expr::Block(b) => {
                let bl = self.lower_block_exp(&b.block, exp, false);
                Expr::Block(ExprBlock { attrs: vec![], label: None, block: bl })
            }
            Expr::If(i) => self.lower_if(i, exp),
            Expr::Match(m) => self.lower_match(m, exp),
            Expr::While(w) => self.lower_while(w),
            Expr::Loop(l) => {
                let k = self.loops;
                self.loops += 1;
                self.kinds.push("loop".into());
                let mut pre = self.hint(&format!("loop{k} pre"));
                let mut b = self.lower_block(&l.body);
                let mut st = vec![self.inv_marker(k)];
                st.extend(self.hint(&format!("loop{k} begin")));
                st.extend(std::mem::take(&mut b.stmts));
                st.extend(self.hint(&format!("loop{k} end")));
                let after = self.hint(&format!("loop{k} after"));
                if pre.is_empty() && after.is_empty() {
                    parse_quote!(loop { #(#st)* })
                } else {
                    pre.push(parse_quote!(loop { #(#st)* }));
                    pre.extend(after);
                    parse_quote!({ #(#pre)* })
                }
            }
            Expr::ForLoop(f) => {
                let s = self.lower_for(f);
                parse_quote!({ #(#s)* })
            }
            Expr::Return(r) => {
                if self.guards.iter().any(|g| !g.is_empty()) {
                    self.bad("return while a lock guard is held");
                }
                match &r.expr {
                    Some(x) => {
                        let rt = self.fi.ret.clone();
                        let v = self.lower_e(x, rt);
                        if self.contract.hints.contains_key("return") {
                            let h = self.hint("return");
                            parse_quote!({ let vx_ret = #v; #(#h)* return vx_ret; })
                        } else {
                            parse_quote!(return #v)
                        }
                    }
                    None => e.clone(),
                }
            }
            Expr::Break(_) | Expr::Continue(_) => e.clone(),
            Expr::Assign(_) => {
                let s = self.lower_assign_stmt(e).unwrap();
                parse_quote!({ #(#s)* })
            }
            Expr::Try(t) => {
                let x = self.lower_e(&t.expr, None);
                parse_quote!((match #x { Ok(vx_ok) => vx_ok, Err(vx_err) => return Err(vx_err) }))
            }
            Expr::Closure(c) => self.lower_closure(c, exp),
            Expr::Cast(c) => {
                let x = self.lower_e(&c.expr, None);
                let t = self.lty(&c.ty);
                parse_quote!((#x as #t))
            }
            Expr::Let(l) => {
                let t = self.infer(&l.expr);
                let x = self.lower_e(&l.expr, None);
                self.bind_names(&l.pat, t);
                let p = &l.pat;
                parse_quote!(let #p = #x)
            }
            Expr::Range(_) => {
                self.bad("range expression");
                e.clone()
            }
            _ => {
                self.bad(&format!("expression {}", e.to_token_stream()));
                parse_quote!(())
            }
        }
    }
    fn lower_closure(&mut self, c: &ExprClosure, exp: Option<Type>) -> Expr {
        let h = exp.as_ref().map(head).unwrap_or_default();
        match h.as_str() {
            "OpFn1" | "OpFn2" => {
                let k = self.clo_count;
                self.clo_count += 1;
                let mut ins: Vec<TokenStream2> = vec![];
                self.scopes.push(HashMap::new());
                for p in &c.inputs {
                    match p {
                        Pat::Ident(pi) => {
                            let n = &pi.ident;
                            self.bind(&n.to_string(), Some(ty("T")));
                            ins.push(quote!(#n: T));
                        }
                        Pat::Wild(_) => {
                            let n = self.fresh("w");
                            ins.push(quote!(#n: T));
                        }
                        Pat::Type(pt) => {
                            let n = &pt.pat;
                            ins.push(quote!(#n: T));
                            self.bind_names(&pt.pat, Some(ty("T")));
                        }
                        _ => self.bad("closure parameter"),
                    }
                }
                let spec = self.contract.closures.get(&k).cloned().or_else(|| self.spec_of(&c.body));
                if let Some(s) = spec {
                    self.clo_specs.insert(k, s);
                }
                let b = self.lower_e(&c.body, None);
                self.scopes.pop();
                let m = id(&format!("C{k}"));
                parse_quote!(|#(#ins),*| { __vx_clo!(#m); #b })
            }
            "JvpFn" | "ActFn" => {
                let k = self.lift_count;
                self.lift_count += 1;
                let key = format!("{}$closure{k}", self.fi.key);
                let name: String = format!("vx_lift_{}", key)
                    .chars()
                    .map(|c| if c.is_alphanumeric() { c } else { '_' })
                    .collect();
                let pt = if h == "JvpFn" { ty("Vec<RcTensor>") } else { ty("RcTensor") };
                let mut params = vec![];
                for (i, p) in c.inputs.iter().enumerate() {
                    let n = match p {
                        Pat::Ident(pi) => pi.ident.to_string(),
                        Pat::Type(pt) => pt.pat.to_token_stream().to_string(),
                        _ => format!("vx_arg{i}"),
                    };
                    params.push((n, pt.clone(), false));
                }
                let block: Block = match &*c.body {
                    Expr::Block(b) => b.block.clone(),
                    x => parse_quote!({ #x }),
                };
                let sig: Signature = { let i = id(&name); parse_quote!(fn #i()) };
                let fi = FnInfo {
                    key: key.clone(),
                    name: name.clone(),
                    self_ty: None,
                    self_is_ref_impl: false,
                    trait_name: None,
                    trait_args: vec![],
                    gmap: self.fi.gmap.clone(),
                    assoc: self.fi.assoc.clone(),
                    sig,
                    block: Some(block),
                    file: self.fi.file.clone(),
                    line: self.fi.line,
                    params,
                    ret: Some(pt),
                    has_self: false,
                    self_by_ref: false,
                    self_mut: false,
                    lifted: true,
                    scopes: vec![],
                    curried: 0,
                };
                self.called.insert(key.clone());
                let v = id(&name);
                self.sh.lifted.push(fi);
                if h == "JvpFn" {
                    self.sh.jvp_variants.insert(name, key);
                    parse_quote!(JvpFn::#v)
                } else {
                    self.sh.act_variants.insert(name, key);
                    parse_quote!(ActFn::#v)
                }
            }
            _ => {
                self.bad("closure");
                parse_quote!(())
            }
        }
    }
    /// Specification text of a scalar expression (checked by the verifier against the body).
    fn spec_of(&self, e: &Expr) -> Option<String> {
        use BinOp::*;
        Some(match e {
            Expr::Paren(p) => self.spec_of(&p.expr)?,
            Expr::Path(p) => p.path.get_ident()?.to_string(),
            Expr::Unary(u) => match u.op {
                UnOp::Neg(_) => format!("t_neg({})", self.spec_of(&u.expr)?),
                UnOp::Deref(_) => self.spec_of(&u.expr)?,
                UnOp::Not(_) => format!("!({})", self.spec_of(&u.expr)?),
                _ => return None,
            },
            Expr::Binary(b) => {
                let (l, r) = (self.spec_of(&b.left)?, self.spec_of(&b.right)?);
                match b.op {
                    Add(_) => format!("t_add({l}, {r})"),
                    Sub(_) => format!("t_sub({l}, {r})"),
                    Mul(_) => format!("t_mul({l}, {r})"),
                    Lt(_) => format!("t_lt({l}, {r})"),
                    Gt(_) => format!("t_gt({l}, {r})"),
                    Le(_) => format!("t_le({l}, {r})"),
                    Ge(_) => format!("t_ge({l}, {r})"),
                    Eq(_) => format!("t_eq({l}, {r})"),
                    Ne(_) => format!("!t_eq({l}, {r})"),
                    And(_) => format!("({l} && {r})"),
                    Or(_) => format!("({l} || {r})"),
                    _ => return None,
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last()?.ident.to_string();
                    if c.args.is_empty() && (n == "zero" || n == "one") {
                        return Some(format!("t_{n}()"));
                    }
                }
                return None;
            }
            Expr::MethodCall(m) => {
                let r = self.spec_of(&m.receiver)?;
                let n = m.method.to_string();
                match (n.as_str(), m.args.len()) {
                    ("neg" | "tanh" | "abs", 0) => format!("t_{n}({r})"),
                    ("add" | "sub" | "mul", 1) => format!("t_{n}({r}, {})", self.spec_of(&m.args[0])?),
                    ("clone", 0) => r,
                    ("powi", 1) => match &m.args[0] {
                        Expr::Lit(l) => format!("t_powi({r}, {})", l.to_token_stream()),
                        _ => return None,
                    },
                    _ => return None,
                }
            }
            Expr::If(i) => {
                let c = self.spec_of(&i.cond)?;
                let t = self.spec_blk(&i.then_branch)?;
                let e = match &i.else_branch {
                    Some((_, e)) => self.spec_of(e)?,
                    None => return None,
                };
                format!("(if {c} {{ {t} }} else {{ {e} }})")
            }
            Expr::Block(b) => self.spec_blk(&b.block)?,
            _ => return None,
        })
    }
    fn spec_blk(&self, b: &Block) -> Option<String> {
        let b = crate::inline::unreturn(b)?;
        let (tail, lets) = b.stmts.split_last()?;
        let t = match tail {
            Stmt::Expr(e, None) => self.spec_of(e)?,
            _ => return None,
        };
        let mut out = String::new();
        for s in lets {
            match s {
                Stmt::Local(Local { pat: Pat::Ident(p), init: Some(i), .. }) if i.diverge.is_none() && p.mutability.is_none() => {
                    out.push_str(&format!("let {} = {}; ", p.ident, self.spec_of(&i.expr)?));
                }
                _ => return None,
            }
        }
        Some(if out.is_empty() { t } else { format!("({{ {out}{t} }})") })
    }
    fn lower_if(&mut self, i: &ExprIf, exp: Option<Type>) -> Expr {
        self.scopes.push(HashMap::new());
        let c = self.lower_e(&i.cond, None);
        let t = self.lower_block_exp(&i.then_branch, exp.clone(), false);
        self.scopes.pop();
        let e = i.else_branch.as_ref().map(|(_, e)| self.lower_e(e, exp));
        match e {
            Some(e @ (Expr::If(_) | Expr::Block(_))) => parse_quote!(if #c #t else #e),
            Some(e) => parse_quote!(if #c #t else { #e }),
            None => parse_quote!(if #c #t),
        }
    }
    fn lower_match(&mut self, m: &ExprMatch, exp: Option<Type>) -> Expr {
        let t = self.infer(&m.expr);
        let x = self.lower_e(&m.expr, None);
        let mut arms: Vec<Arm> = vec![];
        for a in &m.arms {
            self.scopes.push(HashMap::new());
            self.bind_names(&a.pat, t.clone());
            let p = self.clean_pat(&a.pat);
            let p = fix_pat(&p);
            let g = a.guard.as_ref().map(|(i, g)| (*i, Box::new(self.lower_e(g, None))));
            let hinted = |h: &str| self.contract.hints.keys().any(|k| k.starts_with("before ") || k.starts_with("after ")) && h.is_empty();
            let b = match unparen(&a.body) {
                // calls in the arm get their hints inside the arm
                e @ (Expr::Call(_) | Expr::MethodCall(_)) if hinted("") => {
                    let blk: Block = parse_quote!({ #e });
                    let b = self.lower_block_exp(&blk, exp.clone(), false);
                    match b.stmts.as_slice() {
                        [Stmt::Expr(e, None)] => e.clone(),
                        _ => Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }),
                    }
                }
                _ => self.lower_e(&a.body, exp.clone()),
            };
            self.scopes.pop();
            arms.push(Arm {
                attrs: vec![],
                pat: p,
                guard: g,
                fat_arrow_token: Default::default(),
                body: Box::new(b),
                comma: Some(Default::default()),
            });
        }
        parse_quote!(match #x { #(#arms)* })
    }
    fn lower_while(&mut self, w: &ExprWhile) -> Expr {
        if w.label.is_some() {
            self.bad("labelled loop");
        }
        let k = self.loops;
        self.loops += 1;
        let mut pre = self.hint(&format!("loop{k} pre"));
        let mut st = vec![self.inv_marker(k)];
        let out: Expr = if let Expr::Let(l) = &*w.cond {
            self.kinds.push("whilelet".into());
            self.scopes.push(HashMap::new());
            let t = self.infer(&l.expr);
            let x = self.lower_e(&l.expr, None);
            self.bind_names(&l.pat, t);
            st.extend(self.hint(&format!("loop{k} begin")));
            let b = self.lower_block(&w.body);
            self.scopes.pop();
            let p = self.clean_pat(&l.pat);
            st.push(parse_quote!(if let #p = #x #b else { break; }));
            st.extend(self.hint(&format!("loop{k} end")));
            parse_quote!(loop { #(#st)* })
        } else {
            self.kinds.push("while".into());
            let c = self.lower_e(&w.cond, None);
            st.extend(self.hint(&format!("loop{k} begin")));
            let b = self.lower_block(&w.body);
            st.extend(b.stmts);
            st.extend(self.hint(&format!("loop{k} end")));
            parse_quote!(while #c { #(#st)* })
        };
        let after = self.hint(&format!("loop{k} after"));
        if pre.is_empty() && after.is_empty() {
            out
        } else {
            pre.push(Stmt::Expr(out, None));
            pre.extend(after);
            parse_quote!({ #(#pre)* })
        }
    }
    fn tensor_ty(&self, e: &Expr) -> Option<String> {
        let t = strip(&self.infer(e)?);
        let h = head(&t);
        if TENSORS.contains(&h.as_str()) {
            Some(h)
        } else {
            None
        }
    }
    fn op_arg(&mut self, op: &str, recv: Option<String>, a: &Expr) -> Expr {
        let t = self.infer(a);
        let l = self.lower_e(a, None);
        if op == "neg" {
            return l;
        }
        let val = matches!(&t, Some(t) if !is_ref(t));
        if op != "mul" && val && recv.as_deref() == Some("RcTensor") {
            return l;
        }
        if recv.as_deref() == Some("RawTensor") && op != "mul" {
            return l;
        }
        parse_quote!(&*(#l))
    }
    fn lower_binary(&mut self, b: &ExprBinary) -> Expr {
        use BinOp::*;
        if self.lower_assign_like(b) {
            let e = Expr::Binary(b.clone());
            let s = self.lower_assign_stmt(&e).unwrap();
            return parse_quote!({ #(#s)* });
        }
        let opname = match b.op {
            Add(_) => "add",
            Sub(_) => "sub",
            Mul(_) => "mul",
            _ => "",
        };
        if !opname.is_empty() {
            if let Some(h) = self.tensor_ty(&b.left) {
                let l = self.lower_e(&b.left, None);
                let r = self.op_arg(opname, Some(h.clone()), &b.right);
                let o = id(opname);
                self.note_call(opname);
                self.called.insert(format!("op {h} {opname}"));
                return parse_quote!((#l).#o(#r));
            }
        }
        if matches!(b.op, Eq(_) | Ne(_)) {
            let tl = self.infer(&b.left).map(|t| strip(&t));
            let tr = self.infer(&b.right).map(|t| strip(&t));
            let hs: Vec<String> = [&tl, &tr].iter().filter_map(|t| t.as_ref().map(head)).collect();
            let neg = matches!(b.op, Ne(_));
            let wrap = |e: Expr| -> Expr { if neg { parse_quote!(!(#e)) } else { e } };
            if hs.iter().any(|h| h == "Vec") {
                let x = self.as_ref_expr(&b.left);
                let y = self.as_ref_expr(&b.right);
                let f = if [&tl, &tr].iter().any(|t| t.as_ref().map(tstr).as_deref() == Some("Vec<T>")) { id("vx_vec_eq_t") } else { id("vx_vec_eq") };
                self.note_call("vec_eq");
                return wrap(parse_quote!(#f(#x, #y)));
            }
            if hs.iter().any(|h| h == "Result") {
                let x = self.lower_e(&b.left, None);
                let y = self.lower_e(&b.right, None);
                self.note_call("res_eq");
                return wrap(parse_quote!(vx_res_eq(#x, #y)));
            }
            if hs.iter().any(|h| TENSORS.contains(&h.as_str())) {
                let x = self.as_ref_expr(&b.left);
                let y = self.as_ref_expr(&b.right);
                return wrap(parse_quote!((#x).eq(#y)));
            }
        }
        let l = self.deref_operand(&b.left);
        let r = self.deref_operand(&b.right);
        Expr::Binary(ExprBinary { attrs: vec![], left: Box::new(l), op: b.op, right: Box::new(r) })
    }
    fn lower_assign_like(&self, b: &ExprBinary) -> bool {
        use BinOp::*;
        matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_))
    }
    fn lower_struct(&mut self, s: &ExprStruct) -> Expr {
        let t = self.lty(&Type::Path(TypePath { qself: None, path: s.path.clone() }));
        let h = head(&t);
        let mut fields: Vec<TokenStream2> = vec![];
        for f in &s.fields {
            let n = f.member.to_token_stream();
            let ft = self.field_ty(&t, &n.to_string());
            let e = if let (Expr::MethodCall(m), Some(ft)) = (unparen(&f.expr), &ft) {
                if m.method == "into" && m.args.is_empty() {
                    let x = self.lower_e(&m.receiver, None);
                    match head(ft).as_str() {
                        "Arc" => parse_quote!(Arc::new(#x)),
                        "GradCell" => parse_quote!(GradCell::new(#x)),
                        _ => x,
                    }
                } else {
                    self.lower_e(&f.expr, Some(ft.clone()))
                }
            } else {
                self.lower_e(&f.expr, ft.clone())
            };
            // the token-carrying constructor in functions that hold the gradient token
            let e = if self.heap && ft.as_ref().map(head).as_deref() == Some("GradCell") {
                match &e {
                    Expr::Call(c) if c.func.to_token_stream().to_string() == "GradCell :: new" => {
                        let a = &c.args[0];
                        parse_quote!(GradCell::new_h(#a, Tracked(vx_h)))
                    }
                    _ => e,
                }
            } else {
                e
            };
            fields.push(quote!(#n: #e));
        }
        let hid = id(&h);
        if let Some(r) = &s.rest {
            let r = self.lower_e(r, None);
            let r: Expr = if quote!(#r).to_string().starts_with("Default :: default") {
                match self.birth(&format!("<{h} as Default>::default")) {
                    Some(k) => {
                        self.called.insert(k);
                        parse_quote!(#hid::default_h(Tracked(vx_h)))
                    }
                    None => parse_quote!(#hid::default()),
                }
            } else {
                r
            };
            parse_quote!(#hid { #(#fields,)* ..#r })
        } else {
            parse_quote!(#hid { #(#fields),* })
        }
    }
    /// A function that has no contract (a helper the tree did not have when the contracts were written) is
    /// replaced by its body where it is called: its parameters become `let`s, its returns tail values.
    fn try_inline(&mut self, f: &FnInfo, recv: Option<&Expr>, args: &punctuated::Punctuated<Expr, Token![,]>, exp: Option<Type>) -> Option<Expr> {
        let pre = format!("{}$", f.key);
        if self.sh.contracts.contains_key(&f.key) || self.sh.contracts.keys().any(|k| k.starts_with(&pre)) {
            return None;
        }
        if f.trait_name.is_some() || f.lifted || f.curried > 0 || !f.scopes.is_empty() || f.key.starts_with("TensorLike::") || self.inlining.len() > 3 || self.inlining.contains(&f.key) {
            return None;
        }
        if f.has_self != recv.is_some() || f.params.len() != args.len() {
            return None;
        }
        let mut body = crate::inline::unreturn(f.block.as_ref()?)?;
        let mut names = BTreeSet::new();
        crate::inline::idents(body.to_token_stream(), &mut names);
        let hd = |t: &Option<Type>| t.as_ref().map(|t| head(&strip(t)));
        if names.contains("Self") && hd(&f.self_ty) != hd(&self.fi.self_ty) {
            return None;
        }
        if f.gmap.iter().any(|g| names.contains(&g.0) && !self.fi.gmap.iter().any(|h| h.0 == g.0)) {
            return None;
        }
        let typed: Vec<&PatType> = f.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some(t) } else { None }).collect();
        if typed.len() != f.params.len() {
            return None;
        }
        let mut lets: Vec<Stmt> = vec![];
        let mut used = BTreeSet::new();
        if let Some(r) = recv {
            let n = ident_of(r);
            let isref = self.infer(r).map_or(false, |t| is_ref(&t));
            match n {
                _ if !f.self_by_ref => {
                    if isref || n.as_deref() == Some("self") {
                        return None;
                    }
                    let v = self.fresh("r");
                    if f.sig.receiver().map_or(false, |r| r.mutability.is_some()) {
                        lets.push(parse_quote!(let mut #v = #r;));
                    } else {
                        lets.push(parse_quote!(let #v = #r;));
                    }
                    RenId("self", &v.to_string()).visit_block_mut(&mut body);
                }
                Some(n) if n == "self" => {}
                Some(n) if isref || f.self_mut => RenId("self", &n).visit_block_mut(&mut body),
                _ => {
                    if f.self_mut {
                        return None;
                    }
                    let v = self.fresh("r");
                    if isref {
                        lets.push(parse_quote!(let #v = #r;));
                    } else {
                        lets.push(parse_quote!(let #v = &#r;));
                    }
                    RenId("self", &v.to_string()).visit_block_mut(&mut body);
                }
            }
        }
        for (i, (n, t, er)) in f.params.iter().enumerate() {
            if *er || head(t) == "VxRange" {
                return None;
            }
            let a = &args[i];
            let (pn, m) = match &*typed[i].pat {
                Pat::Ident(pi) if pi.subpat.is_none() && pi.by_ref.is_none() => (pi.ident.clone(), pi.mutability.is_some()),
                _ => return None,
            };
            if pn != n.as_str() {
                return None;
            }
            let mut ai = BTreeSet::new();
            crate::inline::idents(a.to_token_stream(), &mut ai);
            let mut pn2 = pn.clone();
            if ai.iter().any(|x| used.contains(x)) {
                return None;
            }
            if !m && ident_of(a).map_or(false, |x| pn == x.as_str()) {
                used.insert(pn.to_string());
                continue;
            }
            if ai.contains(&pn.to_string()) {
                // let p = &p; would shadow its own source
                pn2 = self.fresh("a");
                RenId(&pn.to_string(), &pn2.to_string()).visit_block_mut(&mut body);
            }
            used.insert(pn2.to_string());
            let src = &typed[i].ty;
            let plain = f.gmap.is_empty() && !src.to_token_stream().to_string().contains("Self") && !src.to_token_stream().to_string().contains("impl") && !matches!(&**src, Type::Reference(_));
            let plain = plain || ["JvpFn", "ActFn", "OpFn1", "OpFn2"].contains(&head(t).as_str());
            match (m, plain) {
                (true, true) => lets.push(parse_quote!(let mut #pn2: #src = #a;)),
                (true, false) => lets.push(parse_quote!(let mut #pn2 = #a;)),
                (false, true) => lets.push(parse_quote!(let #pn2: #src = #a;)),
                (false, false) => lets.push(parse_quote!(let #pn2 = #a;)),
            }
        }
        let bs = &body.stmts;
        let blk: Block = parse_quote!({ #(#lets)* #(#bs)* });
        self.inlining.push(f.key.clone());
        let exp = exp.or_else(|| f.ret.clone());
        let b = self.lower_block_exp(&blk, exp, false);
        self.inlining.pop();
        Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }))
    }
    fn lower_call(&mut self, c: &ExprCall, exp: Option<Type>) -> Expr {
        // (self.f)(..) through a stored function value
        if let Expr::Field(_) = unparen(&c.func) {
            let t = self.infer(&c.func).map(|t| head(&t)).unwrap_or_default();
            if t == "JvpFn" || t == "ActFn" {
                let f = self.lower_e(unparen(&c.func), None);
                let args = self.lower_args(&c.args, None);
                self.note_call("call");
                return parse_quote!(#f.call(#(#args),*));
            }
        }
        if let Expr::Path(p) = unparen(&c.func) {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let last = segs.last().unwrap().clone();
            if segs.len() >= 2 && c.args.len() == 2 && (last == "ptr_eq" || last == "eq" && segs[segs.len() - 2] == "ptr") {
                // one address: one value
                let a = self.lower_e(&c.args[0], None);
                let b = self.lower_e(&c.args[1], None);
                self.note_call("ptr_eq");
                return parse_quote!(vx_ptr_eq(#a, #b));
            }
            if segs.len() >= 2 && segs[segs.len() - 2] == "mem" && ["swap", "replace"].contains(&last.as_str()) {
                let a = self.lower_e(&c.args[0], None);
                let b = self.lower_e(&c.args[1], None);
                self.note_call(&last);
                let n = id(&format!("vx_mem_{last}"));
                return parse_quote!(#n(#a, #b));
            }
            if last == "in_place_scope" || last == "scope" {
                if let Expr::Closure(cl) = unparen(&c.args[0]) {
                    if let Some(Pat::Ident(pi)) = cl.inputs.first() {
                        self.rscopes.insert(pi.ident.to_string());
                    }
                    self.rdepth += 1;
                    let b = self.lower_e(&cl.body, None);
                    self.rdepth -= 1;
                    if self.contract.chan || self.contract.chanroot {
                        // tasks of the section are done when it ends
                        let v = self.fresh("pd");
                        let (t1, t2) = (self.chan_tok(), self.chan_tok());
                        return parse_quote!({ let #v = vx_scope_begin(#t1); #b; vx_scope_end(#t2, #v); });
                    }
                    return b;
                }
            }
            if segs.len() == 1 {
                if let Some((recv, f)) = self.writers.get(&last).cloned() {
                    let mut args: Vec<Expr> = c.args.iter().map(|a| self.lower_e(a, None)).collect();
                    self.called.insert(f.key.clone());
                    self.note_call(&f.sig.ident.to_string());
                    self.chan_args(&f, Some(&recv), &mut args);
                    let r = self.lower_e(&recv, None);
                    let n = id(&f.name);
                    return parse_quote!(#r.#n(#(#args),*));
                }
                if let Some(cl) = self.closures.get(&last).cloned() {
                    // inline a local closure
                    let mut out = vec![];
                    self.scopes.push(HashMap::new());
                    let mut args = vec![];
                    for a in &c.args {
                        args.push((Item_::Val(self.lower_e(a, None)), self.infer(a)));
                    }
                    let saved = self.closures.remove(&last);
                    let (e, _) = self.apply(&Expr::Closure(cl), args, &mut out);
                    if let Some(s) = saved {
                        self.closures.insert(last, s);
                    }
                    self.scopes.pop();
                    return parse_quote!({ #(#out)* #e });
                }
            }
            if last == "Ok" || last == "Some" || last == "Err" {
                let et = exp.as_ref().and_then(arg0);
                let a = self.lower_e(&c.args[0], et);
                let f = &c.func;
                return parse_quote!(#f(#a));
            }
            if segs.len() >= 2 && segs[segs.len() - 2] == "Arc" && last == "clone" {
                let a = self.lower_e(&c.args[0], None);
                return parse_quote!((#a).clone());
            }
        }
        let fi = self.resolve(&c.func).map(|x| x.0);
        if let Some(f) = &fi {
            if let Some(e) = self.try_inline(f, None, &c.args, exp.clone()) {
                return e;
            }
        }
        let mut callee = self.lower_callee(&c.func);
        let mut args = self.lower_args(&c.args, fi.as_ref());
        let born = fi.as_ref().map_or(None, |f| self.birth(&f.key));
        if let (Some(k), Expr::Path(p)) = (born, &mut callee) {
            self.called.insert(k);
            let last = p.path.segments.last_mut().unwrap();
            last.ident = id(&format!("{}_h", last.ident));
            args.push(parse_quote!(Tracked(vx_h)));
        }
        if let Some(f) = &fi {
            self.note_call(&f.sig.ident.to_string());
            self.heap_arg(&f.sig.ident.to_string(), &mut args);
            self.chan_args(f, None, &mut args);
        }
        parse_quote!(#callee(#(#args),*))
    }
    fn lower_method(&mut self, m: &ExprMethodCall, exp: Option<Type>) -> Expr {
        let name = m.method.to_string();
        // lock patterns
        if name == "clone" || name == "as_ref" {
            if let Some((cell, false)) = self.lock_expr(&m.receiver) {
                let r = self.read_cell(&cell);
                return if name == "clone" { r } else { parse_quote!(#r.as_ref()) };
            }
        }
        if let Some((_, w)) = self.lock_expr(&Expr::MethodCall(m.clone())) {
            if w {
                self.effects.push("write".into());
                self.bad("lock used as a temporary");
            }
        }
        if name == "for_each" && m.args.len() == 1 {
            self.scopes.push(HashMap::new());
            let v = self.lower_for_each(m);
            self.scopes.pop();
            if let Some(v) = v {
                return parse_quote!({ #(#v)* });
            }
        }
        // a method of one of the crate's own types comes before anything of that name in the standard library
        if let Some(t) = self.infer(&m.receiver).map(|t| strip(&t)) {
            if self.sh.model.structs.contains_key(&head(&t)) {
                if let Some(f) = self.find_method(&t, &name) {
                    if f.trait_name.is_none() && !self.sh.contracts.contains_key(&f.key) {
                        if let Some(e) = self.try_inline(&f, Some(&m.receiver), &m.args, exp.clone()) {
                            return e;
                        }
                        self.called.insert(f.key.clone());
                    }
                }
            }
        }
        if let Some(e) = self.combinator(m) {
            return self.lower_e(&e, exp);
        }
        if let Some(e) = self.lower_terminal(m, exp.clone()) {
            return e;
        }
        if let Some(n) = ident_of(&m.receiver) {
            if self.regions.contains_key(&n) {
                if name == "len" {
                    let (lo, hi) = (id(&format!("{n}_lo")), id(&format!("{n}_hi")));
                    return parse_quote!((#hi - #lo));
                }
                self.bad("method of a mutable slice");
            }
        }
        let rt = self.infer(&m.receiver);
        let r = rt.as_ref().map(strip);
        let h = r.as_ref().map(head).unwrap_or_default();
        // scope.spawn(..) runs in place (R7)
        if name == "spawn" {
            if let Some(n) = ident_of(&m.receiver) {
                if self.rscopes.contains(&n) {
                    if let Expr::Closure(cl) = unparen(&m.args[0]) {
                        if let Some(Pat::Ident(pi)) = cl.inputs.first() {
                            self.rscopes.insert(pi.ident.to_string());
                        }
                        let b = self.lower_e(&cl.body, None);
                        return match b {
                            Expr::Block(_) => b,
                            b => parse_quote!({ #b; }),
                        };
                    }
                }
            }
        }
        if name == "send" && h == "VxTx" {
            let x = self.lower_e(&m.receiver, None);
            let a = self.lower_e(&m.args[0], None);
            let tk = self.chan_tok();
            self.note_call("send");
            return parse_quote!(#x.send(#a, #tk));
        }
        if name == "clone" && r.as_ref().map(tstr).map_or(false, |s| s.starts_with("Option<Arc<Vec<VxTx")) {
            let x = self.lower_e(&m.receiver, None);
            return parse_quote!(vx_clone_senders(&#x));
        }
        if name == "deref" && m.args.is_empty() {
            if self.erased(&m.receiver) {
                return self.lower_e(&m.receiver, None);
            }
            if h == "Arc" {
                let x = self.lower_e(&m.receiver, None);
                return parse_quote!((&*#x));
            }
            if h == "Vec" {
                return self.lower_e(&m.receiver, None);
            }
            // a reference to one of the smart pointers that became references
            if let (Some(Type::Reference(o)), Expr::Path(_)) = (&rt, unparen(&m.receiver)) {
                if matches!(&*o.elem, Type::Reference(_)) && self.fi.gmap.iter().any(|g| g.0 == h) {
                    let x = self.lower_e(&m.receiver, None);
                    return parse_quote!((*#x));
                }
            }
        }
        if name == "next" && (h == "VecRevIter" || h == "VecIter") {
            let x = self.lower_e(&m.receiver, None);
            return if h == "VecRevIter" { parse_quote!(#x.pop()) } else { parse_quote!(vx_pop_front(&mut #x)) };
        }
        if name == "into_iter" && h == "Vec" {
            // only as the value of an `impl Iterator` function
            return self.lower_e(&m.receiver, None);
        }
        if name == "to_vec" {
            if let Expr::Index(i) = unparen(&m.receiver) {
                if let Expr::Range(rg) = unparen(&i.index) {
                    let b = self.as_ref_expr(&i.expr);
                    let s: Expr = rg.start.as_ref().map(|e| self.lower_e(e, None)).unwrap_or(parse_quote!(0));
                    let e: Expr = match &rg.end { Some(e) => self.lower_e(e, None), None => parse_quote!((#b).len()) };
                    return parse_quote!(vx_subvec(#b, #s, #e));
                }
            }
            if h == "Vec" {
                let x = self.lower_e(&m.receiver, None);
                // an owned array of generic elements: the copy is the array itself (R: derived clone is the identity)
                if let Some(t) = r.as_ref().and_then(arg0) {
                    if self.fi.gmap.iter().any(|g| g.0 == head(&t) && matches!(g.1, GKind::FromSrc)) {
                        return x;
                    }
                }
                return parse_quote!(#x.clone());
            }
        }
        if name == "extend" && (h == "Vec" || h.is_empty()) && m.args.len() == 1 {
            let a = &m.args[0];
            let at = self.infer(a);
            // a bare local of unknown type: the verifier's type checker rejects it unless it is a Vec
            let unknown = at.as_ref().map_or(true, |t| head(t) == "_" || head(t).is_empty()) && matches!(a, Expr::Path(_));
            if unknown || at.as_ref().map_or(false, |t| head(t) == "Vec") {
                let x = self.lower_e(&m.receiver, None);
                let a = self.lower_e(a, None);
                self.note_call("extend");
                return parse_quote!(vx_extend(&mut #x, #a));
            }
            let recv = m.receiver.clone();
            let mut setup = vec![];
            if let Some(c) = self.cursor(a, &mut setup) {
                let out = self.build_loop(c, setup, &mut |me, item, _t, out| {
                    let e = me.item_expr(item);
                    let x = me.lower_e(&recv, None);
                    out.push(parse_quote!(#x.push(#e);));
                });
                return parse_quote!({ #(#out)* });
            }
            self.bad("extend");
        }
        if name == "fill" && m.args.len() == 1 {
            let (base, range) = match unparen(&m.receiver) {
                Expr::Index(i) => match unparen(&i.index) {
                    Expr::Range(rg) if matches!(rg.limits, RangeLimits::HalfOpen(_)) => ((*i.expr).clone(), Some(rg.clone())),
                    _ => (m.receiver.as_ref().clone(), None),
                },
                e => (e.clone(), None),
            };
            let bt = self.infer(&base);
            if bt.as_ref().map(|t| head(&strip(t))).as_deref() == Some("Vec") {
                let l = self.lower_e(&base, None);
                let r = bt.as_ref().map_or(false, is_ref);
                let b: Expr = if r { parse_quote!(#l) } else { parse_quote!(&mut #l) };
                let s: Expr = range.as_ref().and_then(|r| r.start.as_ref()).map(|e| self.lower_e(e, None)).unwrap_or(parse_quote!(0));
                let e: Expr = match range.as_ref().and_then(|r| r.end.as_ref()) { Some(e) => self.lower_e(e, None), None => parse_quote!((#l).len()) };
                let v = self.lower_e(&m.args[0], None);
                self.note_call("fill");
                return parse_quote!({ let vx_lo: usize = #s; let vx_hi: usize = #e; vx_fill(#b, vx_lo, vx_hi, #v) });
            }
            self.bad("fill");
        }
        if name == "contains" && h == "Vec" {
            let b = self.as_ref_expr(&m.receiver);
            let a = self.lower_e(&m.args[0], None);
            return parse_quote!(vx_contains(#b, #a));
        }
        if name == "clone" && h == "RawTensor" && self.heap {
            let x = self.lower_e(&m.receiver, None);
            self.called.insert("<RawTensor as Clone>::clone".into());
            self.note_call("clone_h");
            return parse_quote!(#x.clone_h(Tracked(vx_h)));
        }
        if ["push", "len", "is_empty", "unwrap", "is_some", "is_none", "remove", "as_ref", "extend_from_slice", "pop", "swap", "truncate", "clear", "insert", "is_ok", "is_err", "expect"].contains(&name.as_str())
            && !(name == "len" && TENSORS.contains(&h.as_str()))
        {
            let x = self.lower_e(&m.receiver, None);
            let et = if name == "push" { r.as_ref().and_then(arg0) } else { None };
            let args: Vec<Expr> = m.args.iter().map(|a| self.lower_e(a, et.clone())).collect();
            let n = id(if name == "expect" || name == "unwrap" { "vx_unwrap" } else { &name });
            let args = if name == "expect" { vec![] } else { args };
            return parse_quote!(#x.#n(#(#args),*));
        }
        // provided TensorLike methods are free functions
        let prov = format!("TensorLike::{name}");
        if let Some(fi) = self.sh.model.fns.get(&prov).cloned() {
            let overridden = self.sh.model.fns.values().any(|f| {
                f.sig.ident == name && f.trait_name.as_deref() == Some("TensorLike") && f.self_ty.as_ref().map(|t| head(&strip(t))) == Some(h.clone())
            });
            if !overridden {
                self.called.insert(prov.clone());
                let x = self.recv_ref(&m.receiver);
                let mut args = vec![x];
                args.extend(self.lower_args(&m.args, Some(&fi)));
                self.heap_arg(&name, &mut args);
                let n = id(&fi.name);
                self.note_call(&name);
                return parse_quote!(#n(#(#args),*));
            }
        }
        if ["add", "sub", "mul"].contains(&name.as_str()) && TENSORS.contains(&h.as_str()) && m.args.len() == 1 {
            let x = self.lower_e(&m.receiver, None);
            let a = self.op_arg(&name, Some(h.clone()), &m.args[0]);
            let n = id(&name);
            self.note_call(&name);
            self.called.insert(format!("op {h} {name}"));
            return parse_quote!(#x.#n(#a));
        }
        let fi = r.as_ref().and_then(|t| self.find_method(t, &name));
        if let Some(f) = &fi {
            if let Some(e) = self.try_inline(f, Some(&m.receiver), &m.args, exp.clone()) {
                return e;
            }
        }
        if let Some(f) = &fi {
            self.called.insert(f.key.clone());
            if f.trait_name.as_deref() == Some("TensorLike") && self.fi.gmap.iter().any(|g| g.0 == h) {
                self.called.insert(format!("dyn {name}"));
            }
        } else if h == "RcTensor" && name == "clone" {
        } else if !["clone", "tanh", "abs", "powi", "neg", "split_at_mut", "deref", "requires", "ensures"].contains(&name.as_str()) {
            self.called.insert(format!("? {name}"));
        }
        let x = self.lower_e(&m.receiver, None);
        let mut args = self.lower_args(&m.args, fi.as_ref());
        self.note_call(&name);
        if fi.is_some() || ["grad", "get_grad"].contains(&name.as_str()) {
            self.heap_arg(&name, &mut args);
        }
        if let Some(f) = &fi {
            if f.curried > 0 {
                self.bad("closure returned by a call used in place");
            }
            self.chan_args(f, Some(&m.receiver), &mut args);
        }
        let n = id(&name);
        parse_quote!(#x.#n(#(#args),*))
    }
}
type TokenStream2 = proc_macro2::TokenStream;

fn fix_pat(p: &Pat) -> Pat {
    // Both/Left/Right come from the prelude's EitherOrBoth
    if let Pat::TupleStruct(t) = p {
        if let Some(i) = t.path.get_ident() {
            if ["Both", "Left", "Right"].contains(&i.to_string().as_str()) {
                let mut t = t.clone();
                let i = i.clone();
                t.path = parse_quote!(EitherOrBoth::#i);
                return Pat::TupleStruct(t);
            }
        }
    }
    p.clone()
}

/// names that are assigned from `split_at_mut` (rule R8: a mutable slice is a range of its vector)
fn region_scan(b: &Block) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'ast> syn::visit::Visit<'ast> for V {
        fn visit_expr_assign(&mut self, a: &'ast ExprAssign) {
            if let (Expr::Tuple(t), Expr::MethodCall(m)) = (&*a.left, unparen(&a.right)) {
                if m.method == "split_at_mut" {
                    t.elems.iter().for_each(|e| {
                        if let Some(n) = ident_of(e) {
                            self.0.insert(n);
                        }
                    });
                    if let Some(n) = ident_of(&m.receiver) {
                        self.0.insert(n);
                    }
                }
            }
            syn::visit::visit_expr_assign(self, a);
        }
        fn visit_local(&mut self, l: &'ast Local) {
            if let Some(i) = &l.init {
                if let (Pat::Tuple(t), Expr::MethodCall(m)) = (&l.pat, unparen(&i.expr)) {
                    if m.method == "split_at_mut" {
                        for p in &t.elems {
                            if let Pat::Ident(pi) = p {
                                self.0.insert(pi.ident.to_string());
                            }
                        }
                        if let Some(n) = ident_of(&m.receiver) {
                            self.0.insert(n);
                        }
                    }
                }
            }
            syn::visit::visit_local(self, l);
        }
    }
    let mut v = V(Default::default());
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

pub enum VecLit {
    List(Vec<Expr>),
    Rep(Expr, Expr),
}
pub fn parse_vec(mac: &Macro) -> Option<VecLit> {
    if let Ok(l) = mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
        return Some(VecLit::List(l.into_iter().collect()));
    }
    mac.parse_body_with(|i: parse::ParseStream| {
        let a: Expr = i.parse()?;
        i.parse::<Token![;]>()?;
        let b: Expr = i.parse()?;
        Ok(VecLit::Rep(a, b))
    })
    .ok()
}

/// iter::repeat_with(F) where F makes a channel: Some(None) unbounded, Some(Some(c)) room for c messages
fn made_by(e: &Expr) -> Option<Option<Expr>> {
    let c = match unparen(e) {
        Expr::Call(c) if c.args.len() == 1 => c,
        _ => return None,
    };
    let last = |e: &Expr| match unparen(e) {
        Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        _ => None,
    };
    if last(&c.func).as_deref() != Some("repeat_with") {
        return None;
    }
    match unparen(&c.args[0]) {
        Expr::Closure(k) if k.inputs.is_empty() => {
            let mut body = &*k.body;
            while let Expr::Block(b) = unparen(body) {
                match b.block.stmts.as_slice() {
                    [syn::Stmt::Expr(e, None)] => body = e,
                    _ => return None,
                }
            }
            match unparen(body) {
                Expr::Call(c) => match (last(&c.func).as_deref(), c.args.len()) {
                    (Some("unbounded"), 0) => Some(None),
                    (Some("bounded"), 1) => Some(Some(c.args[0].clone())),
                    _ => None,
                },
                _ => None,
            }
        }
        e if last(e).as_deref() == Some("unbounded") => Some(None),
        _ => None,
    }
}
