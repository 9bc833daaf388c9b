//! Reads /repo/src and builds an index of the items that can be verified.
use quote::ToTokens;
use std::collections::{BTreeMap, HashMap};
use syn::*;

#[derive(Clone, Debug)]
pub enum GKind {
    Elem,          // T: Numeric, the one opaque element type
    DerefTo(Type), // U: Deref<Target = X>, passed as &X
    Keep,          // V: TensorLike, stays generic
    ModuleLike,    // U: Module<T>
    FromSrc,       // U in RawTensor<T>: From<U>
    Other,
}
pub type GMap = Vec<(String, GKind)>;

#[derive(Clone)]
pub struct FnInfo {
    pub key: String,
    pub name: String,      // emitted name
    pub self_ty: Option<Type>, // lowered self type (without reference)
    pub self_is_ref_impl: bool, // impl .. for &X
    pub trait_name: Option<String>,
    pub trait_args: Vec<Type>,
    pub gmap: GMap,
    pub assoc: BTreeMap<String, Type>,
    pub sig: Signature,
    pub block: Option<Block>,
    pub file: String,
    pub line: usize,
    pub params: Vec<(String, Type, bool)>, // lowered (name, type, was Deref-erased)
    pub ret: Option<Type>,
    pub has_self: bool,
    pub self_by_ref: bool,
    pub self_mut: bool,
    pub lifted: bool,
    pub scopes: Vec<String>, // parameters of type rayon::Scope
    pub curried: usize,      // number of parameters of the closure the function returns
}

#[derive(Clone)]
pub struct StructInfo {
    pub name: String,
    pub fields: Vec<(String, Type)>,
    pub tuple: bool,
    pub derives: Vec<String>,
    pub generics: Vec<String>,
    pub lifetime: bool,
    pub file: String,
}

#[derive(Default)]
pub struct Model {
    pub structs: BTreeMap<String, StructInfo>,
    pub fns: BTreeMap<String, FnInfo>,
    pub order: Vec<String>,
    pub skipped: Vec<(String, String)>,
    pub impl_assoc: HashMap<String, BTreeMap<String, Type>>, // TensorLike assoc types per type
    pub provided: Vec<String>,                               // names of provided TensorLike methods
    pub trait_methods: Vec<String>,
    pub derives: Vec<(String, String)>,
}

pub fn has_attr(attrs: &[Attribute], name: &str) -> bool {
    attrs.iter().any(|a| a.path().is_ident(name))
}
pub fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("test")
            || (a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test"))
    })
}
pub fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}

fn bound_names(bounds: &punctuated::Punctuated<TypeParamBound, Token![+]>) -> Vec<(String, Option<Type>)> {
    let mut v = vec![];
    for b in bounds {
        if let TypeParamBound::Trait(t) = b {
            let seg = t.path.segments.last().unwrap();
            let mut tgt = None;
            if let PathArguments::AngleBracketed(a) = &seg.arguments {
                for arg in &a.args {
                    if let GenericArgument::AssocType(at) = arg {
                        if at.ident == "Target" {
                            tgt = Some(at.ty.clone());
                        }
                    }
                }
            }
            v.push((seg.ident.to_string(), tgt));
        }
    }
    v
}

/// Classify the generic parameters of an impl or function by their bounds.
pub fn classify(generics: &[&Generics]) -> GMap {
    let mut bounds: Vec<(String, Vec<(String, Option<Type>)>)> = vec![];
    for g in generics {
        for p in &g.params {
            if let GenericParam::Type(tp) = p {
                bounds.push((tp.ident.to_string(), bound_names(&tp.bounds)));
            }
        }
    }
    let mut from_src: Vec<String> = vec![];
    for g in generics {
        if let Some(w) = &g.where_clause {
            for pr in &w.predicates {
                if let WherePredicate::Type(pt) = pr {
                    let nm = pt.bounded_ty.to_token_stream().to_string();
                    if let Some(e) = bounds.iter_mut().find(|e| e.0 == nm) {
                        e.1.extend(bound_names(&pt.bounds));
                    } else {
                        for b in &pt.bounds {
                            if let TypeParamBound::Trait(t) = b {
                                let seg = t.path.segments.last().unwrap();
                                if seg.ident == "From" {
                                    if let PathArguments::AngleBracketed(a) = &seg.arguments {
                                        from_src.push(a.args.to_token_stream().to_string());
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    let mut res: GMap = vec![];
    for (n, bs) in &bounds {
        let k = if let Some((_, Some(t))) = bs.iter().find(|b| b.0 == "Deref" && b.1.is_some()) {
            GKind::DerefTo(t.clone())
        } else if bs.iter().any(|b| b.0 == "TensorLike") {
            GKind::Keep
        } else if bs.iter().any(|b| b.0 == "Module") {
            GKind::ModuleLike
        } else if bs.iter().any(|b| b.0 == "Numeric" || b.0 == "FpNumeric" || b.0 == "Real") {
            GKind::Elem
        } else if from_src.contains(n) {
            GKind::FromSrc
        } else {
            GKind::Other
        };
        res.push((n.clone(), k));
    }
    res
}

pub fn ty(s: &str) -> Type {
    parse_str::<Type>(s).unwrap_or_else(|_| panic!("type {s}"))
}
pub fn tstr(t: &Type) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

pub struct TyCtx<'a> {
    pub gmap: &'a GMap,
    pub self_ty: Option<&'a Type>,
    pub assoc: &'a BTreeMap<String, Type>,
}

/// Rule R2/R3: erase the element type and the smart-pointer generics.
pub fn lower_type(t: &Type, c: &TyCtx) -> Type {
    match t {
        Type::Paren(p) => lower_type(&p.elem, c),
        Type::Group(p) => lower_type(&p.elem, c),
        Type::Reference(r) => {
            let inner = lower_type(&r.elem, c);
            let m = r.mutability;
            // & of an erased smart pointer is still a plain reference
            if let Type::Reference(ref r2) = inner {
                if m.is_none() && r2.mutability.is_none() && is_deref_generic(&r.elem, c) {
                    return inner;
                }
            }
            if m.is_some() {
                parse_quote!(&mut #inner)
            } else {
                parse_quote!(& #inner)
            }
        }
        Type::Slice(s) => {
            let e = lower_type(&s.elem, c);
            parse_quote!(Vec<#e>)
        }
        Type::Array(a) => {
            let e = lower_type(&a.elem, c);
            parse_quote!(Vec<#e>)
        }
        Type::Tuple(tt) => {
            let es: Vec<Type> = tt.elems.iter().map(|e| lower_type(e, c)).collect();
            parse_quote!(( #(#es),* ))
        }
        Type::BareFn(b) => {
            let n = b.inputs.len();
            let first = b.inputs.first().map(|i| tstr(&lower_type(&i.ty, c))).unwrap_or_default();
            match (n, first.as_str()) {
                (2, "Vec<RcTensor>") => ty("JvpFn"),
                (1, "RcTensor") => ty("ActFn"),
                (1, "T") => ty("OpFn1"),
                (2, "T") => ty("OpFn2"),
                _ => t.clone(),
            }
        }
        Type::Path(p) => lower_path(p, t, c),
        _ => t.clone(),
    }
}
fn is_deref_generic(t: &Type, c: &TyCtx) -> bool {
    if let Type::Path(p) = t {
        if let Some(i) = p.path.get_ident() {
            let i = i.to_string();
            return c.gmap.iter().any(|g| g.0 == i && matches!(g.1, GKind::DerefTo(_)));
        }
    }
    false
}
fn lower_path(p: &TypePath, t: &Type, c: &TyCtx) -> Type {
    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
    let last = p.path.segments.last().unwrap();
    let args: Vec<Type> = match &last.arguments {
        PathArguments::AngleBracketed(a) => a
            .args
            .iter()
            .filter_map(|x| if let GenericArgument::Type(t) = x { Some(lower_type(t, c)) } else { None })
            .collect(),
        _ => vec![],
    };
    if segs.len() == 1 && args.is_empty() {
        let n = &segs[0];
        if let Some((_, k)) = c.gmap.iter().find(|g| &g.0 == n) {
            return match k {
                GKind::Elem => ty("T"),
                GKind::DerefTo(x) => {
                    let x = lower_type(x, c);
                    parse_quote!(& #x)
                }
                _ => t.clone(),
            };
        }
        if n == "Self" {
            if let Some(s) = c.self_ty {
                return s.clone();
            }
        }
    }
    if segs.len() == 2 && segs[0] == "Self" {
        match segs[1].as_str() {
            "Elem" => return ty("T"),
            "GradType" => return ty("RcTensor"),
            "ShapeReturn" => return ty("&Vec<usize>"),
            _ => {}
        }
        if let Some(a) = c.assoc.get(&segs[1]) {
            return lower_type(a, c);
        }
    }
    if segs.last().unwrap() == "Vec" {
        if let PathArguments::AngleBracketed(a) = &last.arguments {
            if let Some(GenericArgument::Type(Type::Reference(r))) = a.args.first() {
                if r.mutability.is_some() && matches!(*r.elem, Type::Slice(_)) {
                    return ty("Vec<VxRange>");
                }
            }
        }
    }
    match segs.last().unwrap().as_str() {
        "TensorList" => ty("Vec<RcTensor>"),
        "Scalar" => ty("RcTensor"),
        "IndexType" => ty("&Vec<usize>"),
        "RwLock" => ty("GradCell"),
        "Sender" => ty("VxTx"),
        "Receiver" => ty("VxRx"),
        "SendError" => ty("VxSendError"),
        n @ ("RawTensor" | "RcTensor" | "TensorView" | "Derivative" | "SliceRange" | "View" | "Linear" | "Mlp") => ty(n),
        "ElementIterator" => {
            // ElementIterator<T, U, V>: holds a reference to V
            match args.last() {
                Some(v) => parse_quote!(ElementIterator<#v>),
                None => t.clone(),
            }
        }
        "SplitArrayWriter" => ty("SplitArrayWriter"),
        n => {
            let id = format_ident(n);
            if args.is_empty() {
                parse_quote!(#id)
            } else {
                parse_quote!(#id < #(#args),* >)
            }
        }
    }
}
pub fn format_ident(s: &str) -> Ident {
    Ident::new(s, proc_macro2::Span::call_site())
}

fn lower_sig(fi: &mut FnInfo) {
    let mut assoc = fi.assoc.clone();
    let _ = &mut assoc;
    let c = TyCtx { gmap: &fi.gmap, self_ty: fi.self_ty.as_ref(), assoc: &assoc };
    let mut params = vec![];
    let mut fi_scopes = vec![];
    for (i, a) in fi.sig.inputs.iter().enumerate() {
        match a {
            FnArg::Receiver(_) => {}
            FnArg::Typed(pt) => {
                let er = is_deref_generic(&pt.ty, &c)
                    || matches!(&*pt.ty, Type::Reference(r) if is_deref_generic(&r.elem, &c));
                let n = match &*pt.pat {
                    Pat::Ident(pi) => pi.ident.to_string(),
                    Pat::Reference(r) => match &*r.pat {
                        Pat::Ident(pi) => pi.ident.to_string(),
                        _ => format!("vx_arg{i}"),
                    },
                    _ => format!("vx_arg{i}"),
                };
                if let Type::Reference(r) = &*pt.ty {
                    if r.elem.to_token_stream().to_string().contains("Scope") {
                        fi_scopes.push(n);
                        continue;
                    }
                    // a mutable slice that outlives the call: a range of the caller's vector
                    if r.mutability.is_some() && r.lifetime.is_some() && matches!(*r.elem, Type::Slice(_)) {
                        params.push((n, ty("VxRange"), false));
                        continue;
                    }
                }
                params.push((n, lower_type(&pt.ty, &c), er));
            }
        }
    }
    let mut ret = match &fi.sig.output {
        ReturnType::Default => None,
        ReturnType::Type(_, t) => Some(lower_type(t, &c)),
    };
    // a function that returns a closure: the closure's parameters join the function's
    let mut curried = 0;
    let mut newblock = None;
    if let ReturnType::Type(_, t) = &fi.sig.output {
        if let Type::ImplTrait(it) = &**t {
            for b in &it.bounds {
                if let TypeParamBound::Trait(tb) = b {
                    let seg = tb.path.segments.last().unwrap();
                    if let (true, PathArguments::Parenthesized(pa)) = (seg.ident == "Fn", &seg.arguments) {
                        if let Some(Block { stmts, .. }) = &fi.block {
                            if let Some(Stmt::Expr(Expr::Closure(cl), None)) = stmts.last() {
                                let mut ok = cl.inputs.len() == pa.inputs.len();
                                let mut add = vec![];
                                for (p, t) in cl.inputs.iter().zip(pa.inputs.iter()) {
                                    match p {
                                        Pat::Ident(pi) => add.push((pi.ident.to_string(), lower_type(t, &c), false)),
                                        _ => ok = false,
                                    }
                                }
                                if ok {
                                    curried = add.len();
                                    params.extend(add);
                                    ret = match &pa.output {
                                        ReturnType::Default => None,
                                        ReturnType::Type(_, t) => Some(lower_type(t, &c)),
                                    };
                                    let mut b = fi.block.clone().unwrap();
                                    b.stmts.pop();
                                    b.stmts.push(Stmt::Expr((*cl.body).clone(), None));
                                    newblock = Some(b);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    if newblock.is_some() {
        fi.block = newblock;
    }
    fi.scopes = fi_scopes;
    fi.curried = curried;
    fi.params = params;
    fi.ret = ret;
}

impl Model {
    pub fn load(src: &std::path::Path) -> std::result::Result<Model, String> {
        let mut m = Model::default();
        let mut files = vec![];
        fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
            let mut es: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).collect();
            es.sort();
            for e in es {
                if e.is_dir() {
                    walk(&e, out)
                } else if e.extension().map_or(false, |x| x == "rs") && e.file_name().unwrap() != "main.rs" {
                    out.push(e)
                }
            }
        }
        walk(src, &mut files);
        let mut parsed = vec![];
        for f in &files {
            let text = std::fs::read_to_string(f).map_err(|e| e.to_string())?;
            let file = parse_file(&text).map_err(|e| format!("{}: {e}", f.display()))?;
            parsed.push((f.strip_prefix(src).unwrap().display().to_string(), file));
        }
        for (name, file) in &parsed {
            m.items(&file.items, name);
        }
        Ok(m)
    }
    fn items(&mut self, items: &[Item], file: &str) {
        for it in items {
            match it {
                Item::Struct(s) => self.item_struct(s, file),
                Item::Fn(f) => {
                    if is_test(&f.attrs) {
                        continue;
                    }
                    let gmap = classify(&[&f.sig.generics]);
                    self.add_fn(FnInfo {
                        key: f.sig.ident.to_string(),
                        name: f.sig.ident.to_string(),
                        self_ty: None,
                        self_is_ref_impl: false,
                        trait_name: None,
                        trait_args: vec![],
                        gmap,
                        assoc: Default::default(),
                        sig: f.sig.clone(),
                        block: Some((*f.block).clone()),
                        file: file.into(),
                        line: f.sig.ident.span().start().line,
                        params: vec![],
                        ret: None,
                        has_self: false,
                        self_by_ref: false,
                        self_mut: false,
                        lifted: false,
                        scopes: vec![],
                        curried: 0,
                    });
                }
                Item::Impl(i) => self.item_impl(i, file),
                Item::Trait(t) => self.item_trait(t, file),
                Item::Mod(md) => {
                    if is_test(&md.attrs) {
                        continue;
                    }
                    if let Some((_, its)) = &md.content {
                        self.items(its, file);
                    }
                }
                _ => {}
            }
        }
    }
    fn add_fn(&mut self, mut fi: FnInfo) {
        fi.has_self = fi.sig.receiver().is_some();
        if let Some(r) = fi.sig.receiver() {
            fi.self_by_ref = r.reference.is_some();
            fi.self_mut = r.mutability.is_some();
        }
        lower_sig(&mut fi);
        let mut k = fi.key.clone();
        let mut n = 1;
        while self.fns.contains_key(&k) {
            n += 1;
            k = format!("{}#{n}", fi.key);
        }
        fi.key = k.clone();
        self.order.push(k.clone());
        self.fns.insert(k, fi);
    }
    fn item_struct(&mut self, s: &ItemStruct, file: &str) {
        let gmap = classify(&[&s.generics]);
        let assoc = BTreeMap::new();
        let c = TyCtx { gmap: &gmap, self_ty: None, assoc: &assoc };
        let mut fields = vec![];
        let mut tuple = false;
        match &s.fields {
            Fields::Named(n) => {
                for f in &n.named {
                    fields.push((f.ident.as_ref().unwrap().to_string(), lower_type(&f.ty, &c)));
                }
            }
            Fields::Unnamed(u) => {
                tuple = true;
                for (i, f) in u.unnamed.iter().enumerate() {
                    fields.push((i.to_string(), lower_type(&f.ty, &c)));
                }
            }
            Fields::Unit => {}
        }
        let generics: Vec<String> = gmap.iter().filter(|g| matches!(g.1, GKind::Keep)).map(|g| g.0.clone()).collect();
        let lifetime = fields.iter().any(|f| matches!(f.1, Type::Reference(_)));
        self.structs.insert(
            s.ident.to_string(),
            StructInfo {
                name: s.ident.to_string(),
                fields,
                tuple,
                derives: derives(&s.attrs),
                generics,
                lifetime,
                file: file.into(),
            },
        );
    }
    fn item_impl(&mut self, i: &ItemImpl, file: &str) {
        if is_test(&i.attrs) {
            return;
        }
        let (trait_name, targs_raw): (Option<String>, Vec<Type>) = match &i.trait_ {
            Some((_, p, _)) => {
                let seg = p.segments.last().unwrap();
                let a = match &seg.arguments {
                    PathArguments::AngleBracketed(a) => a
                        .args
                        .iter()
                        .filter_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None })
                        .collect(),
                    _ => vec![],
                };
                (Some(seg.ident.to_string()), a)
            }
            None => (None, vec![]),
        };
        if let Some(t) = &trait_name {
            if ["Display", "Debug", "TensorLikePrivate", "Private", "Numeric"].contains(&t.as_str()) {
                return;
            }
        }
        let mut assoc = BTreeMap::new();
        for it in &i.items {
            if let ImplItem::Type(t) = it {
                assoc.insert(t.ident.to_string(), t.ty.clone());
            }
        }
        for it in &i.items {
            if let ImplItem::Fn(f) = it {
                if is_test(&f.attrs) {
                    continue;
                }
                let gmap = classify(&[&i.generics, &f.sig.generics]);
                let c0 = TyCtx { gmap: &gmap, self_ty: None, assoc: &BTreeMap::new() };
                let (is_ref, raw_self) = match &*i.self_ty {
                    Type::Reference(r) => (true, (*r.elem).clone()),
                    t => (false, t.clone()),
                };
                let st = lower_type(&raw_self, &c0);
                let targs: Vec<Type> = targs_raw.iter().map(|t| lower_type(t, &c0)).collect();
                // associated types first, with Self known
                if trait_name.as_deref() == Some("TensorLike") {
                    self.impl_assoc.insert(tstr(&st), assoc.clone());
                }
                let stn = tstr(&st);
                let selfstr = if is_ref { format!("&{stn}") } else { stn.clone() };
                let key = match &trait_name {
                    None => format!("{stn}::{}", f.sig.ident),
                    Some(t) if targs.is_empty() => format!("<{selfstr} as {t}>::{}", f.sig.ident),
                    Some(t) => format!(
                        "<{selfstr} as {t}<{}>>::{}",
                        targs.iter().map(tstr).collect::<Vec<_>>().join(","),
                        f.sig.ident
                    ),
                };
                self.add_fn(FnInfo {
                    key,
                    name: f.sig.ident.to_string(),
                    self_ty: Some(if is_ref { parse_quote!(& #st) } else { st }),
                    self_is_ref_impl: is_ref,
                    trait_name: trait_name.clone(),
                    trait_args: targs,
                    gmap,
                    assoc: assoc.clone(),
                    sig: f.sig.clone(),
                    block: Some(f.block.clone()),
                    file: file.into(),
                    line: f.sig.ident.span().start().line,
                    params: vec![],
                    ret: None,
                    has_self: false,
                    self_by_ref: false,
                    self_mut: false,
                    lifted: false,
                        scopes: vec![],
                        curried: 0,
                });
            }
        }
    }
    fn item_trait(&mut self, t: &ItemTrait, file: &str) {
        if t.ident != "TensorLike" {
            return;
        }
        for it in &t.items {
            if let TraitItem::Fn(f) = it {
                self.trait_methods.push(f.sig.ident.to_string());
                if let Some(b) = &f.default {
                    if b.to_token_stream().to_string().contains("todo !") {
                        continue;
                    }
                    self.provided.push(f.sig.ident.to_string());
                    let mut gmap = classify(&[&f.sig.generics]);
                    gmap.insert(0, ("S".into(), GKind::Keep));
                    self.add_fn(FnInfo {
                        key: format!("TensorLike::{}", f.sig.ident),
                        name: format!("tl_{}", f.sig.ident),
                        self_ty: Some(ty("S")),
                        self_is_ref_impl: false,
                        trait_name: Some("TensorLike*".into()),
                        trait_args: vec![],
                        gmap,
                        assoc: Default::default(),
                        sig: f.sig.clone(),
                        block: Some(b.clone()),
                        file: file.into(),
                        line: f.sig.ident.span().start().line,
                        params: vec![],
                        ret: None,
                        has_self: false,
                        self_by_ref: false,
                        self_mut: false,
                        lifted: false,
                        scopes: vec![],
                        curried: 0,
                    });
                }
            }
        }
    }
}
