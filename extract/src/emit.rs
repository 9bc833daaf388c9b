//! Prints lowered functions as Verus items.
use crate::contracts::{Contract, LoopC};
use crate::lower::*;
use crate::model::*;
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Out {
    pub key: String,
    pub head: String,   // impl header or empty
    pub attrs: String,
    pub sig: String,
    pub body: String,
    pub group: Option<(String, String)>, // (trait, type) for grouped impls
    pub req_expr: String,
    pub unsupported: Vec<String>,
    pub missing: Vec<String>,
    pub effects: Vec<String>,
    pub kinds: Vec<String>,
    pub locals: Vec<String>,
    pub params: Vec<String>,
    pub called: Vec<String>,
    pub file: String,
    pub line: usize,
    pub external: bool,
    pub no_contract: bool,
    pub heap: bool,
}

fn pretty(ts: String) -> String {
    // one statement per line, so that verifier spans point at something useful
    let mut out = String::new();
    let mut ind = 1usize;
    let mut in_str = false;
    let mut prev = ' ';
    let mut par = 0i32;
    for ch in ts.chars() {
        if ch == '"' && prev != '\\' {
            in_str = !in_str;
        }
        if in_str {
            out.push(ch);
            prev = ch;
            continue;
        }
        match ch {
            '(' | '[' => { par += 1; out.push(ch) }
            ')' | ']' => { par -= 1; out.push(ch) }
            '{' => {
                ind += 1;
                out.push(ch);
                out.push('\n');
                out.push_str(&"  ".repeat(ind));
            }
            '}' => {
                ind = ind.saturating_sub(1);
                out.push('\n');
                out.push_str(&"  ".repeat(ind));
                out.push(ch);
                out.push(' ');
            }
            ';' => {
                out.push(ch);
                if par == 0 || true {
                    out.push('\n');
                    out.push_str(&"  ".repeat(ind));
                }
            }
            c => out.push(c),
        }
        prev = ch;
    }
    out
}

struct Ren<'a>(&'a str, &'a str);
fn ren_tokens(ts: proc_macro2::TokenStream, a: &str, b: &str) -> proc_macro2::TokenStream {
    use proc_macro2::{Group, TokenTree};
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) if i == a => TokenTree::Ident(Ident::new(b, i.span())),
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), ren_tokens(g.stream(), a, b))),
            t => t,
        })
        .collect()
}
impl<'a> VisitMut for Ren<'a> {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == self.0 {
            *i = Ident::new(self.1, i.span());
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = ren_tokens(m.tokens.clone(), self.0, self.1);
    }
}

/// Replace identifiers in contract text.
pub fn rename_text(t: &str, map: &BTreeMap<String, String>) -> String {
    if map.is_empty() {
        return t.to_string();
    }
    let mut out = String::new();
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c.is_alphabetic() || c == '_' {
            let mut j = i;
            while j < cs.len() && (cs[j].is_alphanumeric() || cs[j] == '_') {
                j += 1;
            }
            let w: String = cs[i..j].iter().collect();
            let prev = if i > 0 { cs[i - 1] } else { ' ' };
            if prev != '.' && map.contains_key(&w) {
                out.push_str(&map[&w]);
            } else {
                out.push_str(&w);
            }
            i = j;
        } else if c.is_numeric() {
            let mut j = i;
            while j < cs.len() && (cs[j].is_alphanumeric() || cs[j] == '_') {
                j += 1;
            }
            out.extend(&cs[i..j]);
            i = j;
        } else {
            out.push(c);
            i += 1;
        }
    }
    out
}
/// is the name used in the proof part (not the specification) of a contract?
fn mentions(c: &Contract, n: &str) -> bool {
    let m: BTreeMap<String, String> = [(n.to_string(), "\u{1}".to_string())].into_iter().collect();
    c.loops.values().flat_map(|l| [&l.invariant, &l.except, &l.ensures, &l.decreases]).chain(c.hints.values()).any(|t| rename_text(t, &m) != *t)
}
pub fn rename_contract(c: &Contract, map: &BTreeMap<String, String>) -> Contract {
    let mut c = c.clone();
    if map.is_empty() {
        return c;
    }
    let r = |s: &String| rename_text(s, map);
    c.requires = r(&c.requires);
    c.ensures = r(&c.ensures);
    c.accept = r(&c.accept);
    c.decreases = r(&c.decreases);
    for l in c.loops.values_mut() {
        l.invariant = r(&l.invariant);
        l.except = r(&l.except);
        l.ensures = r(&l.ensures);
        l.decreases = r(&l.decreases);
    }
    for h in c.hints.values_mut() {
        *h = r(h);
    }
    for h in c.closures.values_mut() {
        *h = r(h);
    }
    c
}

/// Map names of the recorded base version to the names now in use.
pub fn align(old: &[String], new: &[String], guessed: &mut Vec<(String, String)>) -> BTreeMap<String, String> {
    let (n, m) = (old.len(), new.len());
    let mut l = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            l[i][j] = if old[i] == new[j] { 1 + l[i + 1][j + 1] } else { l[i + 1][j].max(l[i][j + 1]) };
        }
    }
    let mut map = BTreeMap::new();
    let (mut i, mut j) = (0, 0);
    let (mut so, mut sn): (Vec<&String>, Vec<&String>) = (vec![], vec![]);
    let mut seg = |so: &mut Vec<&String>, sn: &mut Vec<&String>| {
        if so.len() != sn.len() {
            guessed.extend(so.iter().zip(sn.iter()).map(|(a, b)| ((*a).clone(), (*b).clone())));
        }
        if so.len() == sn.len() {
            for (a, b) in so.iter().zip(sn.iter()) {
                if a != b {
                    map.insert((*a).clone(), (*b).clone());
                }
            }
        }
        so.clear();
        sn.clear();
    };
    while i < n || j < m {
        if i < n && j < m && old[i] == new[j] {
            seg(&mut so, &mut sn);
            i += 1;
            j += 1;
        } else if j >= m || (i < n && l[i + 1][j] >= l[i][j + 1]) {
            so.push(&old[i]);
            i += 1;
        } else {
            sn.push(&new[j]);
            j += 1;
        }
    }
    seg(&mut so, &mut sn);
    // a name that is still in use is never renamed
    map.retain(|a, _| !new.contains(a));
    map
}

fn clause(kw: &str, t: &str) -> String {
    if t.trim().is_empty() {
        String::new()
    } else {
        format!("    {kw}\n{},\n", indent(t, 8))
    }
}
fn indent(t: &str, n: usize) -> String {
    t.lines().map(|l| format!("{}{}", " ".repeat(n), l.trim())).collect::<Vec<_>>().join("\n")
}

/// Split a clause list at top-level commas.
pub fn split_top(t: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    let mut d = 0i32;
    let mut bar = false;
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        match c {
            '(' | '[' | '{' => d += 1,
            ')' | ']' | '}' => d -= 1,
            '|' => {
                if i + 1 < cs.len() && cs[i + 1] == '|' {
                    // || operator (never an empty closure in contracts)
                    cur.push('|');
                    i += 1;
                } else {
                    bar = !bar;
                }
            }
            _ => {}
        }
        if c == ',' && d == 0 && !bar {
            if !cur.trim().is_empty() {
                v.push(cur.trim().to_string());
            }
            cur.clear();
        } else {
            cur.push(c);
        }
        i += 1;
    }
    if !cur.trim().is_empty() {
        v.push(cur.trim().to_string());
    }
    v
}

pub fn emit_fn(sh: &mut Shared, fi0: &FnInfo, contract0: Option<&Contract>, snapshot: Option<&(Vec<String>, Vec<String>)>) -> Out {
    let mut fi = fi0.clone();
    let no_contract = contract0.is_none();
    let mut c = contract0.cloned().unwrap_or_default();
    if c.ret.is_empty() {
        c.ret = "r".into();
    }
    // instantiate a generic parameter
    for ins in &c.instantiate {
        let (a, b) = ins.split_once('=').unwrap();
        let (a, b) = (a.trim(), b.trim());
        let bt = ty(b);
        let mut g2 = vec![];
        for g in fi.gmap.iter() {
            if g.0 != a {
                g2.push(g.clone());
            }
        }
        fi.gmap = g2;
        let mut r = RenTy(a.to_string(), bt.clone());
        for p in fi.params.iter_mut() {
            r.visit_type_mut(&mut p.1);
        }
        for p in fi.trait_args.iter_mut() {
            r.visit_type_mut(p);
        }
        if let Some(t) = fi.ret.as_mut() {
            r.visit_type_mut(t);
        }
    }
    let heap = c.heap;
    let mut lo = Lower::new(sh, fi.clone(), c.clone(), heap);
    let mut block = lo.lower_fn();
    AfterLoop.visit_block_mut(&mut block);
    let locals = lo.locals.clone();
    let mut unsupported = std::mem::take(&mut lo.unsupported);
    let effects = std::mem::take(&mut lo.effects);
    let kinds = std::mem::take(&mut lo.kinds);
    let clo_specs = std::mem::take(&mut lo.clo_specs);
    let called: Vec<String> = lo.called.iter().cloned().collect();
    let pnames: Vec<String> = fi.params.iter().map(|p| p.0.clone()).collect();
    // align names with the recorded base
    let mut map = BTreeMap::new();
    let mut pmap = BTreeMap::new();
    let mut guess = vec![];
    if let Some((op, ol)) = snapshot {
        pmap = align(op, &pnames, &mut vec![]);
        map.extend(pmap.clone());
        let f = |v: &Vec<String>| v.iter().filter(|s| !s.starts_with("vx_") || s.starts_with("vx_acc")).cloned().collect::<Vec<_>>();
        map.extend(align(&f(ol), &f(&locals), &mut guess));
    }
    // a loop that has become an iterator chain, or the other way round
    let (muts, inits) = (lo.muts.clone(), lo.inits.clone());
    if let Some((_, ol)) = snapshot {
        let gone: Vec<&String> = ol.iter().filter(|o| o.starts_with("vx_acc") && !locals.contains(o) && !map.contains_key(*o)).collect();
        let taken: Vec<&String> = map.values().collect();
        let cand: Vec<&String> = muts.iter().filter(|m| !taken.contains(m)).collect();
        if gone.len() == 1 && cand.len() == 1 {
            let (g, m) = (gone[0].clone(), cand[0].clone());
            map.insert(g, m);
        }
    }
    // a name that is gone and has no certain counterpart: the one in its place, reported as a guess
    let mut guessed = vec![];
    for (a, b) in guess {
        if !locals.contains(&a) && !pnames.contains(&a) && !map.contains_key(&a) && mentions(&c, &a) {
            map.insert(a.clone(), b);
            guessed.push(a);
        }
    }
    if fi.name.starts_with("tl_") {
        map.insert("self".into(), "this".into());
        pmap.insert("self".into(), "this".into());
    }
    // the specification and the opening hint speak of parameters only: a local that shadows one
    // may have been renamed
    let spec = rename_contract(&c, &pmap);
    let mut c = rename_contract(&c, &map);
    c.requires = spec.requires;
    c.ensures = spec.ensures;
    c.accept = spec.accept;
    c.decreases = spec.decreases;
    if let Some(h) = spec.hints.get("start") {
        c.hints.insert("start".into(), h.clone());
    }
    for (a, b, n, acc) in &inits {
        if pnames.contains(n) || snapshot.map_or(true, |s| s.1.contains(acc)) {
            continue;
        }
        let m: BTreeMap<String, String> = [(n.clone(), acc.clone())].into_iter().collect();
        for k in *a..*b {
            if let Some(l) = c.loops.get_mut(&k) {
                for t in [&mut l.invariant, &mut l.except, &mut l.ensures, &mut l.decreases] {
                    *t = rename_text(t, &m);
                }
            }
            for (h, t) in c.hints.iter_mut() {
                if h.starts_with(&format!("loop{k} ")) {
                    *t = rename_text(t, &m);
                }
            }
        }
    }
    let c = c;
    // body text
    let mut blk = block;
    if fi.name.starts_with("tl_") {
        Ren("self", "this").visit_block_mut(&mut blk);
    }
    let mut body = blk.to_token_stream().to_string();
    let mut missing: Vec<String> = guessed.iter().map(|a| format!("local {a} (counterpart guessed)")).collect();
    if let Some((_, ol)) = snapshot {
        for a in locals.iter().filter(|l| l.starts_with("vx_acc") && !ol.contains(l)) {
            if !map.values().any(|v| v == a) && !inits.iter().any(|(_, _, n, acc)| acc == a && !pnames.contains(n)) && !no_contract {
                missing.push(format!("local {a} (a collection the recorded version filled elsewhere)"));
            }
        }
    }
    if effects.iter().any(|_| true) && !heap {
        unsupported.push(format!("effect: {}", effects.join(", ")));
    }
    // closure markers
    for k in 0..64 {
        let m = format!("__vx_clo ! (C{k}) ;");
        if let Some(i) = body.find(&m) {
            let j = body[..i].rfind('{').unwrap();
            let spec = match clo_specs.get(&k) {
                Some(s) => format!("-> (o: T) ensures o == ({}) {{", rename_text(s, &map)),
                None => {
                    missing.push(format!("closure {k} (no specification can be read off it)"));
                    "-> (o: T) {".to_string()
                }
            };
            body = format!("{}{}{}", &body[..j], spec, &body[i + m.len()..]);
        }
    }
    body = body.replace("__vx_acc ! () ;", "");
    body = body.replace("__vx_chanroot ! () ;", "let tracked mut vx_c = vx_chan_new();");
    let mut body = pretty(body);
    // loop markers
    for (k, kind) in kinds.iter().enumerate() {
        let m = format!("__vx_inv ! (L{k}) ;");
        let i = match body.find(&m) {
            Some(i) => i,
            None => continue,
        };
        let j = body[..i].rfind('{').unwrap();
        let lc = c.loops.get(&k).cloned().unwrap_or_default();
        let mut inv = String::new();
        let mut dec = lc.decreases.clone();
        if kind == "idx" {
            inv = format!("vx_p{k} <= vx_n{k}");
            if dec.is_empty() {
                dec = format!("vx_n{k} - vx_p{k}");
            }
        }
        if !lc.invariant.is_empty() {
            inv = if inv.is_empty() { lc.invariant.clone() } else { format!("{inv},\n{}", lc.invariant) };
        }
        let mut t = String::from("\n");
        t.push_str(&clause("invariant_except_break", &lc.except));
        t.push_str(&clause("invariant", &inv));
        t.push_str(&clause("ensures", &lc.ensures));
        if dec.is_empty() {
            dec = "0int".into();
        }
        t.push_str(&clause("decreases", &dec));
        body = format!("{}{}{{{}", &body[..j], t, &body[i + m.len()..]);
        let mut lc = lc;
        if !lc.except.is_empty() || !lc.ensures.is_empty() {
            lc.attr.push_str("#[verifier::allow_complex_invariants]");
        }
        if !lc.attr.is_empty() {
            // attribute in front of the loop keyword
            let kw = if kind == "idx" || kind == "while" { "while" } else { "loop" };
            if let Some(w) = body[..j].rfind(kw) {
                body.insert_str(w, &format!("{} ", lc.attr));
            }
        }
    }
    for k in c.loops.keys() {
        if *k >= kinds.len() {
            missing.push(format!("loop {k}"));
        }
    }
    // hints
    for (n, t) in &c.hints {
        let nn = n.replace(' ', "_").replace('#', "_n").replace(|ch: char| !ch.is_alphanumeric() && ch != '_', "_");
        let m = format!("__vx_hint ! (H_{nn}) ;");
        if !body.contains(&m) {
            missing.push(format!("hint {n}"));
        }
        body = body.replace(&m, &format!("\n{}\n", indent(t, 8)));
    }
    if let Some(i) = body.find("__vx_") {
        let e: String = body[i..].chars().take(40).collect();
        unsupported.push(format!("marker left: {e}"));
    }
    // signature
    let has_lt = fi.self_ty.as_ref().map_or(false, |t| sh.model.structs.get(&hd(t)).map_or(false, |s| s.lifetime));
    let selfgen: Vec<String> = fi.self_ty.as_ref().map(|t| generic_args(t)).unwrap_or_default();
    let mut gens: Vec<String> = vec![];
    let mut impl_gens: Vec<String> = vec![];
    if has_lt {
        impl_gens.push("'a".into());
    }
    let trait_targs: String = fi.trait_args.iter().map(tstr).collect::<Vec<_>>().join(",");
    for g in &fi.gmap {
        let b = match g.1 {
            GKind::Keep => {
                if hd_opt(&fi.self_ty) == "ElementIterator" { "TLGet" } else { "TLTo" }
            }
            GKind::ModuleLike => "Module",
            GKind::FromSrc => "",
            _ => continue,
        };
        let from_arr = fi.trait_name.as_deref() == Some("From") && fi.key.contains('#');
        let keeps = matches!(fi.trait_name.as_deref(), Some("Add" | "Sub" | "Mul" | "Neg" | "From"));
        let used_in_impl = !from_arr && ( selfgen.contains(&g.0) || (keeps && !fi.name.starts_with("tl_") && contains_word(&trait_targs, &g.0)));
        let s = if b.is_empty() { g.0.clone() } else { format!("{}: {b}", g.0) };
        if used_in_impl {
            impl_gens.push(s)
        } else {
            gens.push(s)
        }
    }
    let mut params: Vec<String> = vec![];
    let mut extra_req: Vec<String> = vec![];
    if fi.has_self {
        if fi.name.starts_with("tl_") {
            params.push(if fi.self_mut { "this: &mut S".into() } else { "this: &S".into() });
        } else {
            params.push(match (fi.self_by_ref, fi.self_mut) {
                (true, true) => "&mut self".into(),
                (true, false) => "&self".into(),
                (false, true) => "self".into(), // `mut self`: rebound in the body
                _ => "self".into(),
            });
        }
    }
    let mut fcount = 0;
    for (n, t, _) in &fi.params {
        let mut ts = tprint(t);
        match ts.as_str() {
            "OpFn1" => {
                gens.push(format!("VxF{fcount}: Fn(T) -> T"));
                ts = format!("VxF{fcount}");
                fcount += 1;
                extra_req.push(format!("forall|x: T| #[trigger] {n}.requires((x,))"));
            }
            "OpFn2" => {
                gens.push(format!("VxF{fcount}: Fn(T, T) -> T"));
                ts = format!("VxF{fcount}");
                fcount += 1;
                extra_req.push(format!("forall|x: T, y: T| #[trigger] {n}.requires((x, y))"));
            }
            _ => {}
        }
        if has_lt {
            ts = ts.replace("ElementIterator<", "ElementIterator<'a, ");
            if ts.starts_with("& ") || ts.starts_with('&') {
                ts = format!("&'a {}", ts.trim_start_matches('&').trim());
            }
        }
        params.push(format!("{n}: {ts}"));
    }
    if heap {
        params.push("Tracked(vx_h): Tracked<&mut GradHeap>".into());
    }
    if c.buf {
        params.push("vx_buf: &mut Vec<T>".into());
    }
    if c.chan {
        params.push("Tracked(vx_c): Tracked<&mut VxChan>".into());
    }
    let mut ret = match &fi.ret {
        Some(t) if matches!(t, Type::ImplTrait(_)) => {
            let s = t.to_token_stream().to_string();
            if s.contains("Iterator < Item = RcTensor") { "Vec<RcTensor>".to_string() } else { tprint(t) }
        }
        Some(t) => tprint(t),
        None => String::new(),
    };
    if has_lt {
        ret = ret.replace("ElementIterator<", "ElementIterator<'a, ");
    }
    let op_trait = matches!(fi.trait_name.as_deref(), Some("Add" | "Sub" | "Mul" | "Neg"));
    let from_trait = fi.trait_name.as_deref() == Some("From") && !fi.key.contains('#');
    let std_trait = matches!(fi.trait_name.as_deref(), Some("Clone" | "Default" | "Deref"));
    let core_tl = fi.trait_name.as_deref() == Some("TensorLike") && ["shape", "get", "count", "to_tensor"].contains(&fi.name.as_str());
    let module_trait = fi.trait_name.as_deref() == Some("Module");
    let name = if from_trait {
        "from_".to_string()
    } else if fi.trait_name.as_deref() == Some("From") {
        "from_arr".to_string()
    } else {
        fi.name.clone()
    };
    let mut req: Vec<String> = split_top(&c.requires);
    req.extend(extra_req);
    if !c.accept.is_empty() {
        req.push(format!("vx_R() || ({})", c.accept));
    }
    let mut ens: Vec<String> = vec![];
    if !c.accept.is_empty() {
        ens.push(format!("({})", c.accept));
    }
    ens.extend(split_top(&c.ensures));
    let ps = params.join(", ");
    let gs = if gens.is_empty() { String::new() } else { format!("<{}>", gens.join(", ")) };
    let rets = if ret.is_empty() { String::new() } else { format!(" -> ({}: {ret})", c.ret) };
    let vis = if op_trait || from_trait || std_trait || core_tl || module_trait { "" } else { "pub " };
    let wh = if name == "from_arr" {
        let gf: Vec<String> = fi.gmap.iter().filter(|g| matches!(g.1, GKind::FromSrc)).map(|g| g.0.clone()).collect();
        if gf.is_empty() { String::new() } else { format!(" where RawTensor: VxFrom<{}>", gf[0]) }
    } else { String::new() };
    let mut sig = format!("{vis}fn {name}{gs}({ps}){rets}{wh}\n");
    let in_trait = op_trait || from_trait || core_tl || module_trait;
    if !in_trait {
        sig.push_str(&clause("requires", &req.join(",\n")));
    }
    sig.push_str(&clause("ensures", &ens.join(",\n")));
    if !c.decreases.is_empty() {
        sig.push_str(&clause("decreases", &c.decreases));
    }
    let req_expr = if req.is_empty() { "true".into() } else { req.iter().map(|r| format!("({r})")).collect::<Vec<_>>().join(" && ") };
    // headers
    let ig = if impl_gens.is_empty() { String::new() } else { format!("<{}>", impl_gens.join(", ")) };
    let mut group = None;
    let head = match (&fi.self_ty, fi.trait_name.as_deref()) {
        (None, _) => String::new(),
        (_, Some("TensorLike*")) => String::new(),
        (Some(st), tn) => {
            let mut sts = tprint(st);
            if has_lt {
                sts = sts.replace("ElementIterator<", "ElementIterator<'a, ");
            }
            match tn {
                Some(t) if op_trait => {
                    let lower = t.to_lowercase();
                    let g = if fi.self_is_ref_impl || trait_targs.contains('&') {
                        let mut v = vec!["'a".to_string(), "'b".to_string()];
                        v.extend(impl_gens.clone());
                        format!("<{}>", v.join(", "))
                    } else {
                        ig.clone()
                    };
                    let sts2 = if fi.self_is_ref_impl { format!("&'a {}", sts.trim_start_matches('&').trim()) } else { sts };
                    let ta = trait_targs.clone();
                    let ta2 = if ta.starts_with('&') { format!("&'b {}", ta.trim_start_matches('&')) } else { ta };
                    let targs = if ta2.is_empty() { String::new() } else { format!("<{ta2}>") };
                    let pn = fi.params.first().map(|p| p.0.clone()).unwrap_or_default();
                    let rp = if pn.is_empty() { String::new() } else { format!(", {pn}: {ta2}") };
                    let outt = fi.ret.as_ref().map(tprint).unwrap_or_default();
                    format!("impl{g} {t}{targs} for {sts2} {{\n  type Output = {outt};\n  open spec fn {lower}_req(self{rp}) -> bool {{ {req_expr} }}\n")
                }
                Some("From") if from_trait => {
                    let ta = fi.trait_args.iter().map(tprint).collect::<Vec<_>>().join(",");
                    let gf: Vec<String> = fi.gmap.iter().filter(|g| matches!(g.1, GKind::FromSrc)).map(|g| g.0.clone()).collect();
                    let g = if gf.is_empty() { String::new() } else { format!("<{}>", gf.join(", ")) };
                    let w = if gf.is_empty() { String::new() } else { format!(" where RawTensor: VxFrom<{}>", gf[0]) };
                    format!("impl{g} VxFrom<{ta}> for {sts}{w} {{\n{}\n", c.spec)
                }
                Some("Deref") => format!("impl{ig} Deref for {sts} {{\n  type Target = {};\n", fi.ret.as_ref().map(tprint).unwrap_or_default().trim_start_matches('&').trim()),
                Some(t) if std_trait => format!("impl{ig} {t} for {sts} {{\n"),
                Some("TensorLike") if core_tl => {
                    let tr = if name == "to_tensor" { "TLTo" } else { "TLGet" };
                    group = Some((tr.to_string(), sts.clone()));
                    format!("impl{ig} {tr} for {sts} {{\n")
                }
                Some("Module") => {
                    group = Some(("Module".to_string(), sts.clone()));
                    format!("impl{ig} Module for {sts} {{\n")
                }
                _ => {
                    let sts = if fi.self_is_ref_impl { sts.trim_start_matches('&').trim().to_string() } else { sts };
                    format!("impl{ig} {sts} {{\n")
                }
            }
        }
    };
    Out {
        key: fi.key.clone(),
        head,
        attrs: format!("#[verifier::spinoff_prover]\n#[verifier::loop_isolation(false)]\n{}", if c.attr.is_empty() { String::new() } else { format!("{}\n", c.attr) }),
        sig,
        body,
        group,
        req_expr,
        unsupported,
        missing,
        effects,
        kinds,
        locals,
        params: pnames,
        called,
        file: fi.file.clone(),
        line: fi.line,
        external: c.external,
        no_contract,
        heap,
    }
}
struct RenTy(String, Type);
/// `while .. { } { .. }` is not a loop followed by a block to the verifier: end the loop with a semicolon
struct AfterLoop;
impl VisitMut for AfterLoop {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        for i in 1..b.stmts.len() {
            let blk = matches!(&b.stmts[i], Stmt::Expr(Expr::Block(_), _));
            if let Stmt::Expr(Expr::While(_) | Expr::Loop(_), semi) = &mut b.stmts[i - 1] {
                if blk && semi.is_none() {
                    *semi = Some(Default::default());
                }
            }
        }
    }
}
impl VisitMut for RenTy {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.path.get_ident().map_or(false, |i| *i == self.0) {
                *t = self.1.clone();
                return;
            }
        }
        visit_mut::visit_type_mut(self, t)
    }
}
pub fn hd(t: &Type) -> String {
    match t {
        Type::Reference(r) => hd(&r.elem),
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => String::new(),
    }
}
fn hd_opt(t: &Option<Type>) -> String {
    t.as_ref().map(hd).unwrap_or_default()
}
fn generic_args(t: &Type) -> Vec<String> {
    match t {
        Type::Reference(r) => generic_args(&r.elem),
        Type::Path(p) => match &p.path.segments.last().unwrap().arguments {
            PathArguments::AngleBracketed(a) => a.args.iter().map(|x| x.to_token_stream().to_string()).collect(),
            _ => vec![],
        },
        _ => vec![],
    }
}
fn contains_word(t: &str, w: &str) -> bool {
    t.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|x| x == w)
}
pub fn tprint(t: &Type) -> String {
    let s = t.to_token_stream().to_string();
    s.replace(" < ", "<").replace(" <", "<").replace("< ", "<").replace(" >", ">").replace("& ", "&").replace("&mut", "&mut ").replace("&'", "& '").replace(" ,", ",")
}
pub fn _unused(_: &LoopC) {}
