//! vx-extract: reads /repo/src, lowers every function to the Verus dialect and joins it with the
//! contracts in /verif/contracts.
mod contracts;
mod emit;
mod inline;
mod lower;
mod model;
use contracts::Contract;
use emit::*;
use lower::*;
use model::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::path::Path;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

fn derived_impls(m: &Model, out: &mut String) {
    for s in m.structs.values() {
        let n = &s.name;
        if s.derives.iter().any(|d| d == "Clone") {
            // what the derive writes: every field cloned.  A vector's clone is only known through its contents,
            // so equality of structures that own vectors is left to the assumption that clone copies.
            let plain = |t: &syn::Type| {
                let x = tprint(t);
                ["usize", "RcTensor", "JvpFn", "ActFn"].contains(&x.as_str()) || x.starts_with("Arc<")
            };
            if !s.lifetime && s.generics.iter().all(|g| g == "T") && s.fields.iter().all(|f| plain(&f.1)) {
                let body = if s.tuple {
                    format!("{n}({})", s.fields.iter().map(|f| format!("self.{}.clone()", f.0)).collect::<Vec<_>>().join(", "))
                } else {
                    format!("{n} {{ {} }}", s.fields.iter().map(|f| format!("{0}: self.{0}.clone()", f.0)).collect::<Vec<_>>().join(", "))
                };
                writeln!(out, "impl Clone for {n} {{ fn clone(&self) -> (r: {n}) ensures r == *self {{ {body} }} }}").unwrap();
            } else {
                writeln!(out, "impl Clone for {n} {{ #[verifier::external_body] fn clone(&self) -> (r: {n}) ensures r == *self {{ unimplemented!() }} }}").unwrap();
            }
        }
        if s.name == "RcTensor" && s.derives.iter().any(|d| d == "PartialEq") {
            // the derived equality compares the only field
            writeln!(out, "impl RcTensor {{ pub fn eq(&self, other: &RcTensor) -> (r: bool) requires self.wf(), other.wf() ensures r == vx_same(*self, *other) {{ self.0.eq(&*other.0) }} }}").unwrap();
        }
    }
}
fn struct_text(m: &Model, out: &mut String) {
    for s in m.structs.values() {
        let g = if s.lifetime {
            format!("<'a, {}>", s.generics.iter().map(|g| format!("{g}: TLGet")).collect::<Vec<_>>().join(", "))
        } else {
            String::new()
        };
        let ft = |t: &syn::Type| {
            let s2 = tprint(t);
            if s.lifetime && s2.starts_with('&') { format!("&'a {}", s2.trim_start_matches('&')) } else { s2 }
        };
        if s.tuple {
            writeln!(out, "pub struct {}{g}({});", s.name, s.fields.iter().map(|f| format!("pub {}", ft(&f.1))).collect::<Vec<_>>().join(", ")).unwrap();
        } else {
            writeln!(out, "pub struct {}{g} {{ {} }}", s.name, s.fields.iter().map(|f| format!("pub {}: {}", f.0, ft(&f.1))).collect::<Vec<_>>().join(", ")).unwrap();
        }
    }
}

/// what a line of generated text is remembered by
fn line_hash(l: &str) -> String {
    let mut h: u32 = 2166136261;
    for b in l.bytes().filter(|b| !b.is_ascii_whitespace()) {
        h = (h ^ b as u32).wrapping_mul(16777619);
    }
    format!("{h:08x}")
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let src = opt("--src").unwrap_or("/repo/src".into());
    let cdir = opt("--contracts").unwrap_or("/verif/contracts".into());
    let out_p = opt("--out").unwrap_or("gen.rs".into());
    let rep_p = opt("--report").unwrap_or("gen.json".into());
    let external: BTreeSet<String> = opt("--external")
        .map(|f| std::fs::read_to_string(f).unwrap_or_default().lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect())
        .unwrap_or_default();
    let snap_in = opt("--snapshot");
    let snap_out = opt("--write-snapshot");
    let model = match Model::load(Path::new(&src)) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("parse error: {e}");
            std::process::exit(3);
        }
    };
    let mut cs: BTreeMap<String, Contract> = BTreeMap::new();
    let mut order = vec![];
    let mut prelude = String::new();
    let mut impls: BTreeMap<(String, String), String> = BTreeMap::new();
    let mut files: Vec<_> = std::fs::read_dir(&cdir).unwrap().map(|e| e.unwrap().path()).collect();
    files.sort();
    for f in &files {
        let t = std::fs::read_to_string(f).unwrap_or_default();
        match f.extension().and_then(|e| e.to_str()) {
            Some("vc") => contracts::parse(&t, &mut cs, &mut order),
            Some("rs") => {
                prelude.push_str(&format!("// ---- {}\n", f.file_name().unwrap().to_string_lossy()));
                prelude.push_str(&t);
                prelude.push('\n');
            }
            Some("impls") => {
                let mut cur: Option<(String, String)> = None;
                for l in t.lines() {
                    if let Some(r) = l.strip_prefix("@impl ") {
                        let (x, y) = r.trim().split_once(' ').unwrap();
                        cur = Some((x.into(), y.into()));
                        impls.entry(cur.clone().unwrap()).or_default();
                    } else if let Some(k) = &cur {
                        let e = impls.get_mut(k).unwrap();
                        e.push_str(l);
                        e.push('\n');
                    }
                }
            }
            _ => {}
        }
    }
    // self-test: an assertion that must fail where a function starts or ends
    if let Some(p) = opt("--probe") {
        for c in cs.values_mut() {
            let h = c.hints.entry(p.clone()).or_default();
            h.push_str("\nproof { assert(false); }\n");
        }
    }
    // snapshot: key \t params(,) \t locals(,) \t kinds(,)
    let mut snap: BTreeMap<String, (Vec<String>, Vec<String>, Vec<String>)> = BTreeMap::new();
    let mut snap_calls: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    if let Some(p) = snap_in {
        for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
            let f: Vec<&str> = l.split('\t').collect();
            if f.len() >= 4 {
                let sp = |s: &str| s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect::<Vec<_>>();
                snap.insert(f[0].into(), (sp(f[1]), sp(f[2]), sp(f[3])));
                if let Some(x) = f.get(4) {
                    snap_calls.insert(f[0].into(), x.split(';').map(|x| x.to_string()).collect());
                }
            }
        }
    }
    let lines_file = |snap: &str| Path::new(snap).with_extension("lines");
    let mut snap_lines: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    if let Some(p) = opt("--snapshot") {
        for l in std::fs::read_to_string(lines_file(&p)).unwrap_or_default().lines() {
            if let Some((k, v)) = l.split_once('\t') {
                snap_lines.insert(k.into(), v.split(' ').map(|x| x.to_string()).collect());
            }
        }
    }
    let heap_fns: BTreeSet<String> = cs
        .values()
        .filter(|c| c.heap)
        .map(|c| c.key.rsplit("::").next().unwrap().to_string())
        .filter(|n| !n.ends_with("$h"))
        .collect();
    let mut sh = Shared { model: &model, contracts: &cs, heap_fns, jvp_variants: Default::default(), act_variants: Default::default(), lifted: vec![] };
    let mut outs: Vec<Out> = vec![];
    let skipped: Vec<(String, String)> = vec![];
    for k in &model.order {
        let fi = &model.fns[k];
        let sn = snap.get(k).map(|s| (s.0.clone(), s.1.clone()));
        outs.push(emit_fn(&mut sh, fi, cs.get(k), sn.as_ref()));
        if let Some(c2) = cs.get(&format!("{k}$h")) {
            // second copy for callers that hold the gradient token
            let mut f2 = fi.clone();
            f2.key = format!("{k}$h");
            f2.name = format!("{}_h", fi.name);
            f2.trait_name = None;
            let sn = snap.get(&f2.key).map(|s| (s.0.clone(), s.1.clone())).or(sn.clone());
            outs.push(emit_fn(&mut sh, &f2, Some(c2), sn.as_ref()));
        }
        // further instantiations of a generic function: the same source under another contract
        let pre = format!("{k}$");
        for k2 in cs.keys().filter(|x| x.starts_with(&pre) && !x.ends_with("$h") && !x[pre.len()..].starts_with("closure")) {
            let mut f2 = fi.clone();
            f2.key = k2.clone();
            outs.push(emit_fn(&mut sh, &f2, cs.get(k2), sn.as_ref()));
        }
        while let Some(l) = sh.lifted.pop() {
            let sn = snap.get(&l.key).map(|s| (s.0.clone(), s.1.clone()));
            outs.push(emit_fn(&mut sh, &l, cs.get(&l.key), sn.as_ref()));
        }
    }
    // ---------------------------------------------------------------- text
    let mut t = String::from("#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, unused_assignments, non_snake_case, non_camel_case_types, unreachable_code, mismatched_lifetime_syntaxes, path_statements, unused_must_use)]\nuse vstd::prelude::*;\nuse vstd::view::View as VxVstdView;\nuse std::sync::Arc;\nuse std::ops::Deref;\nverus! {\n");
    t.push_str(&prelude);
    struct_text(&model, &mut t);
    derived_impls(&model, &mut t);
    // function values
    for (en, vars, call, args, ret, pre, post, opt_, unk) in [
        ("JvpFn", sh.jvp_variants.clone(), "call", "inputs: Vec<RcTensor>, grads: Vec<RcTensor>", "Vec<RcTensor>", "jvp_pre(self.op(), inputs@, grads@)", "jvp_post(self.op(), inputs@, grads@, r@)", "DOp", "DOp::Ext"),
        ("ActFn", sh.act_variants.clone(), "call", "x: RcTensor", "RcTensor", "rwf(*x.0), vx_R() || act_pre(self.op(), x)", "act_pre(self.op(), x), act_post(self.op(), x, r)", "AOp", "AOp::Ext(0)"),
    ] {
        writeln!(t, "pub enum {en} {{ {} VxExt(u64) }}", vars.keys().map(|v| format!("{v}, ")).collect::<String>()).unwrap();
        // a function pointer is Copy
        let same = vars.keys().map(|v| format!("{en}::{v} => {en}::{v}, ")).collect::<String>();
        writeln!(t, "impl Clone for {en} {{ fn clone(&self) -> (r: {en}) ensures r == *self {{ match self {{ {same} {en}::VxExt(k) => {en}::VxExt(*k) }} }} }}").unwrap();
        let mut arms = String::new();
        let mut ex = String::new();
        let argn = if en == "JvpFn" { "inputs, grads" } else { "x" };
        for (v, key) in &vars {
            let op = cs.get(key).map(|c| c.jvp_op.clone()).filter(|s| !s.is_empty());
            let o = match &op { Some(o) => format!("{opt_}::{o}"), None => unk.to_string() };
            writeln!(arms, "            {en}::{v} => {o},").unwrap();
            let called = if op.is_some() {
                match sh.model.fns.get(key) { Some(f) => f.name.clone(), None => v.clone() }
            } else {
                String::new()
            };
            if called.is_empty() {
                writeln!(ex, "            {en}::{v} => vx_ext_{}(0, {argn}),", en.to_lowercase()).unwrap();
            } else {
                writeln!(ex, "            {en}::{v} => {called}({argn}),").unwrap();
            }
        }
        let extop2 = ();
        let extop = if en == "JvpFn" { "DOp::Ext".to_string() } else { "AOp::Ext(*k)".into() };
        writeln!(t, "impl {en} {{\n    pub open spec fn op(&self) -> {opt_} {{ match self {{\n{arms}            {en}::VxExt(k) => {extop},\n        }} }}").unwrap();
        writeln!(ex, "            {en}::VxExt(k) => vx_ext_{}(*k, {argn}),", en.to_lowercase()).unwrap();
        let _ = extop2;
        writeln!(t, "    pub fn {call}(&self, {args}) -> (r: {ret})\n        requires {pre},\n        ensures {post},\n    {{ match self {{\n{ex}        }} }}\n}}").unwrap();
    }
    let mut ranges: Vec<(usize, usize)> = vec![(0, 0); outs.len()];
    let mut emitted: BTreeSet<usize> = BTreeSet::new();
    let fn_text = |o: &Out| -> String {
        let ext = o.external || external.contains(&o.key) || !o.unsupported.is_empty();
        let body = if ext { "{ unimplemented!() }".to_string() } else { o.body.clone() };
        format!("{}{}{}{}\n", if ext { "#[verifier::external_body]\n" } else { "" }, o.attrs, o.sig, body)
    };
    let line_of = |t: &str| t.matches('\n').count() + 1;
    // a helper without contract that nothing calls any more (its body stands where it was called) needs no text
    let wanted: BTreeSet<&String> = outs.iter().flat_map(|o| o.called.iter()).collect();
    for i in 0..outs.len() {
        let o = &outs[i];
        if emitted.contains(&i) || (o.no_contract && o.group.is_none() && !snap.is_empty() && !snap.contains_key(&o.key) && !wanted.contains(&o.key)) {
            continue;
        }
        match &o.group {
            Some(g) => {
                t.push_str(&o.head);
                if let Some(x) = impls.get(g) {
                    t.push_str(x);
                }
                for j in i..outs.len() {
                    if outs[j].group.as_ref() == Some(g) {
                        emitted.insert(j);
                        let l0 = line_of(&t);
                        t.push_str(&fn_text(&outs[j]));
                        ranges[j] = (l0, line_of(&t));
                    }
                }
                t.push_str("}\n");
            }
            None => {
                let l0 = line_of(&t);
                t.push_str(&o.head);
                t.push_str(&fn_text(o));
                if !o.head.is_empty() {
                    t.push_str("}\n");
                }
                ranges[i] = (l0, line_of(&t));
            }
        }
    }
    t.push_str("} // verus!\nfn main() {}\n");
    std::fs::write(&out_p, &t).unwrap();
    // ---------------------------------------------------------------- report
    let mut r = String::from("{\"functions\":[\n");
    let keys: BTreeSet<String> = outs.iter().map(|o| o.key.clone()).collect();
    for (i, o) in outs.iter().enumerate() {
        let c = cs.get(&o.key);
        let skel_ok = match snap.get(&o.key) {
            Some(s) => s.2 == o.kinds,
            None => false,
        };
        writeln!(
            r,
            "{}{{\"key\":{},\"file\":{},\"line\":{},\"l0\":{},\"l1\":{},\"props\":{},\"external\":{},\"unsupported\":{},\"missing\":{},\"kinds\":{},\"locals\":{},\"params\":{},\"called\":{},\"new_calls\":{},\"new_lines\":{},\"contract\":{},\"skeleton_same\":{},\"known\":{}}}",
            if i > 0 { "," } else { "" },
            js(&o.key), js(&o.file), o.line, ranges[i].0, ranges[i].1,
            jl(&c.map(|c| c.props.clone()).unwrap_or_default()),
            o.external, jl(&o.unsupported), jl(&o.missing), jl(&o.kinds), jl(&o.locals), jl(&o.params), jl(&o.called),
            jl(&snap_calls.get(&o.key).map(|b| o.called.iter().filter(|c| !b.contains(*c)).cloned().collect::<Vec<_>>()).unwrap_or_default()),
            jl(&snap_lines.get(&o.key).map(|b| o.body.lines().map(|l| l.trim()).filter(|l| !l.is_empty() && !b.contains(&line_hash(l))).map(|l| l.to_string()).collect::<Vec<_>>()).unwrap_or_default()),
            !o.no_contract, skel_ok, snap.contains_key(&o.key)
        ).unwrap();
    }
    let lost: Vec<String> = cs.keys().filter(|k| !keys.contains(*k)).cloned().collect();
    write!(r, "],\n\"lost\":{},\n\"skipped\":{},\n\"trait_methods\":{}}}\n", jl(&lost), jl(&skipped.iter().map(|s| s.0.clone()).collect::<Vec<_>>()), jl(&model.trait_methods)).unwrap();
    std::fs::write(&rep_p, r).unwrap();
    if let Some(p) = snap_out {
        let mut s = String::new();
        for o in &outs {
            writeln!(s, "{}\t{}\t{}\t{}\t{}", o.key, o.params.join(","), o.locals.join(","), o.kinds.join(","), o.called.join(";")).unwrap();
        }
        std::fs::write(&p, s).unwrap();
        let mut s = String::new();
        for o in &outs {
            let h: BTreeSet<String> = o.body.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).map(line_hash).collect();
            writeln!(s, "{}\t{}", o.key, h.into_iter().collect::<Vec<_>>().join(" ")).unwrap();
        }
        std::fs::write(lines_file(&p), s).unwrap();
    }
}
