//! Contract files: plain text, one `@fn KEY` block per function.
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct LoopC {
    pub invariant: String,
    pub except: String,
    pub ensures: String,
    pub decreases: String,
    pub attr: String,
}
#[derive(Default, Clone, Debug)]
pub struct Contract {
    pub key: String,
    pub params: Vec<String>,
    pub ret: String,
    pub props: Vec<String>,
    pub requires: String,
    pub ensures: String,
    pub accept: String,
    pub decreases: String,
    pub heap: bool,
    pub chan: bool,
    pub chanroot: bool,
    pub births: bool, // tensors built here enter the heap: constructors that carry the token are called
    pub buf: bool,
    pub external: bool,
    pub attr: String,
    pub loops: BTreeMap<usize, LoopC>,
    pub hints: BTreeMap<String, String>,
    pub closures: BTreeMap<usize, String>,
    pub jvp_op: String,
    pub spec: String,
    pub locals: Vec<String>,
    pub bound: String,
    pub instantiate: Vec<String>,
}

pub fn parse(text: &str, out: &mut BTreeMap<String, Contract>, order: &mut Vec<String>) {
    let mut cur: Option<Contract> = None;
    let mut section = String::new();
    let mut loop_no = 0usize;
    let mut buf = String::new();
    fn flush(cur: &mut Option<Contract>, section: &str, loop_no: usize, buf: &mut String) {
        let t = std::mem::take(buf).trim().trim_end_matches(',').to_string();
        if let Some(c) = cur {
            let join = |a: &str| if a.is_empty() { t.clone() } else if t.is_empty() { a.to_string() } else { format!("{a},\n{t}") };
            match section {
                "requires" => c.requires = join(&c.requires),
                "ensures" => c.ensures = join(&c.ensures),
                "accept" => c.accept = t,
                "decreases" => c.decreases = t,
                "attr" => c.attr = format!("{}{}", c.attr, t),
                "spec" => c.spec = t,
                "loop" => {
                    c.loops.entry(loop_no).or_default();
                }
                "invariant" => {
                    let l = c.loops.entry(loop_no).or_default();
                    l.invariant = t;
                }
                "lexcept" => c.loops.entry(loop_no).or_default().except = t,
                "lensures" => c.loops.entry(loop_no).or_default().ensures = t,
                "ldecreases" => c.loops.entry(loop_no).or_default().decreases = t,
                "lattr" => c.loops.entry(loop_no).or_default().attr = t,
                s if s.starts_with("hint ") => {
                    c.hints.insert(s[5..].trim().to_string(), t);
                }
                s if s.starts_with("closure ") => {
                    c.closures.insert(s[8..].trim().parse().unwrap(), t);
                }
                _ => {}
            }
        }
    }
    let mut done = |c: Option<Contract>| {
        if let Some(c) = c {
            order.push(c.key.clone());
            if out.insert(c.key.clone(), c.clone()).is_some() {
                panic!("duplicate contract {}", c.key);
            }
        }
    };
    for line in text.lines() {
        let l = line.trim_start();
        if l.starts_with("//#") {
            continue;
        }
        if let Some(rest) = l.strip_prefix('@') {
            flush(&mut cur, &section, loop_no, &mut buf);
            section.clear();
            let (w, r) = match rest.find(char::is_whitespace) {
                Some(i) => (&rest[..i], rest[i..].trim()),
                None => (rest.trim(), ""),
            };
            let words = || r.split_whitespace().map(|s| s.to_string()).collect::<Vec<_>>();
            match w {
                "fn" => {
                    done(cur.take());
                    cur = Some(Contract { key: r.to_string(), ret: "r".into(), ..Default::default() });
                }
                "params" => cur.as_mut().unwrap().params = words(),
                "props" => cur.as_mut().unwrap().props = words(),
                "ret" => cur.as_mut().unwrap().ret = r.into(),
                "heap" => cur.as_mut().unwrap().heap = true,
                "chan" => cur.as_mut().unwrap().chan = true,
                "chanroot" => cur.as_mut().unwrap().chanroot = true,
                "births" => cur.as_mut().unwrap().births = true,
                "buf" => cur.as_mut().unwrap().buf = true,
                "external" => cur.as_mut().unwrap().external = true,
                "jvp" => cur.as_mut().unwrap().jvp_op = r.into(),
                "bound" => cur.as_mut().unwrap().bound = r.into(),
                "locals" => cur.as_mut().unwrap().locals = words(),
                "instantiate" => cur.as_mut().unwrap().instantiate.push(r.into()),
                "loop" => {
                    loop_no = r.parse().unwrap();
                    section = "loop".into();
                }
                "hint" => {
                    section = format!("hint {r}");
                }
                "closure" => {
                    section = format!("closure {r}");
                }
                s => {
                    section = s.to_string();
                    buf.push_str(r);
                    buf.push('\n');
                }
            }
        } else {
            buf.push_str(line);
            buf.push('\n');
        }
    }
    flush(&mut cur, &section, loop_no, &mut buf);
    done(cur.take());
}
