//! Template syntax.
//!   //@file PATH                      default source file for what follows
//!   //@include NAME                   splice another template (prelude)
//!   //@struct NAME [T=Type ..] [opt ..]
//!   //@known PATH                     a function whose contract is written in the template text
//!   //@fn PATH [key=K] [name=N] [ret=r] [file=F] [params=a,b] [T=Type ..] [opt ..]
//!   //@.spec  //@.entry  //@.exit  //@.loop N  //@.loop N begin|end|after
//!   //@end
use std::collections::HashMap;
use std::path::Path;

pub enum Item {
    Text(String),
    Struct { file: String, name: String, subst: Vec<(String, String)>, opts: Vec<String> },
    Known(String),
    Fn(FnSpec),
}

#[derive(Default, Clone)]
pub struct FnSpec {
    pub file: String,
    pub path: String,
    pub key: String,
    pub name: Option<String>,
    pub ret: String,
    pub params: Option<Vec<String>>,
    pub subst: Vec<(String, String)>,
    pub opts: HashMap<String, String>,
    pub spec: String,
    pub entry: String,
    pub exit: String,
    pub attrs: String,
    pub loop_inv: HashMap<usize, String>,
    pub loop_begin: HashMap<usize, String>,
    pub loop_end: HashMap<usize, String>,
    pub loop_after: HashMap<usize, String>,
    pub loop_before: HashMap<usize, String>,
    pub at_ret: HashMap<usize, String>,   // before the n-th `return`, its value bound to __ret
    pub at_brk: HashMap<usize, String>,   // before the n-th `break`
    pub at_panic: HashMap<usize, String>, // before the n-th panic
    pub at_call: Vec<(String, usize, String)>, // before the n-th call of a function or method
}

impl FnSpec {
    pub fn n_loops_spec(&self) -> usize {
        self.loop_inv.len()
    }
    pub fn has(&self, o: &str) -> bool {
        self.opts.contains_key(o)
    }
}

pub fn parse(text: &str, dir: &Path) -> Vec<Item> {
    let mut items = Vec::new();
    let mut file = String::new();
    let text = &foreach(text);
    parse_into(text, dir, &mut items, &mut file);
    items
}

/// //@foreach X a b c ... //@endfor: the lines in between once per value, `@X@` replaced
fn foreach(text: &str) -> String {
    let mut out = String::new();
    let mut lines = text.lines();
    while let Some(l) = lines.next() {
        if let Some(r) = l.trim_start().strip_prefix("//@foreach ") {
            let w: Vec<&str> = r.split_whitespace().collect();
            let mut body = String::new();
            for l in lines.by_ref() {
                if l.trim_start().starts_with("//@endfor") { break; }
                body.push_str(l); body.push('\n');
            }
            for v in &w[1..] { out.push_str(&body.replace(&format!("@{}@", w[0]), v)); }
            continue;
        }
        out.push_str(l); out.push('\n');
    }
    out
}

fn parse_into(text: &str, dir: &Path, items: &mut Vec<Item>, file: &mut String) {
    let mut buf = String::new();
    let mut cur: Option<FnSpec> = None;
    let mut sect = String::new();
    let put = |cur: &mut FnSpec, sect: &str, line: &str| {
        let w: Vec<&str> = sect.split_whitespace().collect();
        let tgt: &mut String = match w.as_slice() {
            ["spec"] => &mut cur.spec,
            ["entry"] => &mut cur.entry,
            ["exit"] => &mut cur.exit,
            ["attrs"] => &mut cur.attrs,
            ["loop", n] => cur.loop_inv.entry(n.parse().unwrap()).or_default(),
            ["loop", n, "begin"] => cur.loop_begin.entry(n.parse().unwrap()).or_default(),
            ["loop", n, "end"] => cur.loop_end.entry(n.parse().unwrap()).or_default(),
            ["loop", n, "after"] => cur.loop_after.entry(n.parse().unwrap()).or_default(),
            ["loop", n, "before"] => cur.loop_before.entry(n.parse().unwrap()).or_default(),
            ["ret", n] => cur.at_ret.entry(n.parse().unwrap()).or_default(),
            ["brk", n] => cur.at_brk.entry(n.parse().unwrap()).or_default(),
            ["at", f, n] => {
                let n: usize = n.parse().unwrap();
                let k = match cur.at_call.iter().position(|c| c.0 == *f && c.1 == n) { Some(k) => k, None => { cur.at_call.push((f.to_string(), n, String::new())); cur.at_call.len() - 1 } };
                &mut cur.at_call[k].2
            }
            ["panic", n] => cur.at_panic.entry(n.parse().unwrap()).or_default(),
            _ => panic!("bad section {sect:?}"),
        };
        tgt.push_str(line);
        tgt.push('\n');
    };
    for line in text.lines() {
        let t = line.trim_start();
        if let Some(d) = t.strip_prefix("//@") {
            if let Some(s) = d.strip_prefix('.') {
                sect = s.trim().to_string();
                // allow text on the same line after ':'
                if let Some((a, b)) = s.split_once(':') {
                    sect = a.trim().to_string();
                    put(cur.as_mut().unwrap(), &sect, b);
                } else {
                    put(cur.as_mut().unwrap(), &sect, "");
                }
                continue;
            }
            let mut w = d.split_whitespace();
            match w.next() {
                Some("file") => *file = w.next().unwrap().to_string(),
                Some("include") => {
                    items.push(Item::Text(std::mem::take(&mut buf)));
                    let p = dir.join(w.next().unwrap());
                    let t = std::fs::read_to_string(&p).unwrap_or_else(|_| panic!("include {p:?}"));
                    parse_into(&t, dir, items, file);
                }
                Some("known") => {
                    for k in w { items.push(Item::Known(k.to_string())) }
                }
                Some("struct") => {
                    items.push(Item::Text(std::mem::take(&mut buf)));
                    let name = w.next().unwrap().to_string();
                    let mut subst = vec![];
                    let mut opts = vec![];
                    let mut f = file.clone();
                    for o in w {
                        match o.split_once('=') {
                            Some(("file", v)) => f = v.to_string(),
                            Some((a, b)) => subst.push((a.to_string(), b.to_string())),
                            None => opts.push(o.to_string()),
                        }
                    }
                    items.push(Item::Struct { file: f, name, subst, opts });
                }
                Some("fn") => {
                    items.push(Item::Text(std::mem::take(&mut buf)));
                    // the path may contain spaces inside <...>
                    let rest = d.trim_start().strip_prefix("fn").unwrap().trim();
                    let (path, rest) = split_path(rest);
                    let mut f = FnSpec { file: file.clone(), path: path.clone(), key: path, ret: "r".into(), ..Default::default() };
                    for o in rest.split_whitespace() {
                        match if o.starts_with("op:") { o.rsplit_once('=') } else { split_opt(o) } {
                            Some(("file", v)) => f.file = v.to_string(),
                            Some(("key", v)) => f.key = v.to_string(),
                            Some(("name", v)) => f.name = Some(v.to_string()),
                            Some(("ret", v)) => f.ret = v.to_string(),
                            Some(("params", v)) => f.params = Some(v.split(',').map(|s| s.to_string()).collect()),
                            Some((a, b)) if a.starts_with(char::is_uppercase) || a.starts_with('$') => f.subst.push((a.to_string(), b.replace('~', " "))),
                            Some((a, b)) => { f.opts.insert(a.to_string(), if a.starts_with("acc") { b.replace('~', " ") } else { b.to_string() }); }
                            None => { f.opts.insert(o.to_string(), String::new()); }
                        }
                    }
                    cur = Some(f);
                    sect = "spec".into();
                }
                Some("end") => items.push(Item::Fn(cur.take().unwrap())),
                x => panic!("bad directive {x:?}"),
            }
            continue;
        }
        match &mut cur {
            Some(c) => put(c, &sect, line),
            None => { buf.push_str(line); buf.push('\n'); }
        }
    }
    items.push(Item::Text(buf));
}

fn split_path(s: &str) -> (String, &str) {
    let mut depth = 0i32;
    for (i, c) in s.char_indices() {
        match c {
            '<' => depth += 1,
            '>' => depth -= 1,
            c if c.is_whitespace() && depth == 0 => return (s[..i].to_string(), &s[i..]),
            _ => {}
        }
    }
    (s.to_string(), "")
}

// at the first `=` that is not part of ==, !=, <= or >=
fn split_opt(o: &str) -> Option<(&str, &str)> {
    let b = o.as_bytes();
    for i in 0..b.len() {
        if b[i] != b'=' { continue; }
        if o.starts_with("expr:") && (i > 0 && matches!(b[i - 1], b'!' | b'<' | b'>' | b'=') || i + 1 < b.len() && b[i + 1] == b'=') { continue; }
        return Some((&o[..i], &o[i + 1..]));
    }
    None
}
