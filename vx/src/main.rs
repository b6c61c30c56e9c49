//! vx: mechanical extraction of functions of /repo into Verus text.
//! usage: vx REPO TEMPLATE OUT.rs REPORT.json BASELINE_DIR [--bless] [--stub key]...
//!
//! A template is Verus text with `//@` directives; every `//@fn` block is replaced by the
//! function of that name as it stands in REPO, after the rewrites listed in lower.rs, with the
//! contract, loop invariants and proof hints of the block spliced in at structural positions.
mod lower;
mod table;
mod tmpl;

use std::collections::HashMap;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};

// `permutation!` is exported by alg: files that do not define it use that definition
fn load(repo: &Path, file: &str) -> Result<table::Table, String> {
    let mut t = table::load(&repo.join(file))?;
    if !t.macros.contains_key("permutation") {
        if let Ok(p) = table::load(&repo.join("alg/src/non_commutative/permutation.rs")) {
            if let Some(d) = p.macros.get("permutation") { t.macros.insert("permutation".into(), d.clone()); }
        }
    }
    Ok(t)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let repo = PathBuf::from(&args[1]);
    let template = &args[2];
    let out = &args[3];
    let report = &args[4];
    let basedir = PathBuf::from(&args[5]);
    let mut bless = false;
    let mut stubs = Vec::new();
    let mut canary = false;
    let mut i = 6;
    while i < args.len() {
        match args[i].as_str() {
            "--bless" => bless = true,
            "--canary" => canary = true,
            "--stub" => { i += 1; stubs.push(args[i].clone()); }
            x => panic!("bad arg {x}"),
        }
        i += 1;
    }
    let unit = Path::new(template).file_stem().unwrap().to_str().unwrap().to_string();
    let text = std::fs::read_to_string(template).expect("template");
    let items = tmpl::parse(&text, Path::new(template).parent().unwrap());
    let mut tables: HashMap<String, Result<table::Table, String>> = HashMap::new();

    // the set of functions that have a contract in this template (never inlined)
    let mut known: Vec<String> = Vec::new();
    for it in &items {
        match it {
            tmpl::Item::Fn(f) => known.push(f.path.clone()),
            tmpl::Item::Known(k) => known.push(k.clone()),
            _ => {}
        }
    }

    let mut emitted = String::new();
    let mut rep: Vec<String> = Vec::new();
    for it in &items {
        match it {
            tmpl::Item::Text(t) => emitted.push_str(t),
            tmpl::Item::Known(_) => {}
            tmpl::Item::Struct { file, name, subst, opts } => {
                let tab = tables.entry(file.clone()).or_insert_with(|| load(&repo, file));
                let res = match tab {
                    Ok(t) => table::emit_struct(t, name, subst, opts),
                    Err(e) => Err(e.clone()),
                };
                let base_path = basedir.join(format!("{}__struct_{}.txt", unit, san(name)));
                match res {
                    Ok(s) => {
                        if bless { std::fs::write(&base_path, &s).unwrap(); }
                        emitted.push_str(&s);
                        emitted.push('\n');
                        rep.push(format!("{{\"kind\":\"struct\",\"name\":{},\"ok\":true}}", js(name)));
                    }
                    Err(e) => {
                        if let Ok(s) = std::fs::read_to_string(&base_path) { emitted.push_str(&s); emitted.push('\n'); }
                        rep.push(format!("{{\"kind\":\"struct\",\"name\":{},\"ok\":false,\"error\":{}}}", js(name), js(&e)));
                    }
                }
            }
            tmpl::Item::Fn(f) => {
                let tab = tables.entry(f.file.clone()).or_insert_with(|| load(&repo, &f.file));
                let base_path = basedir.join(format!("{}__{}.txt", unit, san(&f.key)));
                let line0 = emitted.matches('\n').count() + 1;
                let res = match tab {
                    Ok(t) => lower::extract(t, f, &known),
                    Err(e) => Err(e.clone()),
                };
                let stubbed = stubs.contains(&f.key);
                let baseline = std::fs::read_to_string(&base_path).ok();
                match (res, stubbed) {
                    (Ok(x), false) => {
                        if bless { std::fs::write(&base_path, format!("{}\n{}", x.sig, x.body)).unwrap(); }
                        let mut same = true;
                        let mut ren: Vec<(String, String)> = vec![];
                        if !bless {
                            if let Some(b) = &baseline {
                                let (bsig, bbody) = b.split_once('\n').unwrap_or((b, ""));
                                same = bbody == x.body && bsig == x.sig;
                                if !same { ren = lower::align(&format!("{bsig} {bbody}"), &format!("{} {}", x.sig, x.body)); }
                            }
                        }
                        let s = lower::splice(f, &x, &ren, canary);
                        emitted.push_str(&s);
                        emitted.push('\n');
                        let line1 = emitted.matches('\n').count();
                        rep.push(format!(
                            "{{\"kind\":\"fn\",\"name\":{},\"ok\":true,\"same\":{},\"loops\":{},\"want_loops\":{},\"base_loops\":{},\"same_shape\":{},\"inlined\":[{}],\"dropped\":[{}],\"renamed\":[{}],\"unknown\":[{}],\"file\":{},\"line0\":{},\"line1\":{}}}",
                            js(&f.key), same, x.loops, f.n_loops_spec(),
                            baseline.as_ref().map(|b| lower::count_loops(b) as i64).unwrap_or(-1),
                            baseline.as_ref().map(|b| lower::loop_shape(b) == lower::loop_shape(&x.body)).unwrap_or(true),
                            x.inlined.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
                            x.dropped.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
                            ren.iter().map(|(a, b)| js(&format!("{a}->{b}"))).collect::<Vec<_>>().join(","),
                            "",
                            js(&f.file), line0, line1));
                    }
                    (r, _) => {
                        let err = match r { Ok(_) => "stubbed by the driver".to_string(), Err(e) => e };
                        let sig = baseline.as_ref().and_then(|b| b.lines().next().map(|s| s.to_string()));
                        if let Some(sig) = sig {
                            let _ = write!(emitted, "#[verifier::external_body]\n{}\n{}\n{{ unimplemented!() }}\n", sig, f.spec);
                        }
                        let line1 = emitted.matches('\n').count();
                        rep.push(format!("{{\"kind\":\"fn\",\"name\":{},\"ok\":false,\"stubbed\":{},\"error\":{},\"file\":{},\"line0\":{},\"line1\":{}}}",
                            js(&f.key), stubbed, js(&err), js(&f.file), line0, line1));
                    }
                }
            }
        }
    }
    std::fs::write(out, &emitted).unwrap();
    std::fs::write(report, format!("[{}]\n", rep.join(",\n"))).unwrap();
}

fn san(s: &str) -> String {
    s.chars().map(|c| if c.is_alphanumeric() || c == '_' { c } else { '_' }).collect()
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
