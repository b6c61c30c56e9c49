//! The rewrites applied to an extracted function. They are listed in DESIGN.md ("What the extraction drops").
use crate::table::{nows, FnEntry, Table};
use crate::tmpl::FnSpec;
use proc_macro2::Span;
use quote::{quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Ident, Pat, Stmt, Type};

pub struct Extracted {
    pub sig: String,
    pub body: String,
    pub loops: usize,
    pub inlined: Vec<String>,
    pub dropped: Vec<String>,
}

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}
fn ts(x: &impl ToTokens) -> String {
    nows(&x.to_token_stream().to_string())
}

// ---------------------------------------------------------------------------------------------
// type substitution
pub struct Subst {
    map: HashMap<String, String>,
}
impl Subst {
    fn new(s: &[(String, String)]) -> Subst {
        Subst { map: s.iter().cloned().collect() }
    }
}
impl VisitMut for Subst {
    fn visit_receiver_mut(&mut self, _: &mut syn::Receiver) {}
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Some(r) = self.map.get(&ts(t)) {
            if let Ok(n) = syn::parse_str::<Type>(r) { *t = n; return; }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        if let Some(r) = self.map.get(&ts(p)) {
            if let Ok(n) = syn::parse_str::<syn::Path>(r) { *p = n; return; }
        }
        // a macro's own variables may name any segment
        for g in p.segments.iter_mut().skip(1) {
            let n = g.ident.to_string();
            if n.starts_with("__mac_") { if let Some(r) = self.map.get(&n) { g.ident = id(r); } }
        }
        if p.segments.len() >= 2 {
            let f = p.segments[0].ident.to_string();
            if let Some(r) = self.map.get(&f) {
                if let Ok(n) = syn::parse_str::<syn::Path>(r) {
                    let mut segs = n.segments.clone();
                    for s in p.segments.iter().skip(1) { segs.push(s.clone()); }
                    p.segments = segs;
                }
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // <T>::f(..)
        if let Expr::Path(p) = e {
            if let Some(q) = &p.qself {
                if q.position == 0 {
                    let k = ts(&*q.ty);
                    let r = self.map.get(&k).cloned().unwrap_or(k);
                    if let Ok(n) = syn::parse_str::<syn::Path>(&r) {
                        let mut segs = n.segments.clone();
                        for s in p.path.segments.iter() { segs.push(s.clone()); }
                        p.path.segments = segs;
                        p.path.leading_colon = None;
                        p.qself = None;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
pub fn subst_types_item(s: &mut syn::ItemStruct, m: &[(String, String)]) -> Result<(), String> {
    Subst::new(m).visit_item_struct_mut(s);
    Ok(())
}
pub fn subst_types_enum(s: &mut syn::ItemEnum, m: &[(String, String)]) -> Result<(), String> {
    Subst::new(m).visit_item_enum_mut(s);
    Ok(())
}
pub fn strip_generics(g: &mut syn::Generics, subst: &[(String, String)]) {
    let keep: Vec<syn::GenericParam> = g.params.iter().filter(|p| match p {
        syn::GenericParam::Type(t) => !subst.iter().any(|(a, _)| *a == t.ident.to_string()),
        syn::GenericParam::Const(t) => !subst.iter().any(|(a, _)| *a == t.ident.to_string()),
        syn::GenericParam::Lifetime(_) => true,
    }).cloned().collect();
    let only = keep.iter().all(|p| matches!(p, syn::GenericParam::Lifetime(_)));
    g.params = keep.into_iter().collect();
    if only { g.where_clause = None; }
    if g.params.is_empty() { g.lt_token = None; g.gt_token = None; g.where_clause = None; }
}

// ---------------------------------------------------------------------------------------------
// finding functions
fn parse_key(k: &str) -> (String, String, String, String) {
    // (self, trait, trait_full, name)
    let k2 = nows(k);
    if let Some(r) = k2.strip_prefix('<') {
        let e = r.rfind(">::").unwrap();
        let (inner, name) = (&r[..e], &r[e + 3..]);
        let inner = inner.to_string();
        // "TypeasTrait" has lost its blanks: split on the original text
        let k1 = k.trim();
        let e1 = k1.rfind(">::").unwrap();
        let inner1 = &k1[1..e1];
        if let Some((a, b)) = inner1.split_once(" as ") {
            let b2 = nows(b);
            let short = b2.split('<').next().unwrap().rsplit("::").next().unwrap().to_string();
            return (nows(a), short, b2, name.to_string());
        }
        return (inner, String::new(), String::new(), name.to_string());
    }
    match k2.rsplit_once("::") {
        Some((a, b)) => (a.to_string(), String::new(), String::new(), b.to_string()),
        None => (String::new(), String::new(), String::new(), k2),
    }
}

// A closure bound by `let NAME = |x: T, ..| -> R {..}` that captures nothing is a function; key PARENT#NAME.
struct Binders { names: HashSet<String>, used: HashSet<String>, selfs: bool }
impl<'a> syn::visit::Visit<'a> for Binders {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.names.insert(p.ident.to_string()); syn::visit::visit_pat_ident(self, p); }
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
        if let Some(i) = p.path.get_ident() { if i == "self" { self.selfs = true; } self.used.insert(i.to_string()); }
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) { for x in words(&m.tokens.to_string()) { self.used.insert(x); } }
}
struct FindClosure { name: String, found: Vec<syn::ExprClosure> }
impl<'a> syn::visit::Visit<'a> for FindClosure {
    fn visit_local(&mut self, l: &'a syn::Local) {
        if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
            if let (true, Expr::Closure(c)) = (p.ident == self.name, &*i.expr) { self.found.push(c.clone()); }
        }
        syn::visit::visit_local(self, l);
    }
}
fn local_closure(t: &Table, f: &FnSpec) -> Result<FnEntry, String> {
    let (parent, name) = f.path.split_once('#').unwrap();
    let mut pf = f.clone();
    pf.path = parent.to_string();
    let e = find(t, &pf)?;
    let mut fc = FindClosure { name: name.to_string(), found: vec![] };
    syn::visit::Visit::visit_block(&mut fc, &e.block);
    if fc.found.len() != 1 { return Err(format!("lost anchor: no closure {}", f.path)); }
    let c = fc.found.pop().unwrap();
    let mut outer = Binders { names: HashSet::new(), used: HashSet::new(), selfs: false };
    syn::visit::Visit::visit_signature(&mut outer, &e.sig);
    syn::visit::Visit::visit_block(&mut outer, &e.block);
    let mut inner = Binders { names: HashSet::new(), used: HashSet::new(), selfs: false };
    syn::visit::Visit::visit_expr_closure(&mut inner, &c);
    if inner.selfs || inner.used.iter().any(|u| outer.names.contains(u) && !inner.names.contains(u)) { return Err(format!("unsupported construct: {} captures", f.path)); }
    let (ins, out, body) = (&c.inputs, &c.output, &c.body);
    if ins.iter().any(|p| !matches!(p, Pat::Type(_))) || matches!(out, syn::ReturnType::Default) { return Err(format!("unsupported construct: untyped closure {}", f.path)); }
    let fname = id(&format!("{}__{}", e.sig.ident, name));
    let block: Block = match &**body { Expr::Block(b) => b.block.clone(), x => parse_quote!({ #x }) };
    let sig: syn::Signature = parse_quote!(fn #fname(#ins) #out);
    Ok(FnEntry { sig, block, in_macro: String::new(), trait_: String::new(), trait_full: String::new(), self_ty: e.self_ty.clone(), self_ty_full: e.self_ty_full.clone(), vis_pub: false, impl_generics: e.impl_generics.clone(), assoc: e.assoc.clone() })
}
// in the enclosing function: the binding goes away and calls go to the function
struct DropClosures { names: HashMap<String, Ident>, err: Option<String> }
impl VisitMut for DropClosures {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !matches!(s, Stmt::Local(l) if matches!((&l.pat, &l.init), (Pat::Ident(p), Some(i)) if self.names.contains_key(&p.ident.to_string()) && matches!(&*i.expr, Expr::Closure(_)))));
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if let Some(n) = p.path.get_ident().and_then(|i| self.names.get(&i.to_string())) {
                    c.func = Box::new(parse_quote!(Self::#n));
                    for a in c.args.iter_mut() { self.visit_expr_mut(a); }
                    return;
                }
            }
        }
        if let Expr::Path(p) = e { if let Some(i) = p.path.get_ident() { if self.names.contains_key(&i.to_string()) { self.err = Some(format!("unsupported construct: closure {i} as a value")); } } }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub fn find<'a>(t: &'a Table, f: &FnSpec) -> Result<&'a FnEntry, String> {
    let (sty, tr, trf, name) = parse_key(&f.path);
    let m = |s: String| s.replace('$', "__mac_");
    let (tr, trf, name) = (m(tr), m(trf), m(name));
    let mac = f.opts.get("macro").cloned().unwrap_or_default();
    let c: Vec<&FnEntry> = t.fns.iter().filter(|e| {
        e.sig.ident == name && (e.self_ty == sty || e.self_ty_full == sty)
            && (tr.is_empty() || e.trait_ == tr) && (!trf.contains('<') || e.trait_full == trf || e.trait_full.ends_with(&format!("::{trf}")))
            && e.in_macro == mac
    }).collect();
    let nth: usize = f.opts.get("nth").map(|s| s.parse().unwrap()).unwrap_or(0);
    let c: Vec<&FnEntry> = if tr.is_empty() && c.iter().any(|e| e.trait_.is_empty()) { c.into_iter().filter(|e| e.trait_.is_empty()).collect() } else { c };
    let ex = |e: &&FnEntry| e.trait_full == trf || e.trait_full.ends_with(&format!("::{trf}"));
    let c: Vec<&FnEntry> = if !tr.is_empty() && c.iter().any(ex) { c.into_iter().filter(ex).collect() } else { c };
    c.get(nth).copied().ok_or_else(|| format!("lost anchor: no function {}", f.path))
}

// ---------------------------------------------------------------------------------------------
// renaming of one identifier used as a value
struct Rename { from: String, to: Expr }
impl VisitMut for Rename {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() && p.path.is_ident(&self.from) { *e = self.to.clone(); return; }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        if let Expr::Path(p) = &self.to {
            if let Some(i) = p.path.get_ident() {
                m.tokens = rename_tokens(m.tokens.clone(), &self.from, i);
            }
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if f.colon_token.is_none() {
            if let syn::Member::Named(n) = &f.member {
                if *n == self.from { f.colon_token = Some(Default::default()); }
            }
        }
        visit_mut::visit_field_value_mut(self, f);
    }
}
fn rename_tokens(t: proc_macro2::TokenStream, from: &str, to: &Ident) -> proc_macro2::TokenStream {
    use proc_macro2::{Group, TokenTree};
    t.into_iter().map(|x| match x {
        TokenTree::Ident(i) if i == from => TokenTree::Ident(to.clone()),
        TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), rename_tokens(g.stream(), from, to))),
        x => x,
    }).collect()
}
struct RenamePat { from: String, to: Ident }
impl VisitMut for RenamePat {
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        if p.ident == self.from { p.ident = self.to.clone(); }
        visit_mut::visit_pat_ident_mut(self, p);
    }
}

// ---------------------------------------------------------------------------------------------
// does an expression contain return / break / continue (outside nested closures)?
#[derive(Default)]
struct Has { ret: bool, brk: bool, cont: bool, q: bool, depth: usize }
impl<'a> syn::visit::Visit<'a> for Has {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.ret = true; }
    fn visit_expr_try(&mut self, e: &'a syn::ExprTry) { self.q = true; syn::visit::visit_expr_try(self, e); }
    fn visit_expr_break(&mut self, e: &'a syn::ExprBreak) { if self.depth == 0 { self.brk = true; } syn::visit::visit_expr_break(self, e); }
    fn visit_expr_continue(&mut self, _: &'a syn::ExprContinue) { if self.depth == 0 { self.cont = true; } }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) { self.depth += 1; syn::visit::visit_expr_while(self, e); self.depth -= 1; }
    fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) { self.depth += 1; syn::visit::visit_expr_for_loop(self, e); self.depth -= 1; }
    fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) { self.depth += 1; syn::visit::visit_expr_loop(self, e); self.depth -= 1; }
}
fn has_block(b: &Block) -> Has {
    let mut h = Has::default();
    syn::visit::Visit::visit_block(&mut h, b);
    h
}

// turn early returns of a block into if/else nesting; Err when not possible
fn unreturn(stmts: Vec<Stmt>) -> Result<Vec<Stmt>, String> {
    let mut out: Vec<Stmt> = vec![];
    let mut it = stmts.into_iter();
    while let Some(s) = it.next() {
        let mut h = Has::default();
        syn::visit::Visit::visit_stmt(&mut h, &s);
        if h.q { return Err("cannot inline a helper that uses `?`".into()); }
        if !h.ret { out.push(s); continue; }
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                if let Some(e) = r.expr { out.push(Stmt::Expr(*e, None)); }
                return Ok(out);
            }
            Stmt::Expr(Expr::If(mut i), semi) => {
                let rest: Vec<Stmt> = it.collect();
                let diverges = |b: &Block| matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)));
                if i.else_branch.is_none() {
                    if !diverges(&i.then_branch) { return Err("cannot inline: conditional return".into()); }
                    let t = unreturn(i.then_branch.stmts)?;
                    let e = unreturn(rest)?;
                    i.then_branch = parse_quote!({ #(#t)* });
                    i.else_branch = Some((Default::default(), Box::new(parse_quote!({ #(#e)* }))));
                    out.push(Stmt::Expr(Expr::If(i), None));
                    return Ok(out);
                }
                if rest.is_empty() || (rest.is_empty() && semi.is_none()) {
                    let t = unreturn(i.then_branch.stmts)?;
                    i.then_branch = parse_quote!({ #(#t)* });
                    let (tok, e) = i.else_branch.unwrap();
                    let eb = unreturn(vec![Stmt::Expr(*e, None)])?;
                    i.else_branch = Some((tok, Box::new(parse_quote!({ #(#eb)* }))));
                    out.push(Stmt::Expr(Expr::If(i), None));
                    return Ok(out);
                }
                return Err("cannot inline: return inside if/else".into());
            }
            Stmt::Expr(Expr::Block(b), _) => {
                let rest: Vec<Stmt> = it.collect();
                if !rest.is_empty() { return Err("cannot inline: return inside block".into()); }
                let t = unreturn(b.block.stmts)?;
                out.extend(t);
                return Ok(out);
            }
            Stmt::Expr(Expr::Match(mut m), _) => {
                let rest: Vec<Stmt> = it.collect();
                if !rest.is_empty() { return Err("cannot inline: return inside match".into()); }
                for a in m.arms.iter_mut() {
                    let t = unreturn(vec![Stmt::Expr((*a.body).clone(), None)])?;
                    a.body = Box::new(parse_quote!({ #(#t)* }));
                    a.comma = Some(Default::default());
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
                return Ok(out);
            }
            _ => return Err("cannot inline: return in an unsupported position".into()),
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------------------------------------
// inlining of helpers that have no contract
struct Inliner<'a> {
    t: &'a Table,
    known: &'a [String],
    self_ty: String,
    depth: usize,
    done: Vec<String>,
    err: Option<String>,
    no: HashSet<String>,
    subst: Vec<(String, String)>,
}
impl<'a> Inliner<'a> {
    fn is_known(&self, ty: &str, name: &str) -> bool {
        self.known.iter().any(|k| {
            let (s, _, _, n) = parse_key(k);
            n == name && (s == ty || s.split('<').next() == Some(ty))
        })
    }
    fn lookup(&self, ty: &str, name: &str) -> Option<&'a FnEntry> {
        if self.no.contains(name) { return None; }
        let ty = if ty == "Self" { self.self_ty.as_str() } else { ty };
        if self.is_known(ty, name) { return None; }
        // a default method of the trait being instantiated: the implementing type may override it
        if ty == self.self_ty {
            if let Some((_, me)) = self.subst.iter().find(|(a, _)| a == "Self") {
                let me = me.split('<').next().unwrap_or("").trim();
                if me != ty && (self.is_known(me, name) || self.t.fns.iter().any(|e| e.sig.ident == name && e.self_ty == me)) { return None; }
            }
        }
        let c: Vec<_> = self.t.fns.iter().filter(|e| e.sig.ident == name && e.self_ty == ty && e.in_macro.is_empty()).collect();
        if c.len() == 1 { Some(c[0]) } else { None }
    }
    fn expand(&mut self, e: &FnEntry, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        if self.depth > 4 { self.err = Some("inlining too deep".into()); return None; }
        let mut block = e.block.clone();
        Subst::new(&self.subst).visit_block_mut(&mut block);
        let mut binds: Vec<Stmt> = vec![];
        let mut args = args.into_iter();
        let mut pats: Vec<proc_macro2::TokenStream> = vec![];
        let mut vals: Vec<Expr> = vec![];
        for inp in e.sig.inputs.iter() {
            match inp {
                syn::FnArg::Receiver(r) => {
                    let rv = match recv.clone().or_else(|| args.next()) { Some(x) => x, None => return None };
                    let rv = match rv { Expr::Reference(r) => *r.expr, x => x };
                    if r.reference.is_none() && r.mutability.is_some() { return None; }
                    if ts(&rv) != "self" { Rename { from: "self".into(), to: rv }.visit_block_mut(&mut block); }
                }
                syn::FnArg::Typed(p) => {
                    let a = args.next()?;
                    let mut ty = (*p.ty).clone();
                    Subst::new(&self.subst).visit_type_mut(&mut ty);
                    if let Type::Reference(r) = &ty {
                        // references to places are passed by substitution
                        if let (Expr::Reference(ar), Pat::Ident(pi)) = (&a, &*p.pat) {
                            if r.mutability.is_some() || simple_place(&ar.expr) {
                                let mut d = DerefSubst { name: pi.ident.to_string(), place: (*ar.expr).clone(), mutable: r.mutability.is_some() };
                                d.visit_block_mut(&mut block);
                                continue;
                            }
                        }
                        if let (Expr::Path(ap), Pat::Ident(pi)) = (&a, &*p.pat) {
                            if let Some(i) = ap.path.get_ident() {
                                if *i == pi.ident { continue; }
                                Rename { from: pi.ident.to_string(), to: a.clone() }.visit_block_mut(&mut block);
                                continue;
                            }
                        }
                    }
                    let pat = &p.pat;
                    // same name passed through: nothing to bind
                    if let (Expr::Path(ap), Pat::Ident(pi)) = (&a, &*p.pat) {
                        if ap.path.get_ident() == Some(&pi.ident) && pi.mutability.is_none() { continue; }
                    }
                    let gen = matches!(ty, Type::ImplTrait(_)) || ts(&ty).contains("Self") || e.sig.generics.type_params().next().is_some();
                    if gen { pats.push(quote!(#pat)); vals.push(a); } else {
                        binds.push(parse_quote!(let __unused_marker: #ty = #a;));
                        binds.pop();
                        pats.push(quote!(#pat));
                        vals.push(a);
                        let _ = &ty;
                    }
                }
            }
        }
        if pats.len() == 1 {
            let (p, v) = (&pats[0], &vals[0]);
            binds.push(parse_quote!(let #p = #v;));
        } else if pats.len() > 1 {
            binds.push(parse_quote!(let (#(#pats),*) = (#(#vals),*);));
        }
        let stmts = match unreturn(block.stmts) { Ok(s) => s, Err(x) => { self.err = Some(format!("{}: {x}", e.sig.ident)); return None; } };
        self.done.push(format!("{}::{}", e.self_ty, e.sig.ident));
        let mut out: Expr = parse_quote!({ #(#binds)* #(#stmts)* });
        self.depth += 1;
        self.visit_expr_mut(&mut out);
        self.depth -= 1;
        if binds.is_empty() {
            if let Expr::Block(b) = &out {
                if b.block.stmts.len() == 1 {
                    if let Stmt::Expr(x, None) = &b.block.stmts[0] { let x = x.clone(); return Some(if is_atom(&x) { x } else { parse_quote!((#x)) }); }
                }
            }
        }
        Some(out)
    }
}
fn is_atom(e: &Expr) -> bool {
    matches!(e, Expr::Path(_) | Expr::Field(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Index(_) | Expr::Lit(_) | Expr::Paren(_) | Expr::Macro(_))
}
impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if self.err.is_some() { return; }
        match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let r = ts(&*m.receiver);
                if r == "self" || r == "self_" {
                    if let Some(f) = self.lookup("Self", &name) {
                        let (rc, a) = ((*m.receiver).clone(), m.args.iter().cloned().collect());
                        if let Some(x) = self.expand(f, Some(rc), a) { *e = x; }
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.len();
                    if n == 0 { return; }
                    let name = p.path.segments[n - 1].ident.to_string();
                    let ty = if n >= 2 { p.path.segments[n - 2].ident.to_string() } else { String::new() };
                    if let Some(f) = self.lookup(&ty, &name) {
                        let a = c.args.iter().cloned().collect();
                        if let Some(x) = self.expand(f, None, a) { *e = x; }
                    } else if n >= 2 && ty.chars().next().map_or(false, |c| c.is_lowercase()) {
                        if let Some(f) = self.lookup("", &name) {
                            let a = c.args.iter().cloned().collect();
                            if let Some(x) = self.expand(f, None, a) { *e = x; }
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

// `x` stands for a reference to `place`
struct DerefSubst { name: String, place: Expr, mutable: bool }
impl DerefSubst {
    fn is(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.qself.is_none() && p.path.is_ident(&self.name))
    }
}
impl VisitMut for DerefSubst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && self.is(&u.expr) => { *e = self.place.clone(); return; }
            Expr::MethodCall(m) if self.is(&m.receiver) => {
                m.receiver = Box::new(self.place.clone());
                for a in m.args.iter_mut() { self.visit_expr_mut(a); }
                return;
            }
            Expr::Field(f) if self.is(&f.base) => { f.base = Box::new(self.place.clone()); return; }
            Expr::Index(i) if self.is(&i.expr) => { i.expr = Box::new(self.place.clone()); self.visit_expr_mut(&mut i.index); return; }
            Expr::Binary(b) if !self.mutable || true => {
                for s in [&mut b.left, &mut b.right] {
                    if self.is(s) { **s = self.place.clone(); } else { self.visit_expr_mut(s); }
                }
                return;
            }
            _ => {}
        }
        if self.is(e) {
            let p = &self.place;
            *e = if self.mutable { parse_quote!(&mut #p) } else { parse_quote!(&#p) };
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        if let Expr::Path(_) | Expr::Field(_) = &self.place {
            if let Ok(mut v) = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                for x in v.iter_mut() { self.visit_expr_mut(x); }
                m.tokens = v.to_token_stream();
            }
        }
    }
}

fn simple_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Lit(_) => true,
        Expr::Field(f) => simple_place(&f.base),
        Expr::Paren(p) => simple_place(&p.expr),
        Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => simple_place(&u.expr),
        Expr::Index(i) => simple_place(&i.expr) && simple_place(&i.index),
        _ => false,
    }
}

// ---------------------------------------------------------------------------------------------
// iterator chains
#[derive(Clone)]
enum Src {
    Place { e: Expr, kind: Kind },
    Range { lo: Expr, hi: Option<Expr>, incl: bool },
    Zip(Box<Src>, Box<Src>),
    Enum(Box<Src>),
    Rev(Box<Src>),
    Skip(Box<Src>, Expr),
    Take(Box<Src>, Expr),
    Map(Box<Src>, Expr),
    Deref(Box<Src>),
    Chain(Box<Src>, Box<Src>),
    Staged(Box<Src>, Vec<Stage>), // only as a part of a chain
    Windows(Expr, Expr),
    Stream(Expr),
}
#[derive(Clone, Copy, PartialEq)]
enum Kind { Shared, Mut, Owned }
#[derive(Clone)]
enum Stage { Map(Expr), Filter(Expr), TakeWhile(Expr), Deref, Enumerate, FlatMap(Expr), FilterMap(Expr), SkipWhile(Expr),
    /// two flattened sources in lockstep, and the lengths of their outer sources: lowered to nested loops, with the
    /// obligation that outer and inner lengths agree
    FlatZip(Expr, Expr, Expr, Expr) }
#[derive(Clone)]
enum El { Ref(Expr), MutRef(Expr), Val(Expr), Tup(Vec<El>), RefOf(Box<El>) }

#[derive(Clone)]
struct Ctl { stop: Option<Expr> } // extra loop condition

pub struct Low<'a> {
    f: &'a FnSpec,
    loops: usize,
    refs: HashSet<String>,
    refs2: HashSet<String>,
    err: Option<String>,
    dropped: Vec<String>,
    iters: HashSet<String>,
    flat_stop: Option<Expr>, // the stop condition of the loop around a flat_map's inner loop
}

const CONSUMERS: &[&str] = &["for_each", "sum", "product", "count", "collect", "all", "any", "find", "position", "fold", "max", "min", "last", "min_by_key", "max_by_key"];

impl<'a> Low<'a> {
    fn fail(&mut self, s: impl Into<String>) {
        if self.err.is_none() { self.err = Some(s.into()); }
    }
    fn as_src(&mut self, e: &Expr, implicit: bool) -> Option<(Src, Vec<Stage>)> {
        match e {
            Expr::Paren(p) => self.as_src(&p.expr, implicit),
            Expr::Block(b) if b.block.stmts.len() == 1 && b.label.is_none() => match &b.block.stmts[0] {
                Stmt::Expr(x, None) => self.as_src(x, implicit),
                _ => None,
            },
            Expr::Range(r) => {
                let lo = r.start.as_deref()?.clone();
                Some((Src::Range { lo, hi: r.end.as_deref().cloned(), incl: matches!(r.limits, syn::RangeLimits::Closed(_)) }, vec![]))
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let a0 = m.args.first().cloned();
                match name.as_str() {
                    "iter" | "iter_mut" | "into_iter" if m.args.is_empty() && !self.iters.contains(&format!("{}.{}", ts(&*m.receiver), name)) => {
                        if name == "into_iter" {
                            if let Some(x) = self.as_src(&m.receiver, false) { return Some(x); }
                        }
                        let kind = match name.as_str() { "iter" => Kind::Shared, "iter_mut" => Kind::Mut, _ => Kind::Owned };
                        Some((Src::Place { e: (*m.receiver).clone(), kind }, vec![]))
                    }
                    "by_ref" => self.as_src(&m.receiver, implicit),
                    "windows" => Some((Src::Windows((*m.receiver).clone(), a0?), vec![])),
                    "zip" => {
                        let (s, st) = self.as_src(&m.receiver, false)?;
                        let (s2, st2) = self.as_src(&a0?, true)?;
                        if let ([Stage::FlatMap(c1)], [Stage::FlatMap(c2)]) = (&st[..], &st2[..]) {
                            let (l1, l2) = (self.len(&s)?, self.len(&s2)?);
                            let z = Stage::FlatZip(c1.clone(), c2.clone(), l1, l2);
                            return Some((Src::Zip(Box::new(s), Box::new(s2)), vec![z]));
                        }
                        if !st.is_empty() || !st2.is_empty() { return None; }
                        Some((Src::Zip(Box::new(s), Box::new(s2)), vec![]))
                    }
                    "chain" => {
                        let (s, st) = self.as_src(&m.receiver, false)?;
                        let (s2, st2) = self.as_src(&a0?, true)?;
                        let wrap = |s: Src, st: Vec<Stage>| Box::new(if st.is_empty() { s } else { Src::Staged(Box::new(s), st) });
                        Some((Src::Chain(wrap(s, st), wrap(s2, st2)), vec![]))
                    }
                    "flatten" if m.args.is_empty() => {
                        let (s, mut st) = self.as_src(&m.receiver, false)?;
                        match (s, st.pop()) {
                            (s, Some(Stage::Map(c))) => { st.push(Stage::FlatMap(c)); Some((s, st)) }
                            (Src::Map(s, c), None) => Some((*s, vec![Stage::FlatMap(c)])),
                            _ => None,
                        }
                    }
                    "enumerate" | "rev" | "skip" | "take" | "map" | "cloned" | "copied" | "filter" | "take_while" | "flat_map" | "filter_map" | "skip_while" => {
                        let (s, mut st) = self.as_src(&m.receiver, false)?;
                        let pure = st.is_empty() && !matches!(s, Src::Stream(_));
                        match name.as_str() {
                            "enumerate" => if pure { return Some((Src::Enum(Box::new(s)), st)) } else { st.push(Stage::Enumerate) },
                            "rev" => { if pure { return Some((Src::Rev(Box::new(s)), st)) } return None; }
                            "skip" => { if pure { return Some((Src::Skip(Box::new(s), a0?), st)) } return None; }
                            "take" => { if pure { return Some((Src::Take(Box::new(s), a0?), st)) } return None; }
                            "map" => if pure { return Some((Src::Map(Box::new(s), a0?), st)) } else { st.push(Stage::Map(a0?)) },
                            "cloned" | "copied" => if pure { return Some((Src::Deref(Box::new(s)), st)) } else { st.push(Stage::Deref) },
                            "filter" => st.push(Stage::Filter(a0?)),
                            "take_while" => st.push(Stage::TakeWhile(a0?)),
                            "skip_while" => st.push(Stage::SkipWhile(a0?)),
                            "filter_map" => st.push(Stage::FilterMap(a0?)),
                            _ => st.push(Stage::FlatMap(a0?)),
                        }
                        Some((s, st))
                    }
                    n if self.iters.contains(n) || self.iters.contains(&format!("{}.{}", ts(&*m.receiver), n)) => Some((Src::Stream(e.clone()), vec![])),
                    _ if implicit => Some((Src::Place { e: e.clone(), kind: Kind::Owned }, vec![])),
                    _ => None,
                }
            }
            Expr::Reference(r) if implicit => {
                Some((Src::Place { e: (*r.expr).clone(), kind: if r.mutability.is_some() { Kind::Mut } else { Kind::Shared } }, vec![]))
            }
            Expr::Path(_) | Expr::Field(_) => {
                let s = ts(e);
                if self.iters.contains(&s) { return Some((Src::Stream(e.clone()), vec![])); }
                if self.f.opts.get("ranges").map_or(false, |v| v.split(',').any(|x| x == s)) {
                    return Some((Src::Range { lo: parse_quote!(#e.start), hi: Some(parse_quote!(#e.end)), incl: false }, vec![]));
                }
                // an iterator parameter, modelled as the finite sequence it yields
                if self.f.opts.get("seqs").map_or(false, |v| v.split(',').any(|x| x == s)) {
                    return Some((Src::Place { e: e.clone(), kind: Kind::Owned }, vec![]));
                }
                if !implicit { return None; }
                let kind = if matches!(e, Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.refs.contains(&i.to_string()))) { Kind::Shared } else { Kind::Owned };
                Some((Src::Place { e: e.clone(), kind }, vec![]))
            }
            Expr::Call(_) | Expr::Index(_) | Expr::Macro(_) | Expr::Array(_) if implicit => Some((Src::Place { e: e.clone(), kind: Kind::Owned }, vec![])),
            _ => None,
        }
    }

    fn tmp(&mut self, mut e: Expr, k: usize, n: &mut usize, out: &mut Vec<Stmt>, force: bool) -> Expr {
        self.visit_expr_mut(&mut e);
        if matches!(e, Expr::Lit(_)) || (!force && simple_place(&e)) { return e; }
        let v = id(&format!("__h{}{}", k, if *n == 0 { String::new() } else { format!("_{n}") }));
        *n += 1;
        out.push(parse_quote!(let #v = #e;));
        parse_quote!(#v)
    }
    // make every sub-expression of a source a name or a place; evaluation order is kept
    fn prep(&mut self, s: Src, k: usize, n: &mut usize, out: &mut Vec<Stmt>) -> Src {
        match s {
            Src::Place { mut e, kind } => {
                self.visit_expr_mut(&mut e);
                if let Expr::Unary(u) = &e { if matches!(u.op, syn::UnOp::Deref(_)) && simple_place(&u.expr) { e = (*u.expr).clone(); } }
                if simple_place(&e) { return Src::Place { e, kind }; }
                let v = id(&format!("__p{}{}", k, if *n == 0 { String::new() } else { format!("_{n}") }));
                *n += 1;
                match kind {
                    Kind::Shared => out.push(parse_quote!(let #v = &#e;)),
                    Kind::Mut => { out.push(parse_quote!(let #v = &mut #e;)) }
                    Kind::Owned => out.push(parse_quote!(let #v = #e;)),
                }
                Src::Place { e: parse_quote!(#v), kind }
            }
            Src::Range { lo, hi, incl } => {
                let lo = self.tmp(lo, k, n, out, false);
                let hi = match hi { Some(h) => Some(self.tmp(h, k, n, out, true)), None => None };
                Src::Range { lo, hi, incl }
            }
            Src::Zip(a, b) => { let a = self.prep(*a, k, n, out); let b = self.prep(*b, k, n, out); Src::Zip(Box::new(a), Box::new(b)) }
            Src::Chain(a, b) => { let a = self.prep(*a, k, n, out); let b = self.prep(*b, k, n, out); Src::Chain(Box::new(a), Box::new(b)) }
            Src::Staged(..) => { self.fail("staged source"); s }
            Src::Enum(a) => Src::Enum(Box::new(self.prep(*a, k, n, out))),
            Src::Rev(a) => Src::Rev(Box::new(self.prep(*a, k, n, out))),
            Src::Deref(a) => Src::Deref(Box::new(self.prep(*a, k, n, out))),
            Src::Map(a, c) => Src::Map(Box::new(self.prep(*a, k, n, out)), c),
            Src::Skip(a, e) => { let a = self.prep(*a, k, n, out); let e = self.tmp(e, k, n, out, false); Src::Skip(Box::new(a), e) }
            Src::Take(a, e) => { let a = self.prep(*a, k, n, out); let e = self.tmp(e, k, n, out, false); Src::Take(Box::new(a), e) }
            Src::Windows(mut e, w) => { self.visit_expr_mut(&mut e); let w = self.tmp(w, k, n, out, false); Src::Windows(e, w) }
            Src::Stream(mut e) => {
                visit_mut::visit_expr_mut(self, &mut e);
                if simple_place(&e) { return Src::Stream(e); }
                let v = id(&format!("__it{k}"));
                out.push(parse_quote!(let mut #v = #e;));
                Src::Stream(parse_quote!(#v))
            }
        }
    }

    fn len(&mut self, s: &Src) -> Option<Expr> {
        Some(match s {
            Src::Place { e, .. } => parse_quote!(#e.len()),
            Src::Range { lo, hi, incl } => {
                let hi = hi.as_ref()?;
                let zero = ts(lo) == "0";
                match (incl, zero) {
                    (false, true) => parse_quote!(#hi),
                    (false, false) => parse_quote!((if #lo < #hi { #hi - #lo } else { 0 })),
                    (true, _) => parse_quote!((if #lo <= #hi { #hi - #lo + 1 } else { 0 })),
                }
            }
            Src::Zip(a, b) => {
                let (x, y) = (self.len(a), self.len(b));
                match (x, y) {
                    (Some(x), Some(y)) => parse_quote!(vx_min(#x, #y)),
                    (Some(x), None) => x,
                    (None, y) => y?,
                }
            }
            Src::Chain(a, b) => { let (x, y) = (self.len(a)?, self.len(b)?); parse_quote!((#x + #y)) }
            Src::Enum(a) | Src::Rev(a) | Src::Map(a, _) | Src::Deref(a) => self.len(a)?,
            Src::Skip(a, e) => { let x = self.len(a)?; parse_quote!(vx_monus(#x, #e)) }
            Src::Take(a, e) => match self.len(a) { Some(x) => parse_quote!(vx_min(#x, #e)), None => e.clone() },
            Src::Windows(e, w) => parse_quote!(vx_monus(#e.len() + 1, #w)),
            Src::Stream(_) | Src::Staged(..) => return None,
        })
    }

    // element at index j; statements that compute it (closures) go to out
    fn at(&mut self, s: &Src, j: Expr, k: usize, n: &mut usize, out: &mut Vec<Stmt>) -> El {
        match s {
            Src::Place { e, kind } => match kind {
                Kind::Shared => El::Ref(parse_quote!(#e[#j])),
                Kind::Mut => El::MutRef(parse_quote!(#e[#j])),
                // opt  ownK=& : the K-th loop reads the consumed elements by reference;  ownK=FN : FN(&element) copies them
                Kind::Owned if self.f.opts.contains_key(&format!("own{k}")) => {
                    let o = &self.f.opts[&format!("own{k}")];
                    if o == "&" { El::Val(parse_quote!(&#e[#j])) } else { let g = id(o); El::Val(parse_quote!(#g(&#e[#j]))) }
                }
                Kind::Owned => if self.f.has("clone_owned") { El::Val(parse_quote!(#e[#j].clone())) } else { El::Val(parse_quote!(#e[#j])) },
            },
            Src::Range { lo, .. } => El::Val(if ts(lo) == "0" { j } else { parse_quote!((#lo + #j)) }),
            Src::Zip(a, b) => { let x = self.at(a, j.clone(), k, n, out); let y = self.at(b, j, k, n, out); El::Tup(vec![x, y]) }
            Src::Enum(a) => { let y = self.at(a, j.clone(), k, n, out); El::Tup(vec![El::Val(j), y]) }
            Src::Rev(a) => {
                let l = match self.len(a) { Some(l) => l, None => { self.fail("rev of an unbounded iterator"); return El::Val(j); } };
                self.at(a, parse_quote!((#l - 1 - #j)), k, n, out)
            }
            Src::Skip(a, e) => self.at(a, parse_quote!((#e + #j)), k, n, out),
            Src::Take(a, _) => self.at(a, j, k, n, out),
            Src::Deref(a) => { let x = self.at(a, j, k, n, out); self.deref(x) }
            Src::Map(a, c) => {
                let x = self.at(a, j, k, n, out);
                self.apply(c, x, k, n, out)
            }
            Src::Chain(..) | Src::Staged(..) => { self.fail("chain as an indexed source"); El::Val(j) }
            Src::Windows(..) => { self.fail("windows"); El::Val(j) }
            Src::Stream(_) => { self.fail("stream as an indexed source"); El::Val(j) }
        }
    }
    fn deref(&mut self, x: El) -> El {
        match x {
            El::Ref(p) => if self.f.has("clone_owned") { El::Val(parse_quote!(#p.clone())) } else { El::Val(p) },
            El::RefOf(b) => *b,
            El::Val(e) => El::Val(parse_quote!(*#e)),
            x => x,
        }
    }

    // apply a closure or function path to an element
    fn apply(&mut self, c: &Expr, x: El, k: usize, n: &mut usize, out: &mut Vec<Stmt>) -> El {
        match c {
            Expr::Closure(cl) => {
                let mut body = (*cl.body).clone();
                let hb = has_block(&parse_quote!({ #body }));
                if hb.ret || hb.q { self.fail("return inside a closure"); }
                if cl.inputs.len() != 1 { self.fail("closure arity"); return x; }
                let pat = strip_pat_type(&cl.inputs[0]);
                self.bind(&pat, x, &mut body, out);
                self.visit_expr_mut(&mut body);
                // a pure tuple/reference body keeps its structure
                let el = self.classify(body);
                match el {
                    El::Val(e) if !is_triv(&e) => {
                        let v = id(&format!("__e{}{}", k, if *n == 0 { String::new() } else { format!("_{n}") }));
                        *n += 1;
                        out.push(parse_quote!(let #v = #e;));
                        El::Val(parse_quote!(#v))
                    }
                    el => el,
                }
            }
            Expr::Path(p) => {
                let a = self.el_expr(&x);
                let name = ts(p);
                let v = id(&format!("__e{}{}", k, if *n == 0 { String::new() } else { format!("_{n}") }));
                *n += 1;
                if name.ends_with("::clone") || name.ends_with("::to_owned") {
                    let d = self.el_expr_place(&x);
                    out.push(parse_quote!(let #v = #d.clone();));
                } else {
                    out.push(parse_quote!(let #v = #c(#a);));
                }
                El::Val(parse_quote!(#v))
            }
            _ => { self.fail("closure argument is not a closure"); x }
        }
    }
    fn classify(&mut self, e: Expr) -> El {
        match e {
            Expr::Paren(p) => self.classify(*p.expr),
            Expr::Reference(r) if r.mutability.is_none() && simple_place(&r.expr) => El::Ref(*r.expr),
            Expr::Path(ref p) if p.path.get_ident().map_or(false, |i| self.refs.contains(&i.to_string())) => El::Ref(parse_quote!((*#e))),
            e => El::Val(e),
        }
    }
    // the element as a Rust value of the iterator's item type
    fn el_expr(&mut self, x: &El) -> Expr {
        match x {
            El::Ref(p) => parse_quote!(&#p),
            El::MutRef(p) => parse_quote!(&mut #p),
            El::Val(e) => e.clone(),
            El::Tup(v) => { let es: Vec<Expr> = v.iter().map(|y| self.el_expr(y)).collect(); parse_quote!((#(#es),*)) }
            El::RefOf(b) => { let e = self.el_expr(b); parse_quote!(&#e) }
        }
    }
    fn el_expr_place(&mut self, x: &El) -> Expr {
        match x {
            El::Ref(p) | El::MutRef(p) => p.clone(),
            El::RefOf(b) => self.el_expr_place(b),
            x => self.el_expr(x),
        }
    }
    fn bind(&mut self, p: &Pat, x: El, body: &mut Expr, out: &mut Vec<Stmt>) {
        match (p, x) {
            (Pat::Paren(q), x) => self.bind(&q.pat, x, body, out),
            (Pat::Type(q), x) => self.bind(&q.pat, x, body, out),
            (Pat::Wild(_), _) => {}
            (Pat::Tuple(t), El::Tup(v)) if t.elems.len() == v.len() => {
                for (q, y) in t.elems.iter().zip(v) { self.bind(q, y, body, out); }
            }
            (Pat::Tuple(t), El::RefOf(b)) => match *b {
                El::Tup(v) if t.elems.len() == v.len() => for (q, y) in t.elems.iter().zip(v) { self.bind(q, El::RefOf(Box::new(y)), body, out); },
                El::Val(e) | El::Ref(e) => for (i, q) in t.elems.iter().enumerate() { let ix = syn::Index::from(i); self.bind(q, El::Ref(parse_quote!(#e.#ix)), body, out); },
                _ => self.fail("pattern"),
            },
            (Pat::Tuple(t), El::Ref(pl)) => {
                for (i, q) in t.elems.iter().enumerate() { let ix = syn::Index::from(i); self.bind(q, El::Ref(parse_quote!(#pl.#ix)), body, out); }
            }
            (Pat::Tuple(t), El::MutRef(pl)) => {
                for (i, q) in t.elems.iter().enumerate() { let ix = syn::Index::from(i); self.bind(q, El::MutRef(parse_quote!(#pl.#ix)), body, out); }
            }
            (Pat::Reference(r), El::Ref(pl)) => self.bind(&r.pat, El::Val(pl), body, out),
            (Pat::Reference(r), El::MutRef(pl)) => self.bind(&r.pat, El::Val(pl), body, out),
            (Pat::Reference(r), El::RefOf(b)) => self.bind(&r.pat, *b, body, out),
            (Pat::Reference(r), El::Val(e)) => self.bind(&r.pat, El::Val(parse_quote!(*#e)), body, out),
            (Pat::Ident(i), El::MutRef(pl)) => {
                DerefSubst { name: i.ident.to_string(), place: pl, mutable: true }.visit_expr_mut(body);
            }
            (Pat::Ident(i), x) => {
                let nm = i.ident.to_string();
                self.refs.remove(&nm);
                self.refs2.remove(&nm);
                let v = &i.ident;
                let m = &i.mutability;
                match &x {
                    El::Ref(_) => { self.refs.insert(nm.clone()); }
                    El::RefOf(b) => {
                        self.refs.insert(nm.clone());
                        if matches!(**b, El::Ref(_)) {
                            self.refs2.insert(nm.clone());
                            let e = self.el_expr(b);
                            out.push(parse_quote!(let #v = #e;));
                            return;
                        }
                    }
                    _ => {}
                }
                let e = self.el_expr(&x);
                if ts(&e) == nm { return; }
                out.push(parse_quote!(let #m #v = #e;));
            }
            (p, El::Val(e)) => out.push(parse_quote!(let #p = #e;)),
            (p, x) => { let e = self.el_expr(&x); out.push(parse_quote!(let #p = #e;)); }
        }
    }

    // the body of the loop for the remaining stages, ending in what `fin` does with the element
    fn stages(&mut self, st: &[Stage], x: El, k: usize, n: &mut usize, pre: &mut Vec<Stmt>, fin: &mut dyn FnMut(&mut Self, El, &mut Vec<Stmt>)) -> Vec<Stmt> {
        let mut out: Vec<Stmt> = vec![];
        match st.first() {
            None => { fin(self, x, &mut out); }
            Some(Stage::Deref) => { let y = self.deref(x); return self.stages(&st[1..], y, k, n, pre, fin); }
            Some(Stage::Map(c)) => {
                let y = self.apply(c, x, k, n, &mut out);
                out.extend(self.stages(&st[1..], y, k, n, pre, fin));
            }
            Some(Stage::Enumerate) => {
                let v = id(&format!("__c{k}"));
                pre.push(parse_quote!(let mut #v: usize = 0;));
                let w = id(&format!("__d{k}"));
                out.push(parse_quote!(let #w = #v;));
                out.push(parse_quote!(#v += 1;));
                let y = El::Tup(vec![El::Val(parse_quote!(#w)), x]);
                out.extend(self.stages(&st[1..], y, k, n, pre, fin));
            }
            Some(Stage::Filter(c)) => {
                let x = self.named(x, k, n, &mut out);
                let c2 = self.pred(c, El::RefOf(Box::new(x.clone())), k, n, &mut out);
                let inner = self.stages(&st[1..], x, k, n, pre, fin);
                out.push(parse_quote!(if #c2 { #(#inner)* }));
            }
            Some(Stage::TakeWhile(c)) => {
                let x = self.named(x, k, n, &mut out);
                let c2 = self.pred(c, El::RefOf(Box::new(x.clone())), k, n, &mut out);
                let inner = self.stages(&st[1..], x, k, n, pre, fin);
                out.push(parse_quote!(if !(#c2) { break; }));
                out.extend(inner);
            }
            Some(Stage::SkipWhile(c)) => {
                let v = id(&format!("__s{k}"));
                pre.push(parse_quote!(let mut #v: bool = true;));
                let x = self.named(x, k, n, &mut out);
                let c2 = self.pred(c, El::RefOf(Box::new(x.clone())), k, n, &mut out);
                let inner = self.stages(&st[1..], x, k, n, pre, fin);
                out.push(parse_quote!(if #v { if !(#c2) { #v = false; } }));
                out.push(parse_quote!(if !#v { #(#inner)* }));
            }
            Some(Stage::FilterMap(c)) => {
                let y = self.apply(c, x, k, n, &mut out);
                let e = self.el_expr(&y);
                let v = id(&format!("__f{k}"));
                let inner = self.stages(&st[1..], El::Val(parse_quote!(#v)), k, n, pre, fin);
                out.push(parse_quote!(if let Some(#v) = #e { #(#inner)* }));
            }
            Some(Stage::FlatZip(c1, c2, l1, l2)) => {
                let El::Tup(xs) = x else { self.fail("flat zip"); return out; };
                let mut ss = vec![];
                for (c, x) in [c1, c2].into_iter().zip(xs) {
                    let Expr::Closure(cl) = c else { self.fail("flat_map of a non-closure"); return out; };
                    let mut body = (*cl.body).clone();
                    let pat = strip_pat_type(&cl.inputs[0]);
                    self.bind(&pat, x, &mut body, &mut out);
                    match self.as_src(&body, true) {
                        Some((s2, st2)) if st2.is_empty() => ss.push(s2),
                        _ => { self.fail("flat zip source"); return out; }
                    }
                }
                pre.push(parse_quote!(vx_same(#l1, #l2);));
                let (Some(m1), Some(m2)) = (self.len(&ss[0]), self.len(&ss[1])) else { self.fail("flat zip length"); return out; };
                out.push(parse_quote!(vx_same(#m1, #m2);));
                let b = ss.pop().unwrap(); let a = ss.pop().unwrap();
                let inner = self.drive(Src::Zip(Box::new(a), Box::new(b)), st[1..].to_vec(), self.flat_stop.clone(), None, false, fin);
                if st[1..].iter().any(|s| matches!(s, Stage::Enumerate | Stage::TakeWhile(_) | Stage::SkipWhile(_))) { self.fail("stateful stage after flat_map"); }
                out.extend(inner);
            }
            Some(Stage::FlatMap(c)) => {
                if st[1..].iter().any(|s| matches!(s, Stage::Enumerate | Stage::TakeWhile(_) | Stage::SkipWhile(_))) { self.fail("stateful stage after flat_map"); }
                let Expr::Closure(cl) = c else { self.fail("flat_map of a non-closure"); return out; };
                let mut body = (*cl.body).clone();
                let pat = strip_pat_type(&cl.inputs[0]);
                self.bind(&pat, x, &mut body, &mut out);
                // leading statements of the closure body stay as they are
                let mut tail = body;
                while let Expr::Block(b) = &tail {
                    let mut b = b.block.clone();
                    let Some(Stmt::Expr(t, None)) = b.stmts.pop() else { self.fail("flat_map body"); return out; };
                    for mut s in b.stmts { self.visit_stmt_mut(&mut s); out.push(s); }
                    tail = t;
                }
                match self.as_src(&tail, true) {
                    Some((s2, mut st2)) => {
                        st2.extend_from_slice(&st[1..]);
                        let inner = self.drive(s2, st2, self.flat_stop.clone(), None, false, fin);
                        out.extend(inner);
                    }
                    None => self.fail("flat_map source"),
                }
            }
        }
        out
    }
    fn named(&mut self, x: El, k: usize, n: &mut usize, out: &mut Vec<Stmt>) -> El {
        match x {
            El::Val(e) if !is_triv(&e) => {
                let v = id(&format!("__e{}{}", k, if *n == 0 { String::new() } else { format!("_{n}") }));
                *n += 1;
                out.push(parse_quote!(let #v = #e;));
                El::Val(parse_quote!(#v))
            }
            El::Tup(v) => El::Tup(v.into_iter().map(|y| self.named(y, k, n, out)).collect()),
            x => x,
        }
    }
    fn pred(&mut self, c: &Expr, x: El, k: usize, n: &mut usize, out: &mut Vec<Stmt>) -> Expr {
        match c {
            Expr::Closure(cl) => {
                let mut body = (*cl.body).clone();
                let hb = has_block(&parse_quote!({ #body }));
                if hb.ret || hb.q { self.fail("return inside a closure"); }
                let mut b: Vec<Stmt> = vec![];
                let pat = strip_pat_type(&cl.inputs[0]);
                self.bind(&pat, x, &mut body, &mut b);
                self.visit_expr_mut(&mut body);
                let _ = (k, n, out);
                if b.is_empty() { body } else { parse_quote!({ #(#b)* #body }) }
            }
            Expr::Path(_) => { let a = self.el_expr(&x); parse_quote!(#c(#a)) }
            _ => { self.fail("predicate is not a closure"); c.clone() }
        }
    }

    // emit the loop. `stop`: extra condition for going on; `label`: loop label
    fn drive(&mut self, s: Src, st: Vec<Stage>, stop: Option<Expr>, label: Option<syn::Label>, _for: bool,
             fin: &mut dyn FnMut(&mut Self, El, &mut Vec<Stmt>)) -> Vec<Stmt> {
        let mut pre: Vec<Stmt> = vec![];
        let mut n = 0usize;
        // chain: two loops in a row
        if let Src::Chain(a, b) = s {
            if label.is_some() { self.fail("labelled loop over a chain"); }
            let mut out = self.drive(*a, st.clone(), stop.clone(), None, _for, fin);
            if st.iter().any(|s| matches!(s, Stage::Enumerate | Stage::TakeWhile(_) | Stage::SkipWhile(_))) { self.fail("chain with a stateful stage"); }
            out.extend(self.drive(*b, st, stop, None, _for, fin));
            return out;
        }
        if let Src::Staged(a, mut st0) = s {
            st0.extend(st);
            return self.drive(*a, st0, stop, label, _for, fin);
        }
        // maps over a chain distribute
        if let Src::Map(inner, c) = &s {
            if contains_chain(inner) {
                let mut st2 = vec![Stage::Map(c.clone())];
                st2.extend(st);
                return self.drive((**inner).clone(), st2, stop, label, _for, fin);
            }
        }
        if let Src::Deref(inner) = &s {
            if contains_chain(inner) {
                let mut st2 = vec![Stage::Deref];
                st2.extend(st);
                return self.drive((**inner).clone(), st2, stop, label, _for, fin);
            }
        }
        if let Src::Enum(inner) = &s {
            if contains_chain(inner) {
                let mut st2 = vec![Stage::Enumerate];
                st2.extend(st);
                return self.drive((**inner).clone(), st2, stop, label, _for, fin);
            }
        }
        let k = self.loops;
        self.loops += 1;
        let i = id(&format!("__i{k}"));
        let j = id(&format!("__j{k}"));
        let klit = proc_macro2::Literal::usize_unsuffixed(k);
        let s = self.prep(s, k, &mut n, &mut pre);
        let mut body: Vec<Stmt> = vec![parse_quote!(__vx_mark!(inv #klit);)];
        let cond: Option<Expr>;
        let mut n2 = 0usize;
        // peel maps to look at the base
        let base = { let mut b = &s; while let Src::Map(x, _) | Src::Deref(x) = b { b = x; } b.clone() };
        let mut replaced: Option<Src> = None;
        let start: Expr;
        match &base {
            Src::Range { lo, hi, incl } => {
                start = lo.clone();
                cond = hi.as_ref().map(|h| if *incl { parse_quote!(#i <= #h) } else { parse_quote!(#i < #h) });
                pre.push(parse_quote!(let mut #i = #start;));
                body.push(parse_quote!(let #j = #i;));
                body.push(parse_quote!(#i += 1;));
                replaced = Some(Src::Range { lo: parse_quote!(0), hi: None, incl: false });
            }
            Src::Rev(r) if matches!(**r, Src::Range { incl: false, .. }) => {
                let Src::Range { lo, hi, .. } = &**r else { unreachable!() };
                let Some(h) = hi else { self.fail("rev of an open range"); return pre; };
                start = parse_quote!(#h);
                cond = Some(parse_quote!(#i > #lo));
                pre.push(parse_quote!(let mut #i = #start;));
                body.push(parse_quote!(#i -= 1;));
                body.push(parse_quote!(let #j = #i;));
                replaced = Some(Src::Range { lo: parse_quote!(0), hi: None, incl: false });
            }
            Src::Rev(r) if matches!(**r, Src::Range { incl: true, .. }) => {
                let Src::Range { lo, hi, .. } = &**r else { unreachable!() };
                let Some(h) = hi else { self.fail("rev of an open range"); return pre; };
                cond = Some(parse_quote!(#i > #lo));
                pre.push(parse_quote!(let mut #i = #h + 1;));
                body.push(parse_quote!(#i -= 1;));
                body.push(parse_quote!(let #j = #i;));
                replaced = Some(Src::Range { lo: parse_quote!(0), hi: None, incl: false });
            }
            Src::Stream(e) => {
                // let mut it = E; loop { match it.next() { None => break, Some(x) => {..} } }
                let x = id(&format!("__x{k}"));
                let el = El::Val(parse_quote!(#x));
                let el = self.rebase(&s, el, k, &mut n2, &mut body);
                let mut more: Vec<Stmt> = vec![];
                let outer = std::mem::replace(&mut self.flat_stop, stop.clone());
        let inner = self.stages(&st, el, k, &mut n2, &mut more, fin);
        self.flat_stop = outer;
                pre.extend(more);
                let stopc: Vec<Stmt> = stop.iter().map(|c| parse_quote!(if !(#c) { break; })).collect();
                let mark: Stmt = parse_quote!(__vx_mark!(inv #klit););
                let mb: Stmt = parse_quote!(__vx_mark!(begin #klit););
                let me: Stmt = parse_quote!(__vx_mark!(end #klit););
                let ma: Stmt = parse_quote!(__vx_mark!(after #klit););
                let mp: Stmt = parse_quote!(__vx_mark!(before #klit););
                let extra: Vec<Stmt> = body.into_iter().skip(1).collect();
                pre.push(mp);
                pre.push(parse_quote!(#label loop { #mark #(#stopc)* match #e.next() { None => { break; } Some(#x) => { #mb #(#extra)* #(#inner)* #me } } }));
                pre.push(ma);
                return pre;
            }
            _ => {
                let l = match self.len(&s) { Some(l) => l, None => { self.fail("unbounded source"); return pre; } };
                let h: Expr = if matches!(l, Expr::Path(_)) { l } else {
                    let h = id(&format!("__n{k}"));
                    pre.push(parse_quote!(let #h = #l;));
                    parse_quote!(#h)
                };
                cond = Some(parse_quote!(#i < #h));
                pre.push(parse_quote!(let mut #i: usize = 0;));
                body.push(parse_quote!(let #j = #i;));
                body.push(parse_quote!(#i += 1;));
            }
        }
        let s2 = match replaced { Some(b) => set_base(s, b), None => s };
        body.push(parse_quote!(__vx_mark!(begin #klit);));
        let el = self.at(&s2, parse_quote!(#j), k, &mut n2, &mut body);
        let mut more: Vec<Stmt> = vec![];
        let outer = std::mem::replace(&mut self.flat_stop, stop.clone());
        let inner = self.stages(&st, el, k, &mut n2, &mut more, fin);
        self.flat_stop = outer;
        pre.extend(more);
        body.extend(inner);
        body.push(parse_quote!(__vx_mark!(end #klit);));
        let cond: Expr = match (cond, stop) {
            (Some(c), Some(s)) => parse_quote!(#s && #c),
            (Some(c), None) => c,
            (None, Some(s)) => s,
            (None, None) => parse_quote!(true),
        };
        pre.push(parse_quote!(__vx_mark!(before #klit);));
        pre.push(parse_quote!(#label while #cond { #(#body)* }));
        pre.push(parse_quote!(__vx_mark!(after #klit);));
        pre
    }
    fn rebase(&mut self, s: &Src, el: El, k: usize, n: &mut usize, out: &mut Vec<Stmt>) -> El {
        match s {
            Src::Stream(_) => el,
            Src::Map(a, c) => { let x = self.rebase(a, el, k, n, out); self.apply(c, x, k, n, out) }
            Src::Deref(a) => { let x = self.rebase(a, el, k, n, out); self.deref(x) }
            _ => { self.fail("adaptor over a custom iterator"); el }
        }
    }

    fn lower_for(&mut self, f: &syn::ExprForLoop) -> Option<Expr> {
        let (s, st) = match self.as_src(&f.expr, true) { Some(x) => x, None => { self.fail(format!("for over {}", ts(&*f.expr))); return None; } };
        let h = has_block(&f.body);
        if (h.brk || h.cont) && st.iter().any(|s| matches!(s, Stage::FlatMap(_) | Stage::FlatZip(..))) { self.fail("break inside a flat_map loop"); }
        if (h.brk || h.cont) && contains_chain(&s) { self.fail("break inside a chained loop"); }
        let pat = (*f.pat).clone();
        let fbody = f.body.clone();
        let mut fin = |this: &mut Self, x: El, out: &mut Vec<Stmt>| {
            let mut body: Expr = Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: fbody.clone() });
            this.bind(&pat, x, &mut body, out);
            this.visit_expr_mut(&mut body);
            if let Expr::Block(b) = body { out.extend(unit_tail(b.block.stmts)); }
        };
        let stmts = self.drive(s, st, None, f.label.clone(), true, &mut fin);
        Some(parse_quote!({ #(#stmts)* }))
    }

    fn lower_chain(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        // the first element of an adapted chain:  E.filter(..).next()  is  E.filter(..).find(|_| true)
        if name == "next" && m.args.is_empty() {
            let Expr::MethodCall(a) = &*m.receiver else { return None };
            if !matches!(a.method.to_string().as_str(), "filter" | "map" | "filter_map" | "skip_while" | "rev") || m.receiver.to_token_stream().to_string().contains("by_ref") { return None; }
            let mut base = &*a.receiver;
            let mut calls = 0;
            while let Expr::MethodCall(b) = base { base = &b.receiver; calls += 1; }
            if calls == 0 && !matches!(base, Expr::Range(_) | Expr::Paren(_)) { return None; } // an iterator variable keeps its state
            let rc = &m.receiver;
            let Expr::MethodCall(c) = parse_quote!(#rc.find(|_| true)) else { return None };
            return self.lower_chain(&c);
        }
        if !CONSUMERS.contains(&name.as_str()) { return None; }
        // `x.max(y)` etc. are not consumers
        if matches!(name.as_str(), "max" | "min" | "count" | "last" | "sum" | "product" | "collect") && !m.args.is_empty() { return None; }
        if matches!(name.as_str(), "product" | "sum") {
            if let Some(p) = self.f.opts.get(&format!("{name}_fn")) {
                // the type's own Sum/Product, which carries a contract over the finite sequence
                let p: Expr = syn::parse_str(p).ok()?;
                let rc = &m.receiver;
                let c: Expr = parse_quote!(#rc.collect::<Vec<_>>());
                let Expr::MethodCall(c) = &c else { return None };
                let v = self.lower_chain(c)?;
                return Some(parse_quote!(#p(#v)));
            }
        }
        let (s, st) = self.as_src(&m.receiver, false)?;
        if let Src::Place { .. } = &s { if st.is_empty() && name == "last" { return None; } }
        let k = self.loops;
        let acc = id(&format!("__a{k}"));
        let arg = m.args.first().cloned();
        let (init, stop, res): (Option<Stmt>, Option<Expr>, Option<Expr>);
        let ty: Option<Type> = m.turbofish.as_ref().and_then(|t| t.args.first()).and_then(|a| match a { syn::GenericArgument::Type(t) => Some(t.clone()), _ => None });
        let mut el_k = 0usize;
        match name.as_str() {
            "for_each" => { init = None; stop = None; res = None; }
            "sum" | "product" => {
                let key = format!("{name}_init");
                let z: Expr = match self.f.opts.get(&key) { Some(v) => syn::parse_str(v).unwrap(), None => if name == "sum" { parse_quote!(0) } else { parse_quote!(1) } };
                let ty = ty.or_else(|| self.f.opts.get(&format!("{name}_ty")).map(|t| syn::parse_str(t).unwrap()));
                init = Some(match ty { Some(t) => parse_quote!(let mut #acc: #t = #z;), None => parse_quote!(let mut #acc = #z;) });
                stop = None; res = Some(parse_quote!(#acc));
            }
            "count" => { init = Some(parse_quote!(let mut #acc: usize = 0;)); stop = None; res = Some(parse_quote!(#acc)); }
            "collect" => {
                let t = match &ty {
                    Some(t) if ts(t).starts_with("Vec<_") || ts(t) == "Vec<_>" => None,
                    Some(t) if ts(t).starts_with("Vec<") => Some(t.clone()),
                    Some(t) => { self.fail(format!("collect into {}", ts(t))); None }
                    None => None,
                };
                init = Some(match t { Some(t) => parse_quote!(let mut #acc: #t = Vec::new();), None => parse_quote!(let mut #acc = Vec::new();) });
                stop = None; res = Some(parse_quote!(#acc));
            }
            "all" => { init = Some(parse_quote!(let mut #acc: bool = true;)); stop = Some(parse_quote!(#acc)); res = Some(parse_quote!(#acc)); }
            "any" => { init = Some(parse_quote!(let mut #acc: bool = false;)); stop = Some(parse_quote!(!#acc)); res = Some(parse_quote!(#acc)); }
            "find" => { init = Some(parse_quote!(let mut #acc = None;)); stop = Some(parse_quote!(#acc.is_none())); res = Some(parse_quote!(#acc)); }
            "position" => { init = Some(parse_quote!(let mut #acc: Option<usize> = None;)); stop = Some(parse_quote!(#acc.is_none())); res = Some(parse_quote!(#acc)); }
            "fold" => {
                let mut z = arg.clone()?;
                self.visit_expr_mut(&mut z);
                init = Some(parse_quote!(let mut #acc = #z;)); stop = None; res = Some(parse_quote!(#acc));
            }
            "max" | "min" => { init = Some(parse_quote!(let mut #acc = None;)); stop = None; res = Some(parse_quote!(#acc)); }
            "max_by_key" | "min_by_key" => { init = Some(parse_quote!(let mut #acc = None;)); stop = None; res = Some(parse_quote!(match #acc { Some((__x, _)) => Some(__x), None => None })); }
            "last" => { init = Some(parse_quote!(let mut #acc = None;)); stop = None; res = Some(parse_quote!(#acc)); }
            _ => return None,
        }
        let (s, st) = if name == "position" {
            // count positions over what reaches the end of the pipeline
            if st.is_empty() && !matches!(s, Src::Stream(_)) { (Src::Enum(Box::new(s)), st) } else { let mut st = st; st.push(Stage::Enumerate); (s, st) }
        } else { (s, st) };
        let fold_cl = m.args.iter().nth(1).cloned();
        let mut fin = |this: &mut Self, x: El, out: &mut Vec<Stmt>| {
            match name.as_str() {
                "for_each" => {
                    match arg.as_ref().unwrap() {
                        Expr::Closure(cl) => {
                            let mut body = (*cl.body).clone();
                            let hb = has_block(&parse_quote!({ #body }));
                            if hb.ret || hb.q { this.fail("return inside a closure"); }
                            let pat = strip_pat_type(&cl.inputs[0]);
                            this.bind(&pat, x, &mut body, out);
                            this.visit_expr_mut(&mut body);
                            match body {
                                Expr::Block(b) if b.label.is_none() => out.extend(unit_tail(b.block.stmts)),
                                b => out.push(Stmt::Expr(b, Some(Default::default()))),
                            }
                        }
                        c => { let a = this.el_expr(&x); out.push(parse_quote!(#c(#a);)); }
                    }
                }
                "sum" | "product" => {
                    let v = match &x { El::Ref(p) => p.clone(), x => this.el_expr(x) };
                    let op: Stmt = if this.f.has("sum_assign") {
                        if name == "sum" { parse_quote!(#acc += #v;) } else { parse_quote!(#acc *= #v;) }
                    } else if name == "sum" { parse_quote!(#acc = #acc + #v;) } else { parse_quote!(#acc = #acc * #v;) };
                    out.push(op);
                }
                "count" => { out.push(parse_quote!(#acc += 1;)); }
                "collect" => { let e = this.el_expr(&x); out.push(parse_quote!(#acc.push(#e);)); }
                "all" | "any" => {
                    let mut n = 0;
                    let p = this.pred_val(arg.as_ref().unwrap(), x, &mut n, out);
                    out.push(if name == "all" { parse_quote!(if !(#p) { #acc = false; }) } else { parse_quote!(if #p { #acc = true; }) });
                }
                "find" => {
                    let x = this.named(x, 1000 + k, &mut el_k, out);
                    let mut n = 0;
                    let p = this.pred(arg.as_ref().unwrap(), El::RefOf(Box::new(x.clone())), k, &mut n, out);
                    let e = this.el_expr(&x);
                    out.push(parse_quote!(if #p { #acc = Some(#e); }));
                }
                "position" => {
                    let El::Tup(v) = x else { this.fail("position"); return; };
                    let mut n = 0;
                    let p = this.pred_val(arg.as_ref().unwrap(), v[1].clone(), &mut n, out);
                    let ix = this.el_expr(&v[0]);
                    out.push(parse_quote!(if #p { #acc = Some(#ix); }));
                }
                "fold" => {
                    let Some(Expr::Closure(cl)) = &fold_cl else { this.fail("fold closure"); return; };
                    let mut body = (*cl.body).clone();
                    let p0 = strip_pat_type(&cl.inputs[0]);
                    let p1 = strip_pat_type(&cl.inputs[1]);
                    out.push(parse_quote!(let #p0 = #acc;));
                    this.bind(&p1, x, &mut body, out);
                    this.visit_expr_mut(&mut body);
                    out.push(parse_quote!(#acc = #body;));
                }
                "max" | "min" => {
                    let e = match &x { El::Ref(p) => p.clone(), x => this.el_expr(x) };
                    let b = id(&format!("__b{k}"));
                    let c: Expr = if name == "max" { parse_quote!(#b <= #e) } else { parse_quote!(#b > #e) };
                    out.push(parse_quote!(match #acc { None => { #acc = Some(#e); } Some(#b) => { if #c { #acc = Some(#e); } } }));
                }
                "max_by_key" | "min_by_key" => {
                    let x = this.named(x, 1000 + k, &mut el_k, out);
                    let mut n = 0;
                    let key = this.pred(arg.as_ref().unwrap(), El::RefOf(Box::new(x.clone())), k, &mut n, out);
                    let e = this.el_expr(&x);
                    let (kk, b) = (id(&format!("__k{k}")), id(&format!("__b{k}")));
                    let c: Expr = if name == "max_by_key" { parse_quote!(#b <= #kk) } else { parse_quote!(#b > #kk) };
                    out.push(parse_quote!(let #kk = #key;));
                    out.push(parse_quote!(match #acc { None => { #acc = Some((#e, #kk)); } Some((_, #b)) => { if #c { #acc = Some((#e, #kk)); } } }));
                }
                "last" => { let e = this.el_expr(&x); out.push(parse_quote!(#acc = Some(#e);)); }
                _ => unreachable!(),
            }
        };
        let stmts = self.drive(s, st, stop, None, false, &mut fin);
        let mut init = init;
        if let (Some(Stmt::Local(l)), Some(t)) = (&mut init, self.f.opts.get(&format!("acc{k}"))) {
            if let (Ok(t), false) = (syn::parse_str::<Type>(t), matches!(l.pat, Pat::Type(_))) {
                let p = &l.pat;
                let np: Stmt = parse_quote!(let #p: #t = 0;);
                if let Stmt::Local(n) = np { l.pat = n.pat; }
            }
        }
        let init = init.into_iter();
        Some(match res { Some(r) => parse_quote!({ #(#init)* #(#stmts)* #r }), None => parse_quote!({ #(#stmts)* }) })
    }
    fn pred_val(&mut self, c: &Expr, x: El, n: &mut usize, out: &mut Vec<Stmt>) -> Expr {
        self.pred(c, x, 0, n, out)
    }

    // `a` used as an operand of an operator
    fn operand(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if self.refs.contains(&i.to_string()) { *e = parse_quote!(*#i); return; }
            }
        }
        if let Expr::Reference(r) = e {
            if r.mutability.is_none() {
                let inner = (*r.expr).clone();
                *e = if is_atom(&inner) { inner } else { parse_quote!((#inner)) };
            }
        }
    }
    fn macro_expr(&mut self, m: &syn::Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        let args = |m: &syn::Macro| m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated).ok().map(|p| p.into_iter().collect::<Vec<_>>());
        let pn = id(if self.f.has("maypanic") { "vx_may_panic" } else { "vx_panic" });
        match name.as_str() {
            "panic" | "unreachable" | "todo" | "unimplemented" => Some(parse_quote!(#pn())),
            "println" | "print" | "eprintln" | "eprint" => { self.dropped.push(format!("{name}!")); Some(parse_quote!(())) }
            "assert" => { let a = args(m)?; let c = &a[0]; Some(parse_quote!(if !(#c) { #pn() })) }
            "debug_assert" | "debug_assert_eq" | "debug_assert_ne" if self.f.has("nodebug") => { self.dropped.push(format!("{name}!")); Some(parse_quote!(())) }
            "debug_assert" => { let a = args(m)?; let c = &a[0]; Some(parse_quote!(if !(#c) { #pn() })) }
            "assert_eq" | "debug_assert_eq" => { let a = args(m)?; let (x, y) = (&a[0], &a[1]); Some(parse_quote!(if !(#x == #y) { #pn() })) }
            "assert_ne" | "debug_assert_ne" => { let a = args(m)?; let (x, y) = (&a[0], &a[1]); Some(parse_quote!(if #x == #y { #pn() })) }
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let e: Expr = i.parse()?;
                        i.parse::<syn::Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(syn::Token![if]) { i.parse::<syn::Token![if]>()?; Some(i.parse()?) } else { None };
                        let _ = i.parse::<Option<syn::Token![,]>>()?;
                        Ok(M(e, p, g))
                    }
                }
                let M(e, p, g) = m.parse_body().ok()?;
                Some(match g { Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }), None => parse_quote!(match #e { #p => true, _ => false }) })
            }
            // rational!(a; b)  ==>  q((a) as i64, (b) as i64) with macroexpr:rational=q
            _ if self.f.opts.contains_key(&format!("macroexpr:{name}")) => {
                let q = id(&self.f.opts[&format!("macroexpr:{name}")]);
                let (a, b) = vec_repeat(m)?;
                Some(parse_quote!(#q((#a) as i64, (#b) as i64)))
            }
            _ => None,
        }
    }
    fn vec_macro(&mut self, m: &mut syn::Macro) {
        if m.path.is_ident("vec") {
            if let Ok(v) = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                let mut v: Vec<Expr> = v.into_iter().collect();
                for e in v.iter_mut() { self.visit_expr_mut(e); }
                m.tokens = quote!(#(#v),*);
                return;
            }
            if let Some((mut a, mut b)) = vec_repeat(m) {
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut b);
                m.tokens = quote!(#a; #b);
                return;
            }
        }
        if m.path.is_ident("__vx_mark") { return; }
        self.fail(format!("macro {}!", ts(&m.path)));
    }
    fn mark_loop(&mut self, body: &mut Block) -> usize {
        let k = self.loops;
        self.loops += 1;
        let klit = proc_macro2::Literal::usize_unsuffixed(k);
        body.stmts.insert(0, parse_quote!(__vx_mark!(inv #klit);));
        body.stmts.insert(1, parse_quote!(__vx_mark!(begin #klit);));
        let tail_expr = matches!(body.stmts.last(), Some(Stmt::Expr(_, None)));
        if tail_expr {
            if let Some(Stmt::Expr(e, None)) = body.stmts.pop() {
                body.stmts.push(Stmt::Expr(e, Some(Default::default())));
            }
        }
        body.stmts.push(parse_quote!(__vx_mark!(end #klit);));
        k
    }
}

// the ghost text of the end of a loop body also stands before each `continue` of the loop
struct Continues { end: Option<usize> }
impl Continues {
    fn body(&mut self, b: &mut Block) {
        struct F(Option<usize>);
        impl<'a> syn::visit::Visit<'a> for F {
            fn visit_macro(&mut self, m: &'a syn::Macro) {
                if !m.path.is_ident("__vx_mark") || self.0.is_some() { return; }
                let t = m.tokens.to_string();
                if let Some(k) = t.strip_prefix("end ") { self.0 = k.trim().parse().ok(); }
            }
            fn visit_expr_while(&mut self, _: &'a syn::ExprWhile) {}
            fn visit_expr_loop(&mut self, _: &'a syn::ExprLoop) {}
            fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
        }
        let mut f = F(None);
        syn::visit::Visit::visit_block(&mut f, b);
        let outer = std::mem::replace(&mut self.end, f.0);
        visit_mut::visit_block_mut(self, b);
        self.end = outer;
    }
}
impl VisitMut for Continues {
    fn visit_expr_while_mut(&mut self, w: &mut syn::ExprWhile) { self.visit_expr_mut(&mut w.cond); self.body(&mut w.body); }
    fn visit_expr_loop_mut(&mut self, w: &mut syn::ExprLoop) { self.body(&mut w.body); }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let (Expr::Continue(c), Some(k)) = (&*e, self.end) {
            if c.label.is_none() { let k = proc_macro2::Literal::usize_unsuffixed(k); *e = parse_quote!({ __vx_mark!(end #k); continue; }); }
        }
    }
}
// [a; n]
fn vec_repeat(m: &syn::Macro) -> Option<(Expr, Expr)> {
    struct R(Expr, Expr);
    impl syn::parse::Parse for R {
        fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
            let a = i.parse()?;
            i.parse::<syn::Token![;]>()?;
            Ok(R(a, i.parse()?))
        }
    }
    m.parse_body::<R>().ok().map(|R(a, b)| (a, b))
}
fn unit_tail(mut v: Vec<Stmt>) -> Vec<Stmt> {
    if let Some(Stmt::Expr(e, None)) = v.pop().map(|s| { v.push(s.clone()); s }) {
        v.pop();
        v.push(Stmt::Expr(e, Some(Default::default())));
    }
    v
}
fn is_triv(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Paren(p) => is_triv(&p.expr),
        _ => false,
    }
}
fn strip_pat_type(p: &Pat) -> Pat {
    match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }
}
fn contains_chain(s: &Src) -> bool {
    match s {
        Src::Chain(..) => true,
        Src::Map(a, _) | Src::Enum(a) | Src::Rev(a) | Src::Deref(a) | Src::Skip(a, _) | Src::Take(a, _) => contains_chain(a),
        _ => false,
    }
}
fn set_base(s: Src, b: Src) -> Src {
    match s {
        Src::Map(a, c) => Src::Map(Box::new(set_base(*a, b)), c),
        Src::Deref(a) => Src::Deref(Box::new(set_base(*a, b))),
        _ => b,
    }
}

impl<'a> VisitMut for Low<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        let mut todo: std::collections::VecDeque<Stmt> = std::mem::take(&mut b.stmts).into();
        while let Some(mut s) = todo.pop_front() {
            // v.retain(|x| c);  ==>  a loop that removes the elements c rejects, in order
            if let Stmt::Expr(Expr::MethodCall(m), semi) = &s {
                if m.method == "retain" && m.args.len() == 1 {
                    if let Expr::Closure(c) = &m.args[0] {
                        if c.inputs.len() == 1 && matches!(&c.inputs[0], Pat::Ident(_)) {
                            let (r, p, body) = (&m.receiver, &c.inputs[0], &c.body);
                            let k = self.loops; let ix = id(&format!("__i{k}"));
                            let tail: Stmt = if semi.is_some() { parse_quote!({}) } else { Stmt::Expr(parse_quote!(()), None) };
                            let l: Stmt = parse_quote!(let mut #ix: usize = 0;);
                            let w: Stmt = parse_quote!(while #ix < #r.len() { if { let #p = &#r[#ix]; #body } { #ix += 1; } else { #r.remove(#ix); } });
                            if semi.is_none() { todo.push_front(tail); }
                            todo.push_front(w);
                            todo.push_front(l);
                            continue;
                        }
                    }
                }
            }
            // statement macros
            if let Stmt::Macro(m) = &s {
                if m.mac.path.is_ident("__vx_mark") { out.push(s); continue; }
                if let Some(e) = self.macro_expr(&m.mac) {
                    if ts(&e) == "()" { continue; }
                    let semi = m.semi_token;
                    s = Stmt::Expr(e, semi);
                } else {
                    let semi = m.semi_token;
                    s = Stmt::Expr(Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() }), semi);
                }
            }
            match &mut s {
                Stmt::Item(syn::Item::Use(_)) => continue,
                Stmt::Expr(e, semi) => {
                    let is_for = matches!(e, Expr::ForLoop(_));
                    let was_chain = matches!(e, Expr::MethodCall(_));
                    if let Expr::While(w) = e {
                        let k = self.loops;
                        let klit = proc_macro2::Literal::usize_unsuffixed(k);
                        out.push(parse_quote!(__vx_mark!(before #klit);));
                        let _ = w;
                        self.visit_expr_mut(e);
                        out.push(s);
                        out.push(parse_quote!(__vx_mark!(after #klit);));
                        continue;
                    }
                    if let Expr::Loop(_) = e {
                        let k = self.loops;
                        let klit = proc_macro2::Literal::usize_unsuffixed(k);
                        out.push(parse_quote!(__vx_mark!(before #klit);));
                        self.visit_expr_mut(e);
                        let tail = semi.is_none();
                        out.push(s);
                        if !tail { out.push(parse_quote!(__vx_mark!(after #klit);)); }
                        continue;
                    }
                    self.visit_expr_mut(e);
                    if let (true, Expr::Block(bl)) = (is_for, &*e) { out.extend(bl.block.stmts.clone()); continue; }
                    if let (true, Some(_), Expr::Block(bl)) = (was_chain, &semi, &*e) {
                        // for_each(..); as a statement
                        if !matches!(bl.block.stmts.last(), Some(Stmt::Expr(_, None))) { out.extend(bl.block.stmts.clone()); continue; }
                    }
                    out.push(s);
                }
                Stmt::Local(l) => {
                    // track references
                    if let Some(init) = &mut l.init {
                        self.visit_expr_mut(&mut init.expr);
                        if let Some((_, d)) = &mut init.diverge { self.visit_expr_mut(d); }
                        // let x = { stmts; tail }  ==>  stmts; let x = tail   (names of lowered chains are unique)
                        if let Expr::Block(bl) = &*init.expr {
                            let first_is_acc = matches!(bl.block.stmts.first(), Some(Stmt::Local(x)) if ts(&x.pat).starts_with("mut__a") || ts(&x.pat).starts_with("__a"));
                            if first_is_acc {
                                let mut st = bl.block.stmts.clone();
                                if let Some(Stmt::Expr(t, None)) = st.pop() {
                                    // keep a type ascription for the accumulator
                                    if let (Pat::Type(pt), Some(Stmt::Local(a0))) = (&l.pat, st.first_mut()) {
                                        if !matches!(a0.pat, Pat::Type(_)) && !ts(&pt.ty).contains('_') && ts(&t) == ts(&a0.pat).trim_start_matches("mut").to_string() {
                                            let p = &a0.pat;
                                            let ty = &pt.ty;
                                            let np: Stmt = parse_quote!(let #p: #ty = 0;);
                                            if let Stmt::Local(n) = np { a0.pat = n.pat; }
                                        }
                                    }
                                    out.extend(st);
                                    init.expr = Box::new(t);
                                }
                            }
                        }
                        let isref = matches!(&*init.expr, Expr::Reference(r) if r.mutability.is_none());
                        if let Pat::Ident(p) = &l.pat {
                            let nm = p.ident.to_string();
                            self.refs.remove(&nm);
                            self.refs2.remove(&nm);
                            if isref { self.refs.insert(nm); }
                        }
                    }
                    out.push(s);
                }
                _ => { visit_mut::visit_stmt_mut(self, &mut s); out.push(s); }
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.err.is_some() { return; }
        match e {
            Expr::Macro(m) => {
                if let Some(mut x) = self.macro_expr(&m.mac) { self.visit_expr_mut(&mut x); *e = x; return; }
                self.vec_macro(&mut m.mac);
                return;
            }
            Expr::ForLoop(f) => { let f = f.clone(); if let Some(x) = self.lower_for(&f) { *e = x; } return; }
            Expr::MethodCall(m) => {
                let mc = m.clone();
                if let Some(x) = self.lower_chain(&mc) { *e = x; return; }
                // x.max(y) / x.min(y) on integers
            }
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => {
                // **x with x: &&T
                if let Expr::Unary(v) = &*u.expr {
                    if matches!(v.op, syn::UnOp::Deref(_)) {
                        if let Expr::Path(p) = &*v.expr {
                            if p.path.get_ident().map_or(false, |i| self.refs2.contains(&i.to_string())) { *e = (*u.expr).clone(); return; }
                        }
                    }
                }
                // *chain.max().unwrap(): the lowered max is by value
                if valued_max(&u.expr) { let mut x = (*u.expr).clone(); self.visit_expr_mut(&mut x); *e = x; return; }
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::While(w) => {
                let mut body = w.body.clone();
                self.mark_loop(&mut body);
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut body);
                w.body = body;
                return;
            }
            Expr::Loop(w) => {
                let mut body = w.body.clone();
                self.mark_loop(&mut body);
                self.visit_block_mut(&mut body);
                w.body = body;
                return;
            }
            Expr::Closure(_) => {
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // x.unwrap_or_else(|| e)  ==>  match x { Some(v) => v, None => e }
        if let Expr::MethodCall(m) = e {
            if m.method == "unwrap_or_else" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    if c.inputs.is_empty() { let (r, b) = (&m.receiver, &c.body); *e = parse_quote!(match #r { Some(__v) => __v, None => #b }); return; }
                }
            }
        }
        if let Expr::Binary(b) = e {
            self.operand(&mut b.left);
            self.operand(&mut b.right);
        }
        if let Expr::Assign(a) = e {
            // (x, y) = v
            if let Expr::Tuple(t) = &*a.left {
                let mut out: Vec<Stmt> = vec![];
                let v = &a.right;
                out.push(parse_quote!(let __t = #v;));
                for (i, x) in t.elems.iter().enumerate() {
                    if matches!(x, Expr::Infer(_)) { continue; }
                    let ix = syn::Index::from(i);
                    out.push(parse_quote!(#x = __t.#ix;));
                }
                *e = parse_quote!({ #(#out)* });
            }
        }
    }
    fn visit_expr_closure_mut(&mut self, c: &mut syn::ExprClosure) {
        visit_mut::visit_expr_closure_mut(self, c);
    }
}
fn valued_max(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => valued_max(&p.expr),
        Expr::MethodCall(m) if m.method == "unwrap" || m.method == "expect" => match &*m.receiver {
            Expr::MethodCall(x) => (x.method == "max" || x.method == "min") && x.args.is_empty(),
            _ => false,
        },
        _ => false,
    }
}

// ---------------------------------------------------------------------------------------------
// per-function call renaming:  opt  call:NAME=NEW   method:NAME=FREEFN   op:+=FREEFN
struct Calls<'a> { f: &'a FnSpec }
impl<'a> VisitMut for Calls<'a> {
    // opt  let:NAME=TYPE : a type annotation the specification needs
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        visit_mut::visit_local_mut(self, l);
        if let Pat::Ident(p) = &l.pat {
            // only a binding of a fresh collection
            let fresh = l.init.as_ref().is_some_and(|i| !matches!(&*i.expr, Expr::Path(q) if q.path.segments.len() == 1 && q.path.segments[0].ident.to_string().starts_with("__")));
            if let Some(t) = self.f.opts.get(&format!("let:{}", p.ident)).filter(|_| fresh) {
                let t: Type = syn::parse_str(&t.replace('~', " ")).unwrap();
                let np: Stmt = { let pi = p.clone(); parse_quote!(let #pi: #t;) };
                if let Stmt::Local(n) = np { l.pat = n.pat; }
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            // the elements of vec![..]; vec![Vec::new(); n] becomes vx_vecs(n), n empty vectors
            Expr::Macro(m) if m.mac.path.is_ident("vec") => {
                if let Ok(v) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                    let mut v: Vec<Expr> = v.into_iter().collect();
                    for x in v.iter_mut() { self.visit_expr_mut(x); }
                    m.mac.tokens = quote!(#(#v),*);
                } else if let Some((mut a, mut b)) = vec_repeat(&m.mac) {
                    self.visit_expr_mut(&mut a);
                    self.visit_expr_mut(&mut b);
                    if ts(&a) == "Vec::new()" { *e = parse_quote!(vx_vecs(#b)); } else { m.mac.tokens = quote!(#a; #b); }
                }
            }
            Expr::Call(c) => {
                let n = ts(&*c.func);
                if let Some(r) = self.f.opts.get(&format!("call:{n}")) {
                    if let Ok(p) = syn::parse_str::<Expr>(r) { c.func = Box::new(p); }
                }
            }
            Expr::MethodCall(m) => {
                if let Some(r) = self.f.opts.get(&format!("method:{}", m.method)) {
                    if let Ok(p) = syn::parse_str::<Expr>(r.trim_start_matches(['&', '~'])) {
                        let a = m.args.iter();
                        let rc = &m.receiver;
                        *e = if r.starts_with('~') && ts(rc) == "self" && self.f.opts.contains_key("self_as") { parse_quote!(#p(&mut *#rc #(, #a)*)) } else if r.starts_with('~') { parse_quote!(#p(&mut #rc #(, #a)*)) } else if r.starts_with('&') { parse_quote!(#p(&#rc #(, #a)*)) } else { parse_quote!(#p(#rc #(, #a)*)) };
                    }
                } else if let Some(r) = self.f.opts.get(&format!("rename:{}", m.method)) {
                    m.method = id(r);
                }
            }
            // x == None  ==>  x.is_none()   (comparison with None does not look at the payload)
            Expr::Binary(b) if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) && ts(&b.right) == "None" => {
                let x = &b.left;
                let x: Expr = if matches!(**x, Expr::Unary(_) | Expr::Binary(_) | Expr::Reference(_)) { parse_quote!((#x)) } else { parse_quote!(#x) };
                *e = if matches!(b.op, syn::BinOp::Eq(_)) { parse_quote!(#x.is_none()) } else { parse_quote!(#x.is_some()) };
            }
            // the counter of a lowered count()
            Expr::Binary(b) if matches!(b.op, syn::BinOp::AddAssign(_)) && ts(&b.left).starts_with("__a") && ts(&b.right) == "1" => {}
            Expr::Binary(b) if !ts(&b.left).starts_with("__i") && !ts(&b.left).starts_with("__n") => {
                let o = ts(&b.op);
                if let Some(r) = self.f.opts.get(&format!("op:{o}")) {
                    if let Ok(p) = syn::parse_str::<Expr>(r.trim_start_matches(['&', '~'])) {
                        let (x, y) = (&b.left, &b.right);
                        *e = if r.starts_with("~&") { parse_quote!(#p(&mut #x, &#y)) } else if r.starts_with('~') { parse_quote!(#p(&mut #x, #y)) } else if r.starts_with('&') { parse_quote!(#p(&#x, &#y)) } else if o.ends_with('=') && o.len() == 2 && !matches!(o.as_str(), "==" | "<=" | ">=" | "!=") {
                            parse_quote!(#x = #p(#x, #y))
                        } else { parse_quote!(#p(#x, #y)) };
                    }
                } else if (o == "/=" || o == "%=") && simple_place(&b.left) {
                    // the verifier has no compound division on signed integers
                    let (x, y) = (&b.left, &b.right);
                    *e = if o == "/=" { parse_quote!(#x = #x / #y) } else { parse_quote!(#x = #x % #y) };
                }
            }
            Expr::Unary(u) => {
                let o = format!("u{}", ts(&u.op));
                if let Some(r) = self.f.opts.get(&format!("op:{o}")) {
                    if let Ok(p) = syn::parse_str::<Expr>(r) { let x = &u.expr; *e = parse_quote!(#p(#x)); }
                }
            }
            _ => {}
        }
    }
}

// `&name` inside a pattern: bind the reference and read it on the next line (Copy values only, else rustc rejects it)
#[derive(Default)]
struct PatRefs { found: Vec<(Ident, bool)> }
impl VisitMut for PatRefs {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            if let Pat::Ident(i) = &*r.pat {
                if i.subpat.is_none() && i.by_ref.is_none() {
                    self.found.push((i.ident.clone(), i.mutability.is_some()));
                    let n = id(&format!("__r_{}", i.ident));
                    *p = parse_quote!(#n);
                    return;
                }
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_expr_mut(&mut self, _: &mut Expr) {}
}
impl PatRefs {
    fn reads(p: &mut Pat) -> Vec<Stmt> {
        let mut v = PatRefs::default();
        v.visit_pat_mut(p);
        v.found.iter().map(|(i, m)| { let n = id(&format!("__r_{i}")); if *m { parse_quote!(let mut #i = *#n;) } else { parse_quote!(let #i = *#n;) } }).collect()
    }
}
struct RefPats;
impl VisitMut for RefPats {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let mut more = vec![];
            if let Stmt::Local(l) = &mut s { more = PatRefs::reads(&mut l.pat); }
            visit_mut::visit_stmt_mut(self, &mut s);
            out.push(s);
            out.extend(more);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::If(f) => if let Expr::Let(l) = &mut *f.cond {
                let mut r = PatRefs::reads(&mut l.pat);
                r.extend(std::mem::take(&mut f.then_branch.stmts));
                f.then_branch.stmts = r;
            },
            Expr::Match(m) => for a in m.arms.iter_mut() {
                if a.guard.is_some() { continue; }
                let r = PatRefs::reads(&mut a.pat);
                if !r.is_empty() { let b = &a.body; a.body = parse_quote!({ #(#r)* #b }); }
            },
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
// array patterns: the array is bound and its entries are read on the next lines
struct ArrPats { n: usize, by_ref: bool }
impl ArrPats {
    fn reads(&mut self, p: &mut Pat, by_ref: bool) -> Vec<Stmt> {
        struct V { n: usize, by_ref: bool, out: Vec<Stmt> }
        impl VisitMut for V {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                if let Pat::Slice(s) = p {
                    if s.elems.iter().all(|x| matches!(x, Pat::Wild(_)) || matches!(x, Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none())) {
                        let v = id(&format!("__q{}", self.n));
                        self.n += 1;
                        for (k, x) in s.elems.iter().enumerate() {
                            if let Pat::Ident(i) = x {
                                let k = syn::Index::from(k);
                                if self.by_ref { self.out.push(parse_quote!(let #i = &#v[#k];)) } else { self.out.push(parse_quote!(let #i = #v[#k];)) }
                            }
                        }
                        *p = if self.out.is_empty() && s.elems.iter().all(|x| matches!(x, Pat::Wild(_))) { parse_quote!(_) } else { parse_quote!(#v) };
                        return;
                    }
                }
                visit_mut::visit_pat_mut(self, p);
            }
            fn visit_expr_mut(&mut self, _: &mut Expr) {}
        }
        let mut v = V { n: self.n, by_ref, out: vec![] };
        v.visit_pat_mut(p);
        self.n = v.n;
        v.out
    }
}
impl VisitMut for ArrPats {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let mut more = vec![];
            if let Stmt::Local(l) = &mut s {
                // pairwise destructuring of a tuple or array expression stays as it is
                more = self.reads(&mut l.pat, false);
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            out.push(s);
            out.extend(more);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::If(f) => if let Expr::Let(l) = &mut *f.cond {
                let by_ref = self.by_ref && ts(&*l.expr).trim_start_matches('(').starts_with("self");
                let mut r = self.reads(&mut l.pat, by_ref);
                r.extend(std::mem::take(&mut f.then_branch.stmts));
                f.then_branch.stmts = r;
            },
            Expr::Match(m) => {
                let by_ref = self.by_ref && ts(&*m.expr).trim_start_matches('(').trim_start().starts_with("self");
                for a in m.arms.iter_mut() {
                    if a.guard.is_some() { continue; }
                    let b = ts(&*a.body);
                    let deref = { struct N(Vec<String>); impl<'b> syn::visit::Visit<'b> for N { fn visit_pat_ident(&mut self, i: &'b syn::PatIdent) { self.0.push(i.ident.to_string()); } }
                        let mut n = N(vec![]); syn::visit::Visit::visit_pat(&mut n, &a.pat); n.0.iter().any(|x| b.contains(&format!("* {x}")) && !b.contains(&format!(" * {x}"))) };
                    let r = self.reads(&mut a.pat, by_ref || deref);
                    if !r.is_empty() { let b = &a.body; a.body = parse_quote!({ #(#r)* #b }); }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
// a smart pointer to a slice: `x.iter()` is `x.FIELD.iter()`      opt deref=x:FIELD,..
struct DerefTo { map: Vec<(String, syn::Member)> }
impl DerefTo {
    fn to(&self, e: &mut Expr) {
        if let Expr::Paren(p) = e { return self.to(&mut p.expr); }
        // x[..][i] with x a list of such pointers      opt deref=x[]:FIELD
        if let Expr::Index(i) = &*e {
            let n = format!("{}[]", ts(&*i.expr));
            if let Some((_, f)) = self.map.iter().find(|(m, _)| *m == n) { let i = i.clone(); *e = parse_quote!(#i.#f); }
            return;
        }
        let Expr::Path(p) = &*e else { return };
        let Some(i) = p.path.get_ident() else { return };
        if let Some((_, f)) = self.map.iter().find(|(n, _)| i == n) { let p = p.clone(); *e = parse_quote!(#p.#f); }
    }
}
impl VisitMut for DerefTo {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "iter" | "iter_mut" | "into_iter" | "len" | "is_empty" | "first" | "last" | "get" | "contains") => self.to(&mut m.receiver),
            Expr::Index(i) => self.to(&mut i.expr),
            _ => {}
        }
    }
}

struct KnownMacros<'a> { t: &'a Table, err: Option<String> }
const PERMUTATION_DEF: &str = "($(($($x:expr),+))+)=>{{letmutcycles=Vec::new();$(letmutv=Vec::new();$(v.push($x);)+cycles.push(Cycle::from(v));)+Permutation::from_disjoint_cycles(cycles)}};";
impl<'a> VisitMut for KnownMacros<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("permutation") {
                let def = self.t.macros.get("permutation").map(|d| d.to_string().split_whitespace().collect::<String>()).unwrap_or_default();
                if def != PERMUTATION_DEF { self.err = Some(format!("lost anchor: macro permutation! reads {def}")); return; }
                let mut cycles: Vec<Expr> = vec![];
                for g in m.mac.tokens.clone() {
                    if let proc_macro2::TokenTree::Group(g) = g {
                        let b = g.stream();
                        let v: Expr = parse_quote!([#b]);
                        let Expr::Array(a) = v else { continue };
                        let xs = a.elems.iter();
                        cycles.push(parse_quote!(Cycle::from({ let mut v = Vec::new(); #(v.push(#xs);)* v })));
                    }
                }
                *e = parse_quote!(Permutation::from_disjoint_cycles({ let mut cycles = Vec::new(); #(cycles.push(#cycles);)* cycles }));
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct SimpleSubst { map: Vec<(String, Expr)> } // whole expressions, by whitespace-free text
impl VisitMut for SimpleSubst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let s = ts(e);
        for (a, b) in &self.map { if *a == s { *e = b.clone(); return; } }
        visit_mut::visit_expr_mut(self, e);
    }
}

// proof hints before the n-th `return` (its value bound to __ret) and before the n-th panic
struct Leaves<'a> { f: &'a FnSpec, rets: usize, panics: usize, brks: usize, calls: Vec<usize> }
fn called(e: &Expr) -> Option<String> {
    match e {
        Expr::Call(c) => match &*c.func { Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()), _ => None },
        Expr::MethodCall(m) => Some(m.method.to_string()),
        _ => None,
    }
}
impl<'a> Leaves<'a> {
    fn named(&self, e: &Expr) -> bool { called(e).is_some_and(|n| self.f.at_call.iter().any(|c| c.0 == n)) }
}
impl<'a> VisitMut for Leaves<'a> {
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Return(r) => {
                let n = self.rets; self.rets += 1;
                if !self.f.at_ret.contains_key(&n) { return; }
                let k = syn::LitInt::new(&n.to_string(), Span::call_site());
                *e = match &r.expr {
                    Some(x) => parse_quote!({ let __ret = #x; __vx_mark!(ret #k); return __ret; }),
                    None => parse_quote!({ __vx_mark!(ret #k); return; }),
                };
            }
            Expr::Break(b) => {
                let n = self.brks; self.brks += 1;
                if !self.f.at_brk.contains_key(&n) { return; }
                let k = syn::LitInt::new(&n.to_string(), Span::call_site());
                *e = parse_quote!({ __vx_mark!(brk #k); #b; });
            }
            Expr::Call(_) | Expr::MethodCall(_) if self.named(e) => {
                let name = called(e).unwrap();
                for k in 0..self.f.at_call.len() {
                    if self.f.at_call[k].0 != name { continue; }
                    self.calls[k] += 1;
                    if self.calls[k] != self.f.at_call[k].1 + 1 { continue; }
                    let kl = syn::LitInt::new(&k.to_string(), Span::call_site());
                    *e = parse_quote!(({ __vx_mark!(call #kl); #e }));
                }
            }
            Expr::Call(c) if matches!(ts(&c.func).as_str(), "vx_panic" | "vx_may_panic") => {
                let n = self.panics; self.panics += 1;
                if !self.f.at_panic.contains_key(&n) { return; }
                let k = syn::LitInt::new(&n.to_string(), Span::call_site());
                *e = parse_quote!(({ __vx_mark!(panic #k); #c }));
            }
            _ => {}
        }
    }
}

// `unsafe { &*E }` of a cell or of a matrix view becomes FN(E)      opt rawptr=FN
struct RawPtr { f: Ident }
impl VisitMut for RawPtr {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Unsafe(u) = e {
            if let [Stmt::Expr(Expr::Reference(r), None)] = &u.block.stmts[..] {
                if let Expr::Unary(x) = &*r.expr {
                    if matches!(x.op, syn::UnOp::Deref(_)) { let (f, x) = (&self.f, &x.expr); *e = parse_quote!(#f(#x)); return; }
                }
            }
            if let [Stmt::Expr(x, None)] = &u.block.stmts[..] { let x = x.clone(); *e = x; }
        }
    }
}
// match x { p if g => a, _ => b } becomes match x { p => if g { a } else { b }, _ => b }      opt guards
struct Guards;
impl VisitMut for Guards {
    fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
        visit_mut::visit_expr_match_mut(self, m);
        if m.arms.len() != 2 || !matches!(m.arms[1].pat, Pat::Wild(_)) || m.arms[1].guard.is_some() { return; }
        if let Some((_, g)) = m.arms[0].guard.take() {
            let (a, b) = (&m.arms[0].body, &m.arms[1].body);
            let n: Expr = parse_quote!(if #g { #a } else { #b });
            m.arms[0].body = Box::new(n);
        }
    }
}
// x.find(p).map(|q| e) becomes match x.find(p) { Some(q) => Some(e), None => None }
struct OptMap;
impl VisitMut for OptMap {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if m.method == "map" && m.args.len() == 1 {
                if let (Expr::MethodCall(r), Expr::Closure(c)) = (&*m.receiver, &m.args[0]) {
                    if (r.method == "find" || r.method == "position") && c.inputs.len() == 1 {
                        let (p, b) = (&c.inputs[0], &c.body);
                        *e = parse_quote!(match #r { Some(#p) => Some(#b), None => None });
                    }
                }
            }
        }
    }
}
// M[(i, j)] becomes M.at(i, j), M[(i, j)] = v becomes M.set(i, j, v), M[(rows, cols)] with ranges becomes M.sub(r0, r1, c0, c1)
// and a mutating method on such a view M.sub_method(r0, r1, c0, c1, ..)      opt matidx
struct MatIdx;
enum MI { Cell(Expr, Expr, Expr), View(Expr, Vec<Expr>) }
fn mat_index(e: &Expr) -> Option<MI> {
    let Expr::Index(i) = e else { return None };
    let Expr::Tuple(t) = &*i.index else { return None };
    if t.elems.len() != 2 { return None; }
    let m = (*i.expr).clone();
    let is_range = |e: &Expr| matches!(e, Expr::Range(_)) || matches!(e, Expr::Paren(p) if matches!(*p.expr, Expr::Range(_)));
    if !t.elems.iter().any(is_range) { return Some(MI::Cell(m, t.elems[0].clone(), t.elems[1].clone())); }
    let mut v = vec![];
    for (k, x) in t.elems.iter().enumerate() {
        let ix = syn::Index::from(k);
        let mut x = x;
        while let Expr::Paren(p) = x { x = &p.expr; }
        match x {
            Expr::Range(r) => {
                let lo = r.start.as_deref().cloned();
                let hi = r.end.as_deref().cloned();
                let incl = matches!(r.limits, syn::RangeLimits::Closed(_));
                v.push(match lo { Some(l) => l, None => parse_quote!(0) });
                v.push(match hi { Some(h) if incl => parse_quote!(vx_succ(#h)), Some(h) => h, None => parse_quote!(#m.size().#ix) });
            }
            x => { v.push(x.clone()); v.push(parse_quote!(vx_succ(#x))); }
        }
    }
    Some(MI::View(m, v))
}
impl VisitMut for MatIdx {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // the outer form first: an assignment to a cell, a mutating call on a view
        match e {
            Expr::Assign(a) => if let Some(MI::Cell(mut m, mut i, mut j)) = mat_index(&a.left) {
                for x in [&mut m, &mut i, &mut j] { self.visit_expr_mut(x); }
                let mut v = (*a.right).clone();
                self.visit_expr_mut(&mut v);
                let h: Expr = parse_quote!({ let __v = #v; #m.set(#i, #j, __v) });
                *e = h;
                return;
            },
            Expr::Binary(b) => {
                use syn::BinOp::*;
                let op: Option<syn::BinOp> = match b.op { AddAssign(_) => Some(Add(Default::default())), SubAssign(_) => Some(Sub(Default::default())), MulAssign(_) => Some(Mul(Default::default())), DivAssign(_) => Some(Div(Default::default())), _ => None };
                if let (Some(op), Some(MI::Cell(mut m, mut i, mut j))) = (op, mat_index(&b.left)) {
                    for x in [&mut m, &mut i, &mut j] { self.visit_expr_mut(x); }
                    let mut v = (*b.right).clone();
                    self.visit_expr_mut(&mut v);
                    *e = parse_quote!({ let __v = #v; let __u = #m.at(#i, #j); #m.set(#i, #j, __u #op __v) });
                    return;
                }
            }
            // AddAssign::add_assign(&mut M[(i, j)], v) is M[(i, j)] += v
            Expr::Call(c) if c.args.len() == 2 && matches!(nows(&c.func.to_token_stream().to_string()).as_str(), "AddAssign::add_assign" | "SubAssign::sub_assign") => {
                if let Expr::Reference(r) = &c.args[0] {
                    if r.mutability.is_some() && matches!(mat_index(&r.expr), Some(MI::Cell(..))) {
                        let (l, v) = ((*r.expr).clone(), c.args[1].clone());
                        let mut n: Expr = if nows(&c.func.to_token_stream().to_string()).starts_with("Add") { parse_quote!(#l += #v) } else { parse_quote!(#l -= #v) };
                        self.visit_expr_mut(&mut n);
                        *e = n;
                        return;
                    }
                }
            }
            Expr::MethodCall(c) if matches!(c.method.to_string().as_str(), "write" | "write_and_move" | "swap_rows" | "swap_cols" | "row_operation" | "col_operation") => {
                if let Some(MI::View(mut m, v)) = mat_index(&c.receiver) {
                    self.visit_expr_mut(&mut m);
                    let v: Vec<Expr> = v.into_iter().map(|mut x| { self.visit_expr_mut(&mut x); x }).collect();
                    let a: Vec<Expr> = c.args.iter().cloned().map(|mut x| { self.visit_expr_mut(&mut x); x }).collect();
                    let f = id(&format!("sub_{}", c.method));
                    *e = parse_quote!(#m.#f(#(#v),* #(, #a)*));
                    return;
                }
            }
            _ => {}
        }
        // &M[view] * s, and sums of such products
        if let Expr::Binary(b) = e {
            let view = |x: &Expr| { let mut x = x; while let Expr::Paren(p) = x { x = &p.expr; } matches!(x, Expr::Reference(r) if matches!(mat_index(&r.expr), Some(MI::View(..)))) };
            let prod = |x: &Expr| matches!(x, Expr::Binary(y) if matches!(y.op, syn::BinOp::Mul(_)) && view(&y.left));
            let f = match b.op {
                syn::BinOp::Mul(_) if view(&b.left) => "mul_scalar",
                syn::BinOp::Add(_) if prod(&b.left) && prod(&b.right) => "add_own",
                syn::BinOp::Sub(_) if prod(&b.left) && prod(&b.right) => "sub_own",
                _ => "",
            };
            if !f.is_empty() {
                let mut l = (*b.left).clone();
                while let Expr::Paren(p) = l { l = *p.expr; }
                if let Expr::Reference(r) = l { l = *r.expr; }
                let mut r = (*b.right).clone();
                self.visit_expr_mut(&mut l);
                self.visit_expr_mut(&mut r);
                let f = id(f);
                *e = parse_quote!(#l.#f(#r));
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match mat_index(e) {
            Some(MI::Cell(m, i, j)) => *e = parse_quote!(#m.at(#i, #j)),
            Some(MI::View(m, v)) => *e = parse_quote!(#m.sub(#(#v),*)),
            None => {}
        }
    }
}

// ---------------------------------------------------------------------------------------------
pub fn extract(t: &Table, f: &FnSpec, known: &[String]) -> Result<Extracted, String> {
    let owned;
    let entry = if f.path.contains('#') { owned = local_closure(t, f)?; &owned } else { find(t, f)? };
    let mut sig = entry.sig.clone();
    let mut block = entry.block.clone();
    let mut dropped = vec![];
    let cl: HashMap<String, Ident> = known.iter().filter_map(|k| k.strip_prefix(&format!("{}#", f.path)).map(|n| (n.to_string(), id(&format!("{}__{}", sig.ident, n))))).collect();
    if !cl.is_empty() {
        let mut d = DropClosures { names: cl, err: None };
        d.visit_block_mut(&mut block);
        if let Some(e) = d.err { return Err(e); }
    }
    let mut subst = f.subst.clone();
    for (a, b) in &entry.assoc { if !subst.iter().any(|(x, _)| x == a) { subst.push((a.clone(), b.clone())); } }
    if !entry.in_macro.is_empty() {
        for s in subst.iter_mut() { if let Some(x) = s.0.strip_prefix('$') { s.0 = format!("__mac_{x}"); } }
    }
    if entry.self_ty == "[]" || f.has("self_as") {
        // methods of foreign types: becomes a free function over `self_`
    }
    // canonical parameter names
    if let Some(names) = &f.params {
        let mut k = 0;
        for inp in sig.inputs.iter_mut() {
            if let syn::FnArg::Typed(p) = inp {
                let Some(want) = names.get(k) else { return Err("parameter count".into()) };
                k += 1;
                if let Pat::Ident(pi) = &mut *p.pat {
                    let old = pi.ident.to_string();
                    if old != *want {
                        let new = id(want);
                        pi.ident = new.clone();
                        Rename { from: old.clone(), to: parse_quote!(#new) }.visit_block_mut(&mut block);
                    }
                } else {
                    // a destructuring parameter: bound at the head of the body
                    let pat = (*p.pat).clone();
                    let new = id(want);
                    *p.pat = parse_quote!(#new);
                    block.stmts.insert(0, parse_quote!(let #pat = #new;));
                }
            }
        }
        if k != names.len() { return Err(format!("lost anchor: {} parameters, contract has {}", k, names.len())); }
    }
    Subst::new(&subst).visit_signature_mut(&mut sig);
    Subst::new(&subst).visit_block_mut(&mut block);
    strip_generics(&mut sig.generics, &subst);
    // expression-level replacements (documented per function in the template)
    let mut reps = vec![];
    for (a, b) in &f.opts {
        if let Some(x) = a.strip_prefix("expr:") { if let Ok(e) = syn::parse_str::<Expr>(&b.replace('~', " ")) { reps.push((x.to_string(), e)); } }
    }
    if !reps.is_empty() { SimpleSubst { map: reps }.visit_block_mut(&mut block); }

    // pointers into a modelled allocation and two-index access
    if f.opts.contains_key("rawptr") { RawPtr { f: id(&f.opts["rawptr"]) }.visit_block_mut(&mut block); }
    OptMap.visit_block_mut(&mut block);
    if f.has("guards") { Guards.visit_block_mut(&mut block); }
    if f.has("matidx") { MatIdx.visit_block_mut(&mut block); }
    for inp in sig.inputs.iter_mut() {
        if let syn::FnArg::Typed(p) = inp {
            if let Some(t) = f.opts.get(&format!("paramtype:{}", ts(&*p.pat))) { if let Ok(t) = syn::parse_str::<Type>(t) { *p.ty = t; } }
        }
    }

    // `mut self` by value
    let mut prefix: Vec<Stmt> = vec![];
    if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            r.mutability = None;
            if let Type::Path(_) = *r.ty { *r = parse_quote!(self); }
            Rename { from: "self".into(), to: parse_quote!(self_) }.visit_block_mut(&mut block);
            prefix.push(parse_quote!(let mut self_ = self;));
        }
    }
    // inline helpers without a contract
    let mut inl = Inliner { t, known, self_ty: entry.self_ty.clone(), depth: 0, done: vec![], err: None, no: HashSet::new(), subst: subst.clone() };
    if let Some(n) = f.opts.get("noinline") { for x in n.split(',') { inl.no.insert(x.to_string()); } }
    inl.no.insert(entry.sig.ident.to_string());
    inl.visit_block_mut(&mut block);
    if let Some(e) = inl.err { return Err(e); }
    let inlined = inl.done;

    if let Some(d) = f.opts.get("deref") {
        let map = d.split(',').filter_map(|x| x.split_once(':')).map(|(a, b)| (a.to_string(), match b.parse::<usize>() { Ok(i) => syn::Member::Unnamed(i.into()), _ => syn::Member::Named(id(b)) })).collect();
        DerefTo { map }.visit_block_mut(&mut block);
    }
    // the library's own macro_rules! that the contracts know: expanded only while its definition reads as it did
    let mut ex = KnownMacros { t, err: None };
    ex.visit_block_mut(&mut block);
    if let Some(e) = ex.err { return Err(e); }
    let iters: HashSet<String> = f.opts.get("iters").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    let mut low = Low { f, loops: 0, refs: HashSet::new(), refs2: HashSet::new(), err: None, dropped: vec![], iters, flat_stop: None };
    for inp in sig.inputs.iter() {
        if let syn::FnArg::Typed(p) = inp {
            if let (Type::Reference(r), Pat::Ident(pi)) = (&*p.ty, &*p.pat) {
                if r.mutability.is_none() { low.refs.insert(pi.ident.to_string()); }
            }
        }
    }
    low.visit_block_mut(&mut block);
    if let Some(e) = low.err { return Err(format!("unsupported construct: {e}")); }
    if !f.has("plaincontinue") { Continues { end: None }.visit_block_mut(&mut block); }
    dropped.extend(low.dropped);
    let loops = low.loops;
    Calls { f }.visit_block_mut(&mut block);
    RefPats.visit_block_mut(&mut block);
    ArrPats { n: 0, by_ref: matches!(entry.sig.inputs.first(), Some(syn::FnArg::Receiver(r)) if r.reference.is_some()) }.visit_block_mut(&mut block);

    if !f.at_ret.is_empty() || !f.at_panic.is_empty() || !f.at_brk.is_empty() || !f.at_call.is_empty() {
        let mut l = Leaves { f, rets: 0, panics: 0, brks: 0, calls: vec![0; f.at_call.len()] };
        l.visit_block_mut(&mut block);
        for (k, c) in f.at_call.iter().enumerate() { if l.calls[k] <= c.1 { return Err(format!("no call {} of {} for the proof", c.1, c.0)); } }
    }
    // tail expression
    if !f.exit.trim().is_empty() {
        match block.stmts.last() {
            Some(Stmt::Expr(_, None)) => {
                let Some(Stmt::Expr(e, None)) = block.stmts.pop() else { unreachable!() };
                block.stmts.push(parse_quote!(let __ret = #e;));
                block.stmts.push(parse_quote!(__vx_mark!(exit 0);));
                block.stmts.push(Stmt::Expr(parse_quote!(__ret), None));
            }
            Some(Stmt::Expr(Expr::Return(r), Some(_))) => {
                let r = r.expr.clone();
                block.stmts.pop();
                if let Some(e) = r {
                    block.stmts.push(parse_quote!(let __ret = #e;));
                    block.stmts.push(parse_quote!(__vx_mark!(exit 0);));
                    block.stmts.push(parse_quote!(return __ret;));
                } else { block.stmts.push(parse_quote!(__vx_mark!(exit 0);)); }
            }
            _ => block.stmts.push(parse_quote!(__vx_mark!(exit 0);)),
        }
    }
    let mut stmts: Vec<Stmt> = vec![];
    // `hide` has to come first in a body
    let hides = f.entry.trim_start().starts_with("hide(");
    if hides { stmts.push(parse_quote!(__vx_mark!(entry 0);)); }
    stmts.extend(prefix);
    if !hides { stmts.push(parse_quote!(__vx_mark!(entry 0);)); }
    stmts.extend(block.stmts);
    let body: Block = parse_quote!({ #(#stmts)* });

    // signature text
    let name = f.name.clone().unwrap_or_else(|| sig.ident.to_string());
    let mut ins: Vec<String> = vec![];
    for i in sig.inputs.iter() {
        let mut i = i.clone();
        if let syn::FnArg::Receiver(r) = &mut i { r.attrs.clear();
            // a method of a reference type takes `self` as a reference
            if r.reference.is_none() && r.colon_token.is_none() && entry.self_ty_full.starts_with('&') && !f.opts.contains_key("self_as") { *r = parse_quote!(&self); } if let Some(ty) = f.opts.get("self_as") {
            let nm = "self_";
            ins.push(if r.reference.is_some() { format!("{nm}: &{} {ty}", if r.mutability.is_some() { "mut" } else { "" }) } else { format!("{nm}: {ty}") });
            continue;
        } }
        if let syn::FnArg::Typed(p) = &mut i {
            if let Type::ImplTrait(_) = &*p.ty { return Err("impl Trait parameter".into()); }
        }
        ins.push(i.to_token_stream().to_string());
    }
    let mut body_txt = body.to_token_stream().to_string();
    if f.has("self_as") { body_txt = rename_tokens(body.to_token_stream(), "self", &id("self_")).to_string(); }
    let ret = match &sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => match f.opts.get("rettype") {
            Some(r) => format!(" -> ({}: {})", f.ret, r.replace('~', " ")),
            None => format!(" -> ({}: {})", f.ret, t.to_token_stream()),
        },
    };
    let (_, _, w) = sig.generics.split_for_impl();
    let g = match f.opts.get("generics") { Some(g) => g.replace('~', " "), None => sig.generics.to_token_stream().to_string() };
    let w = if f.opts.contains_key("generics") { String::new() } else { w.map(|w| w.to_token_stream().to_string()).unwrap_or_default() };
    let sigt = format!("pub fn {name}{g}({}){ret} {w}", ins.join(", "));
    let body_txt = untag(&body_txt);
    Ok(Extracted { sig: sigt, body: body_txt, loops, inlined, dropped })
}

// normal form of the token text, one statement per line
fn untag(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    let mut depth = 0usize;
    let mut instr = false;
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c == '"' { instr = !instr; }
        o.push(c);
        if !instr {
            match c {
                '{' => { depth += 1; o.push('\n'); o.push_str(&"  ".repeat(depth)); }
                '}' => { depth = depth.saturating_sub(1); o.push('\n'); o.push_str(&"  ".repeat(depth)); }
                ';' => { o.push('\n'); o.push_str(&"  ".repeat(depth)); }
                _ => {}
            }
        }
        i += 1;
    }
    o
}

/// which generated variables each loop has (accumulator, bound, length): loops of another kind than the contracts were written for
pub fn loop_shape(b: &str) -> String {
    let n = count_loops(b);
    let mut o = String::new();
    for k in 0..n {
        for v in ["a", "h", "n", "c", "s"] {
            for head in ["let", "let mut"] { for tail in [" ", ":", ";"] { if b.contains(&format!("{head} __{v}{k}{tail}")) { o.push_str(v); } } }
        }
        o.push('.');
    }
    o
}
pub fn count_loops(b: &str) -> usize {
    b.matches("__vx_mark ! (inv ").count()
}

fn words(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        if c.is_alphanumeric() || c == '_' { cur.push(c); } else {
            if !cur.is_empty() { v.push(std::mem::take(&mut cur)); }
            if !c.is_whitespace() { v.push(c.to_string()); }
        }
    }
    if !cur.is_empty() { v.push(cur); }
    v
}
fn is_local(s: &str) -> bool {
    let c = s.chars().next().unwrap_or('0');
    (c.is_lowercase() || c == '_') && !matches!(s, "let" | "mut" | "if" | "else" | "while" | "loop" | "match" | "return" | "break" | "continue" | "fn" | "pub" | "as" | "self" | "true" | "false" | "usize" | "u64" | "i64" | "in" | "ref" | "bool" | "__vx_mark" | "inv" | "begin" | "end" | "after" | "before" | "entry" | "exit" | "ret" | "panic" | "brk" | "call")
}
/// Names of the baseline body that occur under another name in the changed body, found by aligning the two token texts.
pub fn align(old: &str, new: &str) -> Vec<(String, String)> {
    let a = words(old);
    let b = words(new);
    if a.len() * b.len() > 40_000_000 { return vec![]; }
    let bset: HashSet<&String> = b.iter().collect();
    let eq = |x: &String, y: &String| x == y || (is_local(x) && is_local(y));
    let (n, m) = (a.len(), b.len());
    let mut d = vec![0u32; (n + 1) * (m + 1)];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            let mut v = d[(i + 1) * (m + 1) + j].max(d[i * (m + 1) + j + 1]);
            if eq(&a[i], &b[j]) {
                let w = d[(i + 1) * (m + 1) + j + 1] + if a[i] == b[j] { 3 } else { 2 };
                v = v.max(w);
            }
            d[i * (m + 1) + j] = v;
        }
    }
    let (mut i, mut j) = (0, 0);
    let mut votes: HashMap<String, HashMap<String, usize>> = HashMap::new();
    while i < n && j < m {
        let here = d[i * (m + 1) + j];
        if eq(&a[i], &b[j]) && here == d[(i + 1) * (m + 1) + j + 1] + if a[i] == b[j] { 3 } else { 2 } {
            if is_local(&a[i]) { *votes.entry(a[i].clone()).or_default().entry(b[j].clone()).or_default() += 1; }
            i += 1; j += 1;
        } else if here == d[(i + 1) * (m + 1) + j] { i += 1; } else { j += 1; }
    }
    let mut out = vec![];
    for (x, v) in votes {
        if bset.contains(&x) { continue; } // the name still exists
        if let Some((y, _)) = v.iter().max_by_key(|(_, c)| **c) { if *y != x { out.push((x.clone(), y.clone())); } }
    }
    out.sort();
    out
}

fn ren(text: &str, r: &[(String, String)]) -> String {
    if r.is_empty() { return text.to_string(); }
    let mut o = String::new();
    let mut cur = String::new();
    let mut prev = ' ';
    let flush = |cur: &mut String, o: &mut String, prev: char| {
        if cur.is_empty() { return; }
        let rep = if prev == '.' { None } else { r.iter().find(|(a, _)| a == cur).map(|(_, b)| b.clone()) };
        o.push_str(&rep.unwrap_or_else(|| cur.clone()));
        cur.clear();
    };
    let mut before = ' ';
    for c in text.chars() {
        if c.is_alphanumeric() || c == '_' {
            if cur.is_empty() { before = prev; }
            cur.push(c);
        } else {
            flush(&mut cur, &mut o, before);
            o.push(c);
            prev = c;
        }
    }
    flush(&mut cur, &mut o, before);
    o
}

pub fn splice(f: &FnSpec, x: &Extracted, r: &[(String, String)], canary: bool) -> String {
    let mut s = String::new();
    let body = &x.body;
    // replace markers
    let mut rest = body.as_str();
    let pat = "__vx_mark ! (";
    while let Some(p) = rest.find(pat) {
        let before = &rest[..p];
        let q = rest[p..].find(";").unwrap() + p;
        let inner = &rest[p + pat.len()..q];
        let inner = inner.trim_end().trim_end_matches(')');
        let mut w = inner.split_whitespace();
        let what = w.next().unwrap();
        let k: usize = w.next().unwrap().parse().unwrap();
        match what {
            "inv" => {
                // the marker follows the opening brace of the loop body
                let tb = before.trim_end();
                assert!(tb.ends_with('{'), "loop marker");
                s.push_str(&tb[..tb.len() - 1]);
                if let Some(t) = f.loop_inv.get(&k) { s.push('\n'); s.push_str(&ren(t, r)); }
                s.push_str("{\n");
            }
            _ => {
                s.push_str(before);
                let t = match what {
                    "begin" => f.loop_begin.get(&k),
                    "end" => f.loop_end.get(&k),
                    "after" => f.loop_after.get(&k),
                    "before" => f.loop_before.get(&k),
                    "ret" => f.at_ret.get(&k),
                    "panic" => f.at_panic.get(&k),
                    "brk" => f.at_brk.get(&k),
                    "call" => f.at_call.get(k).map(|c| &c.2),
                    "entry" => Some(&f.entry),
                    "exit" => Some(&f.exit),
                    _ => None,
                };
                if let Some(t) = t { if !t.trim().is_empty() { s.push('\n'); s.push_str(&ren(t, r)); s.push('\n'); } }
                if what == "entry" && canary { s.push_str("\nproof { assert(false); }\n"); }
            }
        }
        rest = &rest[q + 1..];
    }
    s.push_str(rest);
    let attrs = if f.has("isolate") { "" } else { "#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n" };
    let attrs = if x.loops > 0 { attrs } else { "" };
    let rl = f.opts.get("rlimit").map(|n| format!("#[verifier::rlimit({n})]\n")).unwrap_or_default();
    let spin = if f.has("spinoff") { "#[verifier::spinoff_prover]\n" } else { "" };
    let nodec = if f.has("nodecreases") { "#[verifier::exec_allows_no_decreases_clause]\n" } else { "" };
    format!("{attrs}{rl}{spin}{nodec}{}{}\n{}\n{}", f.attrs, x.sig, ren(&f.spec, r), s)
}
