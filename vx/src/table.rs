//! Index of the items of one source file.
use quote::ToTokens;
use std::collections::HashMap;
use std::path::Path;

#[derive(Clone)]
pub struct FnEntry {
    pub self_ty: String,      // last identifier of the Self type, "" for free functions
    pub self_ty_full: String, // whole type, no whitespace
    pub trait_: String,       // last identifier of the trait, "" for inherent
    pub trait_full: String,
    pub in_macro: String,
    pub vis_pub: bool,
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub impl_generics: syn::Generics,
    pub assoc: Vec<(String, String)>, // associated types of the impl
}

pub struct Table {
    pub fns: Vec<FnEntry>,
    pub structs: HashMap<String, syn::ItemStruct>,
    pub enums: HashMap<String, syn::ItemEnum>,
    pub macros: HashMap<String, proc_macro2::TokenStream>,
    pub invocations: Vec<(String, proc_macro2::TokenStream)>,
}

pub fn nows(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

pub fn load(p: &Path) -> Result<Table, String> {
    let text = std::fs::read_to_string(p).map_err(|e| format!("{}: {e}", p.display()))?;
    let f = syn::parse_file(&text).map_err(|e| format!("{}: {e}", p.display()))?;
    let mut t = Table { fns: vec![], structs: HashMap::new(), enums: HashMap::new(), macros: HashMap::new(), invocations: vec![] };
    walk(&f.items, &mut t, "");
    // bodies of macro_rules! arms: try to parse `impl` items out of the transcriber, with $x left as __mac_x
    for (name, ts) in t.macros.clone() {
        let s = ts.to_string();
        let items = macro_items(&s);
        walk(&items, &mut t, &name);
    }
    // and the invocations of macros `($( ( $a: .., $b: .. ) )*) => { $( .. )* }`, expanded: found as macro=name!
    for (name, args) in t.invocations.clone() {
        if let Some(m) = t.macros.get(&name).cloned() {
            let items = expand_rows(m, args);
            walk(&items, &mut t, &format!("{name}!"));
        }
    }
    Ok(t)
}

fn expand_rows(mac: proc_macro2::TokenStream, args: proc_macro2::TokenStream) -> Vec<syn::Item> {
    use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
    let paren = |t: &TokenTree| match t { TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => Some(g.stream()), _ => None };
    let dollar = |t: &TokenTree| matches!(t, TokenTree::Punct(p) if p.as_char() == '$');
    // the body of `$( .. )*`, when that is all there is
    let rep = |ts: TokenStream| -> Option<TokenStream> {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        if v.len() == 3 && dollar(&v[0]) && matches!(&v[2], TokenTree::Punct(p) if p.as_char() == '*') { match &v[1] { TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => Some(g.stream()), _ => None } } else { None }
    };
    let split = |ts: TokenStream| -> Vec<Vec<TokenTree>> {
        let mut r = vec![vec![]];
        for t in ts { if matches!(&t, TokenTree::Punct(p) if p.as_char() == ',') { r.push(vec![]) } else { r.last_mut().unwrap().push(t) } }
        r
    };
    let v: Vec<TokenTree> = mac.into_iter().collect();
    let (Some(TokenTree::Group(m)), Some(TokenTree::Group(b))) = (v.first(), v.get(3)) else { return vec![] };
    let Some(row) = rep(m.stream()) else { return vec![] };
    let row: Vec<TokenTree> = row.into_iter().collect();
    let (1, Some(row)) = (row.len(), row.first().and_then(|t| paren(t))) else { return vec![] };
    let mut names = vec![];
    for p in split(row) { match (p.first(), p.get(1)) { (Some(d), Some(TokenTree::Ident(i))) if dollar(d) => names.push(i.to_string()), _ => return vec![] } }
    let Some(body) = rep(b.stream()) else { return vec![] };
    fn put(ts: TokenStream, names: &[String], vals: &[Vec<TokenTree>]) -> TokenStream {
        let mut out = vec![];
        let mut it = ts.into_iter().peekable();
        while let Some(t) = it.next() {
            match t {
                TokenTree::Punct(p) if p.as_char() == '$' => match it.next() {
                    Some(TokenTree::Ident(i)) => if let Some(k) = names.iter().position(|n| *n == i.to_string()) { out.extend(vals[k].iter().cloned()) },
                    Some(x) => { out.push(TokenTree::Punct(p)); out.push(x) }
                    None => {}
                },
                TokenTree::Group(g) => out.push(TokenTree::Group(Group::new(g.delimiter(), put(g.stream(), names, vals)))),
                t => out.push(t),
            }
        }
        out.into_iter().collect()
    }
    let mut res = vec![];
    for a in args {
        if matches!(&a, TokenTree::Punct(p) if p.as_char() == ',') { continue; }
        let Some(a) = paren(&a) else { return vec![] };
        let vals = split(a);
        if vals.len() != names.len() { return vec![]; }
        if let Ok(f) = syn::parse2::<syn::File>(put(body.clone(), &names, &vals)) { res.extend(f.items); }
    }
    res
}

// Take the transcriber of the first arm, drop a `$( ... )*` wrapper and rename `$x` to `__mac_x`.
fn macro_items(s: &str) -> Vec<syn::Item> {
    use proc_macro2::{Delimiter, TokenStream, TokenTree};
    let ts: TokenStream = match s.parse() { Ok(t) => t, Err(_) => return vec![] };
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut res = vec![];
    let mut i = 0;
    while i + 3 < toks.len() + 1 {
        // matcher => transcriber ;
        if let (Some(TokenTree::Group(_)), Some(TokenTree::Punct(a)), Some(TokenTree::Punct(b)), Some(TokenTree::Group(g))) =
            (toks.get(i), toks.get(i + 1), toks.get(i + 2), toks.get(i + 3))
        {
            if a.as_char() == '=' && b.as_char() == '>' {
                let mut inner: TokenStream = g.stream();
                let v: Vec<TokenTree> = inner.clone().into_iter().collect();
                if v.len() >= 2 {
                    if let (TokenTree::Punct(p), TokenTree::Group(gg)) = (&v[0], &v[1]) {
                        if p.as_char() == '$' && gg.delimiter() == Delimiter::Parenthesis { inner = gg.stream(); }
                    }
                }
                let renamed = undollar(inner);
                if let Ok(f) = syn::parse2::<syn::File>(renamed) { res.extend(f.items); }
                i += 4;
                if let Some(TokenTree::Punct(p)) = toks.get(i) { if p.as_char() == ';' { i += 1; } }
                continue;
            }
        }
        i += 1;
    }
    res
}

fn undollar(ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    use proc_macro2::{Group, Ident, TokenTree};
    let mut out: Vec<TokenTree> = vec![];
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(id)) = it.peek().cloned() {
                    it.next();
                    out.push(TokenTree::Ident(Ident::new(&format!("__mac_{id}"), id.span())));
                } else {
                    out.push(TokenTree::Punct(p));
                }
            }
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), undollar(g.stream()));
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
            }
            t => out.push(t),
        }
    }
    out.into_iter().collect()
}

fn last_ident(p: &syn::Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

fn ty_ident(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => last_ident(&p.path),
        syn::Type::Reference(r) => ty_ident(&r.elem),
        syn::Type::Slice(_) => "[]".into(),
        _ => nows(&t.to_token_stream().to_string()),
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = nows(&a.to_token_stream().to_string());
        s == "#[cfg(test)]" || s == "#[test]"
    })
}

fn walk(items: &[syn::Item], t: &mut Table, in_macro: &str) {
    for it in items {
        match it {
            syn::Item::Fn(f) => {
                if is_test(&f.attrs) { continue; }
                t.fns.push(FnEntry {
                    self_ty: String::new(), self_ty_full: String::new(), trait_: String::new(), trait_full: String::new(),
                    in_macro: in_macro.into(), vis_pub: !matches!(f.vis, syn::Visibility::Inherited),
                    sig: f.sig.clone(), block: (*f.block).clone(), impl_generics: syn::Generics::default(), assoc: vec![],
                })
            }
            syn::Item::Impl(im) => {
                if is_test(&im.attrs) { continue; }
                let (tr, trf) = match &im.trait_ {
                    Some((_, p, _)) => (last_ident(p), nows(&p.to_token_stream().to_string())),
                    None => Default::default(),
                };
                let assoc: Vec<(String, String)> = im.items.iter().filter_map(|ii| match ii {
                    syn::ImplItem::Type(t) => Some((format!("Self::{}", t.ident), t.ty.to_token_stream().to_string())),
                    _ => None,
                }).collect();
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        t.fns.push(FnEntry {
                            self_ty: ty_ident(&im.self_ty), self_ty_full: nows(&im.self_ty.to_token_stream().to_string()),
                            trait_: tr.clone(), trait_full: trf.clone(), in_macro: in_macro.into(),
                            vis_pub: !matches!(f.vis, syn::Visibility::Inherited) || !tr.is_empty(),
                            sig: f.sig.clone(), block: f.block.clone(), impl_generics: im.generics.clone(), assoc: assoc.clone(),
                        })
                    }
                }
            }
            syn::Item::Trait(tr) => {
                for ii in &tr.items {
                    if let syn::TraitItem::Fn(f) = ii {
                        if let Some(b) = &f.default {
                            t.fns.push(FnEntry {
                                self_ty: tr.ident.to_string(), self_ty_full: tr.ident.to_string(), trait_: "".into(), trait_full: "".into(),
                                in_macro: in_macro.into(), vis_pub: true, sig: f.sig.clone(), block: b.clone(), impl_generics: tr.generics.clone(), assoc: vec![],
                            })
                        }
                    }
                }
            }
            syn::Item::Mod(m) => {
                if is_test(&m.attrs) { continue; }
                if let Some((_, items)) = &m.content { walk(items, t, in_macro); }
            }
            syn::Item::Struct(s) => { t.structs.insert(s.ident.to_string(), s.clone()); }
            syn::Item::Enum(e) => { t.enums.insert(e.ident.to_string(), e.clone()); }
            syn::Item::Macro(m) => {
                if let Some(id) = &m.ident { t.macros.insert(id.to_string(), m.mac.tokens.clone()); }
                else { t.invocations.push((last_ident(&m.mac.path), m.mac.tokens.clone())); }
            }
            _ => {}
        }
    }
}

pub fn emit_struct(t: &Table, name: &str, subst: &[(String, String)], opts: &[String]) -> Result<String, String> {
    let derives = opts.iter().filter_map(|o| o.strip_prefix('+')).collect::<Vec<_>>();
    let dstr = if derives.is_empty() { String::new() } else { format!("#[derive({})]\n", derives.join(", ")) };
    let attr: String = opts.iter().filter_map(|o| o.strip_prefix('@')).map(|a| format!("#[{a}]\n")).collect();
    // `derives:X,Y`: the contracts rely on the derived (structural) implementations
    for o in opts.iter().filter_map(|o| o.strip_prefix("derives:")) {
        let attrs = t.structs.get(name).map(|s| s.attrs.clone()).or(t.enums.get(name).map(|e| e.attrs.clone())).unwrap_or_default();
        let have: Vec<String> = attrs.iter().filter(|a| a.path().is_ident("derive")).flat_map(|a| {
            nows(&a.meta.to_token_stream().to_string()).trim_start_matches("derive(").trim_end_matches(')').split(',').map(|x| x.to_string()).collect::<Vec<_>>()
        }).collect();
        for w in o.split(',') { if !have.iter().any(|h| h == w) { return Err(format!("lost anchor: {name} does not derive {w}")); } }
    }
    let drop_generics = opts.iter().any(|o| o == "nogenerics");
    if let Some(s) = t.structs.get(name) {
        let mut s = s.clone();
        s.attrs.clear();
        s.vis = syn::parse_quote!(pub);
        for f in s.fields.iter_mut() { f.vis = syn::parse_quote!(pub); f.attrs.clear(); }
        if drop_generics { s.generics = Default::default(); } else { crate::lower::strip_generics(&mut s.generics, subst); }
        crate::lower::subst_types_item(&mut s, subst)?;
        let mut txt = s.to_token_stream().to_string();
        if opts.iter().any(|o| o == "nophantom") { txt = txt.replace("PhantomData", "core :: marker :: PhantomData"); }
        return Ok(format!("{attr}{dstr}{}", txt));
    }
    if let Some(e) = t.enums.get(name) {
        let mut e = e.clone();
        e.attrs.clear();
        e.vis = syn::parse_quote!(pub);
        if drop_generics { e.generics = Default::default(); } else { crate::lower::strip_generics(&mut e.generics, subst); }
        crate::lower::subst_types_enum(&mut e, subst)?;
        return Ok(format!("{attr}{dstr}{}", e.to_token_stream()));
    }
    Err(format!("lost anchor: no struct {name}"))
}
