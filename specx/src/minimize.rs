//! Reading the MIR translation (tooling/minimize/src): purely mechanical source-level rewrites that bring it into the subset
//! the rest of the translation understands.
//!   * calls of the program builder become calls of the extracted builder functions (see builder.rs);
//!   * free functions get the prefix `mini__`;
//!   * inside `impl FnCtxt`, what `Deref` finds in `Ctxt` is written out (`self.x` becomes `self.cx.x`);
//!   * types of the compiler, `rs::a::X` and `smir::X`, become `RsX` and `SmX`. Those declared in rustc.txt get the listed
//!     variants, fields and (uninterpreted) methods; all others are opaque types;
//!   * symbols `rs::sym::x` become the variants of one enumeration.
use crate::builder::{Decls, Rw};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use syn::visit_mut::{self, VisitMut};

fn last(p: &syn::Path) -> String { p.segments.last().unwrap().ident.to_string() }
fn upper(s: &str) -> bool { s.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) }

/// The name of a text (only the equality of texts is modelled: different texts have different codes).
pub fn txt(s: &str) -> Option<String> {
    if s.is_empty() || !s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == ':') { return None; }
    Some(format!("txt__{}", s.replace("::", "_")))
}

#[derive(Default)]
pub struct Info { pub texts: BTreeSet<String>, pub syms: BTreeSet<String>, pub opaque: BTreeMap<String, usize> }

struct Paths<'a> { info: &'a mut Info, declared: &'a HashSet<String>, uses: BTreeMap<String, String> }
impl<'a> Paths<'a> {
    fn path(&mut self, p: &mut syn::Path) {
        let first = p.segments[0].ident.to_string();
        let prefix = match first.as_str() { "rs" => "Rs", "smir" => "Sm", x if x.starts_with("rustc_") => "Rs", _ => {
            if p.segments.len() == 1 || upper(&first) { if let Some(t) = self.uses.get(&first) { let sp = p.segments[0].ident.span(); p.segments[0].ident = syn::Ident::new(t, sp); } }
            return
        } };
        if p.segments.len() == 1 { return; }
        let n = p.segments.len();
        if n == 3 && p.segments[1].ident == "sym" {
            let s = p.segments[2].ident.clone();
            self.info.syms.insert(s.to_string());
            *p = syn::parse_quote!(RsSym::#s);
            return;
        }
        let mut segs: Vec<syn::PathSegment> = p.segments.iter().skip(1).cloned().collect();
        while segs.len() > 1 && !upper(&segs[0].ident.to_string()) { segs.remove(0); }
        let name = segs[0].ident.to_string();
        let new = format!("{}{}", prefix, name);
        segs[0].ident = syn::Ident::new(&new, segs[0].ident.span());
        if upper(&name) && !name.chars().all(|c| c.is_uppercase() || c == '_') && !self.declared.contains(&new) {
            segs[0].arguments = syn::PathArguments::None;
            self.info.opaque.insert(new.clone(), 0);
        }
        if let syn::PathArguments::AngleBracketed(a) = &mut segs[0].arguments {
            a.args = a.args.iter().filter(|x| !matches!(x, syn::GenericArgument::Lifetime(_))).cloned().collect();
            if a.args.is_empty() { segs[0].arguments = syn::PathArguments::None; }
        }
        p.leading_colon = None;
        p.segments = segs.into_iter().collect();
    }
}
impl<'a> VisitMut for Paths<'a> {
    fn visit_lit_str_mut(&mut self, l: &mut syn::LitStr) { self.info.texts.insert(l.value()); }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        self.path(p);
    }
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        visit_mut::visit_type_mut(self, t);
        if let syn::Type::Path(p) = t { if last(&p.path) == "HashMap" { p.path.segments.last_mut().unwrap().ident = syn::Ident::new("Map", proc_macro2::Span::call_site()); } }
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        let n = last(&m.path);
        m.path = syn::Path::from(m.path.segments.last().unwrap().ident.clone());
        if matches!(n.as_str(), "list" | "assert" | "assert_eq" | "vec") {
            if let Ok(mut es) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                for e in es.iter_mut() { self.visit_expr_mut(e); }
                m.tokens = quote::quote!(#es);
            }
        } else if n == "matches" {
            if let Ok((mut a, mut b)) = m.parse_body_with(|p: syn::parse::ParseStream| -> syn::Result<(syn::Expr, syn::Pat)> { let a = p.parse()?; p.parse::<syn::Token![,]>()?; let b = syn::Pat::parse_multi_with_leading_vert(p)?; Ok((a, b)) }) {
                self.visit_expr_mut(&mut a); self.visit_pat_mut(&mut b);
                m.tokens = quote::quote!(#a, #b);
            }
        }
    }
    fn visit_item_use_mut(&mut self, u: &mut syn::ItemUse) {
        // `use rs::BinOp::*`, `use rs::X`
        fn go(t: &syn::UseTree, prefix: &str, inner: bool) -> Option<syn::UseTree> {
            Some(match t {
                syn::UseTree::Path(p) if inner || upper(&p.ident.to_string()) => { let i = if inner { p.ident.clone() } else { syn::Ident::new(&format!("{}{}", prefix, p.ident), p.ident.span()) }; let t = go(&p.tree, prefix, true)?; syn::parse_quote!(#i::#t) }
                syn::UseTree::Path(p) => go(&p.tree, prefix, false)?,
                syn::UseTree::Name(n) if !inner => { let i = syn::Ident::new(&format!("{}{}", prefix, n.ident), n.ident.span()); let o = &n.ident; syn::parse_quote!(#i as #o) }
                syn::UseTree::Name(_) | syn::UseTree::Glob(_) if inner => t.clone(),
                _ => return None,
            })
        }
        if let syn::UseTree::Path(p) = &u.tree {
            let prefix = match p.ident.to_string().as_str() { "rs" => "Rs", "smir" => "Sm", x if x.starts_with("rustc_") => "Rs", _ => return };
            if let Some(t) = go(&p.tree, prefix, false) { u.tree = t; }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        // conversions between the two views of the compiler's data
        if let syn::Expr::Call(c) = e {
            if let syn::Expr::Path(p) = &*c.func {
                let n = last(&p.path);
                if p.path.segments.len() == 2 && p.path.segments[0].ident == "smir" && (n == "stable" || n == "internal") {
                    let x = c.args.last().unwrap();
                    let m = syn::Ident::new(&format!("smir_{}", n), proc_macro2::Span::call_site());
                    *e = syn::parse_quote!(#x.#m());
                }
            }
        }
        // constants of the compiler are nullary functions
        if let syn::Expr::Path(p) = e {
            let n = last(&p.path);
            if p.path.segments.len() > 1 && (p.path.segments[0].ident == "rs" || p.path.segments[0].ident == "smir") && n.len() > 1 && n.chars().all(|c| c.is_uppercase() || c == '_') {
                let q = p.path.segments[p.path.segments.len() - 2].ident.to_string();
                if !upper(&q) {
                    let i = syn::Ident::new(&format!("Rs{}", n), proc_macro2::Span::call_site());
                    *e = syn::parse_quote!(#i());
                    return;
                }
                if q == "Size" { *e = syn::parse_quote!(RsSize::ZERO()); return; }
            }
        }
        // `m.entry(k).or_insert_with(f)`
        if let syn::Expr::MethodCall(m) = e {
            if m.method == "or_insert_with" && m.args.len() == 1 {
                if let (syn::Expr::MethodCall(r), syn::Expr::Closure(f)) = (&*m.receiver, &m.args[0]) {
                    if r.method == "entry" && f.inputs.is_empty() {
                        let (b, k, v) = (&r.receiver, &r.args[0], &f.body);
                        *e = syn::parse_quote!({ let key__ = #k; if !#b.contains_key(key__) { let val__ = #v; #b.insert(key__, val__); } #b.index_at(key__) });
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let syn::Expr::Cast(c) = e { if matches!(&*c.ty, syn::Type::Infer(_)) { let i = (*c.expr).clone(); *e = i; } }
    }
}

/// `self.x` of `FnCtxt` that comes from `Ctxt`.
struct Deref<'a> { fields: &'a HashSet<String>, meths: &'a HashSet<String> }
fn is_self(e: &syn::Expr) -> bool { matches!(e, syn::Expr::Path(p) if p.path.is_ident("self")) }
impl<'a> VisitMut for Deref<'a> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            syn::Expr::Field(f) if is_self(&f.base) => { if let syn::Member::Named(n) = &f.member { if self.fields.contains(&n.to_string()) { f.base = syn::parse_quote!(self.cx); } } }
            syn::Expr::MethodCall(m) if is_self(&m.receiver) && self.meths.contains(&m.method.to_string()) => { m.receiver = syn::parse_quote!(self.cx); }
            _ => {}
        }
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        if matches!(last(&m.path).as_str(), "list" | "assert" | "assert_eq" | "vec") {
            if let Ok(mut es) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                for e in es.iter_mut() { self.visit_expr_mut(e); }
                m.tokens = quote::quote!(#es);
            }
        }
    }
}

/// Slices: `a[i] = v`, `a[i]`, `a[x..y]`, and `&mut a[x..]` as an argument (copied in and out).
struct Slices { n: usize }
fn range_of(r: &syn::ExprRange, base: &syn::Expr) -> Option<(syn::Expr, syn::Expr)> {
    if !matches!(r.limits, syn::RangeLimits::HalfOpen(_)) { return None; }
    let a: syn::Expr = match &r.start { Some(a) => (**a).clone(), None => syn::parse_quote!(0) };
    let b: syn::Expr = match &r.end { Some(b) => (**b).clone(), None => syn::parse_quote!(#base.len()) };
    Some((a, b))
}
impl VisitMut for Slices {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        // `for (i, x) in xs.iter_mut().enumerate() { .. *x .. }`
        if let syn::Expr::ForLoop(f) = e {
            if let (syn::Expr::MethodCall(m), syn::Pat::Tuple(p)) = (&*f.expr, &*f.pat) {
                if let (true, syn::Expr::MethodCall(m), 2) = (m.method == "enumerate", &*m.receiver, p.elems.len()) {
                    if let (true, syn::Pat::Ident(i), syn::Pat::Ident(x)) = (m.method == "iter_mut", &p.elems[0], &p.elems[1]) {
                        let (l, i, x) = (&m.receiver, &i.ident, x.ident.clone());
                        let mut body = f.body.clone();
                        Unref(&x).visit_block_mut(&mut body);
                        *e = syn::parse_quote!(for #i in 0..#l.len() { let mut #x = #l.index_at(#i); #body #l.set(#i, #x); });
                    }
                }
            }
        }
        if let syn::Expr::Assign(a) = e {
            if let syn::Expr::Index(i) = &mut *a.left {
                self.visit_expr_mut(&mut i.expr); self.visit_expr_mut(&mut i.index); self.visit_expr_mut(&mut a.right);
                let (b, k, v) = (&i.expr, &i.index, &a.right);
                *e = syn::parse_quote!(#b.set(#k, #v));
                return;
            }
        }
        if let syn::Expr::Call(c) = e {
            let mut pre: Vec<syn::Stmt> = vec![];
            let mut post: Vec<syn::Stmt> = vec![];
            for a in c.args.iter_mut() {
                let syn::Expr::Reference(r) = a else { continue };
                if r.mutability.is_none() { continue; }
                let syn::Expr::Index(i) = &mut *r.expr else { continue };
                let syn::Expr::Range(rg) = &*i.index else { continue };
                let base = (*i.expr).clone();
                let Some((x, y)) = range_of(rg, &base) else { continue };
                self.n += 1;
                let (s, o) = (syn::Ident::new(&format!("sub{}__", self.n), proc_macro2::Span::call_site()), syn::Ident::new(&format!("off{}__", self.n), proc_macro2::Span::call_site()));
                pre.push(syn::parse_quote!(let #o = #x;));
                pre.push(syn::parse_quote!(let mut #s = #base.subslice_with_length(#o, #y - #o);));
                post.push(syn::parse_quote!(#base.write_subslice_at_index(#o, #s);));
                *a = syn::parse_quote!(&mut #s);
            }
            if !pre.is_empty() {
                visit_mut::visit_expr_mut(self, e);
                // (used for functions that return nothing)
                *e = syn::parse_quote!({ #(#pre)* #e; #(#post)* });
                return;
            }
        }
        if let syn::Expr::Index(i) = e {
            self.visit_expr_mut(&mut i.expr);
            let b = (*i.expr).clone();
            if let syn::Expr::Range(r) = &mut *i.index {
                visit_mut::visit_expr_range_mut(self, r);
                if let Some((x, y)) = range_of(r, &b) { *e = syn::parse_quote!(#b.subslice_with_length(#x, #y - #x)); }
            } else {
                self.visit_expr_mut(&mut i.index);
                let k = &i.index;
                *e = syn::parse_quote!(#b.index_at(#k));
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        if matches!(last(&m.path).as_str(), "list" | "assert" | "assert_eq" | "vec") {
            if let Ok(mut es) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                for e in es.iter_mut() { self.visit_expr_mut(e); }
                m.tokens = quote::quote!(#es);
            }
        }
    }
}

struct Unref<'a>(&'a syn::Ident);
impl<'a> VisitMut for Unref<'a> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let syn::Expr::Unary(u) = e { if let (syn::UnOp::Deref(_), syn::Expr::Path(p)) = (u.op, &*u.expr) { if p.path.is_ident(self.0) { let x = (*u.expr).clone(); *e = x; } } }
    }
}

const SKIP: &[&str] = &["main.rs", "sysroot.rs"];

pub fn load(dir: &str, d: &Decls, declared: &HashSet<String>) -> Result<(Vec<(String, syn::File)>, Info), String> {
    let mut info = Info::default();
    let mut names: Vec<_> = std::fs::read_dir(dir).map_err(|e| format!("{}: {}", dir, e))?.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().to_string()).filter(|n| n.ends_with(".rs") && !SKIP.contains(&n.as_str())).collect();
    names.sort();
    let mut files = vec![];
    for n in names {
        let t = std::fs::read_to_string(format!("{}/{}", dir, n)).map_err(|e| e.to_string())?;
        files.push((format!("mini/{}", n), syn::parse_file(&t).map_err(|e| format!("{}: {}", n, e))?));
    }
    let mut free: HashSet<String> = HashSet::new();
    let (mut fields, mut meths): ([HashSet<String>; 2], [HashSet<String>; 2]) = Default::default();
    let which = |n: &str| match n { "Ctxt" => Some(0), "FnCtxt" => Some(1), _ => None };
    let head = |t: &syn::Type| if let syn::Type::Path(p) = t { last(&p.path) } else { String::new() };
    for (_, f) in &files {
        for it in &f.items {
            match it {
                syn::Item::Fn(f) => { free.insert(f.sig.ident.to_string()); }
                syn::Item::Struct(s) => if let Some(k) = which(&s.ident.to_string()) { for x in &s.fields { if let Some(i) = &x.ident { fields[k].insert(i.to_string()); } } },
                syn::Item::Impl(i) => if let Some(k) = which(&head(&i.self_ty)) { for x in &i.items { if let syn::ImplItem::Fn(f) = x { meths[k].insert(f.sig.ident.to_string()); } } },
                _ => {}
            }
        }
    }
    // `Deref` only reaches what `FnCtxt` does not have itself
    let df: HashSet<String> = fields[0].difference(&fields[1]).cloned().collect();
    let dm: HashSet<String> = meths[0].difference(&meths[1]).cloned().collect();
    let mut out = vec![];
    for (n, f) in files {
        let mut items = vec![];
        for mut it in f.items {
            match &it {
                syn::Item::Fn(_) | syn::Item::Struct(_) | syn::Item::Enum(_) => {}
                syn::Item::Impl(i) if i.trait_.is_none() => {}
                _ => continue,
            }
            Slices { n: 0 }.visit_item_mut(&mut it);
            Paths { info: &mut info, declared, uses: Default::default() }.visit_item_mut(&mut it);
            match &mut it {
                syn::Item::Fn(f) => {
                    Rw::new(&d.free, &d.meths, Some(&free)).visit_block_mut(&mut f.block);
                    let sp = f.sig.ident.span();
                    f.sig.ident = syn::Ident::new(&format!("mini__{}", f.sig.ident), sp);
                }
                syn::Item::Impl(i) => {
                    let fc = head(&i.self_ty) == "FnCtxt";
                    for x in i.items.iter_mut() {
                        if let syn::ImplItem::Fn(f) = x {
                            Rw::new(&d.free, &d.meths, Some(&free)).visit_block_mut(&mut f.block);
                            if fc { Deref { fields: &df, meths: &dm }.visit_block_mut(&mut f.block); }
                        }
                    }
                }
                _ => {}
            }
            items.push(it);
        }
        out.push((n, syn::File { shebang: None, attrs: vec![], items }));
    }
    Ok((out, info))
}
