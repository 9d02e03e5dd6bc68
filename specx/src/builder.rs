//! Reading the program builder (tooling/miniutil/src/build): purely mechanical source-level rewrites that bring it into the
//! subset the rest of the translation understands.
//!   * `T: TypeConv` becomes an explicit first parameter `T__ty: Type` (dictionary passing); `T::get_type()` becomes `T__ty`,
//!     and `f::<X>(..)` becomes `f(<X>::get_type(), ..)`; `impl TypeConv for X` becomes the function `build__tyconv__X`.
//!   * `impl Into<Int>`, `T: Into<Int>` and `T: ToInt` become `Int`.
//!   * `F: Fn(..)` type parameters become `impl Fn(..)`.
//!   * free functions get the prefix `build__` (at their definition and in call position).
//!   * local macros of the form `macro_rules! m { (pattern) => { item } }` are expanded.
use std::collections::{HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};

fn last(p: &syn::Path) -> String { p.segments.last().unwrap().ident.to_string() }
fn id(s: &str) -> syn::Ident { syn::Ident::new(s, proc_macro2::Span::call_site()) }
fn idat(s: &str, sp: proc_macro2::Span) -> syn::Ident { syn::Ident::new(s, sp) }

#[derive(Default, Clone)]
pub struct Gens { dict: Vec<String>, ints: HashSet<String>, fns: HashMap<String, syn::Type> }

fn bounds_of(g: &syn::Generics) -> Vec<(String, Vec<syn::TraitBound>)> {
    let mut v: Vec<(String, Vec<syn::TraitBound>)> = vec![];
    let tb = |b: &syn::punctuated::Punctuated<syn::TypeParamBound, syn::Token![+]>| b.iter().filter_map(|x| if let syn::TypeParamBound::Trait(t) = x { Some(t.clone()) } else { None }).collect::<Vec<_>>();
    for p in &g.params { if let syn::GenericParam::Type(t) = p { v.push((t.ident.to_string(), tb(&t.bounds))); } }
    if let Some(w) = &g.where_clause {
        for p in &w.predicates {
            if let syn::WherePredicate::Type(t) = p {
                if let syn::Type::Path(tp) = &t.bounded_ty { let n = last(&tp.path); for e in v.iter_mut() { if e.0 == n { e.1.extend(tb(&t.bounds)); } } }
            }
        }
    }
    v
}
fn gens(g: &syn::Generics) -> Gens {
    let mut r = Gens::default();
    for (n, bs) in bounds_of(g) {
        for b in bs {
            match last(&b.path).as_str() {
                "TypeConv" => if !r.dict.contains(&n) { r.dict.push(n.clone()) },
                "Into" | "ToInt" => { r.ints.insert(n.clone()); }
                x if x.starts_with("Fn") => { let p = &b.path; r.fns.insert(n.clone(), syn::parse_quote!(impl #p)); }
                _ => {}
            }
        }
    }
    r
}

pub struct Rw<'a> {
    /// free functions of the builder and their dictionaries
    pub free: &'a HashMap<String, usize>,
    /// free functions of the MIR translation (they get another prefix, and shadow those of the builder)
    pub mini: Option<&'a HashSet<String>>,
    /// methods with dictionaries
    pub meths: &'a HashMap<String, usize>,
    g: Gens,
    errs: Vec<String>,
    /// integer types of local variables, where they can be read off their initialiser
    lets: HashMap<String, String>,
}
impl<'a> Rw<'a> {
    pub fn new(free: &'a HashMap<String, usize>, meths: &'a HashMap<String, usize>, mini: Option<&'a HashSet<String>>) -> Self { Rw { free, mini, meths, g: Gens::default(), errs: vec![], lets: HashMap::new() } }
}
const CONV: &[&str] = &["get_type", "get_layout", "get_size", "get_align"];
impl<'a> Rw<'a> {
    fn tyconv(&self, t: &syn::Type) -> Option<syn::Expr> {
        Some(match t {
            syn::Type::Paren(p) => return self.tyconv(&p.elem),
            syn::Type::Path(p) if p.path.segments.len() == 1 => {
                let n = last(&p.path);
                if n == "Self" || self.g.dict.contains(&n) { let i = id(&format!("{}__ty", n)); return Some(syn::parse_quote!(#i)); }
                let f = id(&format!("build__tyconv__{}", n)); syn::parse_quote!(#f())
            }
            syn::Type::Tuple(t) if t.elems.is_empty() => syn::parse_quote!(build__tyconv__unit()),
            syn::Type::Ptr(p) => { let a = self.tyconv(&p.elem)?; let f = id(if p.mutability.is_some() { "build__tyconv__ptr_mut" } else { "build__tyconv__ptr_const" }); syn::parse_quote!(#f(#a)) }
            syn::Type::Slice(s) => { let a = self.tyconv(&s.elem)?; syn::parse_quote!(build__tyconv__slice(#a)) }
            syn::Type::Array(s) => { let a = self.tyconv(&s.elem)?; let n = &s.len; syn::parse_quote!(build__tyconv__array(#a, #n)) }
            _ => return None,
        })
    }
    /// the machine integer type of an expression, where the text alone tells it
    fn int_ty(&self, e: &syn::Expr) -> Option<String> {
        match e {
            syn::Expr::Paren(p) => self.int_ty(&p.expr),
            syn::Expr::Cast(c) => match &*c.ty { syn::Type::Path(p) => p.path.get_ident().map(|i| i.to_string()), _ => None },
            syn::Expr::Binary(b) => self.int_ty(&b.left).or_else(|| self.int_ty(&b.right)),
            syn::Expr::Path(p) => self.lets.get(&p.path.get_ident()?.to_string()).cloned(),
            syn::Expr::MethodCall(m) => match m.method.to_string().as_str() { "unwrap" => self.int_ty(&m.receiver), "to_target_usize" => Some("u64".into()), _ => None },
            _ => None,
        }
    }
    fn dict_args(&mut self, n: usize, turbo: Option<&syn::AngleBracketedGenericArguments>, args: &syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>) -> Vec<syn::Expr> {
        let tys: Vec<syn::Type> = match turbo {
            Some(t) => t.args.iter().filter_map(|a| if let syn::GenericArgument::Type(t) = a { Some(t.clone()) } else { None }).collect(),
            // `f(1u8)`: the type of a suffixed literal
            None if self.mini.is_some() => args.iter().take(1).map(|a| match a { syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) if !i.suffix().is_empty() => { let s = id(i.suffix()); syn::parse_quote!(#s) } x if self.int_ty(x).is_some() => { let s = id(&self.int_ty(x).unwrap()); syn::parse_quote!(#s) } syn::Expr::Lit(_) => syn::parse_quote!(i32), _ => syn::parse_quote!((UnknownDictionary, UnknownDictionary)) }).collect(),
            None => args.iter().take(1).filter_map(|a| if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) = a { if i.suffix().is_empty() { None } else { let s = id(i.suffix()); Some(syn::parse_quote!(#s)) } } else { None }).collect(),
        };
        tys.iter().take(n).filter_map(|t| match self.tyconv(t) { None if self.mini.is_some() => Some(syn::parse_quote!(unknown_dictionary__())), x => x }).collect()
    }
}
impl<'a> VisitMut for Rw<'a> {
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        let t = match (&l.pat, &l.init) {
            (syn::Pat::Ident(i), Some(init)) => Some((i.ident.to_string(), self.int_ty(&init.expr))),
            (syn::Pat::Type(t), _) => match (&*t.pat, &*t.ty) { (syn::Pat::Ident(i), syn::Type::Path(p)) => Some((i.ident.to_string(), p.path.get_ident().map(|i| i.to_string()).filter(|x| x != "Int"))), _ => None },
            _ => None,
        };
        if let Some((n, t)) = t { match t { Some(t) => { self.lets.insert(n, t); } None => { self.lets.remove(&n); } } }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::ImplTrait(i) = t {
            if i.bounds.iter().any(|b| matches!(b, syn::TypeParamBound::Trait(tb) if matches!(last(&tb.path).as_str(), "Into" | "ToInt"))) { *t = syn::parse_quote!(Int); return; }
        }
        if let syn::Type::TraitObject(o) = t {
            let b = &o.bounds; *t = syn::parse_quote!(impl #b);
        }
        if let syn::Type::Path(p) = t {
            if let Some(i) = p.path.get_ident() {
                let n = i.to_string();
                if self.g.ints.contains(&n) { *t = syn::parse_quote!(Int); return; }
                if let Some(f) = self.g.fns.get(&n) { *t = f.clone(); }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            syn::Expr::Cast(c) if matches!(&*c.ty, syn::Type::Infer(_)) => { let i = (*c.expr).clone(); *e = i; }
            syn::Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "DefaultTarget" => { p.path.segments[0].ident = id("T"); }
            syn::Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 2 && (p.path.segments[1].ident == "FREEZE" || p.path.segments[1].ident == "UNPIN") => {
                let i = id(&format!("{}__{}", p.path.segments[0].ident, p.path.segments[1].ident)); *e = syn::parse_quote!(#i);
            }
            syn::Expr::Array(a) => { let el = &a.elems; *e = syn::parse_quote!(list![#el]); }
            syn::Expr::Call(c) => {
                let syn::Expr::Path(p) = &mut *c.func else { return };
                let n = last(&p.path);
                // `<X>::get_type()` and friends
                if c.args.is_empty() && CONV.contains(&n.as_str()) {
                    let ty: Option<syn::Type> = match &p.qself { Some(q) => Some((*q.ty).clone()), None if p.path.segments.len() == 2 => { let s = &p.path.segments[0].ident; Some(syn::parse_quote!(#s)) } _ => None };
                    if let Some(t) = ty {
                        let Some(x) = self.tyconv(&t) else { self.errs.push(format!("TypeConv of {}", quote::quote!(#t))); return };
                        *e = if n == "get_type" { x } else { let f = id(&format!("build__TypeConv__{}", n)); syn::parse_quote!(#f(#x)) };
                        return;
                    }
                }
                // `build::f(..)` in the MIR translation
                if self.mini.is_some() && p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "build" && self.free.contains_key(&n) {
                    let s = p.path.segments[1].clone();
                    p.path = syn::Path { leading_colon: None, segments: [s].into_iter().collect() };
                } else if let (Some(m), 1, true) = (self.mini, p.path.segments.len(), p.qself.is_none()) {
                    if m.contains(&n) { let sp = p.path.segments[0].ident.span(); p.path = syn::Path::from(idat(&format!("mini__{}", n), sp)); return; }
                }
                if p.qself.is_none() && p.path.segments.len() == 1 {
                    if let Some(k) = self.free.get(&n).cloned() {
                        let sp = p.path.segments[0].ident.span();
                        let turbo = if let syn::PathArguments::AngleBracketed(a) = &p.path.segments[0].arguments { Some(a.clone()) } else { None };
                        let d = self.dict_args(k, turbo.as_ref(), &c.args);
                        for (i, x) in d.into_iter().enumerate() { c.args.insert(i, x); }
                        p.path = syn::Path::from(idat(&format!("build__{}", n), sp));
                    }
                }
            }
            syn::Expr::MethodCall(m) => {
                if let Some(k) = self.meths.get(&m.method.to_string()).cloned() {
                    if k > 0 {
                        let d = self.dict_args(k, m.turbofish.clone().as_ref(), &m.args);
                        for (i, x) in d.into_iter().enumerate() { m.args.insert(i, x); }
                        m.turbofish = None;
                    }
                }
            }
            _ => {}
        }
    }
    // arguments of list!, matches!, assert! are expressions
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        let n = last(&m.path);
        if matches!(n.as_str(), "list" | "assert" | "assert_eq") {
            if let Ok(mut es) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                for e in es.iter_mut() { self.visit_expr_mut(e); }
                m.tokens = quote::quote!(#es);
            }
        }
    }
}

fn fix_sig(s: &mut syn::Signature, g: &Gens) {
    let mut ps: syn::punctuated::Punctuated<syn::GenericParam, syn::Token![,]> = Default::default();
    for p in s.generics.params.iter() {
        if let syn::GenericParam::Type(t) = p { let n = t.ident.to_string(); if g.dict.contains(&n) || g.ints.contains(&n) || g.fns.contains_key(&n) { continue; } }
        ps.push(p.clone());
    }
    s.generics.params = ps;
    s.generics.where_clause = None;
    let at = if s.receiver().is_some() { 1 } else { 0 };
    for (k, d) in g.dict.iter().enumerate() { let i = id(&format!("{}__ty", d)); s.inputs.insert(at + k, syn::parse_quote!(#i: Type)); }
}

fn expand_macros(f: &mut syn::File) {
    // macro_rules! m { ($a:ty, $b:expr) => { item } }
    let mut rules: HashMap<String, (Vec<String>, proc_macro2::TokenStream)> = HashMap::new();
    for it in &f.items {
        let syn::Item::Macro(m) = it else { continue };
        let Some(name) = &m.ident else { continue };
        let tt: Vec<proc_macro2::TokenTree> = m.mac.tokens.clone().into_iter().collect();
        if tt.len() < 4 { continue; }
        let (proc_macro2::TokenTree::Group(pat), proc_macro2::TokenTree::Group(body)) = (&tt[0], &tt[3]) else { continue };
        let mut vars = vec![];
        let pt: Vec<proc_macro2::TokenTree> = pat.stream().into_iter().collect();
        for w in pt.windows(2) { if let (proc_macro2::TokenTree::Punct(p), proc_macro2::TokenTree::Ident(i)) = (&w[0], &w[1]) { if p.as_char() == '$' { vars.push(i.to_string()); } } }
        rules.insert(name.to_string(), (vars, body.stream()));
    }
    fn subst(ts: proc_macro2::TokenStream, m: &HashMap<String, proc_macro2::TokenStream>) -> proc_macro2::TokenStream {
        let mut out = proc_macro2::TokenStream::new();
        let mut it = ts.into_iter().peekable();
        while let Some(t) = it.next() {
            match t {
                proc_macro2::TokenTree::Punct(p) if p.as_char() == '$' => {
                    if let Some(proc_macro2::TokenTree::Ident(i)) = it.next() { if let Some(x) = m.get(&i.to_string()) { out.extend(x.clone()); } }
                }
                proc_macro2::TokenTree::Group(g) => { let mut n = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), m)); n.set_span(g.span()); out.extend([proc_macro2::TokenTree::Group(n)]); }
                t => out.extend([t]),
            }
        }
        out
    }
    let mut items = vec![];
    for it in std::mem::take(&mut f.items) {
        if let syn::Item::Macro(m) = &it {
            if let (None, Some((vars, body))) = (&m.ident, rules.get(&last(&m.mac.path))) {
                if let Ok(args) = m.mac.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                    let map: HashMap<String, proc_macro2::TokenStream> = vars.iter().cloned().zip(args.iter().map(|a| quote::quote!(#a))).collect();
                    if let Ok(fl) = syn::parse2::<syn::File>(subst(body.clone(), &map)) { items.extend(fl.items); continue; }
                }
            }
        }
        items.push(it);
    }
    f.items = items;
}

/// The parameters and function name an `impl TypeConv for X` becomes.
fn conv_name(t: &syn::Type) -> Option<&'static str> {
    Some(match t {
        syn::Type::Tuple(t) if t.elems.is_empty() => "unit",
        syn::Type::Ptr(p) => if p.mutability.is_some() { "ptr_mut" } else { "ptr_const" },
        syn::Type::Reference(p) => if p.mutability.is_some() { "ref_mut" } else { "ref" },
        syn::Type::Slice(_) => "slice",
        syn::Type::Array(_) => "array",
        _ => return None,
    })
}

/// The free functions and the methods of the builder, with the number of type dictionaries they take.
#[derive(Default)]
pub struct Decls { pub free: HashMap<String, usize>, pub meths: HashMap<String, usize> }

pub fn load(dir: &str) -> Result<(Vec<(String, syn::File)>, Decls), String> {
    let mut files = vec![];
    let mut names: Vec<_> = std::fs::read_dir(dir).map_err(|e| format!("{}: {}", dir, e))?.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().to_string()).filter(|n| n.ends_with(".rs")).collect();
    names.sort();
    for n in names {
        let t = std::fs::read_to_string(format!("{}/{}", dir, n)).map_err(|e| e.to_string())?;
        let mut f = syn::parse_file(&t).map_err(|e| format!("{}: {}", n, e))?;
        expand_macros(&mut f);
        files.push((format!("build/{}", n), f));
    }
    // what is declared
    let mut free: HashMap<String, usize> = HashMap::new();
    let mut meths: HashMap<String, usize> = HashMap::new();
    for (_, f) in &files {
        for it in &f.items {
            match it {
                syn::Item::Fn(f) => { free.insert(f.sig.ident.to_string(), gens(&f.sig.generics).dict.len()); }
                syn::Item::Impl(i) if i.trait_.is_none() => for x in &i.items { if let syn::ImplItem::Fn(f) = x { meths.insert(f.sig.ident.to_string(), gens(&f.sig.generics).dict.len()); } },
                _ => {}
            }
        }
    }
    let mut out = vec![];
    for (n, f) in files {
        let mut items = vec![];
        for it in f.items {
            match it {
                syn::Item::Fn(mut f) => {
                    let g = gens(&f.sig.generics);
                    let mut rw = Rw { free: &free, mini: None, meths: &meths, g: g.clone(), errs: vec![], lets: HashMap::new() };
                    rw.visit_signature_mut(&mut f.sig);
                    rw.visit_block_mut(&mut f.block);
                    fix_sig(&mut f.sig, &g);
                    let sp = f.sig.ident.span();
                    f.sig.ident = idat(&format!("build__{}", f.sig.ident), sp);
                    items.push(syn::Item::Fn(f));
                }
                syn::Item::Impl(mut i) if i.trait_.is_none() => {
                    for x in i.items.iter_mut() {
                        if let syn::ImplItem::Fn(f) = x {
                            let g = gens(&f.sig.generics);
                            let mut rw = Rw { free: &free, mini: None, meths: &meths, g: g.clone(), errs: vec![], lets: HashMap::new() };
                            rw.visit_signature_mut(&mut f.sig);
                            rw.visit_block_mut(&mut f.block);
                            fix_sig(&mut f.sig, &g);
                        }
                    }
                    items.push(syn::Item::Impl(i));
                }
                syn::Item::Impl(i) if i.trait_.as_ref().map(|t| last(&t.1) == "TypeConv").unwrap_or(false) => {
                    let g = gens(&i.generics);
                    let name = match (&*i.self_ty, conv_name(&i.self_ty)) { (_, Some(n)) => n.to_string(), (syn::Type::Path(p), _) => last(&p.path), _ => continue };
                    for x in &i.items {
                        let syn::ImplItem::Fn(f) = x else { continue };
                        if f.sig.ident != "get_type" { continue; }
                        let mut rw = Rw { free: &free, mini: None, meths: &meths, g: g.clone(), errs: vec![], lets: HashMap::new() };
                        let mut b = f.block.clone();
                        rw.visit_block_mut(&mut b);
                        let fname = idat(&format!("build__tyconv__{}", name), f.sig.ident.span());
                        let mut ps: Vec<syn::FnArg> = vec![];
                        for d in &g.dict { let a = id(&format!("{}__ty", d)); ps.push(syn::parse_quote!(#a: Type)); }
                        let src = quote::quote!(#b).to_string();
                        for c in ["FREEZE", "UNPIN"] { for d in &g.dict { if src.contains(&format!("{}__{}", d, c)) { let a = id(&format!("{}__{}", d, c)); ps.push(syn::parse_quote!(#a: bool)); } } }
                        for p in &i.generics.params { if let syn::GenericParam::Const(c) = p { let a = &c.ident; ps.push(syn::parse_quote!(#a: Int)); } }
                        items.push(syn::parse_quote!(pub fn #fname(#(#ps),*) -> Type #b));
                    }
                }
                syn::Item::Trait(t) if t.ident == "TypeConv" => {
                    for x in &t.items {
                        let syn::TraitItem::Fn(f) = x else { continue };
                        let Some(b) = &f.default else { continue };
                        let mut b = b.clone();
                        let mut rw = Rw { free: &free, mini: None, meths: &meths, g: Gens::default(), errs: vec![], lets: HashMap::new() };
                        rw.visit_block_mut(&mut b);
                        let fname = idat(&format!("build__TypeConv__{}", f.sig.ident), f.sig.ident.span());
                        let r = &f.sig.output;
                        items.push(syn::parse_quote!(pub fn #fname(Self__ty: Type) #r #b));
                    }
                }
                syn::Item::Struct(_) | syn::Item::Enum(_) => items.push(it),
                _ => {}
            }
        }
        out.push((n, syn::File { shebang: None, attrs: vec![], items }));
    }
    Ok((out, Decls { free, meths }))
}
