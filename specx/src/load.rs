//! Reading the transpiled crate into a `Model`.
use crate::model::*;
use crate::ty::*;
use std::collections::HashMap;

fn fields(m: &Model, f: &syn::Fields, c: &TyCtx) -> Result<Fields, String> {
    Ok(match f {
        syn::Fields::Unit => Fields::Unit,
        syn::Fields::Unnamed(u) => Fields::Tuple(u.unnamed.iter().map(|x| m.ty(&x.ty, c)).collect::<Result<_, _>>()?),
        syn::Fields::Named(n) => Fields::Named(n.named.iter().map(|x| Ok((x.ident.as_ref().unwrap().to_string(), m.ty(&x.ty, c)?))).collect::<Result<_, String>>()?),
    })
}

pub fn sig(m: &Model, s: &syn::Signature, c: &TyCtx, impl_generics: &[String], path: String) -> Result<(FnSig, TyCtx), String> {
    let mut c = c.clone();
    let (mut generics, _) = m.generics(&s.generics, &mut c);
    let mut params = vec![];
    let mut has_self = false;
    for (i, a) in s.inputs.iter().enumerate() {
        match a {
            syn::FnArg::Receiver(r) => {
                has_self = true;
                let is_mut = r.reference.is_some() && r.mutability.is_some();
                params.push(Param { name: "self".into(), ty: c.self_ty.clone().ok_or("self outside impl")?, is_mut });
            }
            syn::FnArg::Typed(t) => {
                let is_mut = matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_some());
                let name = match &*t.pat { syn::Pat::Ident(p) => p.ident.to_string(), _ => format!("arg{}", i) };
                let ty = m.ty(&t.ty, &c)?;
                let mut inner = &*t.ty;
                while let syn::Type::Reference(r) = inner { inner = &r.elem; }
                let fnmut = matches!(inner, syn::Type::ImplTrait(it) if it.bounds.iter().any(|b| matches!(b, syn::TypeParamBound::Trait(tb) if last(&tb.path) == "FnMut")));
                if let (true, Ty::Fn(mut ps, r)) = (fnmut, ty.clone()) {
                    // explicit state of the closure
                    let g = format!("S{}", i);
                    generics.push(g.clone());
                    ps.insert(0, (Ty::n(&g), true));
                    params.push(Param { name: format!("{}__st", name), ty: Ty::n(&g), is_mut: true });
                    params.push(Param { name: name.clone(), ty: Ty::Fn(ps, r), is_mut: false });
                } else {
                    params.push(Param { name, ty, is_mut });
                }
            }
        }
    }
    let mut is_nd = false;
    let ret = match &s.output {
        syn::ReturnType::Default => Ty::unit(),
        syn::ReturnType::Type(_, t) => {
            if let syn::Type::Path(p) = &**t { is_nd = last(&p.path) == "NdResult"; }
            m.ty(t, &c)?
        }
    };
    Ok((FnSig { path, generics, impl_generics: impl_generics.to_vec(), params, ret, partial: true, has_self, builtin: false, self_ty: c.self_ty.clone(), is_nd }, c))
}

#[allow(dead_code)]
fn strip(name: &str) -> String { name.to_string() }

impl Model {
    pub fn load_builtins(&mut self, src: &str) -> Result<(), String> {
        let file = syn::parse_file(src).map_err(|e| format!("builtins: {}", e))?;
        for it in file.items {
            let syn::Item::Trait(t) = it else { return Err("builtins: not a trait".into()) };
            let head = t.ident.to_string();
            let gens: Vec<String> = t.generics.params.iter().filter_map(|p| if let syn::GenericParam::Type(t) = p { Some(t.ident.to_string()) } else { None }).collect();
            let self_ty = Ty::Named(head.clone(), gens.iter().map(|g| Ty::n(g)).collect());
            let c = TyCtx { self_ty: Some(self_ty), ..Default::default() };
            for i in &t.items {
                let syn::TraitItem::Fn(f) = i else { continue };
                let name = f.sig.ident.to_string();
                let path = name.replace("__", "::");
                let (mut s, _) = sig(self, &f.sig, &c, &gens, path)?;
                fix_int(&mut s);
                s.builtin = true;
                s.partial = f.attrs.iter().any(|a| a.path().is_ident("p"));
                if head == "statics" { self.statics.insert(s.path.clone(), s); }
                else { self.methods.insert((head.clone(), name), s); }
            }
        }
        Ok(())
    }

    /// Declarations of the compiler's interface: like the library operations, but uninterpreted.
    pub fn load_external(&mut self, f: &syn::File) -> Result<(), String> {
        for it in &f.items { if let syn::Item::Type(t) = it { self.aliases.insert(t.ident.to_string(), (vec![], (*t.ty).clone())); } }
        for it in &f.items {
            let syn::Item::Trait(t) = it else { continue };
            let head = t.ident.to_string();
            let gens: Vec<String> = t.generics.params.iter().filter_map(|p| if let syn::GenericParam::Type(t) = p { Some(t.ident.to_string()) } else { None }).collect();
            let self_ty = Ty::Named(head.clone(), gens.iter().map(|g| Ty::n(g)).collect());
            let c = TyCtx { self_ty: Some(self_ty), ..Default::default() };
            for i in &t.items {
                let syn::TraitItem::Fn(f) = i else { continue };
                let name = f.sig.ident.to_string();
                let (mut s, _) = sig(self, &f.sig, &c, &gens, format!("{}::{}", head, name))?;
                s.builtin = true;
                s.partial = false;
                self.externals.push((head.clone(), name.clone(), s.clone()));
                if head == "statics" { s.path = name.clone(); }
                if s.has_self { self.methods.insert((head.clone(), name), s); } else { self.statics.insert(s.path.clone(), s); }
            }
        }
        Ok(())
    }

    pub fn load(&mut self, files: &[(String, syn::File)]) -> Result<(), String> {
        // aliases and type names first
        for (_, f) in files {
            for it in &f.items {
                match it {
                    syn::Item::Type(t) => {
                        let n = t.ident.to_string();
                        if n == "Result" || n == "NdResult" { continue; }
                        let fs = t.generics.params.iter().filter_map(|p| if let syn::GenericParam::Type(t) = p { Some((t.ident.to_string(), t.default.clone())) } else { None }).collect();
                        self.aliases.insert(n, (fs, (*t.ty).clone()));
                    }
                    syn::Item::Struct(s) => {
                        let mut c = TyCtx::default();
                        let (g, formals) = self.generics(&s.generics, &mut c);
                        let n = s.ident.to_string();
                        if self.types.insert(n.clone(), TypeDef { name: n.clone(), generics: g, formals, kind: DefKind::Struct(Fields::Unit) }).is_some() { return Err(format!("duplicate type {}", n)); }
                    }
                    syn::Item::Enum(s) => {
                        let mut c = TyCtx::default();
                        let (g, formals) = self.generics(&s.generics, &mut c);
                        let n = s.ident.to_string();
                        if self.types.insert(n.clone(), TypeDef { name: n.clone(), generics: g, formals, kind: DefKind::Enum(vec![]) }).is_some() { return Err(format!("duplicate type {}", n)); }
                    }
                    _ => {}
                }
            }
        }
        // bodies of types
        for (_, f) in files {
            for it in &f.items {
                match it {
                    syn::Item::Struct(s) => {
                        let mut c = TyCtx::default();
                        self.generics(&s.generics, &mut c);
                        let k = DefKind::Struct(fields(self, &s.fields, &c).map_err(|e| format!("struct {}: {}", s.ident, e))?);
                        self.types.get_mut(&s.ident.to_string()).unwrap().kind = k;
                    }
                    syn::Item::Enum(s) => {
                        let mut c = TyCtx::default();
                        self.generics(&s.generics, &mut c);
                        let mut v = vec![];
                        for x in &s.variants { v.push((x.ident.to_string(), fields(self, &x.fields, &c).map_err(|e| format!("enum {}: {}", s.ident, e))?)); }
                        self.types.get_mut(&s.ident.to_string()).unwrap().kind = DefKind::Enum(v);
                    }
                    _ => {}
                }
            }
        }
        // which default methods of `trait Memory` are overridden
        let mut overridden: HashMap<String, usize> = HashMap::new();
        for (_, f) in files {
            for it in &f.items {
                if let syn::Item::Impl(i) = it {
                    if let Some((_, p, _)) = &i.trait_ {
                        if last(p) == "Memory" { for x in &i.items { if let syn::ImplItem::Fn(f) = x { *overridden.entry(f.sig.ident.to_string()).or_default() += 1; } } }
                    }
                }
            }
        }
        for (file, f) in files {
            for it in &f.items {
                match it {
                    syn::Item::Fn(f) => {
                        let r = sig(self, &f.sig, &TyCtx { builder: file.starts_with("build/") || file.starts_with("mini/"), mini: file.starts_with("mini/"), ..Default::default() }, &[], f.sig.ident.to_string()).map_err(|e| format!("fn {}: {}", f.sig.ident, e));
                        let (s, c) = match r { Ok(x) => x, Err(e) if file.starts_with("mini/") => { self.notes.push(e); continue } Err(e) => return Err(e) };
                        self.statics.insert(s.path.clone(), s.clone());
                        self.fns.push(FnDecl { sig: s, ctx: c, body: Some((*f.block).clone()), inputs: f.sig.inputs.iter().cloned().collect(), file: file.clone(), line: f.sig.ident.span().start().line, name: f.sig.ident.to_string() });
                    }
                    syn::Item::Trait(t) => self.load_trait(file, t, &overridden)?,
                    syn::Item::Impl(i) => self.load_impl(file, i)?,
                    _ => {}
                }
            }
        }
        Ok(())
    }
    fn load_trait(&mut self, file: &str, t: &syn::ItemTrait, overridden: &HashMap<String, usize>) -> Result<(), String> {
        let name = t.ident.to_string();
        match name.as_str() {
            "Target" => {
                let c = TyCtx { self_ty: Some(Ty::n("T")), ..Default::default() };
                for i in &t.items {
                    match i {
                        syn::TraitItem::Const(k) => {
                            let ty = self.ty(&k.ty, &c)?;
                            self.consts.insert(format!("T::{}", k.ident), ty.clone());
                            let s = FnSig { path: format!("T::{}", k.ident), generics: vec![], impl_generics: vec![], params: vec![], ret: ty, partial: false, has_self: false, builtin: false, self_ty: c.self_ty.clone(), is_nd: false };
                            self.uninterp.push(("T".into(), k.ident.to_string(), s));
                        }
                        syn::TraitItem::Fn(f) => {
                            let (s, _) = sig(self, &f.sig, &c, &[], format!("T::{}", f.sig.ident))?;
                            self.statics.insert(s.path.clone(), s.clone());
                            self.uninterp.push(("T".into(), f.sig.ident.to_string(), s));
                        }
                        _ => {}
                    }
                }
            }
            "Memory" => {
                let mut c = TyCtx { self_ty: Some(Ty::n("MemM")), ..Default::default() };
                c.assoc.insert("Provenance".into(), Ty::n("Prov"));
                c.assoc.insert("FrameExtra".into(), Ty::n("MemFrameExtra"));
                c.assoc.insert("T".into(), Ty::n("T"));
                for i in &t.items {
                    let syn::TraitItem::Fn(f) = i else { continue };
                    let n = f.sig.ident.to_string();
                    let (s, c2) = sig(self, &f.sig, &c, &[], format!("MemM::{}", n)).map_err(|e| format!("Memory::{}: {}", n, e))?;
                    if s.has_self { self.methods.insert(("MemM".into(), n.clone()), s.clone()); } else { self.statics.insert(s.path.clone(), s.clone()); }
                    match (&f.default, overridden.get(&n)) {
                        (Some(b), None) => self.fns.push(FnDecl { sig: s, ctx: c2, body: Some(b.clone()), inputs: f.sig.inputs.iter().cloned().collect(), file: file.into(), line: f.sig.ident.span().start().line, name: n }),
                        _ => self.uninterp.push(("MemM".into(), n, s)),
                    }
                }
            }
            _ => self.notes.push(format!("trait {} is not translated", name)),
        }
        Ok(())
    }
    fn load_impl(&mut self, file: &str, i: &syn::ItemImpl) -> Result<(), String> {
        let mut c = TyCtx::default();
        let (gens, _) = self.generics(&i.generics, &mut c);
        let tr = i.trait_.as_ref().map(|(_, p, _)| last(p));
        if let Some(t) = &tr {
            if t != "Memory" && t != "Target" { self.notes.push(format!("impl of trait {} is not translated", t)); return Ok(()); }
        }
        let self_ty = self.ty(&i.self_ty, &c)?;
        let head = self_ty.head().ok_or("impl on a non-nominal type")?.to_string();
        c.self_ty = Some(self_ty.clone());
        c.builder = file.starts_with("build/") || file.starts_with("mini/");
        c.mini = file.starts_with("mini/");
        if tr.as_deref() == Some("Target") { c.self_target = Some(head.clone()); }
        for x in &i.items {
            if let syn::ImplItem::Type(t) = x { let ty = self.ty(&t.ty, &c)?; c.assoc.insert(t.ident.to_string(), ty); }
        }
        for x in &i.items {
            match x {
                syn::ImplItem::Fn(f) => {
                    let n0 = f.sig.ident.to_string();
                    let n = if tr.as_deref() == Some("Memory") { format!("Memory__{}", n0) } else { strip(&n0) };
                    let r = sig(self, &f.sig, &c, &gens, format!("{}::{}", head, n)).map_err(|e| format!("{}::{}: {}", head, n, e));
                    let (s, c2) = match r { Ok(x) => x, Err(e) if file.starts_with("mini/") => { self.notes.push(e); continue } Err(e) => return Err(e) };
                    if s.has_self { self.methods.insert((head.clone(), n.clone()), s.clone()); }
                    if let (syn::ReturnType::Type(_, t), [syn::Stmt::Expr(e, None)]) = (&f.sig.output, &f.block.stmts[..]) {
                        if matches!(&**t, syn::Type::Reference(r) if r.mutability.is_some()) && f.sig.inputs.len() == 1 { self.projections.insert((head.clone(), n.clone()), e.clone()); }
                    }
                    self.statics.insert(s.path.clone(), s.clone());
                    self.fns.push(FnDecl { sig: s, ctx: c2, body: Some(f.block.clone()), inputs: f.sig.inputs.iter().cloned().collect(), file: file.into(), line: f.sig.ident.span().start().line, name: n });
                }
                syn::ImplItem::Const(k) => {
                    let ty = self.ty(&k.ty, &c)?;
                    self.consts.insert(format!("{}::{}", head, k.ident), ty.clone());
                    self.const_decls.push((head.clone(), k.ident.to_string(), k.expr.clone(), ty, c.clone()));
                }
                _ => {}
            }
        }
        Ok(())
    }
}
/// `int` and `bool` are lower-case names in the builtin file; nothing to fix beyond `Result`'s error type.
fn fix_int(_s: &mut FnSig) {}
