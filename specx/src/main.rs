//! specx: translate the transpiled MiniRust specification (Rust source) into Verus specification functions.
//! usage: specx <src dir> <builtins.txt> <structural.txt> <out.rs> <report.json>
mod builder;
mod ir;
mod load;
mod lower;
mod minimize;
mod model;
mod print;
mod ty;
use ir::*;
use lower::*;
use model::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use ty::*;

// ------------------------------------------------------------ resolving inferred types in the IR
fn rx(e: &mut Ex, f: &Infer) {
    e.ty = f.deep(&e.ty);
    match &mut e.k {
        K::Field(b, _) | K::Un(_, b) => rx(b, f),
        K::Call { recv, args, targs, .. } => { for t in targs.iter_mut() { *t = f.deep(t) } if let Some(r) = recv { rx(r, f) } for a in args { rx(a, f) } }
        K::Tuple(v) => for a in v { rx(a, f) },
        K::Struct { fields, base, .. } => { for (_, a) in fields { rx(a, f) } if let Some(b) = base { rx(b, f) } }
        K::Bin(_, a, b) | K::And(a, b) | K::Or(a, b) => { rx(a, f); rx(b, f) }
        K::If(c, a, b) => { rx(c, f); rb(a, f); rb(b, f) }
        K::Match(s, arms) => { rx(s, f); for a in arms { ra(a, f) } }
        K::Block(b) => rb(b, f),
        K::Closure { params, body, scope } => { for p in params { p.1 = f.deep(&p.1) } rb(body, f); rs(scope, f) }
        K::Raw(_) | K::IntLit(_) | K::Panic => {}
    }
    // library calls whose meaning depends on the inferred type
    if let K::Call { f: name, args, .. } = &mut e.k {
        if name == "collect__" {
            match e.ty.head() { Some("Map") => *name = "Map__from_list".into(), Some("Set") => *name = "Set__from_list".into(), _ => { let a = args.pop().unwrap(); *e = a; } }
        } else if name == "default__" {
            match e.ty.head() { Some(h @ ("List" | "Map" | "Set")) => *name = format!("{}__new", h), Some("Option") => { let t = e.ty.clone(); *e = Ex::raw("None", t); } _ => {} }
        }
    }
}
fn rs(s: &mut Scope, f: &Infer) { for t in s.var_tys.iter_mut() { *t = f.deep(t) } if let Some(t) = &mut s.ret { *t = f.deep(t) } }
fn ra(a: &mut Arm, f: &Infer) { if let Some(g) = &mut a.guard { rx(g, f) } rb(&mut a.body, f) }
fn rb(b: &mut Block, f: &Infer) {
    for i in b.items.iter_mut() {
        match i {
            Item::Let(_, e) | Item::Assert(e) => rx(e, f),
            Item::LetElse(_, e, b) => { rx(e, f); rb(b, f) }
            Item::Try { ex, .. } => rx(ex, f),
            Item::Join { code, .. } => rb(code, f),
            Item::LetScope { scope, code, .. } => { rs(scope, f); rb(code, f) }
            Item::Loop(l) => { for e in l.iter.iter_mut() { rx(e, f) } if let Some(e) = &mut l.start { rx(e, f) } }
        }
    }
    match &mut b.tail {
        Tail::Yield(e) | Tail::Ret(e) => rx(e, f),
        Tail::If(c, a, b) => { rx(c, f); rb(a, f); rb(b, f) }
        Tail::Match(s, arms) => { rx(s, f); for a in arms { ra(a, f) } }
        _ => {}
    }
}

struct Out {
    path: String,
    generics: Vec<String>,
    params: Vec<(String, Ty)>,
    ret: Ty,
    scope: Scope,
    body: Option<Block>,
    loops: Vec<LoopFn>,
    calls: BTreeSet<String>,
    file: String,
    line: usize,
    error: Option<String>,
    dropped: Vec<String>,
}

fn generics_of(s: &FnSig) -> Vec<String> { s.impl_generics.iter().chain(s.generics.iter()).cloned().collect() }

fn lower_fn(m: &Model, d: &FnDecl, rec: &HashSet<String>) -> Out {
    let mut out = Out { path: d.sig.path.clone(), generics: generics_of(&d.sig), params: vec![], ret: d.sig.packed_ret(), scope: Scope::default(), body: None, loops: vec![], calls: BTreeSet::new(), file: d.file.clone(), line: d.line, error: None, dropped: vec![] };
    let mut fx = Fx::new(m, &d.sig.path, out.generics.clone(), d.ctx.clone());
    fx.recursive_names = rec.clone();
    let mut pre = vec![];
    let mut state = vec![];
    let mut ins = d.inputs.iter();
    for p in d.sig.params.iter() {
        if p.name.ends_with("__st") {
            let l = fx.declare(&p.name, p.ty.clone(), LKind::Value);
            out.params.push((l.emit.clone(), p.ty.clone()));
            fx.mut_refs.insert(l.id);
            state.push(l);
            continue;
        }
        let a = ins.next().unwrap();
        let simple = match a { syn::FnArg::Receiver(_) => true, syn::FnArg::Typed(t) => matches!(&*t.pat, syn::Pat::Ident(_)) };
        if simple {
            let l = fx.declare(&p.name, p.ty.clone(), LKind::Value);
            out.params.push((l.emit.clone(), p.ty.clone()));
            if p.is_mut { fx.mut_refs.insert(l.id); state.push(l); }
        } else {
            let n = fx.temp("arg");
            out.params.push((n.clone(), p.ty.clone()));
            let syn::FnArg::Typed(t) = a else { unreachable!() };
            match fx.pat(&t.pat, &p.ty) {
                Ok(ps) => { if ps != "_" { pre.push(Item::Let(ps, Ex::raw(n, p.ty.clone()))) } }
                Err(e) => { out.error = Some(e); return out; }
            }
            if p.is_mut { out.error = Some("pattern for a &mut parameter".into()); return out; }
        }
    }
    out.scope = Scope { vars: state.iter().map(|l| l.emit.clone()).collect(), var_tys: state.iter().map(|l| l.ty.borrow().clone()).collect(), ret: Some(d.sig.ret.clone()), keep_unit: false };
    fx.scopes.push(ScopeCtx { ret: d.sig.ret.clone(), state: state.iter().map(|l| l.id).collect(), depth_loops: 0 });
    let Some(b) = &d.body else { out.error = Some("no body".into()); return out; };
    let ret = d.sig.ret.clone();
    match fx.block(b, Some(&ret)) {
        Ok(mut blk) => {
            pre.append(&mut blk.items);
            blk.items = pre;
            for t in std::mem::take(&mut fx.inf.lits) { if matches!(fx.inf.shallow(&t), Ty::Var(_)) { fx.inf.unify(&t, &Ty::int()); } }
            rb(&mut blk, &fx.inf);
            for l in fx.loops.iter_mut() {
                rb(&mut l.body, &fx.inf);
                l.elem_ty = fx.inf.deep(&l.elem_ty);
                for (_, t) in l.params.iter_mut().chain(l.state.iter_mut()) { *t = fx.inf.deep(t) }
                rs(&mut l.scope, &fx.inf);
            }
            out.dropped = { let mut v = std::mem::take(&mut fx.dropped); v.dedup(); v };
            out.body = Some(blk);
            out.loops = std::mem::take(&mut fx.loops);
            out.calls = fx.calls.clone();
        }
        Err(e) => { out.error = Some(e); out.calls = fx.calls.clone(); }
    }
    out
}

fn gen_s(g: &[String]) -> String { if g.is_empty() { String::new() } else { format!("<{}>", g.join(", ")) } }
fn params_s(ps: &[(String, Ty)]) -> Result<String, String> {
    Ok(ps.iter().map(|(n, t)| Ok(format!("{}: {}", n, show(t)?))).collect::<Result<Vec<_>, String>>()?.join(", "))
}
fn ok_params_s(ps: &[(String, Ty)]) -> Result<String, String> {
    let mut v = vec![];
    for (n, t) in ps {
        v.push(format!("{}: {}", n, show(t)?));
        if let Ty::Fn(p, _) = t { v.push(format!("{}_ok: spec_fn({}) -> bool", n, p.iter().map(|x| show(&x.0)).collect::<Result<Vec<_>, _>>()?.join(", "))); }
    }
    Ok(v.join(", "))
}
fn tuple_s(v: &[String]) -> String { match v.len() { 0 => "()".into(), 1 => v[0].clone(), _ => format!("({})", v.join(", ")) } }

#[derive(Clone, Copy, PartialEq)]
enum Mode { Plain, /** recursive; termination proved */ Structural, /** recursive; uninterpreted with a definitional axiom */ Assumed }

/// Emit one definition `name<g>(params) -> ret { body }` in the given mode.
fn emit_def(name: &str, g: &str, params: &str, arg_names: &str, ret: &str, dec: &str, body: &str, mode: Mode, attr: &str) -> String {
    match mode {
        Mode::Plain => format!("{attr}pub open spec fn {name}{g}({params}) -> {ret} {{\n{body}\n}}\n"),
        Mode::Structural => format!("{attr}pub open spec fn {name}{g}({params}) -> {ret}\n    decreases {dec}\n{{\n{body}\n}}\n"),
        Mode::Assumed => format!("pub uninterp spec fn {name}{g}({params}) -> {ret};\npub axiom fn {name}__def{g}({params}) ensures #[trigger] {name}({arg_names}) == {{ {body} }};\n"),
    }
}

fn emit_fn(o: &Out, mode: Mode) -> Result<String, String> {
    let name = fname(&o.path);
    let g = gen_s(&o.generics);
    let ret = show(&o.ret)?;
    let ps = params_s(&o.params)?;
    let okps = ok_params_s(&o.params)?;
    let an: Vec<String> = o.params.iter().map(|p| p.0.clone()).collect();
    let okan: Vec<String> = o.params.iter().flat_map(|(n, t)| if let Ty::Fn(..) = t { vec![n.clone(), format!("{}_ok", n)] } else { vec![n.clone()] }).collect();
    let mut s = format!("// {}:{} {}\n", o.file, o.line, o.path);
    let Some(body) = &o.body else {
        s += &format!("pub uninterp spec fn {name}{g}({ps}) -> {ret};\npub uninterp spec fn {name}_ok{g}({okps}) -> bool;\n");
        return Ok(s);
    };
    let has_fn_param = o.params.iter().any(|p| matches!(p.1, Ty::Fn(..)));
    for l in &o.loops { s += &emit_loop(l, mode, &o.params, has_fn_param)?; }
    let dec = o.params.first().map(|p| p.0.clone()).unwrap_or("0int".into());
    let dec = format!("{dec}, 1int");
    s += &emit_def(&name, &g, &ps, &an.join(", "), &ret, &dec, &print::scoped(body, &o.scope), mode, "");
    let f = |e: &Ex| print::ok(e);
    let no = || String::from("__no__");
    let okb = print::okb(body, &print::OkK { yld: &f, cont: &no, brk: &no });
    s += &emit_def(&format!("{name}_ok"), &g, &okps, &okan.join(", "), "bool", &dec, &okb, mode, "");
    Ok(s)
}

fn emit_loop(l: &LoopFn, mode: Mode, fparams: &[(String, Ty)], has_fn: bool) -> Result<String, String> {
    let g = gen_s(&l.generics);
    let mut ps: Vec<(String, Ty)> = vec![];
    match l.kind {
        "list" => { ps.push(("it__".into(), Ty::list(l.elem_ty.clone()))); ps.push(("i__".into(), Ty::int())); }
        "range" => { ps.push(("end__".into(), Ty::int())); ps.push(("i__".into(), Ty::int())); }
        _ => {}
    }
    ps.extend(l.params.iter().cloned());
    let _ = (fparams, has_fn);
    let mut okps = ps.clone();
    okps.retain(|_| true);
    let st: Vec<String> = l.state.iter().map(|x| x.0.clone()).collect();
    let st_ty = tuple_s(&l.state.iter().map(|x| show(&x.1)).collect::<Result<Vec<_>, _>>()?);
    let exit_ty = { let t = pack_ty(l.scope.var_tys.clone(), l.scope.ret.clone().unwrap()); t };
    let ret = if l.exits { format!("Flow<{}, {}>", show(&exit_ty)?, st_ty) } else { st_ty };
    let next = |suffix: &str| {
        let mut a: Vec<String> = vec![];
        match l.kind { "list" => { a.push("it__".into()); a.push("i__ + 1".into()) } "range" => { a.push("end__".into()); a.push("i__ + 1".into()) } _ => {} }
        for (n, t) in &l.params { a.push(n.clone()); if suffix == "_ok" { if let Ty::Fn(..) = t { a.push(format!("{}_ok", n)) } } }
        format!("{}{}({})", l.name, suffix, a.join(", "))
    };
    let fin = if l.exits { format!("Flow::Cont({})", tuple_s(&st)) } else { tuple_s(&st) };
    let (guard, bind, dec) = match l.kind {
        "list" => ("i__ < 0 || i__ >= List__len(it__)".to_string(), if l.pat == "_" { String::new() } else { format!("let {} = List__index_at(it__, i__);\n", l.pat) }, "it__, List__len(it__) - i__".to_string()),
        "range" => ("i__ >= end__".to_string(), if l.pat == "_" { String::new() } else { format!("let {} = i__;\n", l.pat) }, "end__ - i__".to_string()),
        _ => ("false".to_string(), String::new(), "0int".to_string()),
    };
    let y = |_: &Ex| next("");
    let r = |e: &Ex| format!("Flow::Exit({})", print::pack(&l.scope, e));
    let raw = |s: &str| format!("Flow::Exit({})", s);
    let c = || next("");
    let b = || fin.clone();
    let p = if l.exits { "Flow::Exit(arbitrary())" } else { "arbitrary()" };
    let body = print::block(&l.body, &print::Kont { yld: &y, ret: &r, raw: &raw, panic: p, cont: &c, brk: &b });
    let body = format!("if {guard} {{ {fin} }} else {{ {bind}{body} }}");
    let an: Vec<String> = ps.iter().map(|p| p.0.clone()).collect();
    let mut s = String::new();
    let lmode = match (mode, l.kind) { (Mode::Assumed, _) | (_, "while") => Mode::Assumed, _ => Mode::Structural };
    // loops outside recursive groups only need the index
    let dec = if mode == Mode::Plain && l.kind == "list" { "List__len(it__) - i__".to_string() } else { dec };
    s += &emit_def(&l.name, &g, &params_s(&ps)?, &an.join(", "), &ret, &dec, &body, lmode, "");
    let okan: Vec<String> = ps.iter().flat_map(|(n, t)| if let Ty::Fn(..) = t { vec![n.clone(), format!("{}_ok", n)] } else { vec![n.clone()] }).collect();
    let n2 = next("_ok");
    let y = |e: &Ex| print::conj(vec![print::ok(e), n2.clone()]);
    let c = || n2.clone();
    let b = || "true".to_string();
    let okb = print::okb(&l.body, &print::OkK { yld: &y, cont: &c, brk: &b });
    let okb = format!("if {guard} {{ true }} else {{ {bind}{okb} }}");
    s += &emit_def(&format!("{}_ok", l.name), &g, &ok_params_s(&ps)?, &okan.join(", "), "bool", &dec, &okb, lmode, "");
    Ok(s)
}

fn emit_types(m: &Model) -> Result<String, String> {
    let mut s = String::new();
    for d in m.types.values() {
        let g = if d.generics.is_empty() { String::new() } else { format!("<{}>", d.generics.join(", ")) };
        match &d.kind {
            DefKind::Struct(Fields::Unit) => s += &format!("pub struct {}{};\n", d.name, g),
            DefKind::Struct(Fields::Tuple(v)) => s += &format!("pub struct {}{}({});\n", d.name, g, v.iter().map(|t| Ok(format!("pub {}", show(t)?))).collect::<Result<Vec<_>, String>>()?.join(", ")),
            DefKind::Struct(Fields::Named(v)) => s += &format!("pub struct {}{} {{\n{}}}\n", d.name, g, v.iter().map(|(n, t)| Ok(format!("    pub {}: {},\n", n, show(t)?))).collect::<Result<Vec<_>, String>>()?.concat()),
            DefKind::Enum(vs) => {
                s += &format!("pub enum {}{} {{\n", d.name, g);
                for (n, f) in vs {
                    s += &match f {
                        Fields::Unit => format!("    {},\n", n),
                        Fields::Tuple(v) => format!("    {}({}),\n", n, v.iter().map(show).collect::<Result<Vec<_>, _>>()?.join(", ")),
                        Fields::Named(v) => format!("    {} {{ {} }},\n", n, v.iter().map(|(n, t)| Ok(format!("{}: {}", n, show(t)?))).collect::<Result<Vec<_>, String>>()?.join(", ")),
                    };
                }
                if d.name == "TerminationInfo" { s += "    /// added by the translation: a nondeterministic choice without admissible outcome\n    NdStuck,\n"; }
                s += "}\n";
            }
        }
    }
    Ok(s)
}

fn json(s: &str) -> String { format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n")) }

fn sccs(nodes: &[String], edges: &HashMap<String, BTreeSet<String>>) -> Vec<Vec<String>> {
    // Tarjan
    struct S<'a> { idx: HashMap<String, usize>, low: HashMap<String, usize>, st: Vec<String>, on: HashSet<String>, n: usize, out: Vec<Vec<String>>, e: &'a HashMap<String, BTreeSet<String>> }
    fn go(v: &str, s: &mut S) {
        s.idx.insert(v.into(), s.n); s.low.insert(v.into(), s.n); s.n += 1; s.st.push(v.into()); s.on.insert(v.into());
        if let Some(es) = s.e.get(v) {
            for w in es.clone() {
                if !s.e.contains_key(&w) { continue; }
                if !s.idx.contains_key(&w) { go(&w, s); let l = s.low[&w].min(s.low[v]); s.low.insert(v.into(), l); }
                else if s.on.contains(&w) { let l = s.idx[&w].min(s.low[v]); s.low.insert(v.into(), l); }
            }
        }
        if s.low[v] == s.idx[v] { let mut c = vec![]; loop { let w = s.st.pop().unwrap(); s.on.remove(&w); c.push(w.clone()); if w == v { break; } } s.out.push(c); }
    }
    let mut s = S { idx: HashMap::new(), low: HashMap::new(), st: vec![], on: HashSet::new(), n: 0, out: vec![], e: edges };
    for v in nodes { if !s.idx.contains_key(v) { go(v, &mut s); } }
    s.out
}

fn run() -> Result<(), String> {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 6 || a.len() > 9 { return Err("usage: specx <src dir> <builtins.txt> <structural.txt> <out.rs> <report.json>".into()); }
    let mut m = Model::default();
    m.load_builtins(&std::fs::read_to_string(&a[2]).map_err(|e| e.to_string())?)?;
    let structural: HashSet<String> = std::fs::read_to_string(&a[3]).map_err(|e| e.to_string())?.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect();
    let mut files = vec![];
    for n in ["prelude", "mem", "lang"] {
        let p = format!("{}/{}.rs", a[1], n);
        let t = std::fs::read_to_string(&p).map_err(|e| format!("{}: {}", p, e))?;
        files.push((format!("{}.rs", n), syn::parse_file(&t).map_err(|e| format!("{}: {}", p, e))?));
    }
    let mut external = None;
    let mut texts = String::new();
    if let Some(d) = a.get(6) {
        let (bf, decls) = builder::load(d)?;
        files.extend(bf);
        // the MIR translation, and what it uses of the compiler
        if let (Some(d), Some(x)) = (a.get(7), a.get(8)) {
            let t = std::fs::read_to_string(x).map_err(|e| format!("{}: {}", x, e))?;
            let mut ext = syn::parse_file(&t).map_err(|e| format!("{}: {}", x, e))?;
            let declared: HashSet<String> = ext.items.iter().filter_map(|i| match i { syn::Item::Struct(s) => Some(s.ident.to_string()), syn::Item::Enum(s) => Some(s.ident.to_string()), syn::Item::Type(s) => Some(s.ident.to_string()), _ => None }).collect();
            let (mf, mut info) = minimize::load(d, &decls, &declared)?;
            for l in t.lines() { if let Some(x) = l.strip_prefix("//txt ") { for x in x.split_whitespace() { info.texts.insert(x.to_string()); } } }
            let names: BTreeMap<String, &String> = info.texts.iter().filter_map(|t| Some((minimize::txt(t)?, t))).collect();
            if names.len() != info.texts.iter().filter(|t| minimize::txt(t).is_some()).count() { return Err("two texts with the same name".into()); }
            for (i, n) in names.keys().enumerate() { texts += &format!("pub open spec fn {}() -> Txt {{ Txt {{ code: {} }} }}\n", n, i); }
            let mut vs: Vec<syn::Ident> = info.syms.iter().map(|s| syn::Ident::new(s, proc_macro2::Span::call_site())).collect();
            vs.push(syn::Ident::new("other__", proc_macro2::Span::call_site()));
            ext.items.push(syn::parse_quote!(pub enum RsSym { #(#vs),* }));
            let mut used: BTreeSet<String> = info.opaque.keys().cloned().collect();
            // types that only rustc.txt mentions
            { struct T(BTreeSet<String>); impl<'a> syn::visit::Visit<'a> for T { fn visit_type_path(&mut self, p: &'a syn::TypePath) { let n = last(&p.path); if n.starts_with("Rs") || n.starts_with("Sm") { self.0.insert(n); } syn::visit::visit_type_path(self, p); } }
              let mut v = T(BTreeSet::new()); syn::visit::Visit::visit_file(&mut v, &ext); used.extend(v.0); }
            m.opaque = used.into_iter().filter(|n| !declared.contains(n) && n != "RsSym").collect();
            files.push(("rustc.txt".into(), syn::File { shebang: None, attrs: vec![], items: ext.items.iter().filter(|i| !matches!(i, syn::Item::Trait(_))).cloned().collect() }));
            files.extend(mf);
            external = Some(ext);
        }
    }
    if let Some(x) = &external { m.load_external(x)?; }
    m.load(&files)?;
    // constants of impls become nullary functions
    let consts: Vec<_> = m.const_decls.clone();
    for (head, n, ex, ty, ctx) in consts {
        let body: syn::Block = syn::parse_quote!({ #ex });
        let sig = FnSig { path: format!("{}::{}", head, n), generics: vec![], impl_generics: vec![], params: vec![], ret: ty, partial: true, has_self: false, builtin: false, self_ty: ctx.self_ty.clone(), is_nd: false };
        m.fns.push(FnDecl { sig, ctx, body: Some(body), inputs: vec![], file: "const".into(), line: 0, name: n });
    }
    let none = HashSet::new();
    let first: Vec<Out> = m.fns.iter().map(|d| lower_fn(&m, d, &none)).collect();
    let edges: HashMap<String, BTreeSet<String>> = first.iter().map(|o| (o.path.clone(), o.calls.clone())).collect();
    let nodes: Vec<String> = first.iter().map(|o| o.path.clone()).collect();
    let comps = sccs(&nodes, &edges);
    let mut rec_of: HashMap<String, Vec<String>> = HashMap::new();
    for c in &comps { if c.len() > 1 || edges[&c[0]].contains(&c[0]) { for x in c { rec_of.insert(x.clone(), c.clone()); } } }
    let mut text = String::new();
    text += &emit_types(&m)?;
    text += &texts;
    for t in &m.opaque { text += &format!("#[verifier::external_body] pub struct {} {{ _o: () }}\n", t); }
    for (head, n, s) in &m.externals {
        let mut ps: Vec<(String, Ty)> = s.params.iter().map(|p| (if p.name == "self" { "this".into() } else { p.name.clone() }, p.ty.clone())).collect();
        ps.retain(|_| true);
        text += &format!("pub uninterp spec fn {h}{n}{g}({p}) -> {r};\n", h = if head == "statics" { String::new() } else { format!("{}__", head) }, g = gen_s(&generics_of(s)), p = params_s(&ps)?, r = show(&s.packed_ret())?);
    }
    for (head, n, s) in &m.uninterp {
        let ps: Vec<(String, Ty)> = s.params.iter().map(|p| (if p.name == "self" { "this".into() } else { p.name.clone() }, p.ty.clone())).collect();
        let g = gen_s(&generics_of(s));
        match (params_s(&ps).and_then(|p| Ok((p, ok_params_s(&ps)?))), show(&s.packed_ret())) {
            (Ok((p, o)), Ok(r)) => text += &format!("pub uninterp spec fn {h}__{n}{g}({p}) -> {r};\npub uninterp spec fn {h}__{n}_ok{g}({o}) -> bool;\n", h = head),
            _ => return Err(format!("signature of {}::{}", head, n)),
        }
    }
    let mut rep: Vec<String> = vec![];
    let mut unsupported = 0;
    let mut outs: BTreeMap<String, String> = BTreeMap::new();
    for d in &m.fns {
        let names: HashSet<String> = rec_of.get(&d.sig.path).map(|c| c.iter().map(|p| p.rsplit("::").next().unwrap().trim_start_matches("Memory__").to_string()).collect()).unwrap_or_default();
        let mut o = lower_fn(&m, d, &names);
        let mode = if rec_of.contains_key(&o.path) { if structural.contains(&o.path) || structural.contains("*") { Mode::Structural } else { Mode::Assumed } } else { Mode::Plain };
        let r = emit_fn(&o, mode);
        let (t, e) = match r {
            Ok(t) => (t, o.error.clone()),
            Err(e) => { o.body = None; o.loops.clear(); match emit_fn(&o, mode) { Ok(t) => (t, Some(e)), Err(e2) => (String::new(), Some(format!("{e}; {e2}"))) } }
        };
        if e.is_some() { unsupported += 1; }
        rep.push(format!("{{\"path\":{},\"file\":{},\"line\":{},\"mode\":\"{}\",\"loops\":{},\"while_loops\":{},\"dropped\":[{}],\"error\":{}}}", json(&o.path), json(&o.file), o.line, match mode { Mode::Plain => "plain", Mode::Structural => "structural", Mode::Assumed => "assumed" }, o.loops.len(), o.loops.iter().filter(|l| l.kind == "while").count(), o.dropped.iter().map(|x| json(x)).collect::<Vec<_>>().join(","), e.as_ref().map(|e| json(e)).unwrap_or("null".into())));
        if outs.insert(o.path.clone(), t).is_some() { return Err(format!("two functions {}", o.path)); }
    }
    for t in outs.values() { text += t; }
    std::fs::write(&a[4], text).map_err(|e| e.to_string())?;
    let rec: Vec<String> = comps.iter().filter(|c| rec_of.contains_key(&c[0])).map(|c| format!("[{}]", c.iter().map(|x| json(x)).collect::<Vec<_>>().join(","))).collect();
    std::fs::write(&a[5], format!("{{\"unsupported\":{},\"notes\":[{}],\"recursive\":[{}],\"functions\":[\n{}\n]}}\n", unsupported, m.notes.iter().map(|n| json(n)).collect::<Vec<_>>().join(","), rec.join(","), rep.join(",\n"))).map_err(|e| e.to_string())?;
    Ok(())
}
fn main() {
    // deep recursion in the printer
    let r = std::thread::Builder::new().stack_size(1 << 30).spawn(run).unwrap().join().unwrap();
    if let Err(e) = r { eprintln!("specx: {}", e); std::process::exit(2); }
}
