//! Lowering of function bodies to the intermediate form.
use crate::ir::*;
use crate::model::*;
use crate::ty::*;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use syn::spanned::Spanned;
#[allow(unused_imports)]
use syn::visit::Visit;

pub type R<T> = Result<T, String>;

fn err<T>(sp: proc_macro2::Span, m: impl Into<String>) -> R<T> { Err(format!("line {}: {}", sp.start().line, m.into())) }

#[derive(Clone)]
pub enum LKind {
    Value,
    /// a closure literal, inlined at its calls
    Closure(Rc<ClosureVal>),
}
pub struct ClosureVal { pub ex: syn::ExprClosure, pub env: Vec<Rc<Local>>, pub ctx: TyCtx, pub expect: Option<Ty>, pub gsub: HashMap<String, Ty> }
pub struct Local { pub id: usize, pub name: String, pub emit: String, pub ty: RefCell<Ty>, pub kind: LKind }

#[derive(Clone)]
pub struct ScopeCtx { pub ret: Ty, pub state: Vec<usize>, pub depth_loops: usize }

pub struct LoopFn {
    pub name: String,
    pub generics: Vec<String>,
    /// "list": (`it__`, `i__`), "range": (`i__`, `end__`), "while": none
    pub kind: &'static str,
    pub elem_ty: Ty,
    pub pat: String,
    pub params: Vec<(String, Ty)>,
    pub state: Vec<(String, Ty)>,
    pub exits: bool,
    pub scope: Scope,
    pub body: Block,
    pub cond: Option<Ex>,
}

pub struct Fx<'m> {
    pub m: &'m Model,
    pub inf: Infer,
    pub env: Vec<Rc<Local>>,
    pub names: HashMap<String, usize>,
    pub next_id: usize,
    pub ctx: TyCtx,
    pub uses: Vec<(String, String, bool)>,
    pub scopes: Vec<ScopeCtx>,
    pub mutated: Vec<BTreeSet<usize>>,
    pub used: Vec<BTreeSet<usize>>,
    pub all: HashMap<usize, Rc<Local>>,
    pub loops: Vec<LoopFn>,
    pub fn_name: String,
    pub generics: Vec<String>,
    pub loop_counter: usize,
    pub tmp: usize,
    /// functions in the same recursive group (emitted paths), by simple name
    pub recursive_names: HashSet<String>,
    pub inline_depth: usize,
    pub calls: BTreeSet<String>,
    pub deref_assigned: BTreeSet<usize>,
    pub mut_refs: BTreeSet<usize>,
    pub pat_guards: Vec<Ex>,
    pub gsub: HashMap<String, Ty>,
    pub inline_stack: Vec<String>,
    pub last_targs: Vec<Ty>,
    /// function-typed locals taken out of a data structure: no panic-freedom companion
    pub no_ok: BTreeSet<usize>,
    /// match arms that could not be lowered
    pub dropped: Vec<String>,
}

pub const RESERVED: &[&str] = &["requires", "ensures", "invariant", "decreases", "via", "when", "proof", "exec", "spec", "tracked", "ghost", "open", "closed", "choose", "forall", "exists", "implies", "by", "is", "has", "matches", "assume", "assert", "arbitrary", "returns", "recommends", "opens_invariants", "no_unwind", "global", "layout", "state_machine", "broadcast", "group", "axiom", "int", "nat", "Str", "ret__"];

#[derive(Clone)]
pub struct Place { pub root: Rc<Local>, pub projs: Vec<(String, Ty)>, pub ty: Ty }

impl<'m> Fx<'m> {
    pub fn new(m: &'m Model, fn_name: &str, generics: Vec<String>, ctx: TyCtx) -> Self {
        Fx { m, inf: Infer::default(), env: vec![], names: HashMap::new(), next_id: 0, ctx, uses: vec![], scopes: vec![], mutated: vec![], used: vec![], all: HashMap::new(), loops: vec![], fn_name: fn_name.to_string(), generics, loop_counter: 0, tmp: 0, recursive_names: HashSet::new(), inline_depth: 0, calls: BTreeSet::new(), deref_assigned: BTreeSet::new(), mut_refs: BTreeSet::new(), pat_guards: vec![], gsub: HashMap::new(), inline_stack: vec![], last_targs: vec![], no_ok: BTreeSet::new(), dropped: vec![] }
    }
    pub fn freshen(&mut self, t: &Ty) -> Ty {
        match t {
            Ty::Named(n, _) if n == "_" => self.inf.fresh(),
            Ty::Named(n, a) => { let a = a.iter().map(|x| self.freshen(x)).collect(); Ty::Named(n.clone(), a) }
            Ty::Tuple(a) => Ty::Tuple(a.iter().map(|x| self.freshen(x)).collect()),
            Ty::Fn(p, r) => { let p = p.iter().map(|(x, m)| (self.freshen(x), *m)).collect(); let r = self.freshen(r); Ty::Fn(p, Box::new(r)) }
            t => t.clone(),
        }
    }
    pub fn src_ty(&mut self, t: &syn::Type) -> R<Ty> { let t = self.m.ty(t, &self.ctx)?; let g = self.gsub.clone(); let t = if g.is_empty() { t } else { self.inf.inst(&t, &g) }; Ok(self.freshen(&t)) }
    pub fn declare(&mut self, name: &str, ty: Ty, kind: LKind) -> Rc<Local> {
        let mut base = name.to_string();
        if base == "self" { base = "this".into(); }
        if RESERVED.contains(&base.as_str()) || self.m.statics.contains_key(&base) { base = format!("{}_", base); }
        let n = self.names.entry(base.clone()).or_insert(0);
        *n += 1;
        let emit = if *n == 1 { base.clone() } else { format!("{}_{}", base, n) };
        let l = Rc::new(Local { id: self.next_id, name: name.to_string(), emit, ty: RefCell::new(ty), kind });
        self.next_id += 1;
        self.all.insert(l.id, l.clone());
        self.env.push(l.clone());
        l
    }
    pub fn temp(&mut self, hint: &str) -> String { self.tmp += 1; format!("{}{}__", hint, self.tmp) }
    pub fn lookup(&mut self, name: &str) -> Option<Rc<Local>> {
        let l = self.env.iter().rev().find(|l| l.name == name).cloned()?;
        for u in self.used.iter_mut() { u.insert(l.id); }
        Some(l)
    }
    fn var(&self, l: &Rc<Local>) -> Ex { Ex::raw(l.emit.clone(), l.ty.borrow().clone()) }
    fn mark_mut(&mut self, l: &Rc<Local>) { for m in self.mutated.iter_mut() { m.insert(l.id); } for u in self.used.iter_mut() { u.insert(l.id); } }

    // ------------------------------------------------------------ paths and patterns
    fn enum_variant(&self, segs: &[String]) -> Option<(String, String)> {
        // returns (enum, variant)
        if segs.len() == 1 {
            let n = &segs[0];
            for (alias, en, glob) in self.uses.iter().rev() {
                if *glob {
                    if let Some(d) = self.m.types.get(en) { if let DefKind::Enum(v) = &d.kind { if v.iter().any(|(x, _)| x == n) { return Some((en.clone(), n.clone())); } } }
                    if let Some(v) = builtin_enum(en) { if v.contains(&n.as_str()) { return Some((en.clone(), n.clone())); } }
                } else if alias == n {
                    if let Some((e, v)) = en.split_once("::") { return Some((e.to_string(), v.to_string())); }
                }
            }
            for e in ["Signedness", "Endianness", "Mutability"] { if builtin_enum(e).unwrap().contains(&n.as_str()) && !self.m.types.contains_key(n) { return Some((e.to_string(), n.clone())); } }
            return None;
        }
        let v = &segs[segs.len() - 1];
        let mut e = segs[segs.len() - 2].clone();
        if e == "Self" { e = self.ctx.self_ty.as_ref()?.head()?.to_string(); }
        for (alias, en, glob) in self.uses.iter().rev() { if !*glob && *alias == e && !en.contains("::") { e = en.clone(); break; } }
        if let Some(d) = self.m.types.get(&e) { if let DefKind::Enum(vs) = &d.kind { if vs.iter().any(|(x, _)| x == v) { return Some((e, v.clone())); } } }
        if let Some(vs) = builtin_enum(&e) { if vs.contains(&v.as_str()) { return Some((e, v.clone())); } }
        None
    }
    fn variant_fields(&mut self, e: &str, v: &str) -> (Fields, Ty) {
        if let Some(d) = self.m.types.get(e) {
            let map: HashMap<String, Ty> = d.generics.iter().map(|g| (g.clone(), self.inf.fresh())).collect();
            let ty = Ty::Named(e.to_string(), d.generics.iter().map(|g| map[g].clone()).collect());
            if let DefKind::Enum(vs) = &d.kind {
                let f = vs.iter().find(|(x, _)| x == v).unwrap().1.clone();
                return (self.inst_fields(&f, &map), ty);
            }
        }
        (Fields::Unit, Ty::n(e))
    }
    fn inst_fields(&mut self, f: &Fields, map: &HashMap<String, Ty>) -> Fields {
        match f {
            Fields::Unit => Fields::Unit,
            Fields::Tuple(v) => Fields::Tuple(v.iter().map(|t| self.inf.inst(t, map)).collect()),
            Fields::Named(v) => Fields::Named(v.iter().map(|(n, t)| (n.clone(), self.inf.inst(t, map))).collect()),
        }
    }
    fn struct_fields(&mut self, t: &Ty) -> Option<Fields> {
        let Ty::Named(n, args) = self.inf.shallow(t) else { return None };
        let d = self.m.types.get(&n)?;
        let map: HashMap<String, Ty> = d.generics.iter().cloned().zip(args.iter().cloned()).collect();
        if let DefKind::Struct(f) = &d.kind { let f = f.clone(); Some(self.inst_fields(&f, &map)) } else { None }
    }
    fn segs(p: &syn::Path) -> Vec<String> { p.segments.iter().map(|s| s.ident.to_string()).collect() }

    /// Lower a pattern against a type, declaring its variables. Returns the printed pattern.
    pub fn pat(&mut self, p: &syn::Pat, ty: &Ty) -> R<String> {
        let ty = self.inf.shallow(ty);
        Ok(match p {
            syn::Pat::Wild(_) => "_".into(),
            syn::Pat::Rest(_) => "..".into(),
            syn::Pat::Paren(x) => self.pat(&x.pat, &ty)?,
            syn::Pat::Reference(x) => self.pat(&x.pat, &ty)?,
            syn::Pat::Type(x) => { let t = self.src_ty(&x.ty)?; self.inf.unify(&t, &ty); self.pat(&x.pat, &ty)? }
            syn::Pat::Lit(l) => match &l.lit {
                syn::Lit::Bool(b) => b.value.to_string(),
                syn::Lit::Int(i) => {
                    let n = self.temp("k");
                    let lit = self.coerce(Ex { k: K::IntLit(i.base10_digits().to_string()), ty: Ty::int() }, Some(&ty));
                    self.pat_guards.push(Ex { k: K::Bin("==".into(), Box::new(Ex::raw(n.clone(), ty.clone())), Box::new(lit)), ty: Ty::boolean() });
                    n
                }
                syn::Lit::Str(l) if self.ctx.mini => {
                    let n = self.temp("k");
                    let Some(t) = crate::minimize::txt(&l.value()) else { return err(p.span(), "text") };
                    self.inf.unify(&Ty::n("Txt"), &ty);
                    self.pat_guards.push(Ex { k: K::Bin("==".into(), Box::new(Ex::raw(n.clone(), ty.clone())), Box::new(Ex::raw(format!("{}()", t), Ty::n("Txt")))), ty: Ty::boolean() });
                    n
                }
                _ => return err(p.span(), "literal pattern"),
            },
            syn::Pat::Ident(i) => {
                let n = i.ident.to_string();
                if i.subpat.is_some() { return err(p.span(), "binding pattern with @"); }
                if n == "None" { return Ok("None".into()); }
                if n.chars().next().unwrap().is_uppercase() {
                    if let Some((e, v)) = self.enum_variant(&[n.clone()]) {
                        let (_, t) = self.variant_fields(&e, &v);
                        self.inf.unify(&t, &ty);
                        return Ok(format!("{}::{}", e, v));
                    }
                }
                let l = self.declare(&n, ty.clone(), LKind::Value);
                l.emit.clone()
            }
            syn::Pat::Path(x) => {
                let s = Self::segs(&x.path);
                let Some((e, v)) = self.enum_variant(&s) else { return err(p.span(), format!("unknown path pattern {}", s.join("::"))) };
                let (_, t) = self.variant_fields(&e, &v);
                self.inf.unify(&t, &ty);
                format!("{}::{}", e, v)
            }
            syn::Pat::Tuple(x) => {
                let n = x.elems.len();
                let has_rest = x.elems.iter().any(|e| matches!(e, syn::Pat::Rest(_)));
                let tys: Vec<Ty> = match &ty {
                    Ty::Tuple(v) => v.clone(),
                    _ => { if has_rest { return err(p.span(), "rest pattern on unknown tuple"); } let v: Vec<Ty> = (0..n).map(|_| self.inf.fresh()).collect(); self.inf.unify(&ty, &Ty::Tuple(v.clone())); v }
                };
                let ps = self.pats(&x.elems.iter().collect::<Vec<_>>(), &tys)?;
                if ps.len() == 1 { format!("({},)", ps[0]) } else { format!("({})", ps.join(", ")) }
            }
            syn::Pat::TupleStruct(x) => {
                let s = Self::segs(&x.path);
                let name = s.last().unwrap().clone();
                if s.len() == 1 && (name == "Some" || name == "Ok" || name == "Err") {
                    let a = self.inf.fresh();
                    let t = match name.as_str() {
                        "Some" => Ty::opt(a.clone()),
                        "Ok" => { let e = self.inf.fresh(); Ty::Named("Result".into(), vec![a.clone(), e]) }
                        _ => { let o = self.inf.fresh(); Ty::Named("Result".into(), vec![o, a.clone()]) }
                    };
                    self.inf.unify(&t, &ty);
                    let q = self.pat(&x.elems[0], &a)?;
                    return Ok(format!("{}({})", name, q));
                }
                if let Some((e, v)) = self.enum_variant(&s) {
                    let (f, t) = self.variant_fields(&e, &v);
                    self.inf.unify(&t, &ty);
                    let Fields::Tuple(tys) = f else { return err(p.span(), "tuple pattern for non-tuple variant") };
                    let ps = self.pats(&x.elems.iter().collect::<Vec<_>>(), &tys)?;
                    return Ok(format!("{}::{}({})", e, v, ps.join(", ")));
                }
                if let Some(Fields::Tuple(tys)) = self.struct_fields(&ty) {
                    let ps = self.pats(&x.elems.iter().collect::<Vec<_>>(), &tys)?;
                    return Ok(format!("{}({})", name, ps.join(", ")));
                }
                return err(p.span(), format!("unknown tuple-struct pattern {}", s.join("::")));
            }
            syn::Pat::Struct(x) => {
                let s = Self::segs(&x.path);
                let (path, fs) = if let Some((e, v)) = self.enum_variant(&s) {
                    let (f, t) = self.variant_fields(&e, &v);
                    self.inf.unify(&t, &ty);
                    (format!("{}::{}", e, v), f)
                } else {
                    let n = s.last().unwrap().clone();
                    let n = if n == "Self" { self.ctx.self_ty.as_ref().and_then(|t| t.head().map(|s| s.to_string())).unwrap_or(n) } else { n };
                    if !self.m.types.contains_key(&n) { return err(p.span(), format!("unknown struct pattern {}", n)); }
                    let d = &self.m.types[&n];
                    let t = Ty::Named(n.clone(), d.generics.iter().map(|_| self.inf.fresh()).collect());
                    self.inf.unify(&t, &ty);
                    (n, self.struct_fields(&t).unwrap())
                };
                let fs: Vec<(String, Ty)> = match fs { Fields::Named(v) => v, Fields::Tuple(v) => v.into_iter().enumerate().map(|(i, t)| (i.to_string(), t)).collect(), Fields::Unit => vec![] };
                let mut out = vec![];
                for f in &x.fields {
                    let n = match &f.member { syn::Member::Named(i) => i.to_string(), syn::Member::Unnamed(i) => i.index.to_string() };
                    let Some((_, t)) = fs.iter().find(|(m, _)| *m == n) else { return err(p.span(), format!("no field {}", n)) };
                    let q = self.pat(&f.pat, &t.clone())?;
                    out.push(format!("{}: {}", n, q));
                }
                if x.rest.is_some() || out.len() < fs.len() { out.push("..".into()); }
                if fs.is_empty() && out == [".."] { // tuple or unit variant matched with { .. }
                    return Ok(format!("{} {{ .. }}", path));
                }
                format!("{} {{ {} }}", path, out.join(", "))
            }
            syn::Pat::Or(x) => {
                // all alternatives bind the same names: declare once, reuse the emitted names
                let n0 = self.env.len();
                let mut out = vec![];
                let mut first: Vec<Rc<Local>> = vec![];
                for (i, c) in x.cases.iter().enumerate() {
                    if i == 0 {
                        out.push(self.pat(c, &ty)?);
                        first = self.env[n0..].to_vec();
                    } else {
                        let save_env = self.env.clone();
                        self.env.truncate(n0);
                        let mut s = self.pat(c, &ty)?;
                        let now: Vec<Rc<Local>> = self.env[n0..].to_vec();
                        for l in &now {
                            let Some(f) = first.iter().find(|f| f.name == l.name) else { return err(p.span(), "or-pattern binding mismatch") };
                            s = rename_ident(&s, &l.emit, &f.emit);
                        }
                        out.push(s);
                        self.env = save_env;
                    }
                }
                out.join(" | ")
            }
            _ => return err(p.span(), "unsupported pattern"),
        })
    }
    fn pats(&mut self, ps: &[&syn::Pat], tys: &[Ty]) -> R<Vec<String>> {
        let mut out = vec![];
        let rest = ps.iter().position(|p| matches!(p, syn::Pat::Rest(_)));
        for (i, p) in ps.iter().enumerate() {
            let j = match rest { Some(r) if i > r => tys.len() - (ps.len() - i), _ => i };
            if Some(i) == rest { for _ in 0..(tys.len() + 1 - ps.len()) { out.push("_".into()); } continue; }
            let t = tys.get(j).cloned().ok_or("pattern arity")?;
            out.push(self.pat(p, &t)?);
        }
        Ok(out)
    }

    // ------------------------------------------------------------ blocks
    pub fn block(&mut self, b: &syn::Block, expect: Option<&Ty>) -> R<Block> {
        let depth = self.env.len();
        let env0: Vec<Rc<Local>> = self.env.clone();
        let udepth = self.uses.len();
        let r = self.stmts(&b.stmts, expect);
        self.env = env0;
        debug_assert!(self.env.len() == depth);
        self.uses.truncate(udepth);
        r
    }
    fn add_use(&mut self, prefix: &[String], t: &syn::UseTree) {
        match t {
            syn::UseTree::Path(p) => { let mut v = prefix.to_vec(); v.push(p.ident.to_string()); self.add_use(&v, &p.tree) }
            syn::UseTree::Glob(_) => self.uses.push((String::new(), prefix.last().cloned().unwrap_or_default(), true)),
            syn::UseTree::Name(n) => { let v = format!("{}::{}", prefix.last().cloned().unwrap_or_default(), n.ident); self.uses.push((n.ident.to_string(), v, false)) }
            syn::UseTree::Rename(r) => {
                let target = r.ident.to_string();
                if self.m.types.contains_key(&target) { self.uses.push((r.rename.to_string(), target, false)) }
                else { let v = format!("{}::{}", prefix.last().cloned().unwrap_or_default(), target); self.uses.push((r.rename.to_string(), v, false)) }
            }
            syn::UseTree::Group(g) => for x in &g.items { self.add_use(prefix, x) },
        }
    }
    fn stmts(&mut self, stmts: &[syn::Stmt], expect: Option<&Ty>) -> R<Block> {
        let mut items: Vec<Item> = vec![];
        for (i, s) in stmts.iter().enumerate() {
            let is_last = i + 1 == stmts.len();
            match s {
                syn::Stmt::Item(syn::Item::Use(u)) => self.add_use(&[], &u.tree),
                syn::Stmt::Item(_) => return err(s.span(), "nested item"),
                syn::Stmt::Local(l) => self.local(l, &mut items)?,
                syn::Stmt::Macro(mac) => {
                    let e = syn::Expr::Macro(syn::ExprMacro { attrs: vec![], mac: mac.mac.clone() });
                    if self.diverges(&e) || (is_last && mac.semi_token.is_none()) { return self.tail(&e, items, expect); }
                    self.stmt_expr(&e, &mut items)?;
                }
                syn::Stmt::Expr(e, semi) => {
                    if self.diverges(e) { return self.tail(e, items, expect); }
                    if is_last && semi.is_none() { return self.tail(e, items, expect); }
                    self.stmt_expr(e, &mut items)?;
                }
            }
        }
        Ok(Block { items, tail: Tail::Yield(Ex::unit()) })
    }
    fn stmt_expr(&mut self, e: &syn::Expr, items: &mut Vec<Item>) -> R<()> {
        let x = self.expr(e, items, None)?;
        if !x.trivial() { items.push(Item::Let("_".into(), x)); }
        Ok(())
    }
    fn local(&mut self, l: &syn::Local, items: &mut Vec<Item>) -> R<()> {
        let Some(init) = &l.init else { return err(l.span(), "let without initialiser") };
        let (pat, ann) = match &l.pat { syn::Pat::Type(t) => (&*t.pat, Some(self.src_ty(&t.ty)?)), p => (p, None) };
        if let (syn::Pat::Ident(i), syn::Expr::Closure(c)) = (pat, &*init.expr) {
            let cv = ClosureVal { ex: c.clone(), env: self.env.clone(), ctx: self.ctx.clone(), expect: None, gsub: self.gsub.clone() };
            let ty = Ty::n("closure__");
            self.declare(&i.ident.to_string(), ty, LKind::Closure(Rc::new(cv)));
            return Ok(());
        }
        if let Some((_, els)) = &init.diverge {
            let x = self.expr(&init.expr, items, ann.as_ref())?;
            let eb = { let t = Ty::Never; let syn::Expr::Block(b) = &**els else { return err(l.span(), "let-else") }; self.block(&b.block, Some(&t))? };
            let p = self.pat(pat, &x.ty)?;
            items.push(Item::LetElse(p, x, eb));
            return Ok(());
        }
        let x = self.expr(&init.expr, items, ann.as_ref())?;
        if let Some(a) = &ann { self.inf.unify(a, &x.ty); }
        let x = self.coerce(x, ann.as_ref());
        let ty = x.ty.clone();
        let p = self.pat(pat, &ty)?;
        items.push(Item::Let(p, x));
        Ok(())
    }
    fn macro_name(m: &syn::Macro) -> String { last(&m.path) }
    fn diverges(&self, e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Return(_) | syn::Expr::Continue(_) | syn::Expr::Break(_) => true,
            syn::Expr::Macro(m) => { let n = Self::macro_name(&m.mac); n.starts_with("throw") || matches!(n.as_str(), "panic" | "unreachable" | "todo" | "unimplemented" | "span_bug" | "bug") }
            syn::Expr::Paren(p) => self.diverges(&p.expr),
            syn::Expr::Block(b) => match b.block.stmts.last() { Some(syn::Stmt::Expr(e, _)) => self.diverges(e), Some(syn::Stmt::Macro(m)) => { let e = syn::Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() }); self.diverges(&e) } _ => false },
            _ => false,
        }
    }
    fn ret_ty(&self) -> Ty { self.scopes.last().unwrap().ret.clone() }
    fn throw(&mut self, name: &str, sp: proc_macro2::Span) -> R<Tail> {
        let r = self.inf.shallow(&self.ret_ty());
        if r.head() == Some("Option") { return Ok(Tail::Ret(Ex::raw("None", r))); }
        if matches!(r, Ty::Var(_)) {
            if name == "throw" { return Ok(Tail::Ret(Ex::raw("None", r))); }
            let o = self.inf.fresh();
            self.inf.unify(&r, &Ty::Named("Result".into(), vec![o, Ty::n("TerminationInfo")]));
        }
        let e = match name {
            "throw_ub" => "TerminationInfo::Ub(Str)",
            "throw_abort" => "TerminationInfo::Abort",
            "throw_machine_stop" => "TerminationInfo::MachineStop",
            "throw_memory_leak" => "TerminationInfo::MemoryLeak",
            "throw_ill_formed" => "TerminationInfo::IllFormed(Str)",
            "throw_deadlock" => "TerminationInfo::Deadlock",
            _ => return err(sp, format!("unknown macro {}!", name)),
        };
        Ok(Tail::Ret(Ex::raw(format!("Err({})", e), r)))
    }
    /// Lower an expression in tail position.
    pub fn tail(&mut self, e: &syn::Expr, mut items: Vec<Item>, expect: Option<&Ty>) -> R<Block> {
        match e {
            syn::Expr::Paren(p) => self.tail(&p.expr, items, expect),
            syn::Expr::Group(p) => self.tail(&p.expr, items, expect),
            syn::Expr::Block(b) if b.label.is_none() => {
                let blk = self.block(&b.block, expect)?;
                items.extend(blk.items);
                Ok(Block { items, tail: blk.tail })
            }
            syn::Expr::Return(r) => {
                let t = self.ret_ty();
                let x = match &r.expr { Some(x) => self.expr(x, &mut items, Some(&t))?, None => Ex::unit() };
                self.inf.unify(&t, &x.ty);
                Ok(Block { items, tail: Tail::Ret(x) })
            }
            syn::Expr::Continue(_) => Ok(Block { items, tail: Tail::Continue }),
            syn::Expr::Break(b) => { if b.expr.is_some() { return err(e.span(), "break with value"); } Ok(Block { items, tail: Tail::Break }) }
            syn::Expr::Macro(m) if self.diverges(e) => {
                let n = Self::macro_name(&m.mac);
                if n.starts_with("throw") { let t = self.throw(&n, e.span())?; Ok(Block { items, tail: t }) } else { Ok(Block { items, tail: Tail::Panic }) }
            }
            syn::Expr::If(i) => {
                let t = self.if_tail(i, &mut items, expect)?;
                Ok(Block { items, tail: t })
            }
            syn::Expr::Match(mt) => {
                let (s, arms) = self.match_arms(mt, &mut items, expect)?;
                Ok(Block { items, tail: Tail::Match(s, arms) })
            }
            _ => {
                let x = self.expr(e, &mut items, expect)?;
                let x = self.coerce(x, expect);
                Ok(Block { items, tail: Tail::Yield(x) })
            }
        }
    }
    fn if_tail(&mut self, i: &syn::ExprIf, items: &mut Vec<Item>, expect: Option<&Ty>) -> R<Tail> {
        let fresh = self.inf.fresh();
        let expect = Some(expect.cloned().unwrap_or(fresh));
        let conds = flatten_cond(&i.cond);
        self.if_conds(&conds, i, items, expect.as_ref())
    }
    fn if_conds(&mut self, conds: &[syn::Expr], i: &syn::ExprIf, items: &mut Vec<Item>, expect: Option<&Ty>) -> R<Tail> {
        // group plain conditions
        let Some((c, rest)) = conds.split_first() else { unreachable!() };
        let env0 = self.env.clone();
        let lower_then = |me: &mut Self| -> R<Block> {
            if rest.is_empty() { me.block(&i.then_branch, expect) } else { let mut its = vec![]; let t = me.if_conds(rest, i, &mut its, expect)?; Ok(Block { items: its, tail: t }) }
        };
        let tail = match c {
            syn::Expr::Let(l) => {
                let s = self.expr(&l.expr, items, None)?;
                let ng = self.pat_guards.len();
                let p = self.pat(&l.pat, &s.ty)?;
                if self.pat_guards.len() != ng { return err(l.span(), "literal pattern in if-let"); }
                let then = lower_then(self)?;
                self.env = env0.clone();
                let els = self.else_block(i, expect)?;
                Tail::Match(s, vec![Arm { pat: p, guard: None, body: then }, Arm { pat: "_".into(), guard: None, body: els }])
            }
            c => {
                let s = self.expr(c, items, Some(&Ty::boolean()))?;
                let then = lower_then(self)?;
                self.env = env0.clone();
                let els = self.else_block(i, expect)?;
                Tail::If(s, Box::new(then), Box::new(els))
            }
        };
        self.env = env0;
        Ok(tail)
    }
    fn else_block(&mut self, i: &syn::ExprIf, expect: Option<&Ty>) -> R<Block> {
        match &i.else_branch {
            None => Ok(Block::yld(Ex::unit())),
            Some((_, e)) => { let env0 = self.env.clone(); let b = self.tail(e, vec![], expect); self.env = env0; b }
        }
    }
    fn match_arms(&mut self, mt: &syn::ExprMatch, items: &mut Vec<Item>, expect: Option<&Ty>) -> R<(Ex, Vec<Arm>)> {
        let place = self.try_place(&mt.expr);
        let s = self.expr(&mt.expr, items, None)?;
        let fresh = self.inf.fresh();
        let expect = Some(expect.cloned().unwrap_or(fresh));
        let mut arms = vec![];
        let env0 = self.env.clone();
        for a in &mt.arms {
            let save_guards = std::mem::take(&mut self.pat_guards);
            let pat = self.pat(&a.pat, &s.ty)?;
            let mut guard: Option<Ex> = None;
            let extra = std::mem::replace(&mut self.pat_guards, save_guards);
            if !extra.is_empty() && pat.contains('|') { return err(a.span(), "literal in an or-pattern"); }
            let bound: Vec<Rc<Local>> = self.env[env0.len()..].to_vec();
            let mut gs = extra;
            if let Some((_, g)) = &a.guard {
                let mut its = vec![];
                let x = self.expr(g, &mut its, Some(&Ty::boolean()))?;
                if !its.is_empty() { return err(g.span(), "effects in a match guard"); }
                gs.push(x);
            }
            for g in gs { guard = Some(match guard { None => g, Some(h) => Ex { k: K::And(Box::new(h), Box::new(g)), ty: Ty::boolean() } }); }
            let snap = if self.ctx.mini { Some(self.snapshot()) } else { None };
            self.mutated.push(BTreeSet::new());
            let body = self.tail(&a.body, vec![], expect.as_ref());
            let m = self.mutated.pop().unwrap();
            let mut body = match (body, snap) {
                (Err(e), Some(s)) => { self.restore(s); self.dropped.push(format!("{} ({})", quote::quote!(#a).to_string().split("=>").next().unwrap_or("").trim(), e)); self.env = env0.clone(); arms.push(Arm { pat, guard, body: Block { items: vec![], tail: Tail::Panic } }); continue }
                (b, _) => b?,
            };
            let assigned = bound.iter().any(|b| m.contains(&b.id));
            let by_ref = matches!(&*mt.expr, syn::Expr::Reference(r) if r.mutability.is_some()) || place.as_ref().map(|p| self.mut_refs.contains(&p.root.id)).unwrap_or(false);
            if bound.iter().any(|b| self.deref_assigned.contains(&b.id)) || (assigned && by_ref) {
                // assignment through a reference bound by the pattern: write the variable back into the scrutinee
                let Some(pl) = &place else { return err(a.span(), "mutation through a pattern of a non-place") };
                if !matches!(body.tail, Tail::Yield(_)) || pat.contains("..") || pat.contains('|') || pat.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|t| t == "_") { return err(a.span(), "mutation through a pattern"); }
                if let Tail::Yield(e) = &body.tail { if !e.trivial() { let e = e.clone(); let t = self.bind(e, &mut body.items); body.tail = Tail::Yield(t); } }
                let upd = self.rebuild(pl, Ex::raw(pat.clone(), s.ty.clone()));
                body.items.push(Item::Let(pl.root.emit.clone(), upd));
                let root = pl.root.clone();
                self.mark_mut(&root);
            }
            self.env = env0.clone();
            arms.push(Arm { pat, guard, body });
        }
        Ok((s, arms))
    }
    fn tail_ty(&mut self, b: &Block) -> Ty {
        match &b.tail {
            Tail::Yield(e) => e.ty.clone(),
            Tail::If(_, a, c) => { let x = self.tail_ty(a); let y = self.tail_ty(c); self.inf.unify(&x, &y); if x == Ty::Never { y } else { x } }
            Tail::Match(_, arms) => {
                let mut t = Ty::Never;
                for a in arms { let y = self.tail_ty(&a.body); if t == Ty::Never { t = y } else { self.inf.unify(&t, &y) } }
                t
            }
            _ => Ty::Never,
        }
    }
    /// Place a lowered branching tail into expression position.
    fn join(&mut self, code: Block, muts: Vec<Rc<Local>>, items: &mut Vec<Item>) -> Ex {
        let ty = self.tail_ty(&code);
        let vars: Vec<String> = muts.iter().map(|l| l.emit.clone()).collect();
        if vars.is_empty() && !code.exits() {
            return match code {
                Block { items: i, tail: Tail::If(c, a, b) } if i.is_empty() => Ex { k: K::If(Box::new(c), a, b), ty },
                Block { items: i, tail: Tail::Match(s, arms) } if i.is_empty() => Ex { k: K::Match(Box::new(s), arms), ty },
                code => Ex { k: K::Block(Box::new(code)), ty },
            };
        }
        let unit = self.inf.shallow(&ty).is_unit() || ty == Ty::Never;
        let pat = if unit { "_".to_string() } else { self.temp("j") };
        let v = if unit { Ex::unit() } else { Ex::raw(pat.clone(), ty) };
        items.push(Item::Join { pat, vars, code });
        v
    }

    // ------------------------------------------------------------ places
    pub fn try_place(&mut self, e: &syn::Expr) -> Option<Place> {
        match e {
            syn::Expr::Paren(p) => self.try_place(&p.expr),
            syn::Expr::Reference(r) => self.try_place(&r.expr),
            syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => self.try_place(&u.expr),
            syn::Expr::Path(p) if p.path.segments.len() == 1 => {
                let l = self.lookup(&p.path.segments[0].ident.to_string())?;
                let ty = l.ty.borrow().clone();
                Some(Place { root: l, projs: vec![], ty })
            }
            syn::Expr::Field(f) => {
                let mut pl = self.try_place(&f.base)?;
                let n = match &f.member { syn::Member::Named(i) => i.to_string(), syn::Member::Unnamed(i) => i.index.to_string() };
                let t = self.field_ty(&pl.ty, &n)?;
                pl.projs.push((n, pl.ty.clone()));
                pl.ty = t;
                Some(pl)
            }
            // `x.as_mut().expect(..)`: the contents of an option as a place
            syn::Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "expect" | "unwrap") => {
                let syn::Expr::MethodCall(a) = &*m.receiver else { return None };
                if a.method != "as_mut" { return None; }
                let mut pl = self.try_place(&a.receiver)?;
                let Ty::Named(h, v) = self.inf.shallow(&pl.ty) else { return None };
                if h != "Option" { return None; }
                pl.projs.push(("?".into(), pl.ty.clone()));
                pl.ty = v[0].clone();
                Some(pl)
            }
            // a method that returns a `&mut` projection of its receiver
            syn::Expr::MethodCall(m) if m.args.is_empty() && self.m.projections.iter().any(|(k, _)| k.1 == m.method.to_string()) => {
                let b = self.try_place(&m.receiver)?;
                let h = self.inf.shallow(&b.ty).head()?.to_string();
                let body = self.m.projections.get(&(h, m.method.to_string()))?.clone();
                struct Sub<'a>(&'a syn::Expr);
                impl<'a> syn::visit_mut::VisitMut for Sub<'a> {
                    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
                        if matches!(e, syn::Expr::Path(p) if p.path.is_ident("self")) { *e = self.0.clone(); return; }
                        syn::visit_mut::visit_expr_mut(self, e);
                    }
                }
                let mut body = body;
                syn::visit_mut::VisitMut::visit_expr_mut(&mut Sub(&m.receiver), &mut body);
                self.try_place(&body)
            }
            _ => None,
        }
    }
    fn field_ty(&mut self, t: &Ty, f: &str) -> Option<Ty> {
        let t = self.inf.shallow(t);
        if let Ty::Tuple(v) = &t { return v.get(f.parse::<usize>().ok()?).cloned(); }
        match self.struct_fields(&t)? {
            Fields::Named(v) => v.into_iter().find(|(n, _)| n == f).map(|x| x.1),
            Fields::Tuple(v) => v.get(f.parse::<usize>().ok()?).cloned(),
            Fields::Unit => None,
        }
    }
    fn place_ex(&self, p: &Place) -> Ex {
        let mut e = self.var(&p.root);
        for (i, (f, _)) in p.projs.iter().enumerate() {
            let ty = p.projs.get(i + 1).map(|x| x.1.clone()).unwrap_or_else(|| p.ty.clone());
            e = if f == "?" { Ex { k: K::Call { f: "Option__unwrap".into(), recv: None, args: vec![e], ok: OkKind::Partial, targs: vec![] }, ty } } else { Ex::field(e, f, ty) };
        }
        if p.projs.is_empty() { e.ty = p.ty.clone(); }
        e
    }
    /// The new value of the root variable after `place = v`.
    fn rebuild(&mut self, p: &Place, v: Ex) -> Ex {
        let mut bases = vec![self.var(&p.root)];
        for (f, _) in &p.projs { let b = bases.last().unwrap().clone(); bases.push(if f == "?" { Ex { k: K::Call { f: "Option__unwrap".into(), recv: None, args: vec![b], ok: OkKind::Partial, targs: vec![] }, ty: Ty::Never } } else { Ex::field(b, f, Ty::Never) }); }
        let mut cur = v;
        for (i, (f, t)) in p.projs.iter().enumerate().rev() {
            let t = self.inf.deep(t);
            let base = bases[i].clone();
            if f == "?" { cur = ctor("Some", vec![cur], t.clone()); continue; }
            cur = match &t {
                Ty::Tuple(v) => {
                    let k: usize = f.parse().unwrap();
                    Ex { k: K::Tuple((0..v.len()).map(|j| if j == k { cur.clone() } else { Ex::field(base.clone(), &j.to_string(), v[j].clone()) }).collect()), ty: t.clone() }
                }
                Ty::Named(n, _) => {
                    let one = match self.struct_fields(&t) { Some(Fields::Named(v)) => v.len() == 1, Some(Fields::Tuple(v)) => v.len() == 1, _ => false };
                    Ex { k: K::Struct { path: n.clone(), fields: vec![(f.clone(), cur)], base: if one { None } else { Some(Box::new(base)) } }, ty: t.clone() }
                }
                _ => Ex { k: K::Struct { path: "__unknown_place__".into(), fields: vec![(f.clone(), cur)], base: Some(Box::new(base)) }, ty: t.clone() },
            };
        }
        cur
    }
    fn assign(&mut self, p: &Place, v: Ex, items: &mut Vec<Item>) {
        let x = self.rebuild(p, v);
        self.inf.unify(&p.ty, &Ty::Never);
        let root = p.root.clone();
        if root.id != usize::MAX { self.mark_mut(&root); }
        items.push(Item::Let(root.emit.clone(), x));
    }

    // ------------------------------------------------------------ expressions
    fn coerce(&mut self, x: Ex, t: Option<&Ty>) -> Ex {
        let Some(t) = t else { return x };
        if let K::IntLit(_) = x.k { if self.inf.shallow(t).head() == Some("u8") { return Ex { ty: Ty::n("u8"), ..x }; } }
        x
    }
    /// Bind a non-trivial expression to a temporary (to fix its place in the evaluation order).
    fn bind(&mut self, x: Ex, items: &mut Vec<Item>) -> Ex {
        if matches!(x.k, K::IntLit(_) | K::Closure { .. }) { return x; }
        let t = self.temp("v");
        let ty = x.ty.clone();
        items.push(Item::Let(t.clone(), x));
        Ex::raw(t, ty)
    }
    fn exprs(&mut self, es: &[&syn::Expr], tys: &[Option<Ty>], items: &mut Vec<Item>) -> R<Vec<Ex>> {
        let mut out: Vec<Ex> = vec![];
        for (i, e) in es.iter().enumerate() {
            let n = items.len();
            let mut sub = vec![];
            let t = tys.get(i).cloned().flatten();
            let x = self.expr(e, &mut sub, t.as_ref())?;
            let x = self.coerce(x, t.as_ref());
            if let Some(t) = &t { self.inf.unify(t, &x.ty); }
            if !sub.is_empty() {
                // earlier arguments are evaluated first
                let mutates = sub.iter().any(|s| matches!(s, Item::Let(..) | Item::Join { .. } | Item::LetScope { .. } | Item::Loop(_)));
                for o in out.iter_mut() {
                    if !matches!(o.k, K::IntLit(_) | K::Closure { .. }) && (mutates || !o.trivial()) {
                        let c = o.clone();
                        *o = self.bind(c, items);
                    }
                }
            }
            let _ = n;
            items.extend(sub);
            out.push(x);
        }
        Ok(out)
    }
    pub fn expr(&mut self, e: &syn::Expr, items: &mut Vec<Item>, expect: Option<&Ty>) -> R<Ex> {
        match e {
            syn::Expr::Paren(p) => self.expr(&p.expr, items, expect),
            syn::Expr::Group(p) => self.expr(&p.expr, items, expect),
            syn::Expr::Reference(r) => self.expr(&r.expr, items, expect),
            syn::Expr::Lit(l) => Ok(match &l.lit {
                syn::Lit::Int(i) => { let mut ty = Ty::int(); if i.suffix() == "u8" && !self.ctx.builder { ty = Ty::n("u8"); } if self.inf.open_lits && expect.map(|t| matches!(self.inf.shallow(t), Ty::Var(_))).unwrap_or(true) { ty = self.inf.fresh(); self.inf.lits.push(ty.clone()); } let d = i.base10_digits().to_string(); self.coerce(Ex { k: K::IntLit(d), ty }, expect) }
                syn::Lit::Bool(b) => Ex::raw(b.value.to_string(), Ty::boolean()),
                syn::Lit::Str(l) if self.ctx.mini && expect.map(|t| self.inf.shallow(t).head() != Some("Str")).unwrap_or(true) => match crate::minimize::txt(&l.value()) { Some(n) => Ex::raw(format!("{}()", n), Ty::n("Txt")), None => return err(e.span(), "text") },
                syn::Lit::Str(_) => Ex::raw("Str", Ty::n("Str")),
                _ => return err(e.span(), "literal"),
            }),
            syn::Expr::Path(p) => self.path_expr(p, e.span()),
            syn::Expr::Tuple(t) => {
                let tys: Vec<Option<Ty>> = match expect.map(|t| self.inf.shallow(t)) { Some(Ty::Tuple(v)) => v.into_iter().map(Some).collect(), _ => vec![] };
                let v = self.exprs(&t.elems.iter().collect::<Vec<_>>(), &tys, items)?;
                let ty = Ty::Tuple(v.iter().map(|x| x.ty.clone()).collect());
                if v.is_empty() { return Ok(Ex::unit()); }
                Ok(Ex { k: K::Tuple(v), ty })
            }
            syn::Expr::Unary(u) => {
                let x = match u.op { syn::UnOp::Deref(_) => return self.expr(&u.expr, items, expect), _ => self.expr(&u.expr, items, None)? };
                let ty = x.ty.clone();
                match u.op {
                    syn::UnOp::Neg(_) => Ok(Ex { k: K::Un("-".into(), Box::new(x)), ty }),
                    syn::UnOp::Not(_) => {
                        if self.inf.shallow(&ty).head() == Some("int") { Ok(Ex { k: K::Call { f: "int_not".into(), recv: None, args: vec![x], ok: OkKind::Total, targs: vec![] }, ty }) }
                        else { Ok(Ex { k: K::Un("!".into(), Box::new(x)), ty: Ty::boolean() }) }
                    }
                    _ => err(e.span(), "unary operator"),
                }
            }
            syn::Expr::Binary(b) => self.binary(b, items),
            syn::Expr::Field(f) => {
                let b = self.expr(&f.base, items, None)?;
                let n = match &f.member { syn::Member::Named(i) => i.to_string(), syn::Member::Unnamed(i) => i.index.to_string() };
                let bt = self.inf.shallow(&b.ty);
                let Some(t) = self.field_ty(&bt, &n) else {
                    // the compiler's `Layout` dereferences to a struct whose fields have the names of its methods
                    if bt.head() == Some("RsLayout") && matches!(&*f.base, syn::Expr::Path(_)) {
                        if let syn::Member::Named(i) = &f.member {
                            let m = syn::ExprMethodCall { attrs: vec![], receiver: f.base.clone(), dot_token: Default::default(), method: i.clone(), turbofish: None, paren_token: Default::default(), args: Default::default() };
                            return self.method(&m, items, expect);
                        }
                    }
                    return err(e.span(), format!("field {} of {:?}", n, bt));
                };
                Ok(Ex::field(b, &n, t))
            }
            syn::Expr::Struct(s) => self.struct_expr(s, items),
            syn::Expr::Block(b) => {
                let start = self.begin();
                let blk = self.block(&b.block, expect);
                let (m, _) = self.end(start);
                Ok(self.join(blk?, m, items))
            }
            syn::Expr::If(_) | syn::Expr::Match(_) => {
                let start = self.begin();
                let mut pre = vec![];
                let tail = match e {
                    syn::Expr::If(i) => self.if_tail(i, &mut pre, expect),
                    syn::Expr::Match(mt) => self.match_arms(mt, &mut pre, expect).map(|(s, arms)| Tail::Match(s, arms)),
                    _ => unreachable!(),
                };
                let (m, _) = self.end(start);
                let tail = tail?;
                items.extend(pre);
                Ok(self.join(Block { items: vec![], tail }, m, items))
            }
            syn::Expr::Try(t) => {
                if let syn::Expr::MethodCall(mc) = &*t.expr {
                    if mc.method == "try_map" && mc.args.len() == 1 && self.should_loopify(&mc.args[0], None) {
                        let (pre, f) = callee(&mc.args[0]);
                        let recv = &mc.receiver;
                        let d: syn::Expr = syn::parse_quote!({ #pre let mut acc__ = List::new(); for a__ in #recv { acc__.push(#f(a__)?); } acc__ });
                        return self.expr(&d, items, expect);
                    }
                }
                let r = self.inf.shallow(&self.ret_ty());
                let exp = match (&r, expect) {
                    (Ty::Named(n, a), Some(x)) if n == "Result" && a.len() == 2 => Some(Ty::Named("Result".into(), vec![x.clone(), a[1].clone()])),
                    (Ty::Named(n, _), Some(x)) if n == "Option" => Some(Ty::opt(x.clone())),
                    _ => None,
                };
                let x = self.expr(&t.expr, items, exp.as_ref())?;
                self.try_item(x, items, e.span())
            }
            syn::Expr::Assign(a) => {
                let Some(p) = self.try_place(&a.left) else { return err(e.span(), "assignment to unsupported place") };
                let lhs_deref = matches!(&*a.left, syn::Expr::Unary(_));
                if lhs_deref { self.deref_assigned.insert(p.root.id); }
                let t = p.ty.clone();
                let v = self.expr(&a.right, items, Some(&t))?;
                let v = self.coerce(v, Some(&t));
                self.inf.unify(&t, &v.ty);
                self.assign(&p, v, items);
                Ok(Ex::unit())
            }
            syn::Expr::Call(c) => {
                let open = self.ctx.builder && matches!(&*c.func, syn::Expr::Path(p) if last(&p.path) == "from_elem");
                if open { self.inf.open_lits = true; }
                let r = self.call(c, items, expect);
                if open { self.inf.open_lits = false; }
                r
            }
            syn::Expr::MethodCall(m) => self.method(m, items, expect),
            syn::Expr::Macro(m) => self.macro_expr(&m.mac, items, expect, e.span()),
            syn::Expr::Closure(c) => {
                let ty = expect.cloned();
                self.closure_value(c, ty.as_ref(), e.span())
            }
            syn::Expr::ForLoop(f) => self.for_loop(f, items),
            syn::Expr::While(w) => self.while_loop(w, items),
            syn::Expr::Return(_) | syn::Expr::Continue(_) | syn::Expr::Break(_) => {
                let b = self.tail(e, vec![], None)?;
                items.push(Item::Join { pat: "_".into(), vars: vec![], code: b });
                Ok(Ex { k: K::Panic, ty: Ty::Never })
            }
            syn::Expr::Range(r) => {
                let (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) else { return err(e.span(), "range expression") };
                let v = self.exprs(&[a, b], &[Some(Ty::int()), Some(Ty::int())], items)?;
                Ok(Ex { k: K::Call { f: "List__range".into(), recv: None, args: v, ok: OkKind::Total, targs: vec![] }, ty: Ty::list(Ty::int()) })
            }
            syn::Expr::Cast(c) if self.ctx.mini => {
                let x = self.expr(&c.expr, items, None)?;
                let h = self.inf.shallow(&x.ty);
                let syn::Type::Path(p) = &*c.ty else { return err(e.span(), "cast") };
                let x = match h.head() { Some("u8") => Ex::raw(format!("({} as int)", crate::print::val(&x)), Ty::int()), Some("int") => x, Some("bool") => Ex::raw(format!("(if {} {{ 1int }} else {{ 0int }})", crate::print::val(&x)), Ty::int()), _ => return err(e.span(), "cast of a non-integer") };
                let (signed, bits) = match last(&p.path).as_str() { "u8" => return err(e.span(), "cast to u8"), "u16" => (false, 16), "u32" => (false, 32), "u64" | "usize" => (false, 64), "u128" => (false, 128), "i8" => (true, 8), "i16" => (true, 16), "i32" => (true, 32), "i64" | "isize" => (true, 64), "i128" => (true, 128), _ => return err(e.span(), "cast") };
                let f = Ex::raw(signed.to_string(), Ty::boolean());
                let b = Ex { k: K::IntLit(bits.to_string()), ty: Ty::int() };
                Ok(Ex { k: K::Call { f: "int_as".into(), recv: None, args: vec![x, f, b], ok: OkKind::Total, targs: vec![] }, ty: Ty::int() })
            }
            syn::Expr::Cast(_) => err(e.span(), "cast"),
            _ => err(e.span(), "unsupported expression"),
        }
    }
    fn try_item(&mut self, x: Ex, items: &mut Vec<Item>, sp: proc_macro2::Span) -> R<Ex> {
        let t = self.inf.shallow(&x.ty);
        let r = self.inf.shallow(&self.ret_ty());
        let var = self.temp("q");
        let (option, vt) = match &t {
            Ty::Named(n, a) if n == "Nondet" => { let _ = a; return Ok(Ex { ty: a[0].clone(), ..x }); }
            Ty::Named(n, a) if n == "Option" => (true, a[0].clone()),
            Ty::Named(n, a) if n == "Result" => (false, a[0].clone()),
            _ => match r.head() {
                Some("Option") => { let a = self.inf.fresh(); self.inf.unify(&t, &Ty::opt(a.clone())); (true, a) }
                Some("Result") => { let a = self.inf.fresh(); let e = self.inf.fresh(); self.inf.unify(&t, &Ty::Named("Result".into(), vec![a.clone(), e])); (false, a) }
                _ => return err(sp, format!("`?` on a value of unknown type {:?}", t)),
            },
        };
        if let Ty::Var(_) = r {
            if option { let a = self.inf.fresh(); self.inf.unify(&r, &Ty::opt(a)); }
            else { let a = self.inf.fresh(); self.inf.unify(&r, &Ty::Named("Result".into(), vec![a, Ty::n("TerminationInfo")])); }
        }
        let unit = self.inf.shallow(&vt).is_unit();
        items.push(Item::Try { var: if unit { "_".into() } else { var.clone() }, ex: x, option });
        Ok(if unit { Ex::unit() } else { Ex::raw(var, vt) })
    }
    fn const_call(&mut self, path: &str) -> Option<Ex> {
        if let Some(t) = self.m.consts.get(path) { let t = t.clone(); self.calls.insert(path.to_string()); return Some(Ex::raw(format!("{}()", fname(path)), t)); }
        match path {
            "int::ZERO" => Some(Ex { k: K::IntLit("0".into()), ty: Ty::int() }),
            "int::ONE" => Some(Ex { k: K::IntLit("1".into()), ty: Ty::int() }),
            "Size::ZERO" => Some(Ex::raw("Size__ZERO()", Ty::n("Size"))),
            "Align::ONE" => Some(Ex::raw("Align__ONE()", Ty::n("Align"))),
            _ => None,
        }
    }
    /// Resolve the type prefix of a path (`Foo::bar` -> head of Foo).
    fn path_head(&mut self, p: &syn::ExprPath) -> R<Option<(Ty, String)>> {
        let n = p.path.segments.len();
        if n < 2 { return Ok(None); }
        let method = last(&p.path);
        let mut tp = p.path.clone();
        tp.segments = p.path.segments.iter().take(n - 1).cloned().collect();
        if let Some(pair) = tp.segments.pop() { tp.segments.push(pair.into_value()); }
        let first = tp.segments[0].ident.to_string();
        // crate::mod::f
        if ["crate", "libspecr", "std", "mem", "lang"].contains(&first.as_str()) && tp.segments.len() == 1 { return Ok(None); }
        if let Some((_, en, false)) = self.uses.iter().rev().find(|(a, _, g)| !*g && *a == first) { if tp.segments.len() == 1 { return Ok(Some((Ty::n(en), method))); } }
        let bare = tp.segments.len() == 1 && self.m.types.contains_key(&first) && matches!(tp.segments[0].arguments, syn::PathArguments::None);
        let t = self.m.ty(&syn::Type::Path(syn::TypePath { qself: p.qself.clone().filter(|_| false), path: tp }), &self.ctx)?;
        // type arguments left out in an expression are inferred, not defaulted
        let t = match t { Ty::Named(n, a) if bare => Ty::Named(n, a.iter().map(|_| self.inf.fresh()).collect()), t => t };
        let t = self.freshen(&t);
        Ok(Some((t, method)))
    }
    fn path_expr(&mut self, p: &syn::ExprPath, sp: proc_macro2::Span) -> R<Ex> {
        let s = Self::segs(&p.path);
        if s.len() == 1 {
            if let Some(l) = self.lookup(&s[0]) {
                if let LKind::Closure(c) = &l.kind {
                    let c = c.clone();
                    // a closure variable used as a value
                    let save = (self.env.clone(), self.ctx.clone());
                    self.env = c.env.clone(); self.ctx = c.ctx.clone();
                    let r = self.closure_value(&c.ex, c.expect.as_ref(), sp);
                    self.env = save.0; self.ctx = save.1;
                    return r;
                }
                return Ok(self.var(&l));
            }
            if s[0] == "None" { let a = self.inf.fresh(); return Ok(Ex::raw("None", Ty::opt(a))); }
        }
        if s.last().unwrap() == "PhantomData" { return Ok(Ex::unit()); }
        // constants of types
        if let Some((t, name)) = self.path_head(p)? {
            if let Some(h) = self.inf.shallow(&t).head() {
                let h = h.to_string();
                let h = if s[0] == "Self" && self.ctx.self_target.is_some() { self.ctx.self_target.clone().unwrap() } else { h };
                if let Some(x) = self.const_call(&format!("{}::{}", h, name)) { return Ok(x); }
            }
        }
        if let Some((e, v)) = self.enum_variant(&s) {
            let (_, t) = self.variant_fields(&e, &v);
            return Ok(Ex::raw(format!("{}::{}", e, v), t));
        }
        if s.len() == 1 && self.m.types.contains_key(&s[0]) { return Ok(Ex::raw(s[0].clone(), Ty::n(&s[0]))); }
        // a function used as a value
        err(sp, format!("unknown path {}", s.join("::")))
    }
    fn struct_expr(&mut self, s: &syn::ExprStruct, items: &mut Vec<Item>) -> R<Ex> {
        let segs = Self::segs(&s.path);
        let last_s = segs.last().unwrap().clone();
        if last_s == "IntDistribution" {
            let v = self.exprs(&s.fields.iter().map(|f| &f.expr).collect::<Vec<_>>(), &[], items)?;
            let fields = s.fields.iter().zip(v).map(|(f, x)| (mem_name(&f.member), x)).collect();
            return Ok(Ex { k: K::Struct { path: last_s, fields, base: None }, ty: Ty::n("IntDistribution") });
        }
        let (path, fs, ty) = if let Some((e, v)) = self.enum_variant(&segs) {
            let (f, t) = self.variant_fields(&e, &v);
            (format!("{}::{}", e, v), f, t)
        } else {
            let t = if segs.len() == 1 && segs[0] == "Self" { self.ctx.self_ty.clone().ok_or("Self")? } else {
                let n = last_s.clone();
                let Some(d) = self.m.types.get(&n) else { return err(s.span(), format!("unknown struct {}", n)) };
                Ty::Named(n, d.generics.iter().map(|_| self.inf.fresh()).collect())
            };
            let Some(f) = self.struct_fields(&t) else { return err(s.span(), "struct literal") };
            (t.head().unwrap().to_string(), f, t)
        };
        let Fields::Named(fs) = fs else { return err(s.span(), "struct literal of tuple type") };
        let tys: Vec<Option<Ty>> = s.fields.iter().map(|f| fs.iter().find(|(n, _)| *n == mem_name(&f.member)).map(|x| x.1.clone())).collect();
        let mut exprs: Vec<&syn::Expr> = s.fields.iter().map(|f| &f.expr).collect();
        if let Some(r) = &s.rest { exprs.push(r); }
        let mut v = self.exprs(&exprs, &tys, items)?;
        let base = if s.rest.is_some() { let b = v.pop().unwrap(); self.inf.unify(&ty, &b.ty); Some(Box::new(b)) } else { None };
        let fields: Vec<(String, Ex)> = s.fields.iter().zip(v).map(|(f, x)| (mem_name(&f.member), x)).collect();
        let base = if fields.len() == fs.len() { None } else { base };
        Ok(Ex { k: K::Struct { path, fields, base }, ty })
    }
    fn binary(&mut self, b: &syn::ExprBinary, items: &mut Vec<Item>) -> R<Ex> {
        use syn::BinOp::*;
        match b.op {
            And(_) | Or(_) => {
                let l = self.expr(&b.left, items, Some(&Ty::boolean()))?;
                let mut sub = vec![];
                let start = self.begin();
                let r = self.expr(&b.right, &mut sub, Some(&Ty::boolean()));
                let (m, _) = self.end(start);
                let r = r?;
                if !sub.is_empty() {
                    // short-circuit with effects on the right
                    let other = if matches!(b.op, And(_)) { "false" } else { "true" };
                    let rb = Block { items: sub, tail: Tail::Yield(r) };
                    let ob = Block::yld(Ex::raw(other, Ty::boolean()));
                    let (x, y) = if matches!(b.op, And(_)) { (rb, ob) } else { (ob, rb) };
                    return Ok(self.join(Block { items: vec![], tail: Tail::If(l, Box::new(x), Box::new(y)) }, m, items));
                }
                let k = if matches!(b.op, And(_)) { K::And(Box::new(l), Box::new(r)) } else { K::Or(Box::new(l), Box::new(r)) };
                return Ok(Ex { k, ty: Ty::boolean() });
            }
            AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | ShlAssign(_) | ShrAssign(_) | BitAndAssign(_) | BitOrAssign(_) | BitXorAssign(_) => {
                let Some(p) = self.try_place(&b.left) else { return err(b.span(), "op-assign to unsupported place") };
                let r = self.expr(&b.right, items, None)?;
                let l = self.place_ex(&p);
                let op = match b.op { AddAssign(_) => "+", SubAssign(_) => "-", MulAssign(_) => "*", DivAssign(_) => "/", RemAssign(_) => "%", ShlAssign(_) => "<<", ShrAssign(_) => ">>", BitAndAssign(_) => "&", BitOrAssign(_) => "|", _ => "^" };
                let v = self.arith(op, l, r, b.span())?;
                self.assign(&p, v, items);
                return Ok(Ex::unit());
            }
            _ => {}
        }
        let v = self.exprs(&[&b.left, &b.right], &[], items)?;
        let mut it = v.into_iter();
        let (mut l, mut r) = (it.next().unwrap(), it.next().unwrap());
        let op = match b.op {
            Add(_) => "+", Sub(_) => "-", Mul(_) => "*", Div(_) => "/", Rem(_) => "%", Shl(_) => "<<", Shr(_) => ">>", BitAnd(_) => "&", BitOr(_) => "|", BitXor(_) => "^",
            Eq(_) => "==", Ne(_) => "!=", Lt(_) => "<", Le(_) => "<=", Gt(_) => ">", Ge(_) => ">=",
            _ => return err(b.span(), "operator"),
        };
        match op {
            "==" | "!=" => {
                let (tl, tr) = (l.ty.clone(), r.ty.clone());
                l = self.coerce(l, Some(&tr)); r = self.coerce(r, Some(&tl));
                self.inf.unify(&l.ty, &r.ty);
                Ok(Ex { k: K::Bin(op.into(), Box::new(l), Box::new(r)), ty: Ty::boolean() })
            }
            "<" | "<=" | ">" | ">=" => {
                let (hl, hr) = (self.inf.shallow(&l.ty), self.inf.shallow(&r.ty));
                let fix = |x: Ex, t: &Ty| if matches!(t.head(), Some("Size") | Some("Align")) { Ex::field(x, "raw", Ty::int()) } else { x };
                if hl.head() == Some("Size") && !matches!(hr.head(), Some("Size")) { return err(b.span(), "comparison of Size with another type"); }
                let (l, r) = (fix(l, &hl), fix(r, &hr));
                for t in [&hl, &hr] { if !matches!(t.head(), Some("Size") | Some("Align") | Some("int") | Some("u8")) { return err(b.span(), format!("ordering comparison on {:?}", t)); } }
                Ok(Ex { k: K::Bin(op.into(), Box::new(l), Box::new(r)), ty: Ty::boolean() })
            }
            _ => self.arith(op, l, r, b.span()),
        }
    }
    fn arith(&mut self, op: &str, l: Ex, r: Ex, sp: proc_macro2::Span) -> R<Ex> {
        let (tl, tr) = (self.inf.shallow(&l.ty), self.inf.shallow(&r.ty));
        let (hl, hr) = (tl.head().unwrap_or("?").to_string(), tr.head().unwrap_or("?").to_string());
        let call = |f: &str, ok, l: Ex, r: Ex, ty| Ex { k: K::Call { f: f.into(), recv: None, args: vec![l, r], ok, targs: vec![] }, ty };
        match (op, hl.as_str(), hr.as_str()) {
            ("&" | "|" | "^", "bool", _) => {
                let k = match op { "&" => K::Bin("&&".into(), Box::new(l), Box::new(r)), "|" => K::Bin("||".into(), Box::new(l), Box::new(r)), _ => K::Bin("!=".into(), Box::new(l), Box::new(r)) };
                Ok(Ex { k, ty: Ty::boolean() })
            }
            ("+", "Size", "Size") => Ok(call("size_add", OkKind::Total, l, r, Ty::n("Size"))),
            ("*", "Size", "int") => Ok(call("size_mul", OkKind::Partial, l, r, Ty::n("Size"))),
            ("*", "int", "Size") => Ok(call("size_mul", OkKind::Partial, r, l, Ty::n("Size"))),
            (_, "int" | "u8", "int" | "u8") => {
                let ty = Ty::int();
                let l = if hl == "u8" { Ex::raw(format!("({} as int)", crate::print::val(&l)), Ty::int()) } else { l };
                let r = if hr == "u8" { Ex::raw(format!("({} as int)", crate::print::val(&r)), Ty::int()) } else { r };
                match op {
                    "+" | "-" | "*" => Ok(Ex { k: K::Bin(op.into(), Box::new(l), Box::new(r)), ty }),
                    "/" => Ok(call("int_div", OkKind::Partial, l, r, ty)),
                    "%" => Ok(call("int_rem", OkKind::Partial, l, r, ty)),
                    "<<" => Ok(call("int_shl", OkKind::Partial, l, r, ty)),
                    ">>" => Ok(call("int_shr", OkKind::Partial, l, r, ty)),
                    "&" => Ok(call("int_and", OkKind::Total, l, r, ty)),
                    "|" => Ok(call("int_or", OkKind::Total, l, r, ty)),
                    "^" => Ok(call("int_xor", OkKind::Total, l, r, ty)),
                    _ => err(sp, "operator"),
                }
            }
            _ => err(sp, format!("operator {} on {:?} and {:?}", op, tl, tr)),
        }
    }

    // ------------------------------------------------------------ macros
    fn macro_expr(&mut self, m: &syn::Macro, items: &mut Vec<Item>, expect: Option<&Ty>, sp: proc_macro2::Span) -> R<Ex> {
        let n = Self::macro_name(m);
        match n.as_str() {
            "list" | "vec" => {
                let elem = match expect.map(|t| self.inf.shallow(t)) { Some(Ty::Named(h, a)) if h == "List" => a[0].clone(), _ => self.inf.fresh() };
                if let Ok(r) = m.parse_body_with(|p: syn::parse::ParseStream| -> syn::Result<(syn::Expr, syn::Expr)> { let a = p.parse()?; p.parse::<syn::Token![;]>()?; let b = p.parse()?; Ok((a, b)) }) {
                    // the type of a literal element may be decided by the later uses of the list
                    self.inf.open_lits = self.ctx.builder;
                    let x = self.exprs(&[&r.0], &[Some(elem.clone())], items);
                    self.inf.open_lits = false;
                    let mut v = x?;
                    v.extend(self.exprs(&[&r.1], &[Some(Ty::int())], items)?);
                    return Ok(Ex { k: K::Call { f: "List__from_elem".into(), recv: None, args: v, ok: OkKind::Partial, targs: vec![elem.clone()] }, ty: Ty::list(elem) });
                }
                let es = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated).map_err(|e| format!("list!: {}", e))?;
                let es: Vec<&syn::Expr> = es.iter().collect();
                let tys: Vec<Option<Ty>> = es.iter().map(|_| Some(elem.clone())).collect();
                let v = self.exprs(&es, &tys, items)?;
                let mut cur = Ex { k: K::Call { f: "List__new".into(), recv: None, args: vec![], ok: OkKind::Total, targs: vec![elem.clone()] }, ty: Ty::list(elem.clone()) };
                for x in v { cur = Ex { k: K::Call { f: "List__push".into(), recv: None, args: vec![cur, x], ok: OkKind::Total, targs: vec![elem.clone()] }, ty: Ty::list(elem.clone()) }; }
                Ok(cur)
            }
            "matches" => {
                let (e, p, g) = m.parse_body_with(|p: syn::parse::ParseStream| -> syn::Result<(syn::Expr, syn::Pat, Option<syn::Expr>)> {
                    let a = p.parse()?; p.parse::<syn::Token![,]>()?;
                    let b = syn::Pat::parse_multi_with_leading_vert(p)?;
                    let g = if p.peek(syn::Token![if]) { p.parse::<syn::Token![if]>()?; Some(p.parse()?) } else { None };
                    let _ = p.parse::<Option<syn::Token![,]>>()?;
                    Ok((a, b, g))
                }).map_err(|e| format!("matches!: {}", e))?;
                let s = self.expr(&e, items, None)?;
                let env0 = self.env.clone();
                let pat = self.pat(&p, &s.ty)?;
                let guard = match g { Some(g) => { let mut its = vec![]; let x = self.expr(&g, &mut its, None)?; if !its.is_empty() { return err(sp, "effects in matches! guard"); } Some(x) } None => None };
                self.env = env0;
                let yes = Block::yld(Ex::raw("true", Ty::boolean()));
                let nope = Block::yld(Ex::raw("false", Ty::boolean()));
                Ok(Ex { k: K::Match(Box::new(s), vec![Arm { pat, guard, body: yes }, Arm { pat: "_".into(), guard: None, body: nope }]), ty: Ty::boolean() })
            }
            "assert" | "debug_assert" => {
                let es = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated).map_err(|e| format!("assert!: {}", e))?;
                let x = self.expr(&es[0], items, Some(&Ty::boolean()))?;
                items.push(Item::Assert(x));
                Ok(Ex::unit())
            }
            "assert_eq" | "assert_ne" => {
                let es = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated).map_err(|e| format!("assert_eq!: {}", e))?;
                let v = self.exprs(&[&es[0], &es[1]], &[], items)?;
                let (a, b) = (v[0].ty.clone(), v[1].ty.clone());
                self.inf.unify(&a, &b);
                let op = if n == "assert_eq" { "==" } else { "!=" };
                items.push(Item::Assert(Ex { k: K::Bin(op.into(), Box::new(v[0].clone()), Box::new(v[1].clone())), ty: Ty::boolean() }));
                Ok(Ex::unit())
            }
            // the text written to the output stream is not modelled
            "write" | "writeln" => Ok(Ex::raw("Ok(())", Ty::Named("Result".into(), vec![Ty::unit(), Ty::n("Str")]))),
            "format" if self.ctx.mini => err(sp, "formatted text"),
            "format" => Ok(Ex::raw("Str", Ty::n("Str"))),
            "panic" | "unreachable" | "todo" | "unimplemented" | "span_bug" | "bug" => Ok(Ex { k: K::Panic, ty: Ty::Never }),
            _ if n.starts_with("throw") => {
                let t = self.throw(&n, sp)?;
                items.push(Item::Join { pat: "_".into(), vars: vec![], code: Block { items: vec![], tail: t } });
                Ok(Ex { k: K::Panic, ty: Ty::Never })
            }
            _ => err(sp, format!("macro {}!", n)),
        }
    }

    // ------------------------------------------------------------ calls
    fn inst_sig(&mut self, s: &FnSig, self_ty: Option<&Ty>) -> (Vec<(Ty, bool)>, Ty) {
        let mut map: HashMap<String, Ty> = HashMap::new();
        for g in s.generics.iter().chain(s.impl_generics.iter()) { let v = self.inf.fresh(); map.insert(g.clone(), v); }
        self.last_targs = s.impl_generics.iter().chain(s.generics.iter()).map(|g| map[g].clone()).collect();
        let ps: Vec<(Ty, bool)> = s.params.iter().map(|p| (self.inf.inst(&p.ty, &map), p.is_mut)).collect();
        let ps: Vec<(Ty, bool)> = ps.into_iter().map(|(t, m)| (self.freshen(&t), m)).collect();
        let r = self.inf.inst(&s.ret, &map);
        let r = self.freshen(&r);
        if let Some(t) = self_ty {
            if s.has_self { self.inf.unify(&ps[0].0, t); }
            else if let Some(st) = &s.self_ty { let st = self.inf.inst(st, &map); self.inf.unify(&st, t); }
        }
        (ps, r)
    }
    fn call(&mut self, c: &syn::ExprCall, items: &mut Vec<Item>, expect: Option<&Ty>) -> R<Ex> {
        let args: Vec<&syn::Expr> = c.args.iter().collect();
        let syn::Expr::Path(p) = &*c.func else {
            let f = self.expr(&c.func, items, None)?;
            let f = self.bind_if(f, items);
            let Ty::Fn(ps, r) = self.inf.shallow(&f.ty) else { return err(c.span(), "call of a computed function") };
            self.last_targs = vec![];
            return self.finish_call(crate::print::val(&f), None, None, &ps, &r, &args, 0, OkKind::Total, items, c.span());
        };
        let segs = Self::segs(&p.path);
        let name = segs.last().unwrap().clone();
        // local closures and function parameters
        if segs.len() == 1 {
            if let Some(l) = self.lookup(&name) {
                if let LKind::Closure(cv) = &l.kind { let cv = cv.clone(); return self.inline_closure(&cv, &args, items, c.span()); }
                let t = self.inf.shallow(&l.ty.borrow().clone());
                let Ty::Fn(ps, r) = t else { return err(c.span(), "call of a non-function") };
                self.last_targs = vec![];
                let f = l.emit.clone();
                let stn = format!("{}__st", name);
                if self.env.iter().any(|l| l.name == stn) {
                    let id = syn::Ident::new(&stn, proc_macro2::Span::call_site());
                    let st: syn::Expr = syn::parse_quote!(&mut #id);
                    let mut a2 = vec![&st];
                    a2.extend(args.iter().cloned());
                    return self.finish_call(f, None, None, &ps, &r, &a2, 0, OkKind::User, items, c.span());
                }
                let ok = if self.no_ok.contains(&l.id) { OkKind::Total } else { OkKind::User };
                return self.finish_call(f, None, None, &ps, &r, &args, 0, ok, items, c.span());
            }
            match name.as_str() {
                "Some" => {
                    let e = match expect.map(|t| self.inf.shallow(t)) { Some(Ty::Named(n, a)) if n == "Option" => Some(a[0].clone()), _ => None };
                    let v = self.exprs(&args, &[e], items)?;
                    let t = Ty::opt(v[0].ty.clone());
                    return Ok(ctor("Some", v, t));
                }
                "Ok" | "Err" => {
                    let (o, e) = match expect.map(|t| self.inf.shallow(t)) { Some(Ty::Named(n, a)) if n == "Result" => (a[0].clone(), a[1].clone()), _ => (self.inf.fresh(), self.inf.fresh()) };
                    let et = if name == "Ok" { o.clone() } else { e.clone() };
                    let v = self.exprs(&args, &[Some(et.clone())], items)?;
                    self.inf.unify(&et, &v[0].ty);
                    return Ok(ctor(&name, v, Ty::Named("Result".into(), vec![o, e])));
                }
                "ret" => {
                    // `ret(x)`: wrap in the monad of the expected type
                    let mut target = expect.cloned();
                    if let syn::PathArguments::AngleBracketed(a) = &p.path.segments[0].arguments {
                        if let Some(syn::GenericArgument::Type(t)) = a.args.first() { let t = self.src_ty(t)?; target = Some(t); }
                    }
                    let mut t = match &target { Some(t) => self.inf.shallow(t), None => self.inf.shallow(&self.ret_ty()) };
                    if !matches!(t.head(), Some("Result") | Some("Option") | Some("Nondet")) { t = self.inf.shallow(&self.ret_ty()); }
                    if let Ty::Var(_) = t { let o = self.inf.fresh(); let d = Ty::Named("Result".into(), vec![o, Ty::n("TerminationInfo")]); self.inf.unify(&t, &d); t = d; }
                    let inner = match &t { Ty::Named(n, a) if n == "Result" || n == "Option" => a[0].clone(), _ => return err(c.span(), format!("ret(..) at unknown type {:?}", t)) };
                    let v = self.exprs(&args, &[Some(inner.clone())], items)?;
                    self.inf.unify(&inner, &v[0].ty);
                    let k = if t.head() == Some("Option") { "Some" } else { "Ok" };
                    return Ok(ctor(k, v, t));
                }
                "pick" => {
                    let d = self.expr(args[0], items, Some(&Ty::n("IntDistribution")))?;
                    let ft = Ty::Fn(vec![(Ty::int(), false)], Box::new(Ty::boolean()));
                    let f = self.expr(args[1], items, Some(&ft))?;
                    return Ok(Ex { k: K::Call { f: "nd_pick".into(), recv: None, args: vec![d, f], ok: OkKind::Total, targs: vec![Ty::n("TerminationInfo")] }, ty: Ty::Named("Result".into(), vec![Ty::int(), Ty::n("TerminationInfo")]) });
                }
                "predict" => {
                    let a = self.inf.fresh();
                    let ft = Ty::Fn(vec![(a.clone(), false)], Box::new(Ty::boolean()));
                    let f = self.expr(args[0], items, Some(&ft))?;
                    return Ok(Ex { k: K::Call { f: "nd_predict".into(), recv: None, args: vec![f], ok: OkKind::Total, targs: vec![a.clone(), Ty::n("TerminationInfo")] }, ty: Ty::Named("Result".into(), vec![a, Ty::n("TerminationInfo")]) });
                }
                _ => {}
            }
        }
        // enum / tuple struct constructors
        if let Some((e, v)) = self.enum_variant(&segs) {
            let (f, t) = self.variant_fields(&e, &v);
            let Fields::Tuple(tys) = f else { return err(c.span(), "constructor arity") };
            if let Some(x) = expect { if self.inf.shallow(x).head() == t.head() { self.inf.unify(&t, x); } }
            let v2 = self.exprs(&args, &tys.into_iter().map(Some).collect::<Vec<_>>(), items)?;
            return Ok(ctor(&format!("{}::{}", e, v), v2, t));
        }
        if segs.len() == 1 && self.m.types.contains_key(&name) || name == "Self" {
            let t = if name == "Self" { self.ctx.self_ty.clone().unwrap() } else { Ty::Named(name.clone(), self.m.types[&name].generics.iter().map(|_| self.inf.fresh()).collect()) };
            if let Some(Fields::Tuple(tys)) = self.struct_fields(&t) {
                let v = self.exprs(&args, &tys.into_iter().map(Some).collect::<Vec<_>>(), items)?;
                return Ok(ctor(t.head().unwrap(), v, t.clone()));
            }
        }
        if segs.len() == 2 && segs[0] == "Default" && name == "default" && args.is_empty() {
            let t = match expect { Some(t) => t.clone(), None => self.inf.fresh() };
            return Ok(Ex { k: K::Call { f: "default__".into(), recv: None, args: vec![], ok: OkKind::Total, targs: vec![] }, ty: t });
        }
        // `<i32 as Into<Int>>::into(x)`
        if p.qself.is_some() && (name == "into" || name == "from") { let mut v = self.exprs(&args, &[Some(Ty::int())], items)?; return Ok(v.pop().unwrap()); }
        if segs.len() >= 2 && name == "once" && segs[segs.len() - 2] == "iter" {
            let mut v = self.exprs(&args, &[], items)?;
            let x = v.pop().unwrap();
            let t = Ty::list(x.ty.clone());
            return Ok(Ex { k: K::Call { f: "list_once".into(), recv: None, args: vec![x], ok: OkKind::Total, targs: vec![] }, ty: t });
        }
        if segs.len() >= 2 && name == "new" && segs[segs.len() - 2] == "GcCow" {
            let e = match expect.map(|t| self.inf.shallow(t)) { Some(Ty::Named(n, a)) if n == "Box" => Some(a[0].clone()), _ => None };
            let v = self.exprs(&args, &[e], items)?;
            let t = Ty::n1("Box", v[0].ty.clone());
            return Ok(ctor("Box::new", v, t));
        }
        if let Some((t, meth)) = self.path_head(p)? {
            let sh = self.inf.shallow(&t);
            let head = sh.head().unwrap_or("?").to_string();
            let head = if segs[0] == "Self" && self.ctx.self_target.is_some() { self.ctx.self_target.clone().unwrap() } else { head };
            if head == "int" && meth == "from" {
                let mut v = self.exprs(&args, &[], items)?;
                let x = v.pop().unwrap();
                let h = self.inf.shallow(&x.ty);
                return Ok(if h.head() == Some("u8") { Ex::raw(format!("({} as int)", crate::print::val(&x)), Ty::int()) } else { Ex { ty: Ty::int(), ..x } });
            }
            let path = format!("{}::{}", head, meth);
            if let Some(s) = self.m.statics.get(&path).cloned() {
                self.calls.insert(path.clone());
                return self.call_sig(&s, Some(&sh), &args, items, c.span());
            }
            if let Some(s) = self.m.methods.get(&(head.clone(), meth.clone())).cloned() {
                // UFCS call of a method
                self.calls.insert(path.clone());
                return self.call_sig(&s, Some(&sh), &args, items, c.span());
            }
            let mpath = format!("{}::Memory__{}", head, meth);
            if let Some(s) = self.m.statics.get(&mpath).cloned() {
                self.calls.insert(mpath);
                return self.call_sig(&s, Some(&sh), &args, items, c.span());
            }
            return err(c.span(), format!("unknown function {}", path));
        }
        if let Some(s) = self.m.statics.get(&name).cloned() {
            self.calls.insert(name.clone());
            return self.call_sig(&s, None, &args, items, c.span());
        }
        err(c.span(), format!("unknown function {}", segs.join("::")))
    }
    fn call_sig(&mut self, s: &FnSig, self_ty: Option<&Ty>, args: &[&syn::Expr], items: &mut Vec<Item>, sp: proc_macro2::Span) -> R<Ex> {
        let (ps, r) = self.inst_sig(s, self_ty);
        let ta = self.last_targs.clone();
        let ok = if s.builtin { if s.partial { OkKind::Partial } else { OkKind::Total } } else { OkKind::User };
        let st = self.stateful_args(s, args, 0, sp)?;
        let st_refs: Vec<&syn::Expr> = st.iter().flatten().collect();
        let args: &[&syn::Expr] = if st.is_some() { &st_refs } else { args };
        if !s.builtin && st.is_none() && self.must_inline(args, s) { return self.inline_fn(s, self_ty, None, args, items, sp); }
        self.last_targs = ta;
        self.finish_call(fname(&s.path), None, None, &ps, &r, args, 0, ok, items, sp)
    }
    /// Emit a call: lower the arguments, thread `&mut` arguments.
    #[allow(clippy::too_many_arguments)]
    fn finish_call(&mut self, f: String, recv: Option<Ex>, recv_place: Option<Place>, ps: &[(Ty, bool)], r: &Ty, args: &[&syn::Expr], skip: usize, ok: OkKind, items: &mut Vec<Item>, sp: proc_macro2::Span) -> R<Ex> {
        let targs = std::mem::take(&mut self.last_targs);
        let aps = &ps[skip..];
        if aps.len() != args.len() { return err(sp, format!("call of {} with {} arguments", f, args.len())); }
        let mut places: Vec<Place> = vec![];
        let recv_mut = skip == 1 && ps[0].1;
        if recv_mut { if let Some(p) = &recv_place { places.push(p.clone()) } }
        let tys: Vec<Option<Ty>> = aps.iter().map(|x| Some(x.0.clone())).collect();
        let mut all: Vec<Ex> = vec![];
        // the receiver is evaluated first; a `&mut` receiver is only borrowed
        let n0 = items.len();
        let v = self.exprs(args, &tys, items)?;
        let recv = match recv {
            Some(x) if items.len() > n0 && !x.trivial() => {
                // re-evaluate order: bind before the argument items
                let t = self.temp("v");
                let ty = x.ty.clone();
                items.insert(n0, Item::Let(t.clone(), x));
                Some(Ex::raw(t, ty))
            }
            x => x,
        };
        for ((e, (t, m)), x) in args.iter().zip(aps.iter()).zip(v) {
            let x = Ex { ty: if matches!(self.inf.shallow(t), Ty::Fn(..)) { self.inf.shallow(t) } else { x.ty.clone() }, ..x };
            if *m {
                if matches!(e, syn::Expr::Reference(r) if matches!(&*r.expr, syn::Expr::Tuple(t) if t.elems.is_empty())) {
                    let l = Rc::new(Local { id: usize::MAX, name: "__unit".into(), emit: "nost__".into(), ty: RefCell::new(Ty::unit()), kind: LKind::Value });
                    places.push(Place { root: l, projs: vec![], ty: Ty::unit() });
                } else {
                    let Some(p) = self.try_place(e) else { return err(sp, "`&mut` argument is not a place") };
                    places.push(p);
                }
            }
            all.push(x);
        }
        let any_mut = ps.iter().any(|p| p.1);
        let rr = r.clone();
        let all = recv.into_iter().chain(all).collect();
        let call = Ex { k: K::Call { f, recv: None, args: all, ok, targs }, ty: rr.clone() };
        if !any_mut { return Ok(call); }
        // unpack (places..., value)
        let unit = r.is_unit();
        let mut pat = vec![];
        let mut temps = vec![];
        if recv_mut && recv_place.is_none() { pat.push("_".to_string()); }
        for p in &places { let t = self.temp("p"); pat.push(t.clone()); temps.push((p.clone(), t)); }
        let vt = self.temp("r");
        if !unit { pat.push(vt.clone()); }
        if pat.len() == 1 && temps.len() == 1 {
            let (p, _) = temps.pop().unwrap();
            self.assign(&p, call, items);
            return Ok(Ex::unit());
        }
        items.push(Item::Let(if pat.len() == 1 { pat[0].clone() } else { format!("({})", pat.join(", ")) }, call));
        for (p, t) in temps { let ty = p.ty.clone(); self.assign(&p, Ex::raw(t, ty), items); }
        Ok(if unit { Ex::unit() } else { Ex::raw(vt, rr) })
    }
    /// Does an argument contain a closure that assigns captured variables (so that the callee must be inlined)?
    fn must_inline(&mut self, args: &[&syn::Expr], sig: &FnSig) -> bool {
        let k = sig.params.len().saturating_sub(args.len());
        for (i, a) in args.iter().enumerate() {
            let ptys: Option<Vec<Ty>> = match sig.params.get(k + i).map(|p| &p.ty) {
                Some(Ty::Fn(p, _)) => Some(p.iter().map(|x| { let mut m: HashMap<String, Ty> = HashMap::new(); for g in sig.generics.iter().chain(sig.impl_generics.iter()) { let v = self.inf.fresh(); m.insert(g.clone(), v); } let t = self.inf.inst(&x.0, &m); self.freshen(&t) }).collect()),
                _ => None,
            };
            match a {
                syn::Expr::Closure(c) => { if self.closure_mutates_captures(c, ptys) { return true; } }
                syn::Expr::Path(p) if p.path.segments.len() == 1 => {
                    let n = p.path.segments[0].ident.to_string();
                    if let Some(l) = self.env.iter().rev().find(|l| l.name == n).cloned() {
                        if let LKind::Closure(c) = &l.kind {
                            let save = (std::mem::replace(&mut self.env, c.env.clone()), self.ctx.clone(), self.gsub.clone());
                            self.ctx = c.ctx.clone(); self.gsub = c.gsub.clone();
                            let r = self.closure_mutates_captures(&c.ex, ptys);
                            self.env = save.0; self.ctx = save.1; self.gsub = save.2;
                            if r { return true; }
                        }
                    }
                }
                _ => {}
            }
        }
        false
    }
    /// Calls of functions with `FnMut` parameters pass the captured state of the closure explicitly:
    /// `f(|a| body)` becomes `f(|st, a| body, &mut st)`.
    fn stateful_args(&mut self, s: &FnSig, args: &[&syn::Expr], skip: usize, sp: proc_macro2::Span) -> R<Option<Vec<syn::Expr>>> {
        if !s.params.iter().any(|p| p.name.ends_with("__st")) { return Ok(None); }
        let mut out: Vec<syn::Expr> = vec![];
        let mut it = args.iter();
        let mut i = skip;
        while i < s.params.len() {
            let Some(a) = it.next() else { return err(sp, "arity") };
            let a: syn::Expr = (*a).clone();
            let stateful = s.params[i].name.ends_with("__st");
            i += 1;
            if !stateful { out.push(a); continue; }
            i += 1;
            let mut inner = &a;
            while let syn::Expr::Reference(r) = inner { inner = &r.expr; }
            let mut lit: Option<syn::ExprClosure> = None;
            match inner {
                syn::Expr::Closure(c) => lit = Some(c.clone()),
                syn::Expr::Path(p) if p.path.segments.len() == 1 => {
                    let n = p.path.segments[0].ident.to_string();
                    let Some(l) = self.env.iter().rev().find(|l| l.name == n).cloned() else { return err(sp, "closure argument") };
                    match &l.kind {
                        LKind::Closure(c) => {
                            let newer: Vec<String> = self.env.iter().filter(|x| !c.env.iter().any(|y| y.id == x.id)).map(|x| x.name.clone()).collect();
                            if newer.iter().any(|n| c.env.iter().any(|y| y.name == *n)) { return err(sp, "shadowing between a closure and its use"); }
                            lit = Some(c.ex.clone())
                        }
                        LKind::Value => {
                            let st = syn::Ident::new(&format!("{}__st", n), proc_macro2::Span::call_site());
                            out.push(syn::parse_quote!(&mut #st));
                            out.push(inner.clone());
                        }
                    }
                }
                _ => return err(sp, "closure argument"),
            }
            if let Some(mut c) = lit {
                let tys: Option<Vec<Ty>> = match &s.params[i - 1].ty { Ty::Fn(p, _) => Some(p[1..].iter().map(|x| { let t = self.freshen(&x.0); t }).collect()), _ => None };
                let vars = self.closure_mutated(&c, tys);
                let Some(vars) = vars else { return err(sp, "closure with state could not be analysed") };
                match vars.len() {
                    0 => { c.inputs.insert(0, syn::parse_quote!(nost__)); out.push(syn::parse_quote!(&mut ())); out.push(syn::Expr::Closure(c)); }
                    1 => {
                        let id = syn::Ident::new(&vars[0].name, proc_macro2::Span::call_site());
                        c.inputs.insert(0, syn::Pat::Ident(syn::PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: id.clone(), subpat: None }));
                        out.push(syn::Expr::Path(syn::ExprPath { attrs: vec![], qself: None, path: syn::Path::from(id) }));
                        out.push(syn::Expr::Closure(c));
                    }
                    _ => return err(sp, "closure that assigns several captured variables"),
                }
            }
        }
        Ok(Some(out))
    }
    /// Start recording mutations and uses; locals with a smaller id than the result exist outside.
    pub fn begin(&mut self) -> usize {
        self.mutated.push(BTreeSet::new());
        self.used.push(BTreeSet::new());
        self.next_id
    }
    /// The outer locals mutated (first) and used (second) since `begin`.
    pub fn end(&mut self, start: usize) -> (Vec<Rc<Local>>, Vec<Rc<Local>>) {
        let m = self.mutated.pop().unwrap();
        let u = self.used.pop().unwrap();
        let f = |s: BTreeSet<usize>, me: &Self| s.into_iter().filter(|i| *i < start).filter_map(|i| me.all.get(&i).cloned()).filter(|l| matches!(l.kind, LKind::Value)).collect::<Vec<_>>();
        let m = f(m, self);
        let u = f(u, self);
        (m, u)
    }
    /// Trial-lower the closure body and see which outer variables are assigned.
    fn closure_mutates_captures(&mut self, c: &syn::ExprClosure, tys: Option<Vec<Ty>>) -> bool {
        // could not be lowered without type information: decide syntactically
        match self.closure_mutated(c, tys) { Some(v) => !v.is_empty(), None => syntactic_mutation(c) }
    }
    fn closure_mutated(&mut self, c: &syn::ExprClosure, tys: Option<Vec<Ty>>) -> Option<Vec<Rc<Local>>> {
        let snap = self.snapshot();
        let start = self.begin();
        let ret = self.inf.fresh();
        self.scopes.push(ScopeCtx { ret, state: vec![], depth_loops: 0 });
        let mut tys = tys.unwrap_or_default();
        while tys.len() < c.inputs.len() { let v = self.inf.fresh(); tys.push(v); }
        let r = (|| -> R<()> { for (p, t) in c.inputs.iter().zip(tys.iter()) { self.pat(p, t)?; } let start2 = self.next_id; let _ = start2; let _ = self.tail(&c.body, vec![], None)?; Ok(()) })();
        let (m, _) = self.end(start);
        self.restore(snap);
        r.ok().map(|_| m)
    }
    fn snapshot(&self) -> Snap {
        Snap { env: self.env.clone(), names: self.names.clone(), next_id: self.next_id, tmp: self.tmp, loops: self.loops.len(), loop_counter: self.loop_counter, sub: self.inf.sub.clone(), calls: self.calls.clone(), uses: self.uses.clone(), mutated: self.mutated.clone(), used: self.used.clone(), scopes: self.scopes.clone(), all: self.all.clone(), deref: self.deref_assigned.clone(), ctx: self.ctx.clone(), gsub: self.gsub.clone(), istack: self.inline_stack.clone() }
    }
    fn restore(&mut self, s: Snap) {
        self.env = s.env; self.names = s.names; self.next_id = s.next_id; self.tmp = s.tmp; self.loops.truncate(s.loops); self.loop_counter = s.loop_counter; self.inf.sub = s.sub; self.calls = s.calls; self.uses = s.uses; self.mutated = s.mutated; self.used = s.used; self.scopes = s.scopes; self.all = s.all; self.deref_assigned = s.deref; self.ctx = s.ctx; self.gsub = s.gsub; self.inline_stack = s.istack;
    }
    /// A closure literal as a value (spec closure).
    fn closure_value(&mut self, c: &syn::ExprClosure, expect: Option<&Ty>, sp: proc_macro2::Span) -> R<Ex> {
        let expect = expect.map(|t| self.inf.shallow(t));
        let (ptys, ret) = match &expect {
            Some(Ty::Fn(p, r)) => (p.clone(), (**r).clone()),
            _ => (c.inputs.iter().map(|_| (self.inf.fresh(), false)).collect(), self.inf.fresh()),
        };
        let keep_unit = expect.is_some() && matches!(self.inf.shallow(&ret), Ty::Var(_));
        let env0 = self.env.clone();
        let mut params = vec![];
        let mut pre = vec![];
        let mut state = vec![];
        if ptys.len() != c.inputs.len() { return err(sp, "closure arity"); }
        let start = self.begin();
        for (p, (t, m)) in c.inputs.iter().zip(ptys.iter()) {
            let (pp, t) = match p { syn::Pat::Type(pt) => { let tt = self.src_ty(&pt.ty)?; self.inf.unify(&tt, t); (&*pt.pat, tt) } p => (p, t.clone()) };
            match pp {
                syn::Pat::Ident(i) if i.subpat.is_none() => {
                    let l = self.declare(&i.ident.to_string(), t.clone(), LKind::Value);
                    params.push((l.emit.clone(), t.clone()));
                    if *m { self.mut_refs.insert(l.id); state.push(l); }
                }
                pp => {
                    let n = self.temp("a");
                    params.push((n.clone(), t.clone()));
                    let wild = matches!(pp, syn::Pat::Wild(_)) || matches!(pp, syn::Pat::Tuple(t) if t.elems.is_empty());
                    if *m {
                        if !wild { return err(sp, "pattern for a &mut closure parameter"); }
                        let l = Rc::new(Local { id: self.next_id, name: "__unused".into(), emit: n.clone(), ty: RefCell::new(t.clone()), kind: LKind::Value });
                        self.next_id += 1;
                        self.all.insert(l.id, l.clone());
                        state.push(l);
                    } else if !wild {
                        let ps = self.pat(pp, &t)?;
                        pre.push(Item::Let(ps, Ex::raw(n, t.clone())));
                    }
                }
            }
        }
        let ret = match &c.output { syn::ReturnType::Type(_, t) => { let t = self.src_ty(t)?; self.inf.unify(&t, &ret); t } _ => ret };
        self.scopes.push(ScopeCtx { ret: ret.clone(), state: state.iter().map(|l| l.id).collect(), depth_loops: 0 });
        let body = self.tail(&c.body, pre, Some(&ret));
        self.scopes.pop();
        let (m, _) = self.end(start);
        self.env = env0;
        let body = body?;
        let bt = self.tail_ty(&body);
        self.inf.unify(&ret, &bt);
        if !m.is_empty() { return err(sp, format!("closure value that assigns captured variables ({})", m.iter().map(|l| l.name.clone()).collect::<Vec<_>>().join(","))); }
        let scope = Scope { vars: state.iter().map(|l| l.emit.clone()).collect(), var_tys: state.iter().map(|l| l.ty.borrow().clone()).collect(), ret: Some(ret.clone()), keep_unit };
        let ty = Ty::Fn(ptys, Box::new(ret));
        Ok(Ex { k: K::Closure { params, body: Box::new(body), scope }, ty })
    }
    /// Execute a closure literal in place.
    fn inline_closure(&mut self, cv: &Rc<ClosureVal>, args: &[&syn::Expr], items: &mut Vec<Item>, sp: proc_macro2::Span) -> R<Ex> {
        let ex = cv.ex.clone();
        if ex.inputs.len() != args.len() { return err(sp, "closure arity"); }
        self.inline_depth += 1;
        if self.inline_depth > 40 { return err(sp, "closure inlining too deep"); }
        let mut ptys: Vec<(Ty, bool)> = match cv.expect.as_ref().map(|t| self.inf.shallow(t)) { Some(Ty::Fn(p, _)) => p, _ => ex.inputs.iter().map(|_| (self.inf.fresh(), false)).collect() };
        for (p, a) in ptys.iter_mut().zip(args) { if matches!(a, syn::Expr::Reference(r) if r.mutability.is_some()) { p.1 = true; } }
        // arguments, in the caller's environment
        let tys: Vec<Option<Ty>> = ptys.iter().map(|p| Some(p.0.clone())).collect();
        let vals = self.exprs(args, &tys, items)?;
        let mut places = vec![];
        for (a, (_, m)) in args.iter().zip(ptys.iter()) {
            if *m { let Some(p) = self.try_place(a) else { return err(sp, "`&mut` argument is not a place") }; places.push(Some(p)); } else { places.push(None); }
        }
        let save = (self.env.clone(), self.ctx.clone(), self.gsub.clone());
        self.env = cv.env.clone();
        self.ctx = cv.ctx.clone();
        self.gsub = cv.gsub.clone();
        let r = self.inline_body(&ex, &ptys, vals, items, cv.expect.as_ref());
        self.env = save.0;
        self.ctx = save.1;
        self.gsub = save.2;
        self.inline_depth -= 1;
        let (value, state) = r?;
        for (p, s) in places.into_iter().zip(state) {
            if let (Some(p), Some(l)) = (p, s) { let v = self.var(&l); self.assign(&p, v, items); }
        }
        Ok(value)
    }
    /// Lower the body of `ex` with its parameters bound to `vals`. Returns the value and the locals of `&mut` parameters.
    fn inline_body(&mut self, ex: &syn::ExprClosure, ptys: &[(Ty, bool)], vals: Vec<Ex>, items: &mut Vec<Item>, expect: Option<&Ty>) -> R<(Ex, Vec<Option<Rc<Local>>>)> {
        let outer = self.env.len();
        let mut state = vec![];
        for ((p, v), (t, m)) in ex.inputs.iter().zip(vals).zip(ptys.iter()) {
            let (pp, t) = match p { syn::Pat::Type(pt) => { let tt = self.src_ty(&pt.ty)?; self.inf.unify(&tt, t); (&*pt.pat, tt) } p => (p, t.clone()) };
            self.inf.unify(&t, &v.ty);
            let ps = self.pat(pp, &t)?;
            if *m {
                let l = if matches!(pp, syn::Pat::Ident(_)) { self.env.last().cloned() } else { None };
                if let Some(l) = &l { self.mut_refs.insert(l.id); }
                state.push(l);
            } else { state.push(None); }
            items.push(Item::Let(ps, v));
        }
        let ret0 = match expect.map(|t| self.inf.shallow(t)) { Some(Ty::Fn(_, r)) => *r, _ => self.inf.fresh() };
        let ret = match &ex.output { syn::ReturnType::Type(_, t) => { let t = self.src_ty(t)?; self.inf.unify(&t, &ret0); t } _ => ret0 };
        let b = ex.body.clone();
        let v = self.inline_code(|me, ret| me.tail(&b, vec![], Some(ret)), ret, items)?;
        self.env.truncate(outer);
        Ok((v, state))
    }
    fn inline_code(&mut self, mut f: impl FnMut(&mut Self, &Ty) -> R<Block>, ret: Ty, items: &mut Vec<Item>) -> R<Ex> {
        // loops inside must know which variables an exit carries: a trial pass finds them
        let snap = self.snapshot();
        let nloops = self.loops.len();
        let mut state_ids: Vec<usize> = vec![];
        let mut pass = 0;
        let (body, vars) = loop {
            let start = self.begin();
            self.scopes.push(ScopeCtx { ret: ret.clone(), state: state_ids.clone(), depth_loops: 0 });
            let body = f(self, &ret);
            self.scopes.pop();
            let (vars, _) = self.end(start);
            let ids: Vec<usize> = vars.iter().map(|l| l.id).collect();
            if pass == 0 && body.is_ok() && ids != state_ids && self.loops.len() > nloops {
                state_ids = ids;
                pass = 1;
                let env = self.env.clone();
                self.restore(snap.clone());
                let _ = env;
                continue;
            }
            break (body, vars);
        };
        let body = body?;
        let bt = self.tail_ty(&body);
        self.inf.unify(&ret, &bt);
        let scope = Scope { vars: vars.iter().map(|l| l.emit.clone()).collect(), var_tys: vars.iter().map(|l| l.ty.borrow().clone()).collect(), ret: Some(ret.clone()), keep_unit: false };
        let unit = self.inf.shallow(&ret).is_unit();
        // straight-line bodies need no scope
        if !body.fn_exits() {
            if let Tail::Yield(_) = &body.tail {
                let Tail::Yield(v) = body.tail else { unreachable!() };
                items.extend(body.items);
                let v = if unit { if !v.trivial() { items.push(Item::Let("_".into(), v)); } Ex::unit() } else { self.bind(v, items) };
                return Ok(v);
            }
        }
        let pat = if unit { "_".to_string() } else { self.temp("s") };
        items.push(Item::LetScope { pat: pat.clone(), scope, code: body });
        Ok(if unit { Ex::unit() } else { Ex::raw(pat, ret) })
    }
    /// Execute a (non-recursive) function of the source in place: used when a closure argument assigns captured variables.
    fn inline_fn(&mut self, s: &FnSig, self_ty: Option<&Ty>, recv: Option<(Ex, Option<Place>)>, args: &[&syn::Expr], items: &mut Vec<Item>, sp: proc_macro2::Span) -> R<Ex> {
        let Some(decl) = self.m.fns.iter().find(|d| d.sig.path == s.path) else { return err(sp, format!("cannot inline {}", s.path)) };
        let Some(body) = decl.body.clone() else { return err(sp, "inline of a bodiless function") };
        if self.inline_stack.contains(&s.path) { return err(sp, format!("recursive inlining of {}", s.path)); }
        let mut map: HashMap<String, Ty> = HashMap::new();
        for g in s.generics.iter().chain(s.impl_generics.iter()) { let v = self.inf.fresh(); map.insert(g.clone(), v); }
        let ps: Vec<(Ty, bool)> = s.params.iter().map(|p| { let t = self.inf.inst(&p.ty, &map); (self.freshen(&t), p.is_mut) }).collect();
        let r = self.inf.inst(&s.ret, &map);
        let r = self.freshen(&r);
        let mut k = 0;
        // (name, type, value or closure, place to write back)
        let mut binds: Vec<(String, Ty, Result<Ex, Rc<ClosureVal>>, Option<Place>)> = vec![];
        if let Some((x, pl)) = recv {
            self.inf.unify(&ps[0].0, &x.ty);
            let x = if x.trivial() { x } else { self.bind(x, items) };
            binds.push(("self".into(), ps[0].0.clone(), Ok(x), if ps[0].1 { pl } else { None }));
            k = 1;
        } else if let (Some(t), true) = (self_ty, s.has_self) { self.inf.unify(&ps[0].0, t); }
        if ps.len() - k != args.len() { return err(sp, "arity"); }
        for (i, a) in args.iter().enumerate() {
            let (t, m) = ps[k + i].clone();
            let name = s.params[k + i].name.clone();
            if let Ty::Fn(..) = &t {
                match a {
                    syn::Expr::Closure(c) => {
                        let cv = ClosureVal { ex: c.clone(), env: self.env.clone(), ctx: self.ctx.clone(), expect: Some(t.clone()), gsub: self.gsub.clone() };
                        binds.push((name, t, Err(Rc::new(cv)), None));
                        continue;
                    }
                    syn::Expr::Path(p) if p.path.segments.len() == 1 => {
                        if let Some(l) = self.lookup(&p.path.segments[0].ident.to_string()) {
                            if let LKind::Closure(c) = &l.kind {
                                let c = c.clone();
                                if let Some(e) = &c.expect { self.inf.unify(e, &t); }
                                binds.push((name, t, Err(c), None));
                                continue;
                            }
                        }
                    }
                    _ => {}
                }
            }
            let x = self.expr(a, items, Some(&t))?;
            let x = self.coerce(x, Some(&t));
            self.inf.unify(&t, &x.ty);
            let x = if x.trivial() { x } else { self.bind(x, items) };
            let pl = if m { let Some(p) = self.try_place(a) else { return err(sp, "`&mut` argument is not a place") }; Some(p) } else { None };
            binds.push((name, t, Ok(x), pl));
        }
        let save = (std::mem::take(&mut self.env), self.ctx.clone(), self.gsub.clone(), std::mem::take(&mut self.uses));
        self.ctx = decl.ctx.clone();
        self.gsub = map;
        self.inline_stack.push(s.path.clone());
        let mut backs = vec![];
        for (n, t, v, pl) in binds {
            match v {
                Ok(x) => {
                    let l = self.declare(&n, t, LKind::Value);
                    items.push(Item::Let(l.emit.clone(), x));
                    if let Some(p) = pl { self.mut_refs.insert(l.id); backs.push((p, l)); }
                }
                Err(c) => {
                    let c = ClosureVal { ex: c.ex.clone(), env: c.env.clone(), ctx: c.ctx.clone(), expect: Some(t), gsub: c.gsub.clone() };
                    self.declare(&n, Ty::n("closure__"), LKind::Closure(Rc::new(c)));
                }
            }
        }
        let res = self.inline_code(|me, ret| me.block(&body, Some(ret)), r, items);
        self.inline_stack.pop();
        self.env = save.0;
        self.ctx = save.1;
        self.gsub = save.2;
        self.uses = save.3;
        let value = res?;
        for (p, l) in backs { let v = self.var(&l); self.assign(&p, v, items); }
        Ok(value)
    }

    // ------------------------------------------------------------ method calls
    /// Should a higher-order operation with this closure be turned into a loop?
    fn should_loopify(&mut self, f: &syn::Expr, tys: Option<Vec<Ty>>) -> bool {
        match f {
            syn::Expr::Closure(c) => calls_any(&c.body, &self.recursive_names) || self.closure_mutates_captures(c, tys),
            syn::Expr::Path(p) if p.path.segments.len() == 1 => {
                let n = p.path.segments[0].ident.to_string();
                let Some(l) = self.env.iter().rev().find(|l| l.name == n).cloned() else { return false };
                if let LKind::Closure(c) = &l.kind {
                    let save = std::mem::replace(&mut self.env, c.env.clone());
                    let r = calls_any(&c.ex.body, &self.recursive_names) || self.closure_mutates_captures(&c.ex, tys);
                    self.env = save;
                    return r;
                }
                false
            }
            _ => false,
        }
    }
    fn method(&mut self, m: &syn::ExprMethodCall, items: &mut Vec<Item>, expect: Option<&Ty>) -> R<Ex> {
        let name = m.method.to_string();
        let sp = m.method.span();
        let args: Vec<&syn::Expr> = m.args.iter().collect();
        let recv = &*m.receiver;
        // operations that assign through a closure
        if (name == "mutate_at" || name == "try_mutate_at") && args.len() == 2 {
            let Some(p) = self.try_place(recv) else { return err(sp, "mutate_at on a non-place") };
            let t = self.inf.shallow(&p.ty);
            if matches!(t.head(), Some("List") | Some("Map")) {
                let set = syn::Ident::new(if t.head() == Some("List") { "set" } else { "insert" }, proc_macro2::Span::call_site());
                let (pre, f) = callee(args[1]);
                let idx = args[0];
                let d: syn::Expr = syn::parse_quote!({ let i__ = #idx; #pre let mut e__ = #recv.index_at(i__); let r__ = #f(&mut e__); #recv.#set(i__, e__); r__ });
                return self.expr(&d, items, expect);
            }
        }
        if name == "get_or_insert_with" && args.len() == 1 && self.try_place(recv).is_some() {
            let (pre, f) = callee(args[0]);
            let d: syn::Expr = syn::parse_quote!({ if #recv.is_none() { #pre #recv = Some(#f()); } #recv.unwrap() });
            return self.expr(&d, items, expect);
        }
        if args.is_empty() && self.m.projections.iter().any(|(k, _)| k.1 == name) {
            if let Some(p) = self.try_place(&syn::Expr::MethodCall(m.clone())) { return Ok(self.place_ex(&p)); }
        }
        let place = self.try_place(recv);
        let n_items = items.len();
        let r = match (&place, name.as_str()) {
            (Some(p), _) => self.place_ex(p),
            // the receiver of a conversion has no expected type
            _ => self.expr(recv, items, None)?,
        };
        let _ = n_items;
        let mut rt = self.inf.shallow(&r.ty);
        let mut r = r;
        if name == "extract" && rt.head() == Some("Box") {
            let Ty::Named(_, a) = &rt else { unreachable!() };
            let inner = a[0].clone();
            return Ok(Ex { k: K::Un("*".into(), Box::new(r)), ty: inner });
        }
        if rt.head() == Some("Box") {
            let Ty::Named(_, a) = rt.clone() else { unreachable!() };
            r = Ex { k: K::Un("*".into(), Box::new(r)), ty: a[0].clone() };
            rt = self.inf.shallow(&a[0]);
        }
        if matches!(name.as_str(), "clone" | "to_owned" | "as_ref" | "as_mut" | "borrow" | "to_string" | "deref") && args.is_empty() && !self.m.methods.contains_key(&(rt.head().unwrap_or("?").to_string(), name.clone())) { return Ok(r); }
        if name == "collect" {
            let map = matches!(&m.turbofish, Some(t) if matches!(t.args.first(), Some(syn::GenericArgument::Type(syn::Type::Path(p))) if last(&p.path) == "Map"));
            if map {
                let (k, v) = (self.inf.fresh(), self.inf.fresh());
                if let Ty::Named(h, a) = self.inf.shallow(&r.ty) { if h == "List" { self.inf.unify(&a[0], &Ty::Tuple(vec![k.clone(), v.clone()])); } }
                return Ok(Ex { k: K::Call { f: "Map__from_list".into(), recv: None, args: vec![r], ok: OkKind::Total, targs: vec![] }, ty: Ty::Named("Map".into(), vec![k, v]) });
            }
            let set = matches!(&m.turbofish, Some(t) if matches!(t.args.first(), Some(syn::GenericArgument::Type(syn::Type::Path(p))) if last(&p.path) == "Set"));
            if set {
                let t = match self.inf.shallow(&r.ty) { Ty::Named(_, a) if a.len() == 1 => a[0].clone(), _ => self.inf.fresh() };
                return Ok(Ex { k: K::Call { f: "Set__from_list".into(), recv: None, args: vec![r], ok: OkKind::Total, targs: vec![] }, ty: Ty::n1("Set", t) });
            }
            if self.ctx.builder && m.turbofish.is_none() {
                // the kind of collection is decided by inference
                let t = match expect { Some(t) => t.clone(), None => self.inf.fresh() };
                let elem = match self.inf.shallow(&r.ty) { Ty::Named(h, a) if h == "List" => Some(a[0].clone()), _ => None };
                if let Some(el) = elem {
                    match self.inf.shallow(&t) {
                        Ty::Named(h, _) if h == "Map" => { let (k, v) = (self.inf.fresh(), self.inf.fresh()); self.inf.unify(&el, &Ty::Tuple(vec![k.clone(), v.clone()])); self.inf.unify(&t, &Ty::Named("Map".into(), vec![k, v])); }
                        Ty::Named(h, a) if h == "Set" || h == "List" => self.inf.unify(&el, &a[0]),
                        _ => {}
                    }
                }
                return Ok(Ex { k: K::Call { f: "collect__".into(), recv: None, args: vec![r], ok: OkKind::Total, targs: vec![] }, ty: t });
            }
            return Ok(r);
        }
        // `.into()` between integers
        if name == "into" && args.is_empty() { return Ok(if rt.head() == Some("u8") { Ex::raw(format!("({} as int)", crate::print::val(&r)), Ty::int()) } else { Ex { ty: Ty::int(), ..r } }); }
        if let Some(x) = self.hof(&name, &r, &rt, &args, items, expect, sp)? { return Ok(x); }
        let Some(head) = rt.head().map(|s| s.to_string()) else { return err(sp, format!("method {} on unknown type", name)) };
        // a field holding a function
        let (sig, path) = if let Some(s) = self.m.methods.get(&(head.clone(), name.clone())) { (s.clone(), format!("{}::{}", head, name)) }
            else if let Some(s) = self.m.methods.get(&(head.clone(), format!("Memory__{}", name))) { (s.clone(), format!("{}::Memory__{}", head, name)) }
            else { return err(sp, format!("unknown method {}::{}", head, name)) };
        self.calls.insert(path.clone());
        let st = self.stateful_args(&sig, &args, 1, sp)?;
        let st_refs: Vec<&syn::Expr> = st.iter().flatten().collect();
        let args: Vec<&syn::Expr> = if st.is_some() { st_refs } else { args };
        if !sig.builtin && st.is_none() && self.must_inline(&args, &sig) { return self.inline_fn(&sig, None, Some((r, place)), &args, items, sp); }
        let (ps, ret) = self.inst_sig(&sig, Some(&rt));
        let ok = if sig.builtin { if sig.partial { OkKind::Partial } else { OkKind::Total } } else { OkKind::User };
        self.finish_call(fname(&path), Some(r), place, &ps, &ret, &args, 1, ok, items, sp)
    }
    /// Higher-order library operations.
    fn hof(&mut self, name: &str, r: &Ex, rt: &Ty, args: &[&syn::Expr], items: &mut Vec<Item>, expect: Option<&Ty>, sp: proc_macro2::Span) -> R<Option<Ex>> {
        let head = rt.head().unwrap_or("?").to_string();
        let is_opt = head == "Option";
        let is_res = head == "Result";
        if (is_opt || is_res) && matches!(name, "map" | "and_then" | "map_or" | "is_some_and" | "unwrap_or_else" | "ok_or_else" | "is_none_or" | "filter" | "or_else" | "map_err" | "is_ok_and" | "map_or_else") {
            let rv = if r.trivial() { r.clone() } else { self.bind(r.clone(), items) };
            let l = self.declare("rv__", rt.clone(), LKind::Value);
            items.push(Item::Let(l.emit.clone(), rv));
            let last_arg = args.last().unwrap();
            let (pre, f) = callee(last_arg);
            let a0 = args[0];
            let d: syn::Expr = match (is_opt, name) {
                (true, "map") => syn::parse_quote!({ #pre match rv__ { Some(a__) => Some(#f(a__)), None => None } }),
                (true, "and_then") => syn::parse_quote!({ #pre match rv__ { Some(a__) => #f(a__), None => None } }),
                (true, "map_or") => syn::parse_quote!({ #pre match rv__ { Some(a__) => #f(a__), None => #a0 } }),
                (true, "is_some_and") => syn::parse_quote!({ #pre match rv__ { Some(a__) => #f(a__), None => false } }),
                (true, "is_none_or") => syn::parse_quote!({ #pre match rv__ { Some(a__) => #f(a__), None => true } }),
                (true, "unwrap_or_else") => syn::parse_quote!({ #pre match rv__ { Some(a__) => a__, None => #f() } }),
                (true, "or_else") => syn::parse_quote!({ #pre match rv__ { Some(a__) => Some(a__), None => #f() } }),
                (true, "ok_or_else") => syn::parse_quote!({ #pre match rv__ { Some(a__) => Ok(a__), None => Err(#f()) } }),
                (true, "filter") => syn::parse_quote!({ #pre match rv__ { Some(a__) => if #f(a__) { Some(a__) } else { None }, None => None } }),
                (false, "map") => syn::parse_quote!({ #pre match rv__ { Ok(a__) => Ok(#f(a__)), Err(b__) => Err(b__) } }),
                (false, "and_then") => syn::parse_quote!({ #pre match rv__ { Ok(a__) => #f(a__), Err(b__) => Err(b__) } }),
                (false, "map_err") => syn::parse_quote!({ #pre match rv__ { Ok(a__) => Ok(a__), Err(b__) => Err(#f(b__)) } }),
                (false, "is_ok_and") => syn::parse_quote!({ #pre match rv__ { Ok(a__) => #f(a__), Err(b__) => false } }),
                _ => return err(sp, format!("method {} on {}", name, head)),
            };
            let x = self.expr(&d, items, expect)?;
            let pos = self.env.iter().rposition(|x| x.id == l.id);
            if let Some(p) = pos { self.env.remove(p); }
            return Ok(Some(x));
        }
        if head != "List" && head != "Map" && head != "Set" { return Ok(None); }
        if !matches!(name, "map" | "try_map" | "all" | "any" | "flat_map" | "find" | "find_map" | "filter" | "filter_map" | "map_with_idx" | "fold" | "fold_with_idx" | "sort_by_key" | "position" | "for_each") { return Ok(None); }
        if name == "sort_by_key" { return Ok(None); }
        let elem = match rt { Ty::Named(_, a) if head == "List" => a[0].clone(), _ => return err(sp, format!("{} on {}", name, head)) };
        let farg = *args.last().unwrap();
        let known = if self.ctx.mini && matches!(name, "map" | "flat_map" | "all" | "any" | "find" | "find_map" | "filter" | "filter_map" | "position" | "for_each") { Some(vec![elem.clone()]) } else if self.ctx.mini && name == "fold" { let a = self.inf.fresh(); Some(vec![a, elem.clone()]) } else { None };
        if self.should_loopify(farg, known) {
            let rv = if r.trivial() { r.clone() } else { self.bind(r.clone(), items) };
            let l = self.declare("rv__", rt.clone(), LKind::Value);
            items.push(Item::Let(l.emit.clone(), rv));
            let (pre, f) = callee(farg);
            let a0 = args[0];
            let d: syn::Expr = match name {
                "map" => syn::parse_quote!({ #pre let mut acc__ = List::new(); for a__ in rv__ { acc__.push(#f(a__)); } acc__ }),
                "filter_map" => syn::parse_quote!({ #pre let mut acc__ = List::new(); for a__ in rv__ { match #f(a__) { Some(b__) => { acc__.push(b__); } None => {} } } acc__ }),
                "flat_map" => syn::parse_quote!({ #pre let mut acc__ = List::new(); for a__ in rv__ { acc__.append(#f(a__)); } acc__ }),
                "all" => syn::parse_quote!({ #pre let mut acc__ = true; for a__ in rv__ { if !#f(a__) { acc__ = false; break; } } acc__ }),
                "any" => syn::parse_quote!({ #pre let mut acc__ = false; for a__ in rv__ { if #f(a__) { acc__ = true; break; } } acc__ }),
                "filter" => syn::parse_quote!({ #pre let mut acc__ = List::new(); for a__ in rv__ { if #f(a__) { acc__.push(a__); } } acc__ }),
                "fold" => syn::parse_quote!({ #pre let mut acc__ = #a0; for a__ in rv__ { acc__ = #f(acc__, a__); } acc__ }),
                "for_each" => syn::parse_quote!({ #pre for a__ in rv__ { #f(a__); } }),
                "try_map" => syn::parse_quote!({ #pre let all__ = || { let mut acc__ = List::new(); for a__ in rv__ { acc__.push(#f(a__)?); } ret(acc__) }; all__() }),
                _ => return err(sp, format!("{} with a closure that assigns variables or recurses", name)),
            };
            let x = self.expr(&d, items, expect)?;
            let pos = self.env.iter().rposition(|x| x.id == l.id);
            if let Some(p) = pos { self.env.remove(p); }
            return Ok(Some(x));
        }
        let out = self.inf.fresh();
        let fty = |ps: Vec<Ty>, r: Ty| Ty::Fn(ps.into_iter().map(|t| (t, false)).collect(), Box::new(r));
        let ft = match name {
            "map" | "flat_map" | "try_map" | "find_map" | "filter_map" => fty(vec![elem.clone()], out.clone()),
            "map_with_idx" => fty(vec![Ty::int(), elem.clone()], out.clone()),
            "all" | "any" | "find" | "filter" | "position" => fty(vec![elem.clone()], Ty::boolean()),
            "fold" => fty(vec![out.clone(), elem.clone()], out.clone()),
            "fold_with_idx" => fty(vec![out.clone(), Ty::int(), elem.clone()], out.clone()),
            _ => return err(sp, name),
        };
        let mut call_args = vec![r.clone()];
        if name.starts_with("fold") {
            let mut v = self.exprs(&[args[0]], &[Some(out.clone())], items)?;
            call_args.push(v.pop().unwrap());
        }
        if name == "try_map" {
            // the expected container of the closure's result
            let exp = expect.map(|t| self.inf.shallow(t));
            let hd = exp.as_ref().and_then(|t| t.head().map(|s| s.to_string()));
            if let (Some("Result"), Some(Ty::Named(_, a))) = (hd.as_deref(), exp) { let o = self.inf.fresh(); self.inf.unify(&out, &Ty::Named("Result".into(), vec![o, a[1].clone()])); }
        }
        let f = match farg {
            syn::Expr::Closure(c) => self.closure_value(c, Some(&ft), sp)?,
            syn::Expr::Path(p) if p.path.segments.len() == 1 && self.env.iter().any(|l| l.name == p.path.segments[0].ident.to_string()) => {
                let l = self.lookup(&p.path.segments[0].ident.to_string()).unwrap();
                match &l.kind {
                    LKind::Closure(c) => { let c = c.clone(); let save = std::mem::replace(&mut self.env, c.env.clone()); let x = self.closure_value(&c.ex, Some(&ft), sp); self.env = save; x? }
                    LKind::Value => { self.inf.unify(&ft, &l.ty.borrow().clone()); self.var(&l) }
                }
            }
            // a function or constructor used as a value: eta-expand
            e => { let c: syn::ExprClosure = match name { "map_with_idx" | "fold" => syn::parse_quote!(|a__, b__| #e(a__, b__)), "fold_with_idx" => syn::parse_quote!(|a__, b__, c__| #e(a__, b__, c__)), _ => syn::parse_quote!(|a__| #e(a__)) }; self.closure_value(&c, Some(&ft), sp)? }
        };
        let out = self.inf.shallow(&out);
        call_args.push(f);
        let mk = |f: &str, args, ty| Ex { k: K::Call { f: f.into(), recv: None, args, ok: OkKind::Total, targs: vec![] }, ty };
        Ok(Some(match name {
            "map" => mk("List__map", call_args, Ty::list(out)),
            "map_with_idx" => mk("List__map_with_idx", call_args, Ty::list(out)),
            "flat_map" => mk("List__flat_map", call_args, out),
            "find_map" => mk("List__find_map", call_args, out),
            "filter_map" => { let a = self.inf.fresh(); self.inf.unify(&out, &Ty::opt(a.clone())); mk("List__filter_map", call_args, Ty::list(a)) }
            "all" => mk("List__all", call_args, Ty::boolean()),
            "any" => mk("List__any", call_args, Ty::boolean()),
            "find" => mk("List__find", call_args, Ty::opt(elem)),
            "filter" => mk("List__filter", call_args, Ty::list(elem)),
            "position" => mk("List__position", call_args, Ty::opt(Ty::int())),
            "fold" => mk("List__fold", call_args, out),
            "fold_with_idx" => mk("List__fold_with_idx", call_args, out),
            "try_map" => {
                match &out {
                    Ty::Named(n, a) if n == "Option" => mk("List__try_map_opt", call_args, Ty::opt(Ty::list(a[0].clone()))),
                    Ty::Named(n, a) if n == "Result" => mk("List__try_map_res", call_args, Ty::Named("Result".into(), vec![Ty::list(a[0].clone()), a[1].clone()])),
                    t => return err(sp, format!("try_map with result {:?}", t)),
                }
            }
            _ => return err(sp, name),
        }))
    }

    // ------------------------------------------------------------ loops
    fn for_loop(&mut self, f: &syn::ExprForLoop, items: &mut Vec<Item>) -> R<Ex> {
        if f.label.is_some() { return err(f.for_token.span, "labelled loop"); }
        let (kind, iter, start_ex, elem) = match &*f.expr {
            syn::Expr::Range(r) => {
                let (Some(a), Some(b)) = (&r.start, &r.end) else { return err(f.for_token.span, "half-open range") };
                let mut v = self.exprs(&[a, b], &[Some(Ty::int()), Some(Ty::int())], items)?;
                let mut hi = v.pop().unwrap();
                let lo = v.pop().unwrap();
                if matches!(r.limits, syn::RangeLimits::Closed(_)) { hi = Ex { k: K::Bin("+".into(), Box::new(hi), Box::new(Ex { k: K::IntLit("1".into()), ty: Ty::int() })), ty: Ty::int() }; }
                let lo_t = self.bind_if(lo, items);
                let hi_t = self.bind_if(hi, items);
                ("range", vec![hi_t], Some(lo_t), Ty::int())
            }
            e => {
                let x = self.expr(e, items, None)?;
                let t = self.inf.shallow(&x.ty);
                let (x, elem) = match &t {
                    Ty::Named(n, a) if n == "List" => (x, a[0].clone()),
                    Ty::Named(n, a) if n == "Map" => { let e = Ty::Tuple(vec![a[0].clone(), a[1].clone()]); (Ex { k: K::Call { f: "Map__iter".into(), recv: None, args: vec![x], ok: OkKind::Total, targs: vec![] }, ty: Ty::list(e.clone()) }, e) }
                    Ty::Named(n, a) if n == "Set" => (Ex { k: K::Call { f: "Set__iter".into(), recv: None, args: vec![x], ok: OkKind::Total, targs: vec![] }, ty: Ty::list(a[0].clone()) }, a[0].clone()),
                    _ => return err(f.for_token.span, format!("loop over {:?}", t)),
                };
                let x = self.bind_if(x, items);
                ("list", vec![x], Some(Ex { k: K::IntLit("0".into()), ty: Ty::int() }), elem)
            }
        };
        self.loop_common(kind, iter, start_ex, elem, Some(&f.pat), None, &f.body, items)
    }
    fn bind_if(&mut self, x: Ex, items: &mut Vec<Item>) -> Ex { if x.trivial() { x } else { self.bind(x, items) } }
    fn while_loop(&mut self, w: &syn::ExprWhile, items: &mut Vec<Item>) -> R<Ex> {
        if w.label.is_some() { return err(w.while_token.span, "labelled loop"); }
        // while c { b }  ==  loop { if c { b } else { break } }
        let c = &w.cond;
        let b = &w.body;
        let body: syn::Block = syn::parse_quote!({ if #c #b else { break; } });
        self.loop_common("while", vec![], None, Ty::int(), None, None, &body, items)
    }
    #[allow(clippy::too_many_arguments)]
    fn loop_common(&mut self, kind: &'static str, iter: Vec<Ex>, start_ex: Option<Ex>, elem: Ty, pat: Option<&syn::Pat>, _cond: Option<()>, body: &syn::Block, items: &mut Vec<Item>) -> R<Ex> {
        self.loop_counter += 1;
        let name = format!("{}__loop{}", fname(&self.fn_name), self.loop_counter);
        let env0 = self.env.clone();
        let start = self.begin();
        let scope_ids = self.scopes.last().unwrap().state.clone();
        let before = self.env.len();
        let p = match pat { Some(p) => self.pat(p, &elem), None => Ok("_".into()) };
        for l in self.env[before..].to_vec() { let t = l.ty.borrow().clone(); if matches!(self.inf.shallow(&t), Ty::Fn(..)) { self.no_ok.insert(l.id); } }
        let b = match &p { Ok(_) => self.block(body, Some(&Ty::unit())), Err(e) => Err(e.clone()) };
        let exits = b.as_ref().map(|b| b.fn_exits()).unwrap_or(false);
        if exits { for id in &scope_ids { let l = self.all[id].clone(); for u in self.used.iter_mut() { u.insert(l.id); } } }
        let (m, u) = self.end(start);
        self.env = env0;
        let p = p?;
        let mut b = b?;
        // a body that ends in a value which is not unit (expression statement position)
        if let Tail::Yield(e) = &b.tail { if !e.trivial() { let e = e.clone(); b.items.push(Item::Let("_".into(), e)); b.tail = Tail::Yield(Ex::unit()); } }
        let state: Vec<(String, Ty)> = m.iter().map(|l| (l.emit.clone(), l.ty.borrow().clone())).collect();
        let params: Vec<(String, Ty)> = u.iter().filter(|l| !m.iter().any(|x| x.id == l.id)).map(|l| (l.emit.clone(), l.ty.borrow().clone())).chain(state.iter().cloned()).collect();
        let sc = self.scopes.last().unwrap().clone();
        let scope = Scope { vars: sc.state.iter().map(|i| self.all[i].emit.clone()).collect(), var_tys: sc.state.iter().map(|i| self.all[i].ty.borrow().clone()).collect(), ret: Some(sc.ret.clone()), keep_unit: false };
        // temporaries introduced before the loop and used inside are free in the body: they are captured by name
        let call = LoopCall { name: name.clone(), iter, start: start_ex, args: params.iter().map(|p| p.0.clone()).collect(), state: state.iter().map(|p| p.0.clone()).collect(), exits, fn_args: params.iter().filter(|p| matches!(self.inf.shallow(&p.1), Ty::Fn(..))).map(|p| p.0.clone()).collect() };
        self.loops.push(LoopFn { name, generics: self.generics.clone(), kind, elem_ty: elem, pat: p, params, state, exits, scope, body: b, cond: None });
        items.push(Item::Loop(Box::new(call)));
        Ok(Ex::unit())
    }
}

#[derive(Clone)]
pub struct Snap { env: Vec<Rc<Local>>, names: HashMap<String, usize>, next_id: usize, tmp: usize, loops: usize, loop_counter: usize, sub: Vec<Option<Ty>>, calls: BTreeSet<String>, uses: Vec<(String, String, bool)>, mutated: Vec<BTreeSet<usize>>, used: Vec<BTreeSet<usize>>, scopes: Vec<ScopeCtx>, all: HashMap<usize, Rc<Local>>, deref: BTreeSet<usize>, ctx: TyCtx, gsub: HashMap<String, Ty>, istack: Vec<String> }

pub fn fname(path: &str) -> String { path.replace("::", "__") }
pub fn ctor(name: &str, args: Vec<Ex>, ty: Ty) -> Ex { Ex { k: K::Call { f: name.into(), recv: None, args, ok: OkKind::Total, targs: vec![] }, ty } }
pub fn builtin_enum(n: &str) -> Option<Vec<&'static str>> {
    Some(match n {
        "Signedness" => vec!["Signed", "Unsigned"],
        "Endianness" => vec!["LittleEndian", "BigEndian"],
        "Mutability" => vec!["Mutable", "Immutable"],
        "Ordering" => vec!["Less", "Equal", "Greater"],
        _ => return None,
    })
}
fn mem_name(m: &syn::Member) -> String { match m { syn::Member::Named(i) => i.to_string(), syn::Member::Unnamed(i) => i.index.to_string() } }
/// Rename a whole identifier in printed text.
fn rename_ident(s: &str, from: &str, to: &str) -> String {
    if from == to { return s.to_string(); }
    let mut out = String::new();
    let mut cur = String::new();
    for c in s.chars().chain(std::iter::once('\0')) {
        if c.is_alphanumeric() || c == '_' { cur.push(c); continue; }
        if cur == from { out.push_str(to) } else { out.push_str(&cur) }
        cur.clear();
        if c != '\0' { out.push(c) }
    }
    out
}
fn flatten_cond(e: &syn::Expr) -> Vec<syn::Expr> {
    fn has_let(e: &syn::Expr) -> bool { match e { syn::Expr::Let(_) => true, syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => has_let(&b.left) || has_let(&b.right), syn::Expr::Paren(p) => has_let(&p.expr), _ => false } }
    match e {
        syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) && has_let(e) => { let mut v = flatten_cond(&b.left); v.extend(flatten_cond(&b.right)); v }
        e => vec![e.clone()],
    }
}
/// The statements and callee for applying a closure argument inside a desugaring.
fn callee(f: &syn::Expr) -> (proc_macro2::TokenStream, syn::Expr) {
    match f {
        syn::Expr::Closure(c) => (quote::quote!(let c__ = #c;), syn::parse_quote!(c__)),
        e => (quote::quote!(), e.clone()),
    }
}
struct CallNames<'a>(&'a HashSet<String>, bool);
impl<'a> syn::visit::Visit<'a> for CallNames<'_> {
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) { if self.0.contains(&m.method.to_string()) { self.1 = true; } syn::visit::visit_expr_method_call(self, m); }
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) { if self.0.contains(&last(&p.path)) { self.1 = true; } syn::visit::visit_expr_path(self, p); }
}
fn calls_any(e: &syn::Expr, names: &HashSet<String>) -> bool { let mut v = CallNames(names, false); syn::visit::Visit::visit_expr(&mut v, e); v.1 }
struct Mut(bool);
impl<'a> syn::visit::Visit<'a> for Mut {
    fn visit_expr_assign(&mut self, _: &'a syn::ExprAssign) { self.0 = true; }
    fn visit_expr_reference(&mut self, r: &'a syn::ExprReference) { if r.mutability.is_some() { self.0 = true; } syn::visit::visit_expr_reference(self, r); }
}
fn syntactic_mutation(c: &syn::ExprClosure) -> bool { let mut v = Mut(false); syn::visit::Visit::visit_expr(&mut v, &c.body); v.0 }
