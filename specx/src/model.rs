//! What the source crate declares: types, functions, constants, aliases.
use crate::ty::*;
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Debug)]
pub struct Param { pub name: String, pub ty: Ty, pub is_mut: bool }

#[derive(Clone, Debug)]
pub struct FnSig {
    /// emitted path: `Type::name` or `name`
    pub path: String,
    pub generics: Vec<String>,
    pub impl_generics: Vec<String>,
    /// including `self` (named "self") if present
    pub params: Vec<Param>,
    pub ret: Ty,
    pub partial: bool,
    pub has_self: bool,
    pub builtin: bool,
    pub self_ty: Option<Ty>,
    pub is_nd: bool,
}
impl FnSig {
    pub fn mut_params(&self) -> Vec<(usize, &Param)> { self.params.iter().enumerate().filter(|(_, p)| p.is_mut).collect() }
    pub fn packed_ret(&self) -> Ty { pack_ty(self.params.iter().filter(|p| p.is_mut).map(|p| p.ty.clone()).collect(), self.ret.clone()) }
}

#[derive(Clone)]
pub enum Fields { Unit, Tuple(Vec<Ty>), Named(Vec<(String, Ty)>) }

#[derive(Clone)]
pub struct TypeDef {
    pub name: String,
    pub generics: Vec<String>,
    /// for each formal type parameter of the source: erased?
    pub formals: Vec<(String, bool, Option<syn::Type>)>,
    pub kind: DefKind,
}
#[derive(Clone)]
pub enum DefKind { Struct(Fields), Enum(Vec<(String, Fields)>) }

pub struct FnDecl {
    pub sig: FnSig,
    pub ctx: TyCtx,
    pub body: Option<syn::Block>,
    /// sub-patterns bound by parameters
    pub inputs: Vec<syn::FnArg>,
    pub file: String,
    pub line: usize,
    pub name: String,
}

/// How to read a type or path at some place in the source.
#[derive(Clone, Default)]
pub struct TyCtx {
    pub erased_target: HashSet<String>,
    pub erased_memory: HashSet<String>,
    /// ordinary type parameters in scope (they shadow aliases)
    pub params: HashSet<String>,
    pub self_ty: Option<Ty>,
    /// inside `trait Memory` / its impls: what Self::X means
    pub assoc: HashMap<String, Ty>,
    /// `Self` is the target trait implementor
    pub self_target: Option<String>,
    /// inside the program builder (std collections, `collect` by inference)
    pub builder: bool,
    /// inside the MIR translation (match arms that are out of reach are dropped, and reported)
    pub mini: bool,
}

#[derive(Default)]
pub struct Model {
    pub types: BTreeMap<String, TypeDef>,
    pub aliases: HashMap<String, (Vec<(String, Option<syn::Type>)>, syn::Type)>,
    /// (type head, method) -> sig
    pub methods: HashMap<(String, String), FnSig>,
    pub statics: HashMap<String, FnSig>,
    pub fns: Vec<FnDecl>,
    /// constants: emitted path -> type
    pub consts: HashMap<String, Ty>,
    pub const_decls: Vec<(String, String, syn::Expr, Ty, TyCtx)>,
    /// uninterpreted functions: (head type, sig)
    pub uninterp: Vec<(String, String, FnSig)>,
    /// functions of the compiler: uninterpreted
    pub externals: Vec<(String, String, FnSig)>,
    /// types of the compiler: opaque
    pub opaque: Vec<String>,
    pub notes: Vec<String>,
    /// methods returning a `&mut` projection of their receiver: (type head, method) -> the place expression over `self`
    pub projections: HashMap<(String, String), syn::Expr>,
}

pub fn last(p: &syn::Path) -> String { p.segments.last().unwrap().ident.to_string() }

impl Model {
    pub fn ty(&self, t: &syn::Type, c: &TyCtx) -> Result<Ty, String> {
        Ok(match t {
            syn::Type::Paren(p) => self.ty(&p.elem, c)?,
            syn::Type::Group(p) => self.ty(&p.elem, c)?,
            syn::Type::Reference(r) => self.ty(&r.elem, c)?,
            syn::Type::Tuple(t) => Ty::Tuple(t.elems.iter().map(|x| self.ty(x, c)).collect::<Result<_, _>>()?),
            syn::Type::Never(_) => Ty::Never,
            syn::Type::Slice(s) => Ty::list(self.ty(&s.elem, c)?),
            syn::Type::Infer(_) => Ty::n("_"),
            syn::Type::ImplTrait(i) => {
                for b in &i.bounds {
                    if let syn::TypeParamBound::Trait(tb) = b {
                        let n = last(&tb.path);
                        if n.starts_with("Fn") { return self.fn_ty(&tb.path, c); }
                        if n == "Iterator" {
                            if let syn::PathArguments::AngleBracketed(a) = &tb.path.segments.last().unwrap().arguments {
                                for x in &a.args { if let syn::GenericArgument::AssocType(at) = x { return Ok(Ty::list(self.ty(&at.ty, c)?)); } }
                            }
                        }
                    }
                }
                return Err("unsupported impl trait type".into());
            }
            syn::Type::Path(p) => self.path_ty(p, c)?,
            _ => return Err("unsupported type form".into()),
        })
    }
    fn fn_ty(&self, p: &syn::Path, c: &TyCtx) -> Result<Ty, String> {
        let seg = p.segments.last().unwrap();
        if let syn::PathArguments::Parenthesized(a) = &seg.arguments {
            let mut ps = vec![];
            for i in &a.inputs {
                let m = matches!(i, syn::Type::Reference(r) if r.mutability.is_some());
                ps.push((self.ty(i, c)?, m));
            }
            let r = match &a.output { syn::ReturnType::Default => Ty::unit(), syn::ReturnType::Type(_, t) => self.ty(t, c)? };
            return Ok(Ty::Fn(ps, Box::new(r)));
        }
        Err("unsupported Fn type".into())
    }
    fn path_ty(&self, p: &syn::TypePath, c: &TyCtx) -> Result<Ty, String> {
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let name = segs.last().unwrap().clone();
        // associated types of the memory model
        if p.qself.is_some() || segs.len() >= 2 {
            let first = segs[0].as_str();
            let from_self = first == "Self";
            let from_m = c.erased_memory.contains(first) || p.qself.is_some();
            if from_self { if let Some(t) = c.assoc.get(&name) { return Ok(t.clone()); } }
            if from_m {
                match name.as_str() {
                    "Provenance" => return Ok(Ty::n("Prov")),
                    "FrameExtra" => return Ok(Ty::n("MemFrameExtra")),
                    "T" => return Ok(Ty::n("T")),
                    _ => {}
                }
            }
        }
        if segs.len() == 1 {
            if name == "Self" { return c.self_ty.clone().ok_or_else(|| "Self outside impl".to_string()); }
            if c.erased_memory.contains(&name) { return Ok(Ty::n("MemM")); }
            if c.erased_target.contains(&name) { return Ok(Ty::n("T")); }
            if c.params.contains(&name) { return Ok(Ty::n(&name)); }
        }
        let args: Vec<&syn::Type> = match &p.path.segments.last().unwrap().arguments {
            syn::PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|x| if let syn::GenericArgument::Type(t) = x { Some(t) } else { None }).collect(),
            _ => vec![],
        };
        let a = |i: usize| -> Result<Ty, String> { args.get(i).map(|t| self.ty(t, c)).unwrap_or_else(|| Ok(Ty::n("_"))) };
        Ok(match name.as_str() {
            "Int" => Ty::int(),
            "bool" => Ty::boolean(),
            "u8" => Ty::n("u8"),
            "String" | "str" => Ty::n(if c.mini { "Txt" } else { "Str" }),
            "List" => Ty::list(a(0)?),
            "Vec" => Ty::list(a(0)?),
            "Option" => Ty::opt(a(0)?),
            "Map" => Ty::Named("Map".into(), vec![a(0)?, a(1)?]),
            "Set" => Ty::n1("Set", a(0)?),
            "GcCow" => Ty::n1("Box", a(0)?),
            "PhantomData" => Ty::unit(),
            "Result" | "NdResult" => {
                if segs.len() >= 2 && segs[0] == "std" { Ty::Named("Result".into(), vec![a(0)?, a(1)?]) }
                else {
                    let t = if args.is_empty() { Ty::unit() } else { a(0)? };
                    let e = if args.len() > 1 { a(1)? } else { Ty::n("TerminationInfo") };
                    Ty::Named("Result".into(), vec![t, e])
                }
            }
            "Nondet" => Ty::n1("Nondet", a(0)?),
            "Size" | "Align" | "Endianness" | "Signedness" | "Name" | "Mutability" | "Ordering" | "IntDistribution" => Ty::n(&name),
            "usize" | "u32" | "i32" | "u64" | "i64" | "u128" | "i128" | "isize" | "u16" | "i16" | "i8" => Ty::int(),
            _ => {
                if let Some((formals, body)) = self.aliases.get(&name) {
                    // expand the alias
                    let mut m = HashMap::new();
                    for (i, (f, d)) in formals.iter().enumerate() {
                        let t = match args.get(i) { Some(t) => self.ty(t, c)?, None => match d { Some(t) => self.ty(t, c)?, None => Ty::n("_") } };
                        m.insert(f.clone(), t);
                    }
                    let t = self.ty(body, &TyCtx::default())?;
                    return Ok(Infer::default().inst(&t, &m));
                }
                if let Some(d) = self.types.get(&name) {
                    let mut v = vec![];
                    for (i, (_, erased, def)) in d.formals.iter().enumerate() {
                        if *erased { continue; }
                        v.push(match (args.get(i), def) {
                            (Some(t), _) => self.ty(t, c)?,
                            (None, Some(t)) if args.len() > 0 || true => self.ty(t, c)?,
                            _ => Ty::n("_"),
                        });
                    }
                    return Ok(Ty::Named(name, v));
                }
                // a generic parameter (or something unknown: Verus will complain)
                Ty::n(&name)
            }
        })
    }
    /// Split generics into erased (Target / Memory bound) and kept ones.
    pub fn generics(&self, g: &syn::Generics, c: &mut TyCtx) -> (Vec<String>, Vec<(String, bool, Option<syn::Type>)>) {
        let mut kept = vec![];
        let mut formals = vec![];
        for p in &g.params {
            if let syn::GenericParam::Type(t) = p {
                let n = t.ident.to_string();
                let mut target = false;
                let mut memory = false;
                let mut isfn = false;
                for b in &t.bounds {
                    if let syn::TypeParamBound::Trait(tb) = b {
                        match last(&tb.path).as_str() { "Target" => target = true, "Memory" => memory = true, x if x.starts_with("Fn") => isfn = true, _ => {} }
                    }
                }
                if target { c.erased_target.insert(n.clone()); }
                if memory { c.erased_memory.insert(n.clone()); }
                if !target && !memory && !isfn { kept.push(n.clone()); c.params.insert(n.clone()); }
                formals.push((n, target || memory, t.default.clone()));
            }
        }
        (kept, formals)
    }
}
