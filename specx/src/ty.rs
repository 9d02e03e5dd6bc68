//! Types of the translated language and best-effort unification.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ty {
    Var(usize),
    Named(String, Vec<Ty>),
    Tuple(Vec<Ty>),
    /// parameters (with "is &mut") and return type
    Fn(Vec<(Ty, bool)>, Box<Ty>),
    Never,
}

impl Ty {
    pub fn n(s: &str) -> Ty { Ty::Named(s.to_string(), vec![]) }
    pub fn n1(s: &str, a: Ty) -> Ty { Ty::Named(s.to_string(), vec![a]) }
    pub fn unit() -> Ty { Ty::Tuple(vec![]) }
    pub fn int() -> Ty { Ty::n("int") }
    pub fn boolean() -> Ty { Ty::n("bool") }
    pub fn list(a: Ty) -> Ty { Ty::n1("List", a) }
    pub fn opt(a: Ty) -> Ty { Ty::n1("Option", a) }
    pub fn is_unit(&self) -> bool { matches!(self, Ty::Tuple(v) if v.is_empty()) }
    pub fn head(&self) -> Option<&str> { if let Ty::Named(n, _) = self { Some(n) } else { None } }
}

#[derive(Default)]
pub struct Infer { pub sub: Vec<Option<Ty>>, pub lits: Vec<Ty>, pub open_lits: bool }

impl Infer {
    pub fn fresh(&mut self) -> Ty { self.sub.push(None); Ty::Var(self.sub.len() - 1) }
    pub fn shallow(&self, t: &Ty) -> Ty {
        let mut t = t.clone();
        while let Ty::Var(i) = t {
            match &self.sub[i] { Some(u) => t = u.clone(), None => return Ty::Var(i) }
        }
        t
    }
    pub fn deep(&self, t: &Ty) -> Ty {
        match self.shallow(t) {
            Ty::Named(n, a) => Ty::Named(n, a.iter().map(|x| self.deep(x)).collect()),
            Ty::Tuple(a) => Ty::Tuple(a.iter().map(|x| self.deep(x)).collect()),
            Ty::Fn(p, r) => Ty::Fn(p.iter().map(|(x, m)| (self.deep(x), *m)).collect(), Box::new(self.deep(&r))),
            t => t,
        }
    }
    fn occurs(&self, i: usize, t: &Ty) -> bool {
        match self.shallow(t) {
            Ty::Var(j) => i == j,
            Ty::Named(_, a) | Ty::Tuple(a) => a.iter().any(|x| self.occurs(i, x)),
            Ty::Fn(p, r) => p.iter().any(|(x, _)| self.occurs(i, x)) || self.occurs(i, &r),
            Ty::Never => false,
        }
    }
    /// Best effort: mismatches are ignored (Verus type-checks the output anyway).
    pub fn unify(&mut self, a: &Ty, b: &Ty) {
        let a = self.shallow(a);
        let b = self.shallow(b);
        match (a, b) {
            (Ty::Never, _) | (_, Ty::Never) => {}
            (Ty::Var(i), Ty::Var(j)) if i == j => {}
            (Ty::Var(i), t) | (t, Ty::Var(i)) => { if !self.occurs(i, &t) { self.sub[i] = Some(t) } }
            (Ty::Named(n, x), Ty::Named(m, y)) if n == m => { for (p, q) in x.iter().zip(y.iter()) { self.unify(p, q) } }
            (Ty::Tuple(x), Ty::Tuple(y)) => { for (p, q) in x.iter().zip(y.iter()) { self.unify(p, q) } }
            (Ty::Fn(x, r), Ty::Fn(y, s)) => {
                for ((p, _), (q, _)) in x.iter().zip(y.iter()) { self.unify(p, q) }
                self.unify(&r, &s)
            }
            _ => {}
        }
    }
    pub fn inst(&mut self, t: &Ty, m: &HashMap<String, Ty>) -> Ty {
        match t {
            Ty::Named(n, a) if a.is_empty() => m.get(n).cloned().unwrap_or_else(|| t.clone()),
            Ty::Named(n, a) => Ty::Named(n.clone(), a.iter().map(|x| self.inst(x, m)).collect()),
            Ty::Tuple(a) => Ty::Tuple(a.iter().map(|x| self.inst(x, m)).collect()),
            Ty::Fn(p, r) => Ty::Fn(p.iter().map(|(x, mu)| (self.inst(x, m), *mu)).collect(), Box::new(self.inst(r, m))),
            t => t.clone(),
        }
    }
}

/// Print a type as Verus source.
pub fn show(t: &Ty) -> Result<String, String> {
    Ok(match t {
        Ty::Var(_) => return Err("a type could not be inferred".into()),
        Ty::Never => "NeverT".into(),
        Ty::Named(n, a) if a.is_empty() => n.clone(),
        Ty::Named(n, a) => format!("{}<{}>", n, a.iter().map(show).collect::<Result<Vec<_>, _>>()?.join(", ")),
        Ty::Tuple(a) if a.len() == 1 => format!("({},)", show(&a[0])?),
        Ty::Tuple(a) => format!("({})", a.iter().map(show).collect::<Result<Vec<_>, _>>()?.join(", ")),
        Ty::Fn(p, r) => {
            let ps = p.iter().map(|(x, _)| show(x)).collect::<Result<Vec<_>, _>>()?.join(", ");
            format!("spec_fn({}) -> {}", ps, show(&fn_ret(p, r))?)
        }
    })
}

/// The state-passing return type of a function with these parameters.
pub fn fn_ret(p: &[(Ty, bool)], r: &Ty) -> Ty {
    let muts: Vec<Ty> = p.iter().filter(|(_, m)| *m).map(|(t, _)| t.clone()).collect();
    pack_ty(muts, r.clone())
}
pub fn pack_ty(mut muts: Vec<Ty>, r: Ty) -> Ty {
    if muts.is_empty() { return r; }
    if !r.is_unit() { muts.push(r); }
    if muts.len() == 1 { muts.pop().unwrap() } else { Ty::Tuple(muts) }
}
