//! Printing of the intermediate form as Verus spec functions: the value of a function, and (`_ok`) whether its
//! evaluation is free of panics.
use crate::ir::*;
use crate::ty::*;

pub type S = String;

fn lit_paren(s: &str) -> S { s.to_string() }

pub fn args(v: &[Ex]) -> S { v.iter().map(val).collect::<Vec<_>>().join(", ") }

fn known(t: &Ty) -> bool {
    match t {
        Ty::Var(_) | Ty::Never => false,
        Ty::Named(n, a) => n != "_" && a.iter().all(known),
        Ty::Tuple(a) => a.iter().all(known),
        Ty::Fn(p, r) => p.iter().all(|x| known(&x.0)) && known(r),
    }
}
fn turbo(t: &[Ty]) -> S {
    if t.is_empty() || !t.iter().all(known) { return String::new(); }
    match t.iter().map(show).collect::<Result<Vec<_>, _>>() { Ok(v) => format!("::<{}>", v.join(", ")), Err(_) => String::new() }
}
pub fn val(e: &Ex) -> S {
    match &e.k {
        K::Raw(_) if e.ty == Ty::Never => "arbitrary()".into(),
        K::Raw(s) => s.clone(),
        K::IntLit(s) => {
            if e.ty.head() == Some("u8") { format!("{}u8", s) } else { format!("{}int", s) }
        }
        K::Field(b, f) => format!("{}.{}", val(b), f),
        K::Call { f, recv: Some(r), args: a, .. } => format!("{}.{}({})", paren(r), f, args(a)),
        K::Call { f, recv: None, args: a, targs, .. } => format!("{}{}({})", f, turbo(targs), args(a)),
        K::Tuple(v) if v.len() == 1 => format!("({},)", val(&v[0])),
        K::Tuple(v) => format!("({})", args(v)),
        K::Struct { path, fields, base } => {
            let mut fs: Vec<S> = fields.iter().map(|(n, e)| format!("{}: {}", n, val(e))).collect();
            if let Some(b) = base { fs.push(format!("..{}", val(b))) }
            format!("{} {{ {} }}", path, fs.join(", "))
        }
        K::Bin(op, a, b) => format!("({} {} {})", val(a), op, val(b)),
        K::And(a, b) => format!("({} && {})", val(a), val(b)),
        K::Or(a, b) => format!("({} || {})", val(a), val(b)),
        K::Un(op, a) => format!("({}{})", op, val(a)),
        K::If(c, a, b) => format!("(if {} {{ {} }} else {{ {} }})", val(c), pure(a), pure(b)),
        K::Match(s, arms) => format!("(match {} {{ {} }})", val(s), arms.iter().map(|a| arm(a, &pure)).collect::<Vec<_>>().join(" ")),
        K::Block(b) => format!("{{ {} }}", pure(b)),
        K::Closure { params, body, scope } => format!("|{}| {{ {} }}", params_s(params), scoped(body, scope)),
        K::Panic => "arbitrary()".into(),
    }
}
fn params_s(params: &[(String, Ty)]) -> S {
    params.iter().map(|(p, t)| match show(t) { Ok(t) => format!("{}: {}", p, t), Err(_) => p.clone() }).collect::<Vec<_>>().join(", ")
}
fn arm(a: &Arm, f: &dyn Fn(&Block) -> S) -> S {
    match &a.guard {
        Some(g) => format!("{} if {} => {{ {} }}", a.pat, val(g), f(&a.body)),
        None => format!("{} => {{ {} }}", a.pat, f(&a.body)),
    }
}
fn paren(e: &Ex) -> S {
    match &e.k {
        K::Raw(s) if s.starts_with('|') => format!("({})", s),
        K::Struct { .. } | K::Closure { .. } => format!("({})", val(e)),
        _ => lit_paren(&val(e)),
    }
}

/// Continuations for the leaves of a block.
pub struct Kont<'a> {
    pub yld: &'a dyn Fn(&Ex) -> S,
    pub ret: &'a dyn Fn(&Ex) -> S,
    /// an already packed exit value
    pub raw: &'a dyn Fn(&str) -> S,
    pub panic: &'a str,
    pub cont: &'a dyn Fn() -> S,
    pub brk: &'a dyn Fn() -> S,
}

pub fn pack(scope: &Scope, e: &Ex) -> S {
    let mut v = scope.vars.clone();
    let unit = !scope.keep_unit && scope.ret.as_ref().map(|t| t.is_unit()).unwrap_or(false);
    if v.is_empty() { return val(e); }
    if !unit { v.push(val(e)); }
    if v.len() == 1 { v.pop().unwrap() } else { format!("({})", v.join(", ")) }
}
fn unpack(vars: &[String], pat: &str, unit: bool) -> S {
    let mut v: Vec<S> = vars.to_vec();
    if v.is_empty() { return if unit { "_".into() } else { pat.into() }; }
    if !unit { v.push(pat.into()); }
    if v.len() == 1 { v.pop().unwrap() } else { format!("({})", v.join(", ")) }
}
fn no() -> S { "__unexpected_loop_control__".into() }

/// A pure block (no exits).
pub fn pure(b: &Block) -> S {
    let f = |e: &Ex| val(e);
    let r = |e: &Ex| format!("__unexpected_ret__({})", val(e));
    let raw = |s: &str| format!("__unexpected_raw__({})", s);
    block(b, &Kont { yld: &f, ret: &r, raw: &raw, panic: "arbitrary()", cont: &no, brk: &no })
}
/// A block with its own exit scope.
pub fn scoped(b: &Block, scope: &Scope) -> S {
    let f = |e: &Ex| pack(scope, e);
    let raw = |s: &str| s.to_string();
    block(b, &Kont { yld: &f, ret: &f, raw: &raw, panic: "arbitrary()", cont: &no, brk: &no })
}

pub fn block(b: &Block, k: &Kont) -> S { items(&b.items, &b.tail, k) }

fn tuple_s(v: &[String]) -> S {
    match v.len() { 0 => "()".into(), 1 => v[0].clone(), _ => format!("({})", v.join(", ")) }
}
/// what a Join yields: (vars..., value)
fn join_val(vars: &[String], pat: &str, e: &Ex) -> S {
    let mut v = vars.to_vec();
    if pat != "_" { v.push(val(e)); }
    tuple_s(&v)
}
fn join_pat(vars: &[String], pat: &str) -> S {
    let mut v = vars.to_vec();
    if pat != "_" { v.push(pat.into()); }
    if v.is_empty() { "_".into() } else { tuple_s(&v) }
}
/// the value of a multi-exit join or loop as a Flow
fn flow(code: &Block, vars: &[String], pat: &str, k: &Kont) -> S {
    let y = |e: &Ex| format!("Flow::Cont({})", join_val(vars, pat, e));
    let r = |e: &Ex| format!("Flow::Exit({})", (k.ret)(e));
    let raw = |s: &str| format!("Flow::Exit({})", (k.raw)(s));
    let c = || format!("Flow::Exit({})", (k.cont)());
    let b = || format!("Flow::Exit({})", (k.brk)());
    let p = format!("Flow::Exit({})", k.panic);
    block(code, &Kont { yld: &y, ret: &r, raw: &raw, panic: &p, cont: &c, brk: &b })
}
pub fn loop_call(l: &LoopCall, suffix: &str) -> S {
    let mut a: Vec<S> = l.iter.iter().map(val).collect();
    if let Some(s) = &l.start { a.push(val(s)); }
    for x in &l.args { a.push(x.clone()); if suffix == "_ok" && l.fn_args.contains(x) { a.push(format!("{}_ok", x)); } }
    format!("{}{}({})", l.name, suffix, a.join(", "))
}

fn items(its: &[Item], t: &Tail, k: &Kont) -> S {
    let Some((it, rest)) = its.split_first() else { return tail(t, k) };
    let go = || items(rest, t, k);
    match it {
        Item::Let(p, _) if p == "_" => go(),
        Item::Let(p, e) => format!("let {} = {};\n{}", p, val(e), go()),
        Item::Assert(_) => go(),
        Item::LetElse(p, e, b) => format!("match {} {{ {} => {{ {} }} _ => {{ {} }} }}", val(e), p, go(), block(b, k)),
        Item::Try { var, ex, option } => {
            let none = Ex::raw("None", Ty::unit());
            let err = Ex::raw("Err(err__)", Ty::unit());
            let (ok, bad, exit) = if *option { ("Some", "None", (k.ret)(&none)) } else { ("Ok", "Err(err__)", (k.ret)(&err)) };
            format!("match {} {{ {} => {{ {} }} {}({}) => {{ {} }} }}", val(ex), bad, exit, ok, var, go())
        }
        Item::Join { pat, vars, code } => {
            if !code.exits() {
                let p = join_pat(vars, pat);
                if p == "_" { return go(); }
                let y = |e: &Ex| join_val(vars, pat, e);
                let kk = Kont { yld: &y, ret: k.ret, raw: k.raw, panic: k.panic, cont: k.cont, brk: k.brk };
                format!("let {} = {{ {} }};\n{}", p, block(code, &kk), go())
            } else if code.yields() <= 1 {
                let y = |e: &Ex| {
                    if pat == "_" { items(rest, t, k) } else { format!("let {} = {};\n{}", pat, val(e), items(rest, t, k)) }
                };
                block(code, &Kont { yld: &y, ret: k.ret, raw: k.raw, panic: k.panic, cont: k.cont, brk: k.brk })
            } else {
                format!("match ({{ {} }}) {{ Flow::Exit(exit__) => exit__, Flow::Cont({}) => {{ {} }} }}",
                    flow(code, vars, pat, k), join_pat(vars, pat), go())
            }
        }
        Item::LetScope { pat, scope, code } => {
            let p = scope_pat(scope, pat);
            if p == "_" { return go(); }
            format!("let {} = {{ {} }};\n{}", p, scoped(code, scope), go())
        }
        Item::Loop(l) => {
            if l.exits {
                format!("match {} {{ Flow::Exit(exit__) => {{ {} }} Flow::Cont({}) => {{ {} }} }}",
                    loop_call(l, ""), (k.raw)("exit__"), if l.state.is_empty() { "_".into() } else { tuple_s(&l.state) }, go())
            } else if l.state.is_empty() { go() } else {
                format!("let {} = {};\n{}", tuple_s(&l.state), loop_call(l, ""), go())
            }
        }
    }
}
fn scope_pat(scope: &Scope, pat: &str) -> S {
    let unit = !scope.keep_unit && scope.ret.as_ref().map(|t| t.is_unit()).unwrap_or(false);
    unpack(&scope.vars, pat, unit)
}
fn tail(t: &Tail, k: &Kont) -> S {
    match t {
        Tail::Yield(e) => (k.yld)(e),
        Tail::Ret(e) => (k.ret)(e),
        Tail::Panic => k.panic.to_string(),
        Tail::Continue => (k.cont)(),
        Tail::Break => (k.brk)(),
        Tail::If(c, a, b) => format!("if {} {{ {} }} else {{ {} }}", val(c), block(a, k), block(b, k)),
        Tail::Match(s, arms) => format!("match {} {{ {} }}", val(s), arms.iter().map(|a| arm(a, &|b| block(b, k))).collect::<Vec<_>>().join("\n")),
        Tail::Hole => "__hole__".into(),
    }
}

// ---------------------------------------------------------------- panic freedom

const T: &str = "true";
pub fn conj(v: Vec<S>) -> S {
    let v: Vec<S> = v.into_iter().filter(|s| s != T).collect();
    if v.is_empty() { T.into() } else if v.iter().any(|s| s == "false") && v.len() == 1 { "false".into() }
    else { v.iter().map(|s| format!("({})", s)).collect::<Vec<_>>().join(" && ") }
}
fn oks(v: &[Ex]) -> Vec<S> { v.iter().map(ok).collect() }

pub fn closure_ok(e: &Ex) -> Option<S> {
    if let K::Closure { params, body, .. } = &e.k {
        let f = |e: &Ex| ok(e);
        let b = okb(body, &OkK { yld: &f, cont: &|| no(), brk: &|| no() });
        if b == T { return None; }
        Some(format!("|{}| {{ {} }}", params_s(params), b))
    } else { None }
}
fn closure_ok_total(e: &Ex) -> S {
    closure_ok(e).unwrap_or_else(|| {
        if let K::Closure { params, .. } = &e.k { return format!("|{}| true", params_s(params)) }
        let Ty::Fn(p, _) = &e.ty else { return T.into() };
        let ps = p.iter().enumerate().map(|(i, (t, _))| (format!("a{}__", i), t.clone())).collect::<Vec<_>>();
        format!("|{}| true", params_s(&ps))
    })
}
fn ok_args(a: &[Ex]) -> S {
    a.iter().map(|x| {
        if let Ty::Fn(p, _) = &x.ty {
            let okc = match &x.k {
                K::Closure { .. } => closure_ok(x),
                K::Raw(n) if n.starts_with("f__") || n.chars().all(|c| c.is_alphanumeric() || c == '_') => Some(format!("{}_ok", n)),
                _ => None,
            };
            let okc = okc.unwrap_or_else(|| {
                let ps = p.iter().enumerate().map(|(i, (t, _))| (format!("a{}__", i), t.clone())).collect::<Vec<_>>();
                format!("|{}| true", params_s(&ps))
            });
            format!("{}, {}", val(x), okc)
        } else { val(x) }
    }).collect::<Vec<_>>().join(", ")
}
fn has_fn_arg(a: &[Ex]) -> bool { a.iter().any(|x| matches!(x.ty, Ty::Fn(..))) }

pub fn ok(e: &Ex) -> S {
    match &e.k {
        K::Raw(_) | K::IntLit(_) => T.into(),
        K::Field(b, _) => ok(b),
        K::Call { f, recv, args: a, ok: kind, targs } => {
            let mut v: Vec<S> = recv.iter().map(|r| ok(r)).collect();
            v.extend(oks(a));
            let all_trivial = a.iter().all(|x| !matches!(x.ty, Ty::Fn(..)) || (matches!(x.k, K::Closure { .. }) && closure_ok(x).is_none()));
            let own = match kind {
                OkKind::Total => has_fn_arg(a) && !all_trivial,
                OkKind::Partial | OkKind::User => true,
            };
            if own {
                v.push(match recv {
                    Some(r) => format!("{}.{}_ok({})", paren(r), f, ok_args(a)),
                    None => format!("{}_ok{}({})", f, turbo(targs), ok_args(a)),
                });
            }
            conj(v)
        }
        K::Tuple(a) => conj(oks(a)),
        K::Struct { fields, base, .. } => {
            let mut v: Vec<S> = fields.iter().map(|(_, e)| ok(e)).collect();
            if let Some(b) = base { v.push(ok(b)) }
            conj(v)
        }
        K::Bin(_, a, b) => conj(vec![ok(a), ok(b)]),
        K::And(a, b) => { let o = ok(b); conj(vec![ok(a), if o == T { o } else { format!("{} ==> ({})", val(a), o) }]) }
        K::Or(a, b) => { let o = ok(b); conj(vec![ok(a), if o == T { o } else { format!("!{} ==> ({})", val(a), o) }]) }
        K::Un(_, a) => ok(a),
        K::If(c, a, b) => conj(vec![ok(c), if_s(&val(c), okp(a), okp(b))]),
        K::Match(s, arms) => conj(vec![ok(s), match_s(s, arms, &okp)]),
        K::Block(b) => okp(b),
        K::Closure { .. } => T.into(),
        K::Panic => "false".into(),
    }
}
fn if_s(c: &str, a: S, b: S) -> S {
    if a == T && b == T { T.into() } else { format!("if {} {{ {} }} else {{ {} }}", c, a, b) }
}
fn match_s(s: &Ex, arms: &[Arm], f: &dyn Fn(&Block) -> S) -> S {
    let bodies: Vec<S> = arms.iter().map(|a| f(&a.body)).collect();
    if bodies.iter().all(|b| b == T) { return T.into(); }
    let v: Vec<S> = arms.iter().zip(bodies).map(|(a, b)| match &a.guard {
        Some(g) => format!("{} if {} => {{ {} }}", a.pat, val(g), b),
        None => format!("{} => {{ {} }}", a.pat, b),
    }).collect();
    format!("match {} {{ {} }}", val(s), v.join("\n"))
}
pub struct OkK<'a> {
    pub yld: &'a dyn Fn(&Ex) -> S,
    pub cont: &'a dyn Fn() -> S,
    pub brk: &'a dyn Fn() -> S,
}
fn okp(b: &Block) -> S {
    let f = |e: &Ex| ok(e);
    okb(b, &OkK { yld: &f, cont: &|| T.into(), brk: &|| T.into() })
}
pub fn okb(b: &Block, k: &OkK) -> S { oki(&b.items, &b.tail, k) }
fn let_in(p: &str, e: &str, rest: S) -> S {
    if rest == T { rest } else if p == "_" { rest } else { format!("{{ let {} = {};\n{} }}", p, e, rest) }
}
fn oki(its: &[Item], t: &Tail, k: &OkK) -> S {
    let Some((it, rest)) = its.split_first() else { return okt(t, k) };
    let go = || oki(rest, t, k);
    match it {
        Item::Let(p, e) if matches!(e.ty, Ty::Fn(..)) => {
            let g = go();
            let o = closure_ok_total(e);
            let o = if g == T { g } else { format!("{{ let {}_ok = {};\n{} }}", p, o, g) };
            conj(vec![ok(e), let_in(p, &val(e), o)])
        }
        Item::Let(p, e) => conj(vec![ok(e), let_in(p, &val(e), go())]),
        Item::Assert(e) => conj(vec![ok(e), val(e), go()]),
        Item::LetElse(p, e, b) => {
            let (g, o) = (go(), okb(b, k));
            conj(vec![ok(e), if g == T && o == T { T.into() } else { format!("match {} {{ {} => {{ {} }} _ => {{ {} }} }}", val(e), p, g, o) }])
        }
        Item::Try { var, ex, option } => {
            let g = go();
            let s = if g == T { g } else if *option { format!("match {} {{ None => true, Some({}) => {{ {} }} }}", val(ex), var, g) }
                else { format!("match {} {{ Err(_) => true, Ok({}) => {{ {} }} }}", val(ex), var, g) };
            conj(vec![ok(ex), s])
        }
        Item::Join { pat, vars, code } => {
            if !code.exits() {
                let g = go();
                let o = { let f = |e: &Ex| ok(e); okb(code, &OkK { yld: &f, cont: k.cont, brk: k.brk }) };
                if g == T || join_pat(vars, pat) == "_" { return conj(vec![o, g]); }
                let y = |e: &Ex| join_val(vars, pat, e);
                let r = |_: &Ex| S::from("__ret__");
                let raw = |_: &str| S::from("__raw__");
                let v = block(code, &Kont { yld: &y, ret: &r, raw: &raw, panic: "arbitrary()", cont: &no, brk: &no });
                conj(vec![o, let_in(&join_pat(vars, pat), &format!("{{ {} }}", v), g)])
            } else if code.yields() <= 1 {
                let y = |e: &Ex| conj(vec![ok(e), let_in(pat, &val(e), oki(rest, t, k))]);
                okb(code, &OkK { yld: &y, cont: k.cont, brk: k.brk })
            } else {
                let f = |e: &Ex| ok(e);
                let o = okb(code, &OkK { yld: &f, cont: k.cont, brk: k.brk });
                let g = go();
                if g == T { return o; }
                let y = |e: &Ex| format!("Flow::Cont({})", join_val(vars, pat, e));
                let r = |_: &Ex| S::from("Flow::Exit(())");
                let raw = |_: &str| S::from("Flow::Exit(())");
                let ex = || S::from("Flow::Exit(())");
                let v = block(code, &Kont { yld: &y, ret: &r, raw: &raw, panic: "Flow::Exit(())", cont: &ex, brk: &ex });
                conj(vec![o, format!("match ({{ {} }}) {{ Flow::Exit(_) => true, Flow::Cont({}) => {{ {} }} }}", v, join_pat(vars, pat), g)])
            }
        }
        Item::LetScope { pat, scope, code } => {
            let f = |e: &Ex| ok(e);
            let o = okb(code, &OkK { yld: &f, cont: &no, brk: &no });
            let g = go();
            let p = scope_pat(scope, pat);
            conj(vec![o, if g == T { g } else { let_in(&p, &format!("{{ {} }}", scoped(code, scope)), g) }])
        }
        Item::Loop(l) => {
            let g = go();
            let mut v: Vec<S> = l.iter.iter().map(ok).collect();
            if let Some(s) = &l.start { v.push(ok(s)) }
            v.push(loop_call(l, "_ok"));
            if g != T {
                v.push(if l.exits {
                    format!("match {} {{ Flow::Exit(_) => true, Flow::Cont({}) => {{ {} }} }}", loop_call(l, ""),
                        if l.state.is_empty() { "_".into() } else { tuple_s(&l.state) }, g)
                } else if l.state.is_empty() { g } else { let_in(&tuple_s(&l.state), &loop_call(l, ""), g) });
            }
            conj(v)
        }
    }
}
fn okt(t: &Tail, k: &OkK) -> S {
    match t {
        Tail::Yield(e) => (k.yld)(e),
        Tail::Ret(e) => ok(e),
        Tail::Panic => "false".into(),
        Tail::Continue => (k.cont)(),
        Tail::Break => (k.brk)(),
        Tail::If(c, a, b) => conj(vec![ok(c), if_s(&val(c), okb(a, k), okb(b, k))]),
        Tail::Match(s, arms) => conj(vec![ok(s), match_s(s, arms, &|b| okb(b, k))]),
        Tail::Hole => "__hole__".into(),
    }
}
