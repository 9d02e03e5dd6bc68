//! The intermediate form: pure expressions, items (straight-line effects) and blocks.
use crate::ty::Ty;

#[derive(Clone, Debug)]
pub struct Ex { pub k: K, pub ty: Ty }

#[derive(Clone, Debug)]
pub enum K {
    /// A variable, constant or other total atom.
    Raw(String),
    IntLit(String),
    Field(Box<Ex>, String),
    /// Call: callee text, receiver (method style), arguments; `ok` says whether there is a `_ok` companion.
    Call { f: String, recv: Option<Box<Ex>>, args: Vec<Ex>, ok: OkKind, /** explicit type arguments (printed when all are known) */ targs: Vec<Ty> },
    Tuple(Vec<Ex>),
    Struct { path: String, fields: Vec<(String, Ex)>, base: Option<Box<Ex>> },
    Bin(String, Box<Ex>, Box<Ex>),
    And(Box<Ex>, Box<Ex>),
    Or(Box<Ex>, Box<Ex>),
    Un(String, Box<Ex>),
    If(Box<Ex>, Box<Block>, Box<Block>),
    Match(Box<Ex>, Vec<Arm>),
    /// Pure block expression.
    Block(Box<Block>),
    Closure { params: Vec<(String, Ty)>, body: Box<Block>, scope: Scope },
    Panic,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum OkKind { Total, Partial, /** user function: always has an _ok companion */ User }

#[derive(Clone, Debug)]
pub struct Arm { pub pat: String, pub guard: Option<Ex>, pub body: Block }

#[derive(Clone, Debug, Default)]
pub struct Block { pub items: Vec<Item>, pub tail: Tail }

#[derive(Clone, Debug, Default)]
pub enum Tail {
    Yield(Ex),
    Ret(Ex),
    Panic,
    Continue,
    Break,
    If(Ex, Box<Block>, Box<Block>),
    Match(Ex, Vec<Arm>),
    #[default]
    Hole,
}

/// The state variables (emitted names) an exit of this scope carries besides the value.
#[derive(Clone, Debug, Default)]
pub struct Scope { pub vars: Vec<String>, pub var_tys: Vec<Ty>, pub ret: Option<Ty>, /** the declared result type is a type parameter: a unit result is not dropped */ pub keep_unit: bool }

#[derive(Clone, Debug)]
pub enum Item {
    Let(String, Ex),
    LetElse(String, Ex, Block),
    Try { var: String, ex: Ex, option: bool },
    /// Non-tail if/match with exits or mutations. `vars` are the outer variables assigned inside.
    Join { pat: String, vars: Vec<String>, code: Block },
    /// A closure body or block with its own exits, executed in place.
    LetScope { pat: String, scope: Scope, code: Block },
    Loop(Box<LoopCall>),
    Assert(Ex),
}

#[derive(Clone, Debug)]
pub struct LoopCall {
    pub name: String,
    /// actual arguments, in parameter order (after the iteration arguments)
    pub iter: Vec<Ex>,
    pub start: Option<Ex>,
    pub args: Vec<String>,
    pub state: Vec<String>,
    pub exits: bool,
    pub fn_args: Vec<String>,
}

impl Ex {
    pub fn raw(s: impl Into<String>, ty: Ty) -> Ex { Ex { k: K::Raw(s.into()), ty } }
    pub fn unit() -> Ex { Ex::raw("()", Ty::unit()) }
    pub fn field(b: Ex, f: &str, ty: Ty) -> Ex { Ex { k: K::Field(Box::new(b), f.into()), ty } }
    pub fn trivial(&self) -> bool {
        match &self.k {
            K::Raw(_) | K::IntLit(_) => true,
            K::Field(b, _) => b.trivial(),
            K::Tuple(v) => v.iter().all(|x| x.trivial()),
            _ => false,
        }
    }
}
impl Block {
    pub fn yld(e: Ex) -> Block { Block { items: vec![], tail: Tail::Yield(e) } }
    /// Does control leave the block other than by yielding its value?
    pub fn exits(&self) -> bool {
        self.items.iter().any(|i| i.exits()) || match &self.tail {
            Tail::Yield(_) | Tail::Hole => false,
            Tail::Ret(_) | Tail::Panic | Tail::Continue | Tail::Break => true,
            Tail::If(_, a, b) => a.exits() || b.exits(),
            Tail::Match(_, arms) => arms.iter().any(|a| a.body.exits()),
        }
    }
    pub fn loop_control(&self) -> bool {
        self.items.iter().any(|i| match i {
            Item::LetElse(_, _, b) | Item::Join { code: b, .. } => b.loop_control(),
            _ => false,
        }) || match &self.tail {
            Tail::Continue | Tail::Break => true,
            Tail::If(_, a, b) => a.loop_control() || b.loop_control(),
            Tail::Match(_, arms) => arms.iter().any(|a| a.body.loop_control()),
            _ => false,
        }
    }
    /// exits through Ret/Panic/Try (not loop control)
    pub fn fn_exits(&self) -> bool {
        self.items.iter().any(|i| match i {
            Item::LetElse(_, _, b) | Item::Join { code: b, .. } => b.fn_exits(),
            Item::Try { .. } => true,
            Item::Loop(l) => l.exits,
            _ => false,
        }) || match &self.tail {
            Tail::Ret(_) | Tail::Panic => true,
            Tail::If(_, a, b) => a.fn_exits() || b.fn_exits(),
            Tail::Match(_, arms) => arms.iter().any(|a| a.body.fn_exits()),
            _ => false,
        }
    }
    pub fn yields(&self) -> usize {
        match &self.tail {
            Tail::Yield(_) => 1,
            Tail::If(_, a, b) => a.yields() + b.yields(),
            Tail::Match(_, arms) => arms.iter().map(|a| a.body.yields()).sum(),
            _ => 0,
        }
    }
}
impl Item {
    pub fn exits(&self) -> bool {
        match self {
            Item::Let(..) | Item::LetScope { .. } | Item::Assert(_) => false,
            Item::LetElse(..) | Item::Try { .. } => true,
            Item::Join { code, .. } => code.exits(),
            Item::Loop(l) => l.exits,
        }
    }
}
