use super::*;
use std::format;
use crate::libspecr::Name;
use std::string::ToString;
use crate::vhu;
use crate::libspecr::hidden::*;

/// a well-formed program that exits at once
pub fn mini_prog() -> Program {
    let start_fn = FnName(Name::from_internal(0));
    let bb = BbName(Name::from_internal(0));
    let ret = LocalName(Name::from_internal(0));
    let mut blocks: Map<BbName, BasicBlock> = Map::new();
    let t = Terminator::Intrinsic { intrinsic: IntrinsicOp::Exit, arguments: List::new(), ret: zst_place(ret), next_block: None };
    blocks.insert(bb, BasicBlock { statements: List::new(), terminator: t, kind: BbKind::Regular });
    let mut locals: Map<LocalName, Type> = Map::new();
    locals.insert(ret, unit_ty());
    let f = Function { locals, args: List::new(), ret, calling_convention: CallingConvention::C, blocks, start: bb };
    let mut functions: Map<FnName, Function> = Map::new();
    functions.insert(start_fn, f);
    Program { functions, start: start_fn, globals: Map::new(), traits: Map::new(), vtables: Map::new() }
}
fn zst_place(l: LocalName) -> PlaceExpr { PlaceExpr::Local(l) }
pub fn machine<M: Memory>() -> Machine<M> { machine_for::<M>(mini_prog()) }
pub fn machine_for<M: Memory>(p: Program) -> Machine<M> {
    match Machine::<M>::new(p, DynWrite::new(Null), DynWrite::new(Null)).get_internal() {
        Ok(m) => m,
        Err(e) => panic!("cannot build machine: {e:?}"),
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Null;
impl std::io::Write for Null { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
impl GcCompat for Null { fn points_to(&self, _b: &mut std::collections::HashSet<usize>) {} }
macro_rules! target { ($n:ident, $p:expr, $a:expr, $e:expr) => {
    #[allow(non_camel_case_types)]
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, GcCompat, serde::Serialize, serde::Deserialize)]
    pub struct $n;
    impl Target for $n {
        const PTR_SIZE: Size = Size::from_bytes_const($p);
        const PTR_ALIGN: Align = Align::from_bytes_const($a).unwrap();
        const INT_MAX_ALIGN: Align = Align::from_bytes_const(4).unwrap();
        const ENDIANNESS: Endianness = $e;
        const MAX_ATOMIC_SIZE: Size = Size::from_bytes_const($p);
        fn valid_size(size: Size) -> bool { size.bytes().in_bounds(Signed, Self::PTR_SIZE) }
    }
} }
target!(ptr8, 1, 1, LittleEndian);
target!(ptr16, 2, 2, BigEndian);
pub fn sz(n: impl Into<Int>) -> Size { Size::from_bytes(n).unwrap() }
pub fn al(n: i64) -> Align { Align::from_bytes(n).unwrap() }
pub fn n(i: Int) -> i128 { i.to_string().parse().unwrap() }
pub fn ity(signed: Signedness, bytes: i64) -> IntType { IntType { signed, size: sz(bytes) } }
/// the outcome of an operation, without its message
#[derive(Clone, PartialEq, Debug)]
pub enum O { Ok, Ub, Other, Panic(std::string::String) }
pub fn out<X>(r: &std::result::Result<std::result::Result<X, TerminationInfo>, std::string::String>) -> O {
    match r { Ok(Ok(_)) => O::Ok, Ok(Err(TerminationInfo::Ub(_))) => O::Ub, Ok(Err(_)) => O::Other, Err(e) => O::Panic(e.clone()) }
}
