use super::*;
use std::format;
use crate::vhu;
use crate::libspecr::hidden::*;

/// small address spaces, so that overlap and wrap-around are reached
macro_rules! target { ($n:ident, $p:expr, $a:expr, $e:expr) => {
    #[allow(non_camel_case_types)]
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, GcCompat, serde::Serialize, serde::Deserialize)]
    pub struct $n;
    impl Target for $n {
        const PTR_SIZE: Size = Size::from_bytes_const($p);
        const PTR_ALIGN: Align = Align::from_bytes_const($a).unwrap();
        const INT_MAX_ALIGN: Align = Align::from_bytes_const(4).unwrap();
        const ENDIANNESS: Endianness = $e;
        const MAX_ATOMIC_SIZE: Size = Size::from_bytes_const($p);
        fn valid_size(size: Size) -> bool { size.bytes().in_bounds(Signed, Self::PTR_SIZE) }
    }
} }
target!(ptr8, 1, 1, LittleEndian);
target!(ptr16, 2, 2, BigEndian);

pub fn sz(n: impl Into<Int>) -> Size { Size::from_bytes(n).unwrap() }
pub fn al(n: i64) -> Align { Align::from_bytes(n).unwrap() }
pub fn n(i: Int) -> i128 { i.try_to_i128() }
trait I128 { fn try_to_i128(self) -> i128; }
impl I128 for Int { fn try_to_i128(self) -> i128 { format!("{self}").parse().unwrap() } }
pub fn kinds() -> std::vec::Vec<AllocationKind> { std::vec![AllocationKind::Heap, AllocationKind::Global, AllocationKind::Function, AllocationKind::Stack, AllocationKind::VTable] }
/// the outcome of an operation, without its message
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum O { Ok, Ub, Leak, Other }
pub fn out<X>(r: &std::result::Result<X, TerminationInfo>) -> O {
    match r { Ok(_) => O::Ok, Err(TerminationInfo::Ub(_)) => O::Ub, Err(TerminationInfo::MemoryLeak) => O::Leak, Err(_) => O::Other }
}
/// both memory models behind one face
pub trait Mm: Memory {
    const TB: bool;
    fn cnt(&self) -> usize;
    /// (addr, len, align, kind, live)
    fn al(&self, i: usize) -> (i128, i128, i128, AllocationKind, bool);
    fn byte(&self, i: usize, j: usize) -> AbstractByte<Self::Provenance>;
    fn pid(p: Self::Provenance) -> usize;
}
impl<T: Target + serde::Serialize + for<'de> serde::Deserialize<'de> + Obj> Mm for BasicMemory<T> {
    const TB: bool = false;
    fn cnt(&self) -> usize { n(self.allocations.len()) as usize }
    fn al(&self, i: usize) -> (i128, i128, i128, AllocationKind, bool) { let a = self.allocations.index_at(Int::from(i)); (n(a.addr), n(a.data.len()), n(a.align.bytes()), a.kind, a.live) }
    fn byte(&self, i: usize, j: usize) -> AbstractByte<Self::Provenance> { self.allocations.index_at(Int::from(i)).data.index_at(Int::from(j)) }
    fn pid(p: Self::Provenance) -> usize { n(p.0.0) as usize }
}
impl<T: Target + serde::Serialize + for<'de> serde::Deserialize<'de> + Obj> Mm for TreeBorrowsMemory<T> {
    const TB: bool = true;
    fn cnt(&self) -> usize { n(self.mem.allocations.len()) as usize }
    fn al(&self, i: usize) -> (i128, i128, i128, AllocationKind, bool) { let a = self.mem.allocations.index_at(Int::from(i)); (n(a.addr), n(a.data.len()), n(a.align.bytes()), a.kind, a.live) }
    fn byte(&self, i: usize, j: usize) -> AbstractByte<Self::Provenance> { self.mem.allocations.index_at(Int::from(i)).data.index_at(Int::from(j)) }
    fn pid(p: Self::Provenance) -> usize { n(p.0.0) as usize }
}
/// allocate; None when the library found no admissible address (sampling timeout)
pub fn alloc<M: Mm>(m: &mut M, k: AllocationKind, s: i128, a: i64) -> Option<std::result::Result<ThinPointer<M::Provenance>, TerminationInfo>> {
    match vhu::catch(|| m.allocate(k, sz(s), al(a)).get_internal()) {
        Ok(r) => Some(r),
        Err(e) if e.contains("Timeout") => None,
        Err(e) => { vhu::fail(&format!("allocate({k:?}, {s}, {a}) panicked: {e}")); None }
    }
}
pub fn max_size<M: Mm>() -> i128 { 1i128 << (8 * n(<M::T as Target>::PTR_SIZE.bytes()) - 1) }
pub fn addr_end<M: Mm>() -> i128 { 1i128 << (8 * n(<M::T as Target>::PTR_SIZE.bytes())) }
/// independent reference of the byte-level memory
#[derive(Clone)]
pub struct RefA<P: Obj> { pub addr: i128, pub align: i128, pub kind: AllocationKind, pub live: bool, pub b: std::vec::Vec<AbstractByte<P>> }
pub struct RefM<P: Obj> { pub a: std::vec::Vec<RefA<P>> }
impl<P: Obj> RefM<P> {
    /// may `len` bytes be accessed at p, whose provenance names allocation `id`
    pub fn valid(&self, addr: i128, id: Option<usize>, len: i128, align: i128) -> bool {
        if addr % align != 0 { return false; }
        if len == 0 { return true; }
        let Some(id) = id else { return false };
        let a = &self.a[id];
        a.live && addr >= a.addr && addr + len <= a.addr + a.b.len() as i128
    }
}
pub fn same<M: Mm>(m: &M, r: &RefM<M::Provenance>, d: impl Fn() -> std::string::String) {
    let mut ok = m.cnt() == r.a.len();
    let mut why = std::string::String::new();
    for (i, a) in r.a.iter().enumerate() {
        if !ok { break; }
        let g = m.al(i);
        if g != (a.addr, a.b.len() as i128, a.align, a.kind, a.live) { ok = false; why = format!("allocation {i} is {g:?}"); }
        for (j, b) in a.b.iter().enumerate() { if ok && m.byte(i, j) != *b { ok = false; why = format!("allocation {i} byte {j} is {:?}", m.byte(i, j)); } }
    }
    vhu::check(ok, || format!("{} memory afterwards {why}", d()));
}
/// a random abstract byte, possibly carrying a fragment of a pointer of this memory
pub fn rbyte<P: Obj>(ps: &[ThinPointer<P>]) -> AbstractByte<P> {
    match vhu::below(4) {
        0 => AbstractByte::Uninit,
        1 if !ps.is_empty() => AbstractByte::Init(vhu::next() as u8, vhu::pick(ps).provenance.map(|provenance| ProvenanceFrag { provenance, position: Int::from(vhu::below(8)) })),
        _ => AbstractByte::Init(vhu::next() as u8, None),
    }
}
