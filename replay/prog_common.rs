//! Random MiniRust syntax (not necessarily well-formed) for the checks of the program tools.
#![allow(dead_code)]
use miniutil::*;
use minirust_rs::vhu;
use minirust_rs::libspecr::Name;

pub fn sz(n: i64) -> Size { Size::from_bytes(n).unwrap() }
pub fn al(n: i64) -> Align { Align::from_bytes(n).unwrap() }
pub fn lname(n: u32) -> LocalName { LocalName(Name::from_internal(n)) }
pub fn bname(n: u32) -> BbName { BbName(Name::from_internal(n)) }
pub fn fname(n: u32) -> FnName { FnName(Name::from_internal(n)) }
pub fn gname(n: u32) -> GlobalName { GlobalName(Name::from_internal(n)) }
pub fn tname(n: u32) -> TraitName { TraitName(Name::from_internal(n)) }
pub fn mname(n: u32) -> TraitMethodName { TraitMethodName(Name::from_internal(n)) }
pub fn vname(n: u32) -> VTableName { VTableName(Name::from_internal(n)) }
pub fn small() -> u32 { vhu::below(14) as u32 }
pub fn big_int() -> Int {
    match vhu::below(6) {
        0 => Int::from(vhu::next128()), 1 => -Int::from(vhu::next128()), 2 => Int::from(vhu::next128()) * Int::from(vhu::next128()) * Int::from(u128::MAX),
        3 => Int::from(i64::MIN) * Int::from(vhu::next()), _ => Int::from(vhu::range(-300, 300)),
    }
}
pub fn nat() -> Int { if vhu::below(4) == 0 { Int::from(vhu::next128()) } else { Int::from(vhu::below(40)) } }
pub fn gen_size() -> Size { Size::from_bytes(vhu::range(0, 40)).unwrap() }
pub fn gen_align() -> Align { al(1i64 << vhu::below(5)) }
pub fn gen_int_ty() -> IntType { IntType { signed: if vhu::coin() { Signed } else { Unsigned }, size: sz(1i64 << vhu::below(5)) } }
pub fn gen_meta() -> PointerMetaKind { match vhu::below(3) { 0 => PointerMetaKind::None, 1 => PointerMetaKind::ElementCount, _ => PointerMetaKind::VTablePointer(tname(small())) } }
pub fn gen_head() -> TupleHeadLayout { TupleHeadLayout { end: gen_size(), align: gen_align(), packed_align: if vhu::below(3) == 0 { Some(gen_align()) } else { None } } }
pub fn gen_layout(d: u32) -> LayoutStrategy {
    match vhu::below(if d == 0 { 3 } else { 4 }) {
        0 => LayoutStrategy::Sized(gen_size(), gen_align()), 1 => LayoutStrategy::Slice(gen_size(), gen_align()), 2 => LayoutStrategy::TraitObject(tname(small())),
        _ => LayoutStrategy::Tuple { head: gen_head(), tail: GcCow::new(loop { let l = gen_layout(d - 1); if !matches!(l, LayoutStrategy::Sized(..)) { break l } }) },
    }
}
pub fn list_of<T: Obj>(max: u64, mut f: impl FnMut() -> T) -> List<T> { let mut l = List::new(); for _ in 0..vhu::below(max + 1) { l.push(f()); } l }
pub fn gen_cells(l: LayoutStrategy) -> UnsafeCellStrategy {
    match l {
        LayoutStrategy::Sized(..) => UnsafeCellStrategy::Sized { cells: list_of(2, || (gen_size(), gen_size())) },
        LayoutStrategy::Slice(..) => UnsafeCellStrategy::Slice { element_cells: list_of(2, || (gen_size(), gen_size())) },
        LayoutStrategy::TraitObject(..) => UnsafeCellStrategy::TraitObject,
        LayoutStrategy::Tuple { tail, .. } => UnsafeCellStrategy::Tuple { head_cells: list_of(2, || (gen_size(), gen_size())), tail_cells: GcCow::new(gen_cells(tail.extract())) },
    }
}
pub fn gen_pointee() -> PointeeInfo { let layout = gen_layout(2); PointeeInfo { layout, inhabited: vhu::below(4) != 0, unsafe_cells: gen_cells(layout), freeze: vhu::coin(), unpin: vhu::coin() } }
pub fn gen_ptr_ty() -> PtrType {
    match vhu::below(6) {
        0 | 1 => PtrType::Raw { meta_kind: gen_meta() },
        2 => PtrType::Ref { mutbl: if vhu::coin() { Mutability::Mutable } else { Mutability::Immutable }, pointee: gen_pointee() },
        3 => PtrType::Box { pointee: gen_pointee() }, 4 => PtrType::FnPtr, _ => PtrType::VTablePtr(tname(small())),
    }
}
pub fn gen_discriminator(d: u32) -> Discriminator {
    match vhu::below(if d == 0 { 2 } else { 3 }) {
        0 => Discriminator::Known(big_int()), 1 => Discriminator::Invalid,
        _ => {
            let mut children: Map<(Int, Int), Discriminator> = Map::new();
            for _ in 0..vhu::below(3) { children.insert((big_int(), big_int()), gen_discriminator(d - 1)); }
            Discriminator::Branch { offset: gen_size(), value_type: gen_int_ty(), fallback: GcCow::new(gen_discriminator(d - 1)), children }
        }
    }
}
/// a sized type
pub fn gen_type(d: u32) -> Type {
    match vhu::below(if d == 0 { 4 } else { 8 }) {
        0 | 1 => Type::Int(gen_int_ty()), 2 => Type::Bool, 3 => Type::Ptr(gen_ptr_ty()),
        4 => Type::Tuple { sized_fields: list_of(3, || (gen_size(), gen_type(d - 1))), sized_head_layout: gen_head(), unsized_field: GcCow::new(None) },
        5 => Type::Array { elem: GcCow::new(gen_type(d - 1)), count: nat() },
        6 => Type::Union { fields: list_of(3, || (gen_size(), gen_type(d - 1))), size: gen_size(), align: gen_align(), chunks: list_of(2, || (gen_size(), gen_size())) },
        _ => {
            let mut variants: Map<Int, Variant> = Map::new();
            for _ in 0..vhu::below(4) {
                let mut tagger: Map<Offset, (IntType, Int)> = Map::new();
                for _ in 0..vhu::below(3) { tagger.insert(gen_size(), (gen_int_ty(), big_int())); }
                variants.insert(big_int(), Variant { ty: gen_type(d - 1), tagger });
            }
            Type::Enum { variants, discriminant_ty: gen_int_ty(), discriminator: gen_discriminator(2), size: gen_size(), align: gen_align() }
        }
    }
}
/// any type, also unsized
pub fn gen_any_type(d: u32) -> Type {
    match vhu::below(6) {
        0 => Type::Slice { elem: GcCow::new(gen_type(d)) }, 1 => Type::TraitObject(tname(small())),
        2 => Type::Tuple { sized_fields: list_of(2, || (gen_size(), gen_type(d))), sized_head_layout: gen_head(), unsized_field: GcCow::new(Some(if vhu::coin() { Type::Slice { elem: GcCow::new(gen_type(0)) } } else { Type::TraitObject(tname(small())) })) },
        _ => gen_type(d),
    }
}
pub fn gen_reloc() -> Relocation { Relocation { name: gname(small()), offset: if vhu::coin() { Size::ZERO } else { gen_size() } } }
pub fn gen_const() -> Constant {
    match vhu::below(6) {
        0 => Constant::Int(big_int()), 1 => Constant::Bool(vhu::coin()), 2 => Constant::GlobalPointer(gen_reloc()), 3 => Constant::FnPointer(fname(small())),
        4 => Constant::VTablePointer(vname(small())), _ => Constant::PointerWithoutProvenance(if vhu::below(3) == 0 { Int::ZERO } else { nat() }),
    }
}
pub const INT_BIN: [IntBinOp; 16] = [IntBinOp::Add, IntBinOp::AddUnchecked, IntBinOp::Sub, IntBinOp::SubUnchecked, IntBinOp::Mul, IntBinOp::MulUnchecked, IntBinOp::Div, IntBinOp::DivExact,
    IntBinOp::Rem, IntBinOp::Shl, IntBinOp::ShlUnchecked, IntBinOp::Shr, IntBinOp::ShrUnchecked, IntBinOp::BitAnd, IntBinOp::BitOr, IntBinOp::BitXor];
pub const INT_UN: [IntUnOp; 3] = [IntUnOp::Neg, IntUnOp::BitNot, IntUnOp::CountOnes];
pub const OVERFLOW: [IntBinOpWithOverflow; 3] = [IntBinOpWithOverflow::Add, IntBinOpWithOverflow::Sub, IntBinOpWithOverflow::Mul];
pub const REL: [RelOp; 7] = [RelOp::Lt, RelOp::Gt, RelOp::Le, RelOp::Ge, RelOp::Eq, RelOp::Ne, RelOp::Cmp];
pub fn gen_binop() -> BinOp {
    match vhu::below(8) {
        0 | 1 | 2 => BinOp::Int(vhu::pick(&INT_BIN)), 3 => BinOp::IntWithOverflow(vhu::pick(&OVERFLOW)), 4 => BinOp::Rel(vhu::pick(&REL)), 5 => BinOp::PtrOffset { inbounds: vhu::coin() },
        6 => BinOp::PtrOffsetFrom { inbounds: vhu::coin(), nonneg: vhu::coin() }, _ => BinOp::ConstructWidePointer(gen_ptr_ty()),
    }
}
pub fn gen_unop() -> UnOp {
    match vhu::below(9) {
        0 | 1 => UnOp::Int(vhu::pick(&INT_UN)), 2 => UnOp::Cast(CastOp::IntToInt(gen_int_ty())), 3 => UnOp::Cast(CastOp::Transmute(gen_type(1))), 4 => UnOp::GetThinPointer, 5 => UnOp::GetMetadata,
        6 => UnOp::ComputeSize(gen_any_type(1)), 7 => UnOp::ComputeAlign(gen_any_type(1)), _ => UnOp::VTableMethodLookup(mname(small())),
    }
}
pub fn gen_value(d: u32) -> ValueExpr {
    if d == 0 { return ValueExpr::Constant(gen_const(), gen_type(1)); }
    match vhu::below(12) {
        0 => ValueExpr::Constant(gen_const(), gen_type(1)),
        1 => { let ty = if vhu::coin() { Type::Array { elem: GcCow::new(gen_type(1)), count: nat() } } else { Type::Tuple { sized_fields: list_of(2, || (gen_size(), gen_type(1))), sized_head_layout: gen_head(), unsized_field: GcCow::new(None) } };
            ValueExpr::Tuple(list_of(3, || gen_value(d - 1)), ty) }
        2 => ValueExpr::Union { field: Int::from(small()), expr: GcCow::new(gen_value(d - 1)), union_ty: gen_type(1) },
        3 => ValueExpr::Variant { discriminant: big_int(), data: GcCow::new(gen_value(d - 1)), enum_ty: gen_type(1) },
        4 => ValueExpr::GetDiscriminant { place: GcCow::new(gen_place(d - 1)) },
        5 | 6 => ValueExpr::Load { source: GcCow::new(gen_place(d - 1)) },
        7 => ValueExpr::AddrOf { target: GcCow::new(gen_place(d - 1)), ptr_ty: gen_ptr_ty() },
        8 | 9 => ValueExpr::UnOp { operator: gen_unop(), operand: GcCow::new(gen_value(d - 1)) },
        _ => ValueExpr::BinOp { operator: gen_binop(), left: GcCow::new(gen_value(d - 1)), right: GcCow::new(gen_value(d - 1)) },
    }
}
pub fn gen_place(d: u32) -> PlaceExpr {
    if d == 0 { return PlaceExpr::Local(lname(small())); }
    match vhu::below(6) {
        0 => PlaceExpr::Local(lname(small())), 1 | 2 => PlaceExpr::Deref { operand: GcCow::new(gen_value(d - 1)), ty: gen_any_type(1) },
        3 => PlaceExpr::Field { root: GcCow::new(gen_place(d - 1)), field: Int::from(small()) },
        4 => PlaceExpr::Index { root: GcCow::new(gen_place(d - 1)), index: GcCow::new(gen_value(d - 1)) },
        _ => PlaceExpr::Downcast { root: GcCow::new(gen_place(d - 1)), discriminant: big_int() },
    }
}
pub fn gen_stmt(d: u32) -> Statement {
    match vhu::below(8) {
        0 | 1 => Statement::Assign { destination: gen_place(d), source: gen_value(d) }, 2 => Statement::PlaceMention(gen_place(d)), 3 => Statement::SetDiscriminant { destination: gen_place(d), value: big_int() },
        4 => Statement::Validate { place: gen_place(d), fn_entry: vhu::coin() }, 5 => Statement::Deinit { place: gen_place(d) }, 6 => Statement::StorageLive(lname(small())), _ => Statement::StorageDead(lname(small())),
    }
}
pub fn gen_opt_bb() -> Option<BbName> { if vhu::coin() { Some(bname(small())) } else { None } }
pub const INTRINSICS: [IntrinsicOp; 21] = [IntrinsicOp::Abort, IntrinsicOp::Assume, IntrinsicOp::Exit, IntrinsicOp::PrintStdout, IntrinsicOp::PrintStderr, IntrinsicOp::Allocate, IntrinsicOp::Deallocate, IntrinsicOp::Spawn,
    IntrinsicOp::Join, IntrinsicOp::RawEq, IntrinsicOp::AtomicStore, IntrinsicOp::AtomicLoad, IntrinsicOp::AtomicCompareExchange, IntrinsicOp::AtomicFetchAndOp(IntBinOp::Add), IntrinsicOp::AtomicFetchAndOp(IntBinOp::Sub),
    IntrinsicOp::Lock(IntrinsicLockOp::Acquire), IntrinsicOp::Lock(IntrinsicLockOp::Release), IntrinsicOp::Lock(IntrinsicLockOp::Create), IntrinsicOp::PointerExposeProvenance, IntrinsicOp::PointerWithExposedProvenance, IntrinsicOp::GetUnwindPayload];
pub fn gen_term(d: u32) -> Terminator {
    match vhu::below(10) {
        0 => Terminator::Goto(bname(small())),
        1 => { let mut cases: Map<Int, BbName> = Map::new(); for _ in 0..vhu::below(5) { cases.insert(big_int(), bname(small())); } Terminator::Switch { value: gen_value(d), cases, fallback: bname(small()) } }
        2 => Terminator::Unreachable, 3 => Terminator::Return,
        4 => Terminator::StartUnwind { unwind_payload: gen_value(d), unwind_block: bname(small()) }, 5 => Terminator::StopUnwind(bname(small())), 6 => Terminator::ResumeUnwind,
        7 => Terminator::Intrinsic { intrinsic: vhu::pick(&INTRINSICS), arguments: list_of(3, || gen_value(d)), ret: gen_place(d), next_block: gen_opt_bb() },
        _ => Terminator::Call { callee: gen_value(d), calling_convention: if vhu::coin() { CallingConvention::C } else { CallingConvention::Rust },
            arguments: list_of(3, || if vhu::coin() { ArgumentExpr::ByValue(gen_value(d)) } else { ArgumentExpr::InPlace(gen_place(d)) }), ret: gen_place(d), next_block: gen_opt_bb(), unwind_block: gen_opt_bb() },
    }
}
pub const KINDS: [BbKind; 4] = [BbKind::Regular, BbKind::Cleanup, BbKind::Catch, BbKind::Terminate];
pub fn gen_block(d: u32) -> BasicBlock { BasicBlock { statements: list_of(3, || gen_stmt(d)), terminator: gen_term(d), kind: vhu::pick(&KINDS) } }
pub fn gen_function(d: u32) -> Function {
    let mut locals: Map<LocalName, Type> = Map::new();
    for _ in 0..vhu::below(5) { locals.insert(lname(small()), gen_any_type(1)); }
    let mut blocks: Map<BbName, BasicBlock> = Map::new();
    for _ in 0..vhu::below(4) { blocks.insert(bname(small()), gen_block(d)); }
    Function { locals, args: list_of(3, || lname(small())), ret: lname(small()), calling_convention: if vhu::coin() { CallingConvention::C } else { CallingConvention::Rust }, blocks, start: bname(small()) }
}
pub fn gen_global() -> Global {
    Global { bytes: list_of(20, || if vhu::below(4) == 0 { None } else { Some(vhu::next() as u8) }), relocations: list_of(3, || (gen_size(), gen_reloc())), align: gen_align() }
}
pub fn gen_vtable() -> VTable {
    let mut methods: Map<TraitMethodName, FnName> = Map::new();
    for _ in 0..vhu::below(4) { methods.insert(mname(small()), fname(small())); }
    VTable { trait_name: tname(small()), size: gen_size(), align: gen_align(), cells: list_of(2, || (gen_size(), gen_size())), methods }
}
pub fn gen_program(d: u32) -> Program {
    let mut functions: Map<FnName, Function> = Map::new();
    for _ in 0..vhu::below(4) { functions.insert(fname(small()), gen_function(d)); }
    let mut globals: Map<GlobalName, Global> = Map::new();
    for _ in 0..vhu::below(4) { globals.insert(gname(small()), gen_global()); }
    let mut vtables: Map<VTableName, VTable> = Map::new();
    for _ in 0..vhu::below(4) { vtables.insert(vname(small()), gen_vtable()); }
    let mut traits: Map<TraitName, Set<TraitMethodName>> = Map::new();
    for _ in 0..vhu::below(4) { let mut s: Set<TraitMethodName> = Set::new(); for _ in 0..vhu::below(4) { s.insert(mname(small())); } traits.insert(tname(small()), s); }
    Program { functions, start: fname(small()), globals, traits, vtables }
}
/// a program consisting of one function with one block
pub fn wrap(stmts: &[Statement], t: Terminator) -> Program {
    let mut blocks: Map<BbName, BasicBlock> = Map::new();
    blocks.insert(bname(0), BasicBlock { statements: stmts.iter().copied().collect(), terminator: t, kind: BbKind::Regular });
    let f = Function { locals: Map::new(), args: List::new(), ret: lname(0), calling_convention: CallingConvention::C, blocks, start: bname(0) };
    let mut functions: Map<FnName, Function> = Map::new();
    functions.insert(fname(0), f);
    Program { functions, start: fname(0), globals: Map::new(), traits: Map::new(), vtables: Map::new() }
}
