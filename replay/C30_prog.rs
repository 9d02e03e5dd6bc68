use miniutil::*;
use miniutil::build as bd;
use miniutil::build::{FunctionBuilder, ProgramBuilder, TypeConv, Ret, InBounds, FetchBinOp};
use miniutil::run::get_stdout;
use minirust_rs::vhu;
#[path = "prog_common.rs"]
mod pc;
use pc::*;
use std::string::String;

fn it(s: Signedness, n: i64) -> IntType { IntType { signed: s, size: sz(n) } }
fn ti(s: Signedness, n: i64) -> Type { Type::Int(it(s, n)) }
fn ci(v: impl Into<Int>, t: Type) -> ValueExpr { ValueExpr::Constant(Constant::Int(v.into()), t) }
fn g<T: Obj>(x: T) -> GcCow<T> { GcCow::new(x) }
fn un(operator: UnOp, v: ValueExpr) -> ValueExpr { ValueExpr::UnOp { operator, operand: g(v) } }
fn bin(operator: BinOp, l: ValueExpr, r: ValueExpr) -> ValueExpr { ValueExpr::BinOp { operator, left: g(l), right: g(r) } }
fn tr(v: ValueExpr, t: Type) -> ValueExpr { un(UnOp::Cast(CastOp::Transmute(t)), v) }
fn unit_t() -> Type { Type::Tuple { sized_fields: List::new(), sized_head_layout: TupleHeadLayout { end: sz(0), align: al(1), packed_align: None }, unsized_field: g(None) } }
fn raw_t() -> Type { Type::Ptr(PtrType::Raw { meta_kind: PointerMetaKind::None }) }
fn unit_p() -> PlaceExpr { PlaceExpr::Deref { operand: g(ValueExpr::Constant(Constant::PointerWithoutProvenance(Int::ONE), raw_t())), ty: unit_t() } }
fn intr(i: IntrinsicOp, a: &[ValueExpr], ret: PlaceExpr, next: Option<u32>) -> Terminator { Terminator::Intrinsic { intrinsic: i, arguments: a.iter().copied().collect(), ret, next_block: next.map(bname) } }
fn u8b(v: ValueExpr) -> ValueExpr { tr(v, ti(Unsigned, 1)) }
fn q<T: PartialEq + std::fmt::Debug>(got: T, want: T, d: &str) { vhu::eq(got, want, || d.to_string()); }

fn exprs(k: u32) {
    let (x, y) = (gen_value(k), gen_value(k)); let p = gen_place(k); let n = vhu::next() as u32;
    q(bd::fn_ptr_internal(n), ValueExpr::Constant(Constant::FnPointer(fname(n)), Type::Ptr(PtrType::FnPtr)), "fn_ptr_internal");
    q(bd::fn_ptr(fname(n)), ValueExpr::Constant(Constant::FnPointer(fname(n)), Type::Ptr(PtrType::FnPtr)), "fn_ptr");
    macro_rules! ints { ($($t:ty, $s:ident, $n:expr);*) => { $( {
        for v in [<$t>::MIN, <$t>::MAX, 0 as $t, 1 as $t, vhu::next128() as $t] {
            q(bd::const_int(v), ci(v, ti($s, $n)), concat!("const_int::<", stringify!($t), ">"));
            q(bd::const_int_typed::<$t>(Int::from(v)), ci(v, ti($s, $n)), concat!("const_int_typed::<", stringify!($t), ">"));
            q(bd::variant(v, x, unit_t()), ValueExpr::Variant { discriminant: Int::from(v), data: g(x), enum_ty: unit_t() }, "variant");
            q(bd::downcast(p, v), PlaceExpr::Downcast { root: g(p), discriminant: Int::from(v) }, "downcast");
            q(bd::discriminator_known(v), Discriminator::Known(Int::from(v)), "discriminator_known");
        }
        q(bd::int_cast::<$t>(x), un(UnOp::Cast(CastOp::IntToInt(it($s, $n))), x), concat!("int_cast::<", stringify!($t), ">"));
        q(bd::bool_to_int::<$t>(x), if stringify!($t) == "u8" { u8b(x) } else { un(UnOp::Cast(CastOp::IntToInt(it($s, $n))), u8b(x)) }, concat!("bool_to_int::<", stringify!($t), ">"));
        q(<$t>::get_type(), ti($s, $n), concat!("TypeConv for ", stringify!($t)));
        q(<$t>::get_size(), sz($n), concat!("size of ", stringify!($t)));
        q(<$t>::get_align(), al(std::mem::align_of::<$t>() as i64), concat!("alignment of ", stringify!($t)));
        q(bd::discriminator_branch::<$t>(sz(3), Discriminator::Invalid, &[((1 as $t, 5 as $t), Discriminator::Known(Int::from(7))), ((5 as $t, <$t>::MAX), Discriminator::Known(Int::from(8)))]),
            Discriminator::Branch { offset: sz(3), value_type: it($s, $n), fallback: g(Discriminator::Invalid), children: [((Int::from(1 as $t), Int::from(5 as $t)), Discriminator::Known(Int::from(7))), ((Int::from(5 as $t), Int::from(<$t>::MAX)), Discriminator::Known(Int::from(8)))].into_iter().collect() }, "discriminator_branch");
        let va = bd::enum_variant(unit_t(), &[(sz(2), (it(Signed, 2), Int::from(-4))), (sz(0), (it(Unsigned, 1), Int::from(9)))]);
        q(va, Variant { ty: unit_t(), tagger: [(sz(0), (it(Unsigned, 1), Int::from(9))), (sz(2), (it(Signed, 2), Int::from(-4)))].into_iter().collect() }, "enum_variant");
        let vb = Variant { ty: Type::Bool, tagger: Map::new() };
        q(bd::enum_ty::<$t>(&[(3 as $t, va), (<$t>::MAX, vb)], Discriminator::Known(Int::from(3)), sz(8), al(4)), Type::Enum { variants: [(Int::from(3), va), (Int::from(<$t>::MAX), vb)].into_iter().collect(), discriminator: Discriminator::Known(Int::from(3)), discriminant_ty: it($s, $n), size: sz(8), align: al(4) }, "enum_ty");
    } )* } }
    ints!(u8, Unsigned, 1; u16, Unsigned, 2; u32, Unsigned, 4; u64, Unsigned, 8; u128, Unsigned, 16; i8, Signed, 1; i16, Signed, 2; i32, Signed, 4; i64, Signed, 8; i128, Signed, 16; usize, Unsigned, 8; isize, Signed, 8);
    for b in [false, true] { q(bd::const_bool(b), ValueExpr::Constant(Constant::Bool(b), Type::Bool), "const_bool"); }
    let fs = [(sz(0), ti(Signed, 4)), (sz(8), Type::Bool)];
    let tt = Type::Tuple { sized_fields: fs.iter().copied().collect(), sized_head_layout: TupleHeadLayout { end: sz(12), align: al(4), packed_align: None }, unsized_field: g(None) };
    q(bd::tuple_ty(&fs, sz(12), al(4)), tt, "tuple_ty");
    q(bd::tuple(&[x, y], tt), ValueExpr::Tuple([x, y].into_iter().collect(), tt), "tuple");
    for bad in [0usize, 1, 3] { q(vhu::catch(|| bd::tuple(&vec![x; bad], tt)).is_err(), true, "tuple with the wrong number of fields panics"); }
    q(vhu::catch(|| bd::tuple(&[], Type::Bool)).is_err(), true, "tuple at another type panics");
    let t = gen_type(1);
    for m in 0..4usize { let a: Vec<ValueExpr> = (0..m).map(|i| ci(i, t)).collect(); q(bd::array(&a, t), ValueExpr::Tuple(a.iter().copied().collect(), Type::Array { elem: g(t), count: Int::from(m) }), "array"); }
    q(bd::get_discriminant(p), ValueExpr::GetDiscriminant { place: g(p) }, "get_discriminant");
    q(bd::unit(), ValueExpr::Tuple(List::new(), unit_t()), "unit");
    q(bd::null(), ValueExpr::Constant(Constant::PointerWithoutProvenance(Int::ZERO), raw_t()), "null");
    q(bd::load(p), ValueExpr::Load { source: g(p) }, "load");
    let pt = gen_ptr_ty();
    q(bd::addr_of(p, Type::Ptr(pt)), ValueExpr::AddrOf { target: g(p), ptr_ty: pt }, "addr_of");
    q(vhu::catch(|| bd::addr_of(p, Type::Bool)).is_err(), true, "addr_of at another type panics");
    q(bd::neg(x), un(UnOp::Int(IntUnOp::Neg), x), "neg"); q(bd::bit_not(x), un(UnOp::Int(IntUnOp::BitNot), x), "bit_not"); q(bd::count_ones(x), un(UnOp::Int(IntUnOp::CountOnes), x), "count_ones");
    q(vhu::catch(|| bd::int_cast::<bool>(x)).is_err(), true, "int_cast to another type panics");
    let ut = gen_any_type(1);
    q(bd::compute_size(ut, x), un(UnOp::ComputeSize(ut), x), "compute_size"); q(bd::compute_align(ut, x), un(UnOp::ComputeAlign(ut), x), "compute_align");
    q(bd::ptr_addr(x), tr(x, ti(Unsigned, 8)), "ptr_addr"); q(bd::ptr_to_ptr(x, Type::Ptr(pt)), tr(x, Type::Ptr(pt)), "ptr_to_ptr");
    q(vhu::catch(|| bd::ptr_to_ptr(x, Type::Bool)).is_err(), true, "ptr_to_ptr at another type panics");
    q(bd::not(x), tr(bin(BinOp::Int(IntBinOp::Sub), ci(1, ti(Unsigned, 1)), u8b(x)), Type::Bool), "not");
    q(bd::transmute(x, t), tr(x, t), "transmute"); q(bd::get_thin_pointer(x), un(UnOp::GetThinPointer, x), "get_thin_pointer"); q(bd::get_metadata(x), un(UnOp::GetMetadata, x), "get_metadata");
    q(bd::construct_wide_pointer(x, y, Type::Ptr(pt)), bin(BinOp::ConstructWidePointer(pt), x, y), "construct_wide_pointer");
    q(vhu::catch(|| bd::construct_wide_pointer(x, y, Type::Bool)).is_err(), true, "construct_wide_pointer at another type panics");
    use IntBinOp::*;
    let ib: [(fn(ValueExpr, ValueExpr) -> ValueExpr, IntBinOp); 16] = [(bd::add, Add), (bd::add_unchecked, AddUnchecked), (bd::sub, Sub), (bd::sub_unchecked, SubUnchecked), (bd::mul, Mul), (bd::mul_unchecked, MulUnchecked), (bd::div, Div), (bd::div_exact, DivExact), (bd::rem, Rem),
        (bd::shl, Shl), (bd::shl_unchecked, ShlUnchecked), (bd::shr, Shr), (bd::shr_unchecked, ShrUnchecked), (bd::bit_and, BitAnd), (bd::bit_or, BitOr), (bd::bit_xor, BitXor)];
    for (h, o) in ib { q(h(x, y), bin(BinOp::Int(o), x, y), &format!("helper for {o:?}")); }
    let ov: [(fn(ValueExpr, ValueExpr) -> ValueExpr, IntBinOpWithOverflow); 3] = [(bd::overflow_add, IntBinOpWithOverflow::Add), (bd::overflow_sub, IntBinOpWithOverflow::Sub), (bd::overflow_mul, IntBinOpWithOverflow::Mul)];
    for (h, o) in ov { q(h(x, y), bin(BinOp::IntWithOverflow(o), x, y), &format!("overflow helper for {o:?}")); }
    let rl: [(fn(ValueExpr, ValueExpr) -> ValueExpr, RelOp); 7] = [(bd::eq, RelOp::Eq), (bd::ne, RelOp::Ne), (bd::ge, RelOp::Ge), (bd::gt, RelOp::Gt), (bd::le, RelOp::Le), (bd::lt, RelOp::Lt), (bd::cmp, RelOp::Cmp)];
    for (h, o) in rl { q(h(x, y), bin(BinOp::Rel(o), x, y), &format!("helper for {o:?}")); }
    let bl: [(fn(ValueExpr, ValueExpr) -> ValueExpr, IntBinOp); 3] = [(bd::bool_and, BitAnd), (bd::bool_or, BitOr), (bd::bool_xor, BitXor)];
    for (h, o) in bl { q(h(x, y), tr(bin(BinOp::Int(o), u8b(x), u8b(y)), Type::Bool), &format!("Boolean helper for {o:?}")); }
    for (i, inbounds) in [(true, true), (false, false)] {
        let ib = || if i { InBounds::Yes } else { InBounds::No };
        q(bd::ptr_offset(x, y, ib()), bin(BinOp::PtrOffset { inbounds }, x, y), "ptr_offset");
        q(bd::ptr_offset_from(x, y, ib()), bin(BinOp::PtrOffsetFrom { inbounds, nonneg: false }, x, y), "ptr_offset_from");
        q(bd::ptr_offset_from_nonneg(x, y, ib()), bin(BinOp::PtrOffsetFrom { inbounds, nonneg: true }, x, y), "ptr_offset_from_nonneg");
    }
    q(bd::local_by_name(lname(n)), PlaceExpr::Local(lname(n)), "local_by_name"); q(bd::local(n), PlaceExpr::Local(lname(n)), "local");
    let gp = |n| ValueExpr::Constant(Constant::GlobalPointer(Relocation { name: gname(n), offset: sz(0) }), raw_t());
    q(bd::global_by_name::<u16>(gname(n)), PlaceExpr::Deref { operand: g(gp(n)), ty: ti(Unsigned, 2) }, "global_by_name"); q(bd::global::<[i8; 3]>(n), PlaceExpr::Deref { operand: g(gp(n)), ty: Type::Array { elem: g(ti(Signed, 1)), count: Int::from(3) } }, "global");
    q(bd::const_vtable(vname(n), tname(n ^ 5)), ValueExpr::Constant(Constant::VTablePointer(vname(n)), Type::Ptr(PtrType::VTablePtr(tname(n ^ 5)))), "const_vtable");
    q(bd::vtable_method_lookup(x, mname(n)), un(UnOp::VTableMethodLookup(mname(n)), x), "vtable_method_lookup");
    q(bd::deref(x, ut), PlaceExpr::Deref { operand: g(x), ty: ut }, "deref"); q(bd::field(p, n), PlaceExpr::Field { root: g(p), field: Int::from(n) }, "field"); q(bd::index(p, x), PlaceExpr::Index { root: g(p), index: g(x) }, "index");
    q(bd::unit_ptr(), ValueExpr::Constant(Constant::PointerWithoutProvenance(Int::ONE), raw_t()), "unit_ptr"); q(bd::unit_place(), unit_p(), "unit_place");
    q(bd::by_value(x), ArgumentExpr::ByValue(x), "by_value"); q(bd::in_place(p), ArgumentExpr::InPlace(p), "in_place");
    // statements
    q(bd::assign(p, x), Statement::Assign { destination: p, source: x }, "assign"); q(bd::place_mention(p), Statement::PlaceMention(p), "place_mention"); q(bd::set_discriminant(p, -3i32), Statement::SetDiscriminant { destination: p, value: Int::from(-3) }, "set_discriminant");
    for b in [false, true] { q(bd::validate(p, b), Statement::Validate { place: p, fn_entry: b }, "validate"); }
    q(bd::storage_live(n), Statement::StorageLive(lname(n)), "storage_live"); q(bd::storage_dead(n), Statement::StorageDead(lname(n)), "storage_dead");
    // terminators
    let (z, a, w) = (gen_value(k), n % 100, n % 97 + 200);
    use IntrinsicOp as I;
    q(bd::goto(a), Terminator::Goto(bname(a)), "goto");
    q(bd::if_(x, a, w), Terminator::Switch { value: u8b(x), cases: [(Int::ONE, bname(a))].into_iter().collect(), fallback: bname(w) }, "if_");
    q(bd::switch_int(x, &[(-1i8, 4), (i8::MIN, 5), (7, a)], w), Terminator::Switch { value: x, cases: [(Int::from(-1), bname(4)), (Int::from(-128), bname(5)), (Int::from(7), bname(a))].into_iter().collect(), fallback: bname(w) }, "switch_int");
    q(bd::switch_int::<u8>(x, &[], w), Terminator::Switch { value: x, cases: Map::new(), fallback: bname(w) }, "switch_int without cases");
    q(bd::unreachable(), Terminator::Unreachable, "unreachable"); q(bd::return_(), Terminator::Return, "return_"); q(bd::resume_unwind(), Terminator::ResumeUnwind, "resume_unwind");
    q(bd::start_unwind(x, bname(a)), Terminator::StartUnwind { unwind_payload: x, unwind_block: bname(a) }, "start_unwind"); q(bd::stop_unwind(bname(a)), Terminator::StopUnwind(bname(a)), "stop_unwind");
    for next in [None, Some(a)] { let args = [ArgumentExpr::ByValue(x), ArgumentExpr::InPlace(p), ArgumentExpr::ByValue(y)];
        q(bd::call(n, &args, p, next), Terminator::Call { callee: ValueExpr::Constant(Constant::FnPointer(fname(n)), Type::Ptr(PtrType::FnPtr)), calling_convention: CallingConvention::C, arguments: args.iter().copied().collect(), ret: p, next_block: next.map(bname), unwind_block: None }, "call"); }
    let s = Some(a);
    q(bd::assume(x, a), intr(I::Assume, &[x], unit_p(), s), "assume"); q(bd::print(x, a), intr(I::PrintStdout, &[x], unit_p(), s), "print"); q(bd::eprint(x, a), intr(I::PrintStderr, &[x], unit_p(), s), "eprint");
    q(bd::allocate(x, y, p, a), intr(I::Allocate, &[x, y], p, s), "allocate"); q(bd::deallocate(x, y, z, a), intr(I::Deallocate, &[x, y, z], unit_p(), s), "deallocate");
    q(bd::exit(), intr(I::Exit, &[], unit_p(), None), "exit"); q(bd::abort(), intr(I::Abort, &[], unit_p(), None), "abort");
    q(bd::spawn(x, y, p, a), intr(I::Spawn, &[x, y], p, s), "spawn"); q(bd::join(x, a), intr(I::Join, &[x], unit_p(), s), "join"); q(bd::raw_eq(p, x, y, a), intr(I::RawEq, &[x, y], p, s), "raw_eq");
    q(bd::atomic_store(x, y, a), intr(I::AtomicStore, &[x, y], unit_p(), s), "atomic_store"); q(bd::atomic_load(p, x, a), intr(I::AtomicLoad, &[x], p, s), "atomic_load");
    q(bd::atomic_fetch(FetchBinOp::Add, p, x, y, a), intr(I::AtomicFetchAndOp(Add), &[x, y], p, s), "atomic_fetch add"); q(bd::atomic_fetch(FetchBinOp::Sub, p, x, y, a), intr(I::AtomicFetchAndOp(Sub), &[x, y], p, s), "atomic_fetch sub");
    q(bd::compare_exchange(p, x, y, z, a), intr(I::AtomicCompareExchange, &[x, y, z], p, s), "compare_exchange");
    q(bd::expose_provenance(p, x, a), intr(I::PointerExposeProvenance, &[x], p, s), "expose_provenance"); q(bd::with_exposed_provenance(p, x, a), intr(I::PointerWithExposedProvenance, &[x], p, s), "with_exposed_provenance");
    q(bd::lock_create(p, a), intr(I::Lock(IntrinsicLockOp::Create), &[], p, s), "lock_create"); q(bd::lock_acquire(x, a), intr(I::Lock(IntrinsicLockOp::Acquire), &[x], unit_p(), s), "lock_acquire");
    q(bd::lock_release(x, a), intr(I::Lock(IntrinsicLockOp::Release), &[x], unit_p(), s), "lock_release"); q(bd::get_unwind_payload(p, a), intr(I::GetUnwindPayload, &[], p, s), "get_unwind_payload");
}
fn types() {
    for s in [Signed, Unsigned] { for n in [1i64, 2, 4, 8, 16] { q(bd::int_ty(s, sz(n)), ti(s, n), "int_ty"); } }
    q(bd::bool_ty(), Type::Bool, "bool_ty"); q(bool::get_type(), Type::Bool, "TypeConv for bool"); q(<()>::get_type(), unit_t(), "TypeConv for ()");
    let pi = gen_pointee();
    q(bd::ref_ty(pi), Type::Ptr(PtrType::Ref { mutbl: Mutability::Immutable, pointee: pi }), "ref_ty"); q(bd::ref_mut_ty(pi), Type::Ptr(PtrType::Ref { mutbl: Mutability::Mutable, pointee: pi }), "ref_mut_ty"); q(bd::box_ty(pi), Type::Ptr(PtrType::Box { pointee: pi }), "box_ty");
    let m = gen_meta(); q(bd::raw_ptr_ty(m), Type::Ptr(PtrType::Raw { meta_kind: m }), "raw_ptr_ty"); q(bd::raw_void_ptr_ty(), raw_t(), "raw_void_ptr_ty");
    for _ in 0..8 { let lay = gen_layout(3);
        fn frozen(l: LayoutStrategy) -> UnsafeCellStrategy { match l { LayoutStrategy::Sized(..) => UnsafeCellStrategy::Sized { cells: List::new() }, LayoutStrategy::Slice(..) => UnsafeCellStrategy::Slice { element_cells: List::new() }, LayoutStrategy::TraitObject(_) => UnsafeCellStrategy::TraitObject, LayoutStrategy::Tuple { tail, .. } => UnsafeCellStrategy::Tuple { head_cells: List::new(), tail_cells: g(frozen(tail.extract())) } } }
        q(bd::from_frozen_layout(lay), frozen(lay), "from_frozen_layout");
        let t = loop { let t = gen_any_type(2); if vhu::catch(|| t.layout::<DefaultTarget>()).is_ok() { break t } };
        let pe = PointeeInfo { layout: t.layout::<DefaultTarget>(), inhabited: true, unsafe_cells: frozen(t.layout::<DefaultTarget>()), freeze: true, unpin: true };
        q(bd::ref_ty_default_markers_for(t), Type::Ptr(PtrType::Ref { mutbl: Mutability::Immutable, pointee: pe }), "ref_ty_default_markers_for"); q(bd::ref_mut_ty_default_markers_for(t), Type::Ptr(PtrType::Ref { mutbl: Mutability::Mutable, pointee: pe }), "ref_mut_ty_default_markers_for");
    }
    let fs: Vec<(Offset, Type)> = (0..vhu::below(4)).map(|_| (gen_size(), gen_type(1))).collect(); let (a, b, pk) = (gen_size(), gen_align(), if vhu::coin() { Some(gen_align()) } else { None }); let t = gen_type(1);
    q(bd::tuple_ty(&fs, a, b), Type::Tuple { sized_fields: fs.iter().copied().collect(), sized_head_layout: TupleHeadLayout { end: a, align: b, packed_align: None }, unsized_field: g(None) }, "tuple_ty");
    q(bd::unsized_tuple_ty(&fs, t, a, b, pk), Type::Tuple { sized_fields: fs.iter().copied().collect(), sized_head_layout: TupleHeadLayout { end: a, align: b, packed_align: pk }, unsized_field: g(Some(t)) }, "unsized_tuple_ty");
    q(bd::union_ty(&fs, a, b), Type::Union { fields: fs.iter().copied().collect(), size: a, align: b, chunks: [(sz(0), a)].into_iter().collect() }, "union_ty");
    let n = vhu::below(1000); q(bd::array_ty(t, n), Type::Array { elem: g(t), count: Int::from(n) }, "array_ty"); q(bd::slice_ty(t), Type::Slice { elem: g(t) }, "slice_ty"); q(bd::trait_object_ty(tname(n as u32)), Type::TraitObject(tname(n as u32)), "trait_object_ty");
    q(bd::discriminator_invalid(), Discriminator::Invalid, "discriminator_invalid");
    for n in [0i64, 1, 7, 1 << 40] { q(bd::size(n), sz(n), "size"); q(bd::offset(n), sz(n), "offset"); } for n in [1i64, 2, 1 << 20] { q(bd::align(n), al(n), "align"); } for n in [0i64, -1, 3, 12] { q(vhu::catch(|| bd::align(n)).is_err(), true, "an alignment that is no power of two panics"); } q(vhu::catch(|| bd::size(-1)).is_err(), true, "a negative size panics");
    // conversions of Rust types
    let r = |mutbl, l, fz, up| Type::Ptr(PtrType::Ref { mutbl, pointee: PointeeInfo { layout: l, inhabited: true, unsafe_cells: if let LayoutStrategy::Slice(..) = l { UnsafeCellStrategy::Slice { element_cells: List::new() } } else { UnsafeCellStrategy::Sized { cells: List::new() } }, freeze: fz, unpin: up } });
    let (im, mu) = (Mutability::Immutable, Mutability::Mutable); let so = |a, b| LayoutStrategy::Sized(sz(a), al(b));
    q(<&u32>::get_type(), r(im, so(4, 4), true, true), "TypeConv for &u32"); q(<&mut u64>::get_type(), r(mu, so(8, 8), true, true), "TypeConv for &mut u64"); q(<&[u16]>::get_type(), r(im, LayoutStrategy::Slice(sz(2), al(2)), true, true), "TypeConv for &[u16]");
    q(<&mut [[i32; 3]]>::get_type(), r(mu, LayoutStrategy::Slice(sz(12), al(4)), true, true), "TypeConv for &mut [[i32; 3]]"); q(<&&u8>::get_type(), r(im, so(8, 8), true, true), "TypeConv for &&u8"); q(<&&[u8]>::get_type(), r(im, so(16, 8), true, true), "TypeConv for &&[u8]");
    let el = Type::Ptr(PtrType::Raw { meta_kind: PointerMetaKind::ElementCount });
    q(<*const u8>::get_type(), raw_t(), "TypeConv for *const u8"); q(<*mut [u8; 3]>::get_type(), raw_t(), "TypeConv for *mut [u8; 3]"); q(<*const [u8]>::get_type(), el, "TypeConv for *const [u8]"); q(<*mut [u8]>::get_type(), el, "TypeConv for *mut [u8]");
    q(<[u32; 5]>::get_type(), Type::Array { elem: g(ti(Unsigned, 4)), count: Int::from(5) }, "TypeConv for [u32; 5]"); q(<[i8]>::get_type(), Type::Slice { elem: g(ti(Signed, 1)) }, "TypeConv for [i8]"); q(<[u32; 5]>::get_size(), sz(20), "size of [u32; 5]");
    // globals, functions, blocks, programs
    q(bd::global_int::<u32>(), Global { bytes: [Some(0u8); 4].into_iter().collect(), relocations: List::new(), align: al(4) }, "global_int"); q(bd::global_int::<[u16; 3]>(), Global { bytes: [Some(0u8); 6].into_iter().collect(), relocations: List::new(), align: al(2) }, "global_int of an array");
    q(bd::global_ptr::<u8>(), Global { bytes: [Some(0u8); 8].into_iter().collect(), relocations: List::new(), align: al(8) }, "global_ptr"); q(bd::global_ptr::<[u8]>(), Global { bytes: [Some(0u8); 16].into_iter().collect(), relocations: List::new(), align: al(8) }, "global_ptr of a slice");
    let st = [gen_stmt(1), gen_stmt(1), gen_stmt(1)];
    for k in KINDS { for n in 0..4 { q(bd::block(&st[..n], Terminator::Return, k), BasicBlock { statements: st[..n].iter().copied().collect(), terminator: Terminator::Return, kind: k }, "block"); } }
    let bb = bd::block!(st[0], st[1], Terminator::Unreachable); q(bb, BasicBlock { statements: st[..2].iter().copied().collect(), terminator: Terminator::Unreachable, kind: BbKind::Regular }, "block! with statements");
    let bb1 = bd::block!(Terminator::Return); q(bb1, BasicBlock { statements: List::new(), terminator: Terminator::Return, kind: BbKind::Regular }, "block! without statements");
    let bb3 = bd::block!(st[2], st[0], st[1], Terminator::Return,); q(bb3, BasicBlock { statements: [st[2], st[0], st[1]].into_iter().collect(), terminator: Terminator::Return, kind: BbKind::Regular }, "block! with a trailing comma");
    let tys = [ti(Signed, 4), Type::Bool, ti(Unsigned, 1), unit_t()];
    for nl in 0..4usize { for na in 0..=nl { for yes in [true, false] {
        if yes && (nl == 0 || na + 1 > nl) { continue }
        let f = bd::function(if yes { Ret::Yes } else { Ret::No }, na, &tys[..nl], &[bb, bb1, bb3]);
        let mut locals: Map<LocalName, Type> = tys[..nl].iter().enumerate().map(|(i, t)| (lname(i as u32), *t)).collect();
        if !yes { locals.insert(lname(nl as u32), unit_t()); }
        q(f, Function { locals, args: (0..na).map(|i| lname(i as u32 + yes as u32)).collect(), ret: lname(if yes { 0 } else { nl as u32 }), blocks: [(bname(0), bb), (bname(1), bb1), (bname(2), bb3)].into_iter().collect(), start: bname(0), calling_convention: CallingConvention::C }, &format!("function with {nl} locals, {na} arguments, return local {yes}"));
    } } }
    q(vhu::catch(|| bd::function(Ret::Yes, 0, &[], &[bb])).is_err(), true, "function with a return local but no locals panics");
    let f = |b: BasicBlock| bd::function(Ret::No, 0, &[], &[b]); let gl = [bd::global_int::<u8>(), bd::global_int::<u64>()];
    let want = |gs: &[Global]| Program { functions: [(fname(0), f(bb)), (fname(1), f(bb1))].into_iter().collect(), start: fname(0), globals: gs.iter().enumerate().map(|(i, x)| (gname(i as u32), *x)).collect(), traits: Map::new(), vtables: Map::new() };
    q(bd::program_with_globals(&[f(bb), f(bb1)], &gl), want(&gl), "program_with_globals"); q(bd::program(&[f(bb), f(bb1)]), want(&[]), "program");
    q(bd::small_program(&tys, &st), bd::program(&[bd::function(Ret::No, 0, &tys, &[bd::block(&st, bd::exit(), BbKind::Regular)])]), "small_program");
}
/// what a function builder was told, and what came of it
fn blk(f: &Function, n: u32) -> BasicBlock { f.blocks.get(bname(n)).expect("block exists") }
fn one(build: impl FnOnce(&mut FunctionBuilder), kind: Option<BbKind>) -> Function {
    let mut p = ProgramBuilder::new(); let mut f = p.declare_function();
    match kind { None => build(&mut f), Some(k) => { f.goto(bname(1)); let n = f.declare_block(); assert_eq!(n, bname(1)); f.set_cur_block(n, k); build(&mut f) } }
    let n = p.finish_function(f); p.finish_program(n).functions.get(n).unwrap()
}
fn builder() {
    let (x, y, z) = (gen_value(2), gen_value(2), gen_value(1)); let (p, r) = (gen_place(2), gen_place(1));
    use IntrinsicOp as I;
    type B = Box<dyn Fn(&mut FunctionBuilder)>;
    // terminators that continue in a fresh block of the same kind
    let cont: Vec<(&str, B, Box<dyn Fn(u32) -> Terminator>)> = vec![
        ("assume", Box::new(move |f| f.assume(x)), Box::new(move |n| intr(I::Assume, &[x], unit_p(), Some(n)))), ("print", Box::new(move |f| f.print(x)), Box::new(move |n| intr(I::PrintStdout, &[x], unit_p(), Some(n)))),
        ("eprint", Box::new(move |f| f.eprint(x)), Box::new(move |n| intr(I::PrintStderr, &[x], unit_p(), Some(n)))), ("allocate", Box::new(move |f| f.allocate(x, y, p)), Box::new(move |n| intr(I::Allocate, &[x, y], p, Some(n)))),
        ("deallocate", Box::new(move |f| f.deallocate(x, y, z)), Box::new(move |n| intr(I::Deallocate, &[x, y, z], unit_p(), Some(n)))),
        ("spawn", Box::new(move |f| f.spawn(fname(9), x, p)), Box::new(move |n| intr(I::Spawn, &[ValueExpr::Constant(Constant::FnPointer(fname(9)), Type::Ptr(PtrType::FnPtr)), x], p, Some(n)))), ("join", Box::new(move |f| f.join(x)), Box::new(move |n| intr(I::Join, &[x], unit_p(), Some(n)))),
        ("raw_eq", Box::new(move |f| f.raw_eq(p, x, y)), Box::new(move |n| intr(I::RawEq, &[x, y], p, Some(n)))), ("atomic_store", Box::new(move |f| f.atomic_store(x, y)), Box::new(move |n| intr(I::AtomicStore, &[x, y], unit_p(), Some(n)))),
        ("atomic_load", Box::new(move |f| f.atomic_load(p, x)), Box::new(move |n| intr(I::AtomicLoad, &[x], p, Some(n)))), ("atomic_fetch add", Box::new(move |f| f.atomic_fetch(FetchBinOp::Add, p, x, y)), Box::new(move |n| intr(I::AtomicFetchAndOp(IntBinOp::Add), &[x, y], p, Some(n)))),
        ("atomic_fetch sub", Box::new(move |f| f.atomic_fetch(FetchBinOp::Sub, p, x, y)), Box::new(move |n| intr(I::AtomicFetchAndOp(IntBinOp::Sub), &[x, y], p, Some(n)))),
        ("compare_exchange", Box::new(move |f| f.compare_exchange(p, x, y, z)), Box::new(move |n| intr(I::AtomicCompareExchange, &[x, y, z], p, Some(n)))), ("expose_provenance", Box::new(move |f| f.expose_provenance(p, x)), Box::new(move |n| intr(I::PointerExposeProvenance, &[x], p, Some(n)))),
        ("with_exposed_provenance", Box::new(move |f| f.with_exposed_provenance(p, x)), Box::new(move |n| intr(I::PointerWithExposedProvenance, &[x], p, Some(n)))), ("lock_create", Box::new(move |f| f.lock_create(p)), Box::new(move |n| intr(I::Lock(IntrinsicLockOp::Create), &[], p, Some(n)))),
        ("lock_acquire", Box::new(move |f| f.lock_acquire(x)), Box::new(move |n| intr(I::Lock(IntrinsicLockOp::Acquire), &[x], unit_p(), Some(n)))), ("lock_release", Box::new(move |f| f.lock_release(x)), Box::new(move |n| intr(I::Lock(IntrinsicLockOp::Release), &[x], unit_p(), Some(n)))),
        ("get_unwind_payload", Box::new(move |f| f.get_unwind_payload(p)), Box::new(move |n| intr(I::GetUnwindPayload, &[], p, Some(n)))),
    ];
    let args = [ArgumentExpr::ByValue(x), ArgumentExpr::InPlace(r)];
    let call = move |callee: ValueExpr, ret: PlaceExpr, conv, next: Option<u32>, unwind: Option<u32>| Terminator::Call { callee, calling_convention: conv, arguments: args.iter().copied().collect(), ret, next_block: next.map(bname), unwind_block: unwind.map(bname) };
    let (ru, cc) = (CallingConvention::Rust, CallingConvention::C);
    let mut cont = cont;
    cont.push(("call_nounwind", Box::new(move |f| f.call_nounwind(p, y, &args)), Box::new(move |n| call(y, p, ru, Some(n), None)))); cont.push(("call_ignoreret", Box::new(move |f| f.call_ignoreret(y, &args)), Box::new(move |n| call(y, unit_p(), ru, Some(n), None))));
    cont.push(("call", Box::new(move |f| f.call(p, y, &args, bname(77))), Box::new(move |n| call(y, p, ru, Some(n), Some(77))))); cont.push(("call_with_conv C", Box::new(move |f| f.call_with_conv(p, y, &args, cc, bname(76))), Box::new(move |n| call(y, p, cc, Some(n), Some(76)))));
    cont.push(("call_with_conv Rust", Box::new(move |f| f.call_with_conv(p, y, &args, ru, bname(76))), Box::new(move |n| call(y, p, ru, Some(n), Some(76)))));
    for (name, b, t) in &cont { for kind in [None, Some(BbKind::Regular), Some(BbKind::Cleanup), Some(BbKind::Catch), Some(BbKind::Terminate)] {
        let f = one(|f| { f.place_mention(r); b(f); f.assign(p, y); f.place_mention(p); f.unreachable(); }, kind);
        let k = kind.map(|_| 1).unwrap_or(0); let kd = kind.unwrap_or(BbKind::Regular);
        q(f.blocks.len(), Int::from(k + 2), &format!("{name} in {kind:?}: number of blocks"));
        q(blk(&f, k), BasicBlock { statements: [Statement::PlaceMention(r)].into_iter().collect(), terminator: t(k + 1), kind: kd }, &format!("{name} in {kind:?}"));
        q(blk(&f, k + 1), BasicBlock { statements: [Statement::Assign { destination: p, source: y }, Statement::PlaceMention(p)].into_iter().collect(), terminator: Terminator::Unreachable, kind: kd }, &format!("the block after {name} in {kind:?}"));
    } }
    // terminators that end the block
    let fin: Vec<(&str, B, Terminator)> = vec![("exit", Box::new(|f| f.exit()), intr(I::Exit, &[], unit_p(), None)), ("abort", Box::new(|f| f.abort()), intr(I::Abort, &[], unit_p(), None)), ("unreachable", Box::new(|f| f.unreachable()), Terminator::Unreachable), ("return_", Box::new(|f| f.return_()), Terminator::Return),
        ("resume_unwind", Box::new(|f| f.resume_unwind()), Terminator::ResumeUnwind), ("call_noret", Box::new(move |f| f.call_noret(p, y, &args)), call(y, p, ru, None, None)), ("goto", Box::new(|f| f.goto(bname(31))), Terminator::Goto(bname(31))),
        ("start_unwind", Box::new(move |f| f.start_unwind(x, bname(32))), Terminator::StartUnwind { unwind_payload: x, unwind_block: bname(32) }), ("stop_unwind", Box::new(|f| f.stop_unwind(bname(33))), Terminator::StopUnwind(bname(33)))];
    for (name, b, t) in &fin { for kind in [None, Some(BbKind::Cleanup), Some(BbKind::Terminate)] {
        let f = one(|f| { f.place_mention(r); b(f) }, kind); let k = kind.map(|_| 1).unwrap_or(0);
        q(f.blocks.len(), Int::from(k + 1), &format!("{name}: number of blocks"));
        q(blk(&f, k), BasicBlock { statements: [Statement::PlaceMention(r)].into_iter().collect(), terminator: *t, kind: kind.unwrap_or(BbKind::Regular) }, &format!("{name} in {kind:?}"));
        q(vhu::catch(|| one(|f| { b(f); f.place_mention(r) }, kind)).is_err(), true, &format!("a statement after {name} panics"));
        q(vhu::catch(|| one(|f| { b(f); f.exit() }, kind)).is_err(), true, &format!("a second terminator after {name} panics"));
    } }
    // statements
    let l3 = PlaceExpr::Local(lname(3));
    let f = one(|f| { f.assign(p, x); f.place_mention(r); f.set_discriminant(p, 5u8); f.validate(p, true); f.validate(r, false); f.storage_live(l3); f.storage_dead(l3); f.return_() }, None);
    q(blk(&f, 0).statements, [Statement::Assign { destination: p, source: x }, Statement::PlaceMention(r), Statement::SetDiscriminant { destination: p, value: Int::from(5) }, Statement::Validate { place: p, fn_entry: true }, Statement::Validate { place: r, fn_entry: false }, Statement::StorageLive(lname(3)), Statement::StorageDead(lname(3))].into_iter().collect(), "statements in order");
    for live in [true, false] { q(vhu::catch(|| one(|f| { let d = PlaceExpr::Field { root: g(l3), field: Int::ZERO }; if live { f.storage_live(d) } else { f.storage_dead(d) } f.return_() }, None)).is_err(), true, "storage statement on something else than a local panics"); }
    // locals, arguments, return local
    for ret_at in [0usize, 2, 5, 99] {
        let mut want: Map<LocalName, Type> = Map::new(); let mut names = vec![]; let mut ret = None; let mut wargs = vec![];
        let f = one(|f| {
            for i in 0..6usize {
                let k = names.len() as u32;
                if i == ret_at { names.push(f.declare_ret::<i16>()); want.insert(lname(k), ti(Signed, 2)); ret = Some(lname(k)); }
                let k = names.len() as u32;
                let t = match i % 4 { 0 => { names.push(f.declare_local::<u32>()); ti(Unsigned, 4) } 1 => { wargs.push(lname(k)); names.push(f.declare_arg::<bool>()); Type::Bool } 2 => { let t = gen_any_type(1); names.push(f.declare_local_with_ty(t)); t } _ => { let t = gen_type(1); wargs.push(lname(k)); names.push(f.declare_arg_with_ty(t)); t } };
                want.insert(lname(k), t);
            }
            f.return_();
        }, None);
        for (i, n) in names.iter().enumerate() { q(*n, PlaceExpr::Local(lname(i as u32)), &format!("name of local {i}")); }
        if ret.is_none() { ret = Some(lname(names.len() as u32)); want.insert(lname(names.len() as u32), unit_t()); }
        q(f.locals, want, &format!("locals, return local declared at {ret_at}")); q(f.args, wargs.into_iter().collect(), "argument locals"); q(f.ret, ret.unwrap(), "return local"); q(f.start, bname(0), "start block");
    }
    q(vhu::catch(|| one(|f| { f.declare_ret::<u8>(); f.declare_ret::<u8>(); f.return_() }, None)).is_err(), true, "a second return local panics");
    q(vhu::catch(|| one(|f| { f.place_mention(r) }, None)).is_err(), true, "an unfinished block panics");
    q(vhu::catch(|| one(|f| { let b = f.declare_block(); f.set_cur_block(b, BbKind::Regular); }, None)).is_err(), true, "starting a block inside another panics");
    q(vhu::catch(|| one(|f| { f.exit(); f.set_cur_block(bname(0), BbKind::Regular); f.exit() }, None)).is_err(), true, "building a block twice panics");
    // nested blocks of each kind leave the current block alone
    for (w, kind) in [BbKind::Cleanup, BbKind::Terminate, BbKind::Catch].into_iter().enumerate() {
        let mut nm = bname(0); let mut inner = bname(0);
        let f = one(|f| { f.place_mention(r); let c = std::cell::Cell::new(bname(0));
            let go = |f: &mut FunctionBuilder| { f.place_mention(p); f.print(x); f.assign(p, z); c.set(f.cleanup_block(|f| f.resume_unwind())); f.abort(); };
            nm = match w { 0 => f.cleanup_block(go), 1 => f.terminating_block(go), _ => f.catch_block(go) }; inner = c.get();
            f.assign(p, y); f.goto(bname(8)) }, None);
        q((nm, inner), (bname(1), bname(3)), "names of nested blocks"); q(f.blocks.len(), Int::from(4), "number of blocks");
        q(blk(&f, 0), BasicBlock { statements: [Statement::PlaceMention(r), Statement::Assign { destination: p, source: y }].into_iter().collect(), terminator: Terminator::Goto(bname(8)), kind: BbKind::Regular }, &format!("the block around a {kind:?} block"));
        q(blk(&f, 1), BasicBlock { statements: [Statement::PlaceMention(p)].into_iter().collect(), terminator: intr(I::PrintStdout, &[x], unit_p(), Some(2)), kind }, &format!("a {kind:?} block"));
        q(blk(&f, 2), BasicBlock { statements: [Statement::Assign { destination: p, source: z }].into_iter().collect(), terminator: intr(I::Abort, &[], unit_p(), None), kind }, &format!("the continuation of a {kind:?} block"));
        q(blk(&f, 3), BasicBlock { statements: List::new(), terminator: Terminator::ResumeUnwind, kind: BbKind::Cleanup }, "a cleanup block inside another");
        q(vhu::catch(|| one(|f| { let go = |_: &mut FunctionBuilder| {}; match w { 0 => f.cleanup_block(go), 1 => f.terminating_block(go), _ => f.catch_block(go) }; f.exit() }, None)).is_err(), true, &format!("an unfinished {kind:?} block panics"));
        let f = one(|f| { f.exit(); match w { 0 => f.cleanup_block(|f| f.resume_unwind()), 1 => f.terminating_block(|f| f.abort()), _ => f.catch_block(|f| f.abort()) }; }, None); q(f.blocks.len(), Int::from(2), "a nested block while no block is open");
    }
    // program builder
    let mut pb = ProgramBuilder::new(); let mut names = vec![]; let mut fs = vec![];
    for i in 0..4 { let mut f = pb.declare_function(); q(f.name(), fname(i), "function name"); if i == 2 { f.set_conv(CallingConvention::C) } if i == 1 { f.exit() } else { f.return_() } fs.push(f); }
    for f in fs.into_iter().rev() { names.push(pb.finish_function(f)); }
    q(names, vec![fname(3), fname(2), fname(1), fname(0)], "finish_function returns the name");
    let g1 = pb.declare_global_zero_initialized::<u32>(); let g2 = pb.declare_global_zero_initialized::<[u16; 5]>();
    q(g1, bd::global::<u32>(0), "first global"); q(g2, bd::global::<[u16; 5]>(1), "second global");
    let mut t0 = pb.declare_trait(); let mut t1 = pb.declare_trait(); q((t0.name(), t1.name()), (tname(0), tname(1)), "trait names");
    let (a, b2, c) = (t0.declare_method(), t0.declare_method(), t1.declare_method()); q((a, b2, c), (mname(0), mname(1), mname(0)), "method names");
    let t1n = pb.finish_trait(t1); let t0n = pb.finish_trait(t0); q((t0n, t1n), (tname(0), tname(1)), "finish_trait returns the name");
    let cells: List<(Offset, Offset)> = [(sz(4), sz(2))].into_iter().collect();
    let mut v0 = pb.declare_vtable(t0n, sz(12), al(4), cells); let mut v1 = pb.declare_vtable_for_frozen_ty(t1n, ti(Unsigned, 8)); q((v0.name(), v1.name()), (vname(0), vname(1)), "vtable names");
    v0.add_method(a, fname(3)); v0.add_method(b2, fname(1)); v1.add_method(c, fname(2));
    let mut v2 = pb.declare_vtable(t0n, sz(1), al(1), List::new()); v2.add_method(a, fname(0)); q(vhu::catch(|| pb.finish_vtable(v2)).is_err(), true, "a vtable without all methods panics");
    let mut v3 = pb.declare_vtable(t1n, sz(1), al(1), List::new()); v3.add_method(c, fname(0)); v3.add_method(b2, fname(0)); q(vhu::catch(|| pb.finish_vtable(v3)).is_err(), true, "a vtable with another method panics");
    let v4 = pb.declare_vtable(tname(9), sz(1), al(1), List::new()); q(vhu::catch(|| pb.finish_vtable(v4)).is_err(), true, "a vtable for no trait panics");
    q((pb.finish_vtable(v1), pb.finish_vtable(v0)), (vname(1), vname(0)), "finish_vtable returns the name");
    q(vhu::catch(|| { let mut pb = ProgramBuilder::new(); pb.finish_program(fname(0)) }).is_err(), true, "a start function that does not exist panics");
    let pr = pb.finish_program(fname(1));
    q(pr.start, fname(1), "start function"); q(pr.functions.len(), Int::from(4), "number of functions");
    for i in 0..4 { q(pr.functions.get(fname(i)).unwrap(), Function { locals: [(lname(0), unit_t())].into_iter().collect(), args: List::new(), ret: lname(0), blocks: [(bname(0), BasicBlock { statements: List::new(), terminator: if i == 1 { bd::exit() } else { Terminator::Return }, kind: BbKind::Regular })].into_iter().collect(), start: bname(0), calling_convention: if i == 1 || i == 2 { CallingConvention::C } else { CallingConvention::Rust } }, &format!("function {i} of the program")); }
    q(pr.globals, [(gname(0), Global { bytes: [Some(0u8); 4].into_iter().collect(), relocations: List::new(), align: al(4) }), (gname(1), Global { bytes: [Some(0u8); 10].into_iter().collect(), relocations: List::new(), align: al(2) })].into_iter().collect(), "globals of the program");
    q(pr.traits, [(tname(0), [mname(0), mname(1)].into_iter().collect::<Set<_>>()), (tname(1), [mname(0)].into_iter().collect())].into_iter().collect(), "traits of the program");
    q(pr.vtables, [(vname(0), VTable { trait_name: tname(0), size: sz(12), align: al(4), cells, methods: [(mname(0), fname(3)), (mname(1), fname(1))].into_iter().collect() }), (vname(1), VTable { trait_name: tname(1), size: sz(8), align: al(8), cells: List::new(), methods: [(mname(0), fname(2))].into_iter().collect() })].into_iter().collect(), "vtables of the program");
}
/// structured control flow: a random tree of if_, switch_int and while_ is built, run, and compared with walking the tree
#[derive(Clone, Debug)]
enum C { Print(i64), Add(i64), If(i64, Vec<C>, Vec<C>), Switch(Vec<(i64, Vec<C>)>, Vec<C>), While(i64, Vec<C>), Exit }
fn gen_c(d: u32, exit: bool) -> Vec<C> {
    let mut v: Vec<C> = (0..vhu::below(4)).map(|_| match vhu::below(if d == 0 { 2 } else { 6 }) {
        0 => C::Print(vhu::range(0, 100)), 1 => C::Add(vhu::range(1, 4)), 2 => C::If(vhu::range(0, 12), gen_c(d - 1, exit), gen_c(d - 1, exit)), 3 => { let mut cs: Vec<(i64, Vec<C>)> = vec![]; for _ in 0..vhu::below(4) { let k = vhu::range(-3, 9); if !cs.iter().any(|c| c.0 == k) { cs.push((k, gen_c(d - 1, exit))) } } C::Switch(cs, gen_c(d - 1, exit)) }
        4 => C::While(vhu::range(1, 14), gen_c(d - 1, exit)), _ => C::Print(vhu::range(100, 200)) }).collect();
    if exit && vhu::below(7) == 0 { v.push(C::Exit) }
    v
}
fn emit(f: &mut FunctionBuilder, x: PlaceExpr, cs: &[C]) {
    for c in cs { match c {
        C::Print(n) => { f.print(bd::const_int(*n)); f.print(bd::load(x)); }
        C::Add(n) => f.assign(x, bd::add(bd::load(x), bd::const_int(*n))),
        C::If(n, a, b) => f.if_(bd::lt(bd::load(x), bd::const_int(*n)), |f| emit(f, x, a), |f| emit(f, x, b)),
        C::Switch(cs, d) => { let hs: Vec<Box<dyn Fn(&mut FunctionBuilder) + '_>> = cs.iter().map(|(_, b)| { let h: Box<dyn Fn(&mut FunctionBuilder)> = Box::new(move |f| emit(f, x, b)); h }).collect();
            let rs: Vec<(i64, &dyn Fn(&mut FunctionBuilder))> = cs.iter().zip(&hs).map(|((k, _), h)| (*k, &**h as &dyn Fn(&mut FunctionBuilder))).collect(); f.switch_int(bd::load(x), &rs, |f| emit(f, x, d)) }
        C::While(n, b) => f.while_(bd::lt(bd::load(x), bd::const_int(*n)), |f| { f.assign(x, bd::add(bd::load(x), bd::const_int(1i64))); emit(f, x, b) }),
        C::Exit => { f.exit(); return }
    } }
}
fn open_end(cs: &[C]) -> bool { for c in cs { match c { C::Exit => return false, C::If(_, a, b) => if !open_end(a) && !open_end(b) { return false }, C::Switch(cs, d) => if !open_end(d) && cs.iter().all(|c| !open_end(&c.1)) { return false }, _ => {} } } true }
fn cut(cs: &[C]) -> Vec<C> { // code after an end that is always reached cannot be built
    let mut o = vec![];
    for c in cs { let c = match c { C::If(n, a, b) => C::If(*n, cut(a), cut(b)), C::Switch(k, d) => C::Switch(k.iter().map(|(n, b)| (*n, cut(b))).collect(), cut(d)), C::While(n, b) => C::While(*n, cut(b)), c => c.clone() }; let e = open_end(&[c.clone()]); o.push(c); if !e { break } }
    o
}
fn walk(cs: &[C], x: &mut i64, out: &mut Vec<String>) -> bool {
    for c in cs { match c { C::Print(n) => { out.push(n.to_string()); out.push(x.to_string()) } C::Add(n) => *x += n, C::If(n, a, b) => if !walk(if *x < *n { a } else { b }, x, out) { return false }, C::Switch(k, d) => { let b = k.iter().find(|c| c.0 == *x).map(|c| &c.1).unwrap_or(d); if !walk(b, x, out) { return false } }
        C::While(n, b) => while *x < *n { *x += 1; if !walk(b, x, out) { return false } }, C::Exit => return false } }
    true
}
fn structured(i: u64) {
    let cs = cut(&gen_c(3, i % 2 == 0));
    let kind = match i % 7 { 4 => 1, 5 => 2, 6 => 3, _ => 0 };
    let mut want = vec![]; let mut x0 = vhu::range(-2, 6); let start = x0;
    walk(&cs, &mut x0, &mut want);
    let r = vhu::catch(|| {
        let mut p = ProgramBuilder::new();
        let g = { let mut g = p.declare_function(); let c = g.cleanup_block(|g| g.resume_unwind()); g.start_unwind(bd::unit_ptr(), c); p.finish_function(g) };
        let mut f = p.declare_function(); let x = f.declare_local::<i64>();
        if kind == 1 { let c = f.cleanup_block(|f| { f.storage_live(x); f.assign(x, bd::const_int(start)); emit(f, x, &cs); if open_end(&cs) { f.exit() } }); f.start_unwind(bd::unit_ptr(), c); }
        else if kind == 2 { // a call in a cleanup block unwinds into a terminating block
            let t = f.terminating_block(|f| { f.storage_live(x); f.assign(x, bd::const_int(start)); emit(f, x, &cs); if open_end(&cs) { f.exit() } });
            let c = f.cleanup_block(|f| { f.call(bd::unit_place(), bd::fn_ptr(g), &[], t); f.exit() }); f.start_unwind(bd::unit_ptr(), c); }
        else if kind == 3 { let c = f.catch_block(|f| { f.storage_live(x); f.assign(x, bd::const_int(start)); emit(f, x, &cs); if open_end(&cs) { f.exit() } }); f.start_unwind(bd::unit_ptr(), c); }
        else { f.storage_live(x); f.assign(x, bd::const_int(start)); emit(&mut f, x, &cs); if open_end(&cs) { f.exit() } }
        let n = p.finish_function(f); let pr = p.finish_program(n);
        for (n, b) in pr.functions.get(n).unwrap().blocks {
            // the blocks built by a closure have its kind
            let k = match kind { _ if n == bname(0) => BbKind::Regular, 1 => BbKind::Cleanup, 3 => BbKind::Catch, 2 => match b.terminator { Terminator::Call { .. } if b.kind == BbKind::Cleanup => BbKind::Cleanup, Terminator::Intrinsic { .. } if b.kind == BbKind::Cleanup && b.statements.is_empty() => BbKind::Cleanup, _ => BbKind::Terminate }, _ => BbKind::Regular };
            assert_eq!(b.kind, k, "kind of block {n:?}");
        }
        get_stdout::<BasicMem>(pr)
    });
    let d = || format!("structured program #{i} from {start}: {cs:?}");
    match r { Ok(Ok(out)) => vhu::eq(out, want, d), Ok(Err(e)) => vhu::fail(&format!("{} ended with {e:?}", d())), Err(e) => vhu::fail(&format!("{} could not be built or run: {e}", d())) }
}
pub fn run() {
    for k in 0..vhu::scale(12) { exprs((k % 3) as u32); types(); builder(); }
    for i in 0..vhu::scale(150) { structured(i); if vhu::out_of_time() { return } }
}
