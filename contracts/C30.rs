// C30: the builder library constructs exactly the syntax its calls describe.
// Verified text: tooling/miniutil/src/build/*.rs, extracted on every run.

pub open spec fn bb(i: int) -> BbName { BbName(Name { id: i }) }
pub open spec fn loc(i: int) -> LocalName { LocalName(Name { id: i }) }
pub open spec fn bbn(b: BbName) -> int { b.0.id }
pub open spec fn locn(l: LocalName) -> int { l.0.id }
pub open spec fn iop(op: IntBinOp, l: ValueExpr, r: ValueExpr) -> ValueExpr {
    ValueExpr::BinOp { operator: BinOp::Int(op), left: Box::new(l), right: Box::new(r) }
}
pub open spec fn ovf(op: IntBinOpWithOverflow, l: ValueExpr, r: ValueExpr) -> ValueExpr {
    ValueExpr::BinOp { operator: BinOp::IntWithOverflow(op), left: Box::new(l), right: Box::new(r) }
}
pub open spec fn rel(op: RelOp, l: ValueExpr, r: ValueExpr) -> ValueExpr {
    ValueExpr::BinOp { operator: BinOp::Rel(op), left: Box::new(l), right: Box::new(r) }
}
pub open spec fn un(op: UnOp, v: ValueExpr) -> ValueExpr { ValueExpr::UnOp { operator: op, operand: Box::new(v) } }
pub open spec fn ity(s: Signedness, bytes: int) -> Type { Type::Int(IntType { signed: s, size: Size { raw: bytes } }) }
pub open spec fn u8t() -> Type { ity(Signedness::Unsigned, 1) }
pub open spec fn as_u8(v: ValueExpr) -> ValueExpr { un(UnOp::Cast(CastOp::Transmute(u8t())), v) }
pub open spec fn as_bool(v: ValueExpr) -> ValueExpr { un(UnOp::Cast(CastOp::Transmute(Type::Bool)), v) }
pub open spec fn unit_t() -> Type {
    Type::Tuple { sized_fields: List { s: Seq::<(Size, Type)>::empty() }, sized_head_layout: TupleHeadLayout { end: Size { raw: 0 }, align: Align { raw: 1 }, packed_align: None }, unsized_field: Box::new(None) }
}
pub open spec fn thin_ptr() -> Type { Type::Ptr(PtrType::Raw { meta_kind: PointerMetaKind::None }) }
/// the place of a zero-sized result: (dangling 1) as unit
pub open spec fn unit_pl() -> PlaceExpr {
    PlaceExpr::Deref { operand: Box::new(ValueExpr::Constant(Constant::PointerWithoutProvenance(1), thin_ptr())), ty: unit_t() }
}
pub open spec fn intr(op: IntrinsicOp, args: Seq<ValueExpr>, ret: PlaceExpr, next: Option<BbName>) -> Terminator {
    Terminator::Intrinsic { intrinsic: op, arguments: List { s: args }, ret: ret, next_block: next }
}
pub open spec fn fn_const(f: FnName) -> ValueExpr { ValueExpr::Constant(Constant::FnPointer(f), Type::Ptr(PtrType::FnPtr)) }

/// integer operators
pub proof fn int_operators(l: ValueExpr, r: ValueExpr)
    ensures
        build__add(l, r) == iop(IntBinOp::Add, l, r), build__add_ok(l, r),
        build__sub(l, r) == iop(IntBinOp::Sub, l, r), build__sub_ok(l, r),
        build__mul(l, r) == iop(IntBinOp::Mul, l, r), build__mul_ok(l, r),
        build__div(l, r) == iop(IntBinOp::Div, l, r), build__div_ok(l, r),
        build__rem(l, r) == iop(IntBinOp::Rem, l, r), build__rem_ok(l, r),
        build__shl(l, r) == iop(IntBinOp::Shl, l, r), build__shl_ok(l, r),
        build__shr(l, r) == iop(IntBinOp::Shr, l, r), build__shr_ok(l, r),
        build__bit_and(l, r) == iop(IntBinOp::BitAnd, l, r), build__bit_and_ok(l, r),
        build__bit_or(l, r) == iop(IntBinOp::BitOr, l, r), build__bit_or_ok(l, r),
        build__bit_xor(l, r) == iop(IntBinOp::BitXor, l, r), build__bit_xor_ok(l, r),
        build__add_unchecked(l, r) == iop(IntBinOp::AddUnchecked, l, r),
        build__sub_unchecked(l, r) == iop(IntBinOp::SubUnchecked, l, r),
        build__mul_unchecked(l, r) == iop(IntBinOp::MulUnchecked, l, r),
        build__shl_unchecked(l, r) == iop(IntBinOp::ShlUnchecked, l, r),
        build__shr_unchecked(l, r) == iop(IntBinOp::ShrUnchecked, l, r),
        build__div_exact(l, r) == iop(IntBinOp::DivExact, l, r),
{ }

/// overflow and relational operators
pub proof fn rel_operators(l: ValueExpr, r: ValueExpr)
    ensures
        build__overflow_add(l, r) == ovf(IntBinOpWithOverflow::Add, l, r),
        build__overflow_sub(l, r) == ovf(IntBinOpWithOverflow::Sub, l, r),
        build__overflow_mul(l, r) == ovf(IntBinOpWithOverflow::Mul, l, r),
        build__lt(l, r) == rel(RelOp::Lt, l, r),
        build__le(l, r) == rel(RelOp::Le, l, r),
        build__gt(l, r) == rel(RelOp::Gt, l, r),
        build__ge(l, r) == rel(RelOp::Ge, l, r),
        build__eq(l, r) == rel(RelOp::Eq, l, r),
        build__ne(l, r) == rel(RelOp::Ne, l, r),
        build__cmp(l, r) == rel(RelOp::Cmp, l, r),
{ }

/// boolean operators are computed on the byte representation
pub proof fn bool_operators(l: ValueExpr, r: ValueExpr)
    ensures
        build__bool_and(l, r) == as_bool(iop(IntBinOp::BitAnd, as_u8(l), as_u8(r))),
        build__bool_or(l, r) == as_bool(iop(IntBinOp::BitOr, as_u8(l), as_u8(r))),
        build__bool_xor(l, r) == as_bool(iop(IntBinOp::BitXor, as_u8(l), as_u8(r))),
        build__not(l) == as_bool(iop(IntBinOp::Sub, ValueExpr::Constant(Constant::Int(1), u8t()), as_u8(l))),
        build__not_ok(l), build__bool_and_ok(l, r), build__bool_or_ok(l, r), build__bool_xor_ok(l, r),
{ }

/// unary operators and casts
pub proof fn unary_operators(v: ValueExpr, t: Type, m: TraitMethodName)
    ensures
        build__neg(v) == un(UnOp::Int(IntUnOp::Neg), v),
        build__bit_not(v) == un(UnOp::Int(IntUnOp::BitNot), v),
        build__count_ones(v) == un(UnOp::Int(IntUnOp::CountOnes), v),
        build__transmute(v, t) == un(UnOp::Cast(CastOp::Transmute(t)), v),
        t is Int ==> build__int_cast(t, v) == un(UnOp::Cast(CastOp::IntToInt(t->Int_0)), v),
        build__int_cast_ok(t, v) <==> t is Int,
        t == u8t() ==> build__bool_to_int(t, v) == as_u8(v),
        t is Int && t != u8t() ==> build__bool_to_int(t, v) == un(UnOp::Cast(CastOp::IntToInt(t->Int_0)), as_u8(v)),
        t is Ptr ==> build__ptr_to_ptr(v, t) == un(UnOp::Cast(CastOp::Transmute(t)), v),
        build__ptr_addr(v) == un(UnOp::Cast(CastOp::Transmute(Type::Int(IntType { signed: Signedness::Unsigned, size: T__PTR_SIZE() }))), v),
        build__get_thin_pointer(v) == un(UnOp::GetThinPointer, v),
        build__get_metadata(v) == un(UnOp::GetMetadata, v),
        build__compute_size(t, v) == un(UnOp::ComputeSize(t), v),
        build__compute_align(t, v) == un(UnOp::ComputeAlign(t), v),
        build__vtable_method_lookup(v, m) == un(UnOp::VTableMethodLookup(m), v),
{ }

/// pointer operators
pub proof fn ptr_operators(l: ValueExpr, r: ValueExpr, ib: InBounds, t: Type)
    ensures
        build__ptr_offset(l, r, ib) == (ValueExpr::BinOp { operator: BinOp::PtrOffset { inbounds: ib is Yes }, left: Box::new(l), right: Box::new(r) }),
        build__ptr_offset_from(l, r, ib) == (ValueExpr::BinOp { operator: BinOp::PtrOffsetFrom { inbounds: ib is Yes, nonneg: false }, left: Box::new(l), right: Box::new(r) }),
        build__ptr_offset_from_nonneg(l, r, ib) == (ValueExpr::BinOp { operator: BinOp::PtrOffsetFrom { inbounds: ib is Yes, nonneg: true }, left: Box::new(l), right: Box::new(r) }),
        t is Ptr ==> build__construct_wide_pointer(l, r, t) == (ValueExpr::BinOp { operator: BinOp::ConstructWidePointer(t->Ptr_0), left: Box::new(l), right: Box::new(r) }),
{ }

/// constants
pub proof fn constants(i: int, b: bool, f: FnName, v: VTableName, tr: TraitName, t: Type)
    ensures
        build__const_int(t, i) == ValueExpr::Constant(Constant::Int(i), t),
        build__const_int_typed(t, i) == ValueExpr::Constant(Constant::Int(i), t),
        build__const_bool(b) == ValueExpr::Constant(Constant::Bool(b), Type::Bool),
        build__fn_ptr(f) == fn_const(f),
        build__const_vtable(v, tr) == ValueExpr::Constant(Constant::VTablePointer(v), Type::Ptr(PtrType::VTablePtr(tr))),
        build__null() == ValueExpr::Constant(Constant::PointerWithoutProvenance(0), thin_ptr()),
        build__unit() == ValueExpr::Tuple(List { s: Seq::<ValueExpr>::empty() }, unit_t()),
        build__unit_place() == unit_pl(),
{ }

/// aggregates
pub proof fn aggregates(args: List<ValueExpr>, t: Type, d: int, v: ValueExpr)
    ensures
        t is Tuple ==> build__tuple(args, t) == ValueExpr::Tuple(args, t),
        build__tuple_ok(args, t) <==> t is Tuple && t->Tuple_sized_fields.s.len() == args.s.len(),
        build__array(args, t) == ValueExpr::Tuple(args, Type::Array { elem: Box::new(t), count: args.s.len() as int }),
        build__variant(d, v, t) == (ValueExpr::Variant { discriminant: d, data: Box::new(v), enum_ty: t }),
{ }

/// places
pub proof fn places(p: PlaceExpr, v: ValueExpr, t: Type, i: int, n: LocalName, g: GlobalName)
    ensures
        build__local_by_name(n) == PlaceExpr::Local(n),
        build__local(i) == PlaceExpr::Local(loc(i)),
        build__deref(v, t) == (PlaceExpr::Deref { operand: Box::new(v), ty: t }),
        build__field(p, i) == (PlaceExpr::Field { root: Box::new(p), field: i }),
        build__index(p, v) == (PlaceExpr::Index { root: Box::new(p), index: Box::new(v) }),
        build__downcast(p, i) == (PlaceExpr::Downcast { root: Box::new(p), discriminant: i }),
        build__global_by_name(t, g) == (PlaceExpr::Deref { operand: Box::new(ValueExpr::Constant(Constant::GlobalPointer(Relocation { name: g, offset: Size { raw: 0 } }), thin_ptr())), ty: t }),
        build__global(t, i) == build__global_by_name(t, GlobalName(Name { id: i })),
        build__load(p) == (ValueExpr::Load { source: Box::new(p) }),
        t is Ptr ==> build__addr_of(p, t) == (ValueExpr::AddrOf { target: Box::new(p), ptr_ty: t->Ptr_0 }),
        build__get_discriminant(p) == (ValueExpr::GetDiscriminant { place: Box::new(p) }),
        build__by_value(v) == ArgumentExpr::ByValue(v),
        build__in_place(p) == ArgumentExpr::InPlace(p),
{ }

/// statements
pub proof fn statements(p: PlaceExpr, v: ValueExpr, b: bool, d: int, i: int)
    ensures
        build__assign(p, v) == (Statement::Assign { destination: p, source: v }),
        build__place_mention(p) == Statement::PlaceMention(p),
        build__set_discriminant(p, d) == (Statement::SetDiscriminant { destination: p, value: d }),
        build__validate(p, b) == (Statement::Validate { place: p, fn_entry: b }),
        build__storage_live(i) == Statement::StorageLive(loc(i)),
        build__storage_dead(i) == Statement::StorageDead(loc(i)),
{ }

/// the MiniRust types of Rust's primitive types
pub proof fn primitive_types(t: Type, n: int)
    ensures
        build__tyconv__i8() == ity(Signedness::Signed, 1), build__tyconv__i8_ok(),
        build__tyconv__i16() == ity(Signedness::Signed, 2), build__tyconv__i16_ok(),
        build__tyconv__i32() == ity(Signedness::Signed, 4), build__tyconv__i32_ok(),
        build__tyconv__i64() == ity(Signedness::Signed, 8), build__tyconv__i64_ok(),
        build__tyconv__i128() == ity(Signedness::Signed, 16), build__tyconv__i128_ok(),
        build__tyconv__u8() == ity(Signedness::Unsigned, 1), build__tyconv__u8_ok(),
        build__tyconv__u16() == ity(Signedness::Unsigned, 2), build__tyconv__u16_ok(),
        build__tyconv__u32() == ity(Signedness::Unsigned, 4), build__tyconv__u32_ok(),
        build__tyconv__u64() == ity(Signedness::Unsigned, 8), build__tyconv__u64_ok(),
        build__tyconv__u128() == ity(Signedness::Unsigned, 16), build__tyconv__u128_ok(),
        build__tyconv__isize() == Type::Int(IntType { signed: Signedness::Signed, size: T__PTR_SIZE() }),
        build__tyconv__usize() == Type::Int(IntType { signed: Signedness::Unsigned, size: T__PTR_SIZE() }),
        build__tyconv__bool() == Type::Bool,
        build__tyconv__unit() == unit_t(), build__tyconv__unit_ok(),
        build__tyconv__slice(t) == (Type::Slice { elem: Box::new(t) }),
        build__tyconv__array(t, n) == (Type::Array { elem: Box::new(t), count: n }),
        build__tyconv__ptr_const(t) == Type::Ptr(PtrType::Raw { meta_kind: Type__meta_kind(t) }),
        build__tyconv__ptr_mut(t) == Type::Ptr(PtrType::Raw { meta_kind: Type__meta_kind(t) }),
{ }

/// references built for frozen pointees: layout of the pointee, no interior mutability
pub open spec fn frozen_info(t: Type) -> PointeeInfo {
    PointeeInfo { layout: Type__layout(t), inhabited: true, unsafe_cells: build__from_frozen_layout(Type__layout(t)), freeze: true, unpin: true }
}
pub open spec fn no_cells(s: UnsafeCellStrategy, l: LayoutStrategy) -> bool
    decreases s
{
    match s {
        UnsafeCellStrategy::Sized { cells } => l is Sized && cells.s.len() == 0,
        UnsafeCellStrategy::Slice { element_cells } => l is Slice && element_cells.s.len() == 0,
        UnsafeCellStrategy::TraitObject => l is TraitObject,
        UnsafeCellStrategy::Tuple { head_cells, tail_cells } => l is Tuple && head_cells.s.len() == 0 && no_cells(*tail_cells, *l->Tuple_tail),
    }
}

/// the interior-mutability description of a frozen layout has the layout's shape and no cells
pub proof fn frozen_layout_has_no_cells(l: LayoutStrategy)
    ensures
        no_cells(build__from_frozen_layout(l), l),
    decreases l
{
    build__from_frozen_layout__def(l);
    if let LayoutStrategy::Tuple { head, tail } = l { frozen_layout_has_no_cells(*tail); }
}

/// reference types
pub proof fn reference_types(t: Type, p: PointeeInfo, m: PointerMetaKind)
    ensures
        build__tyconv__ref(t, true, true) == Type::Ptr(PtrType::Ref { mutbl: Mutability::Immutable, pointee: frozen_info(t) }),
        build__tyconv__ref_mut(t, true, true) == Type::Ptr(PtrType::Ref { mutbl: Mutability::Mutable, pointee: frozen_info(t) }),
        build__ref_ty_default_markers_for(t) == Type::Ptr(PtrType::Ref { mutbl: Mutability::Immutable, pointee: frozen_info(t) }),
        build__ref_mut_ty_default_markers_for(t) == Type::Ptr(PtrType::Ref { mutbl: Mutability::Mutable, pointee: frozen_info(t) }),
        build__ref_ty(p) == Type::Ptr(PtrType::Ref { mutbl: Mutability::Immutable, pointee: p }),
        build__ref_mut_ty(p) == Type::Ptr(PtrType::Ref { mutbl: Mutability::Mutable, pointee: p }),
        build__box_ty(p) == Type::Ptr(PtrType::Box { pointee: p }),
        build__raw_ptr_ty(m) == Type::Ptr(PtrType::Raw { meta_kind: m }),
        build__raw_void_ptr_ty() == thin_ptr(),
{ }

/// aggregate types
pub proof fn aggregate_types(fs: List<(Size, Type)>, t: Type, n: int, size: Size, al: Align, pk: Option<Align>, tr: TraitName, s: Signedness, tg: List<(Size, (IntType, int))>)
    ensures
        build__tuple_ty(fs, size, al) == (Type::Tuple { sized_fields: fs, sized_head_layout: TupleHeadLayout { end: size, align: al, packed_align: None }, unsized_field: Box::new(None) }),
        build__unsized_tuple_ty(fs, t, size, al, pk) == (Type::Tuple { sized_fields: fs, sized_head_layout: TupleHeadLayout { end: size, align: al, packed_align: pk }, unsized_field: Box::new(Some(t)) }),
        build__union_ty(fs, size, al) == (Type::Union { fields: fs, size: size, align: al, chunks: List { s: seq![(Size { raw: 0 }, size)] } }),
        build__array_ty(t, n) == (Type::Array { elem: Box::new(t), count: n }),
        build__slice_ty(t) == (Type::Slice { elem: Box::new(t) }),
        build__trait_object_ty(tr) == Type::TraitObject(tr),
        build__int_ty(s, size) == Type::Int(IntType { signed: s, size: size }),
        build__bool_ty() == Type::Bool,
        build__enum_variant(t, tg) == (Variant { ty: t, tagger: Map { m: map_from(tg.s) } }),
        n >= 0 ==> build__size(n) == (Size { raw: n }) && build__offset(n) == (Size { raw: n }),
        build__size_ok(n) <==> n >= 0,
        is_p2(n) ==> build__align(n) == (Align { raw: n }),
        build__align_ok(n) <==> is_p2(n),
{ }

/// discriminators and enum types: every listed variant / range is mapped, in order
pub proof fn enum_types(t: Type, vs: List<(int, Variant)>, d: Discriminator, size: Size, al: Align, cs: List<((int, int), Discriminator)>, i: int)
    requires t is Int
    ensures
        build__enum_ty(t, vs, d, size, al) == (Type::Enum { variants: Map { m: map_from(vs.s) }, discriminator: d, discriminant_ty: t->Int_0, size: size, align: al }),
        build__discriminator_branch(t, size, d, cs) == (Discriminator::Branch { offset: size, value_type: t->Int_0, fallback: Box::new(d), children: Map { m: map_from(cs.s) } }),
        build__discriminator_known(i) == Discriminator::Known(i),
        build__discriminator_invalid() == Discriminator::Invalid,
{
    broadcast use map_from_ext;
}

/// the map built from a list depends on its elements only
pub broadcast proof fn map_from_ext<K, V>(s: Seq<(K, V)>, t: Seq<(K, V)>)
    requires s =~= t
    ensures #[trigger] map_from(s) == #[trigger] map_from(t)
{ }

/// building a map from a list with distinct keys: exactly the listed pairs
pub proof fn map_from_distinct<K, V>(s: Seq<(K, V)>)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    ensures
        forall|i: int| 0 <= i < s.len() ==> map_from(s).contains_key((#[trigger] s[i]).0) && map_from(s)[s[i].0] == s[i].1,
        forall|k: K| #[trigger] map_from(s).contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k,
        map_from(s).dom().finite(), map_from(s).dom().len() == s.len(),
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] p[i]).0 != (#[trigger] p[j]).0 by { assert(p[i] == s[i] && p[j] == s[j]); }
        map_from_distinct(p);
        let l = s.last();
        assert(!map_from(p).contains_key(l.0)) by {
            if map_from(p).contains_key(l.0) { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == l.0; assert(p[i] == s[i]); }
        }
        assert forall|i: int| 0 <= i < s.len() implies map_from(s).contains_key((#[trigger] s[i]).0) && map_from(s)[s[i].0] == s[i].1 by {
            if i < p.len() { assert(p[i] == s[i]); }
        }
        assert forall|k: K| #[trigger] map_from(s).contains_key(k) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k by {
            if k == l.0 { assert(s[s.len() - 1].0 == k); }
            else { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == k; assert(p[i] == s[i]); }
        }
        assert(map_from(s).dom() =~= map_from(p).dom().insert(l.0));
    } else { assert(map_from(s).dom() =~= vstd::set::Set::<K>::empty()); }
}

/// intrinsic terminators
pub proof fn intrinsic_terminators(a: ValueExpr, b: ValueExpr, c: ValueExpr, p: PlaceExpr, n: int)
    ensures
        build__assume(a, n) == intr(IntrinsicOp::Assume, Seq::<ValueExpr>::empty().push(a), unit_pl(), Some(bb(n))),
        build__print(a, n) == intr(IntrinsicOp::PrintStdout, Seq::<ValueExpr>::empty().push(a), unit_pl(), Some(bb(n))),
        build__eprint(a, n) == intr(IntrinsicOp::PrintStderr, Seq::<ValueExpr>::empty().push(a), unit_pl(), Some(bb(n))),
        build__allocate(a, b, p, n) == intr(IntrinsicOp::Allocate, Seq::<ValueExpr>::empty().push(a).push(b), p, Some(bb(n))),
        build__deallocate(a, b, c, n) == intr(IntrinsicOp::Deallocate, Seq::<ValueExpr>::empty().push(a).push(b).push(c), unit_pl(), Some(bb(n))),
        build__spawn(a, b, p, n) == intr(IntrinsicOp::Spawn, Seq::<ValueExpr>::empty().push(a).push(b), p, Some(bb(n))),
        build__join(a, n) == intr(IntrinsicOp::Join, Seq::<ValueExpr>::empty().push(a), unit_pl(), Some(bb(n))),
        build__atomic_store(a, b, n) == intr(IntrinsicOp::AtomicStore, Seq::<ValueExpr>::empty().push(a).push(b), unit_pl(), Some(bb(n))),
        build__atomic_load(p, a, n) == intr(IntrinsicOp::AtomicLoad, Seq::<ValueExpr>::empty().push(a), p, Some(bb(n))),
        build__compare_exchange(p, a, b, c, n) == intr(IntrinsicOp::AtomicCompareExchange, Seq::<ValueExpr>::empty().push(a).push(b).push(c), p, Some(bb(n))),
        build__expose_provenance(p, a, n) == intr(IntrinsicOp::PointerExposeProvenance, Seq::<ValueExpr>::empty().push(a), p, Some(bb(n))),
        build__with_exposed_provenance(p, a, n) == intr(IntrinsicOp::PointerWithExposedProvenance, Seq::<ValueExpr>::empty().push(a), p, Some(bb(n))),
        build__lock_create(p, n) == intr(IntrinsicOp::Lock(IntrinsicLockOp::Create), Seq::<ValueExpr>::empty(), p, Some(bb(n))),
        build__lock_acquire(a, n) == intr(IntrinsicOp::Lock(IntrinsicLockOp::Acquire), Seq::<ValueExpr>::empty().push(a), unit_pl(), Some(bb(n))),
        build__lock_release(a, n) == intr(IntrinsicOp::Lock(IntrinsicLockOp::Release), Seq::<ValueExpr>::empty().push(a), unit_pl(), Some(bb(n))),
        build__raw_eq(p, a, b, n) == intr(IntrinsicOp::RawEq, Seq::<ValueExpr>::empty().push(a).push(b), p, Some(bb(n))),
        build__get_unwind_payload(p, n) == intr(IntrinsicOp::GetUnwindPayload, Seq::<ValueExpr>::empty(), p, Some(bb(n))),
        build__atomic_fetch(FetchBinOp::Add, p, a, b, n) == intr(IntrinsicOp::AtomicFetchAndOp(IntBinOp::Add), Seq::<ValueExpr>::empty().push(a).push(b), p, Some(bb(n))),
        build__atomic_fetch(FetchBinOp::Sub, p, a, b, n) == intr(IntrinsicOp::AtomicFetchAndOp(IntBinOp::Sub), Seq::<ValueExpr>::empty().push(a).push(b), p, Some(bb(n))),
        build__exit() == intr(IntrinsicOp::Exit, Seq::<ValueExpr>::empty(), unit_pl(), None),
        build__abort() == intr(IntrinsicOp::Abort, Seq::<ValueExpr>::empty(), unit_pl(), None),
{ }

/// the other terminators
pub proof fn terminators(a: ValueExpr, p: PlaceExpr, args: List<ArgumentExpr>, f: int, n: int, m: int, k: Option<int>, x: BbName, cs: List<(int, int)>)
    ensures
        build__goto(n) == Terminator::Goto(bb(n)),
        build__return_() == Terminator::Return,
        build__unreachable() == Terminator::Unreachable,
        build__resume_unwind() == Terminator::ResumeUnwind,
        build__start_unwind(a, x) == (Terminator::StartUnwind { unwind_block: x, unwind_payload: a }),
        build__stop_unwind(x) == Terminator::StopUnwind(x),
        build__if_(a, n, m) == (Terminator::Switch { value: as_u8(a), cases: Map { m: vstd::map::Map::empty().insert(1int, bb(n)) }, fallback: bb(m) }),
        build__switch_int(a, cs, n) == (Terminator::Switch { value: a, cases: Map { m: map_from(Seq::new(cs.s.len(), |i: int| (cs.s[i].0, bb(cs.s[i].1)))) }, fallback: bb(n) }),
        build__call(f, args, p, k) == (Terminator::Call { callee: fn_const(FnName(Name { id: f })), calling_convention: CallingConvention::C, arguments: args, ret: p,
            next_block: match k { Some(q) => Some(bb(q)), None => None::<BbName> }, unwind_block: None }),
{
    reveal_with_fuel(map_from, 3);
    let one = seq![(1int, bb(n))];
    assert(one.drop_last() =~= Seq::empty());
    broadcast use map_from_ext;
}

/// whole functions from lists of locals and blocks
pub proof fn whole_function(num_args: int, locals: List<Type>, bbs: List<BasicBlock>)
    requires 0 <= num_args, locals.s.len() < 0x1_0000_0000
    ensures
        num_args < locals.s.len() ==> build__function_ok(Ret::Yes, num_args, locals, bbs),
        ({ let f = build__function(Ret::Yes, num_args, locals, bbs);
            &&& f.ret == loc(0) && f.start == bb(0) && f.calling_convention == CallingConvention::C
            &&& f.args.s == Seq::new(num_args as nat, |i: int| loc(i + 1))
            &&& f.blocks.m == map_from(Seq::new(bbs.s.len(), |i: int| (bb(i), bbs.s[i])))
            &&& f.locals.m == map_from(Seq::new(locals.s.len(), |i: int| (loc(i), locals.s[i]))) }),
        build__function_ok(Ret::No, num_args, locals, bbs),
        ({ let f = build__function(Ret::No, num_args, locals, bbs);
            &&& f.ret == loc(locals.s.len() as int) && f.start == bb(0) && f.calling_convention == CallingConvention::C
            &&& f.args.s == Seq::new(num_args as nat, |i: int| loc(i))
            &&& f.blocks.m == map_from(Seq::new(bbs.s.len(), |i: int| (bb(i), bbs.s[i])))
            &&& f.locals.m == map_from(Seq::new(locals.s.len(), |i: int| (loc(i), locals.s[i]))).insert(loc(locals.s.len() as int), unit_t()) }),
{
    let ls = Seq::new(locals.s.len(), |i: int| (loc(i), locals.s[i]));
    let f = build__function(Ret::No, num_args, locals, bbs);
    let g = build__function(Ret::Yes, num_args, locals, bbs);
    map_from_distinct(ls);
    assert(!map_from(ls).contains_key(loc(ls.len() as int)));
    broadcast use map_from_ext;
    assert(f.args.s =~= Seq::new(num_args as nat, |i: int| loc(i)));
    assert(g.args.s =~= Seq::new(num_args as nat, |i: int| loc(i + 1)));
}

/// whole programs
pub proof fn whole_program(fns: List<Function>, gs: List<Global>, st: List<Statement>, t: Terminator, k: BbKind)
    ensures
        ({ let p = build__program_with_globals(fns, gs);
            &&& p.functions.m == map_from(Seq::new(fns.s.len(), |i: int| (FnName(Name { id: i }), fns.s[i])))
            &&& p.globals.m == map_from(Seq::new(gs.s.len(), |i: int| (GlobalName(Name { id: i }), gs.s[i])))
            &&& p.start == FnName(Name { id: 0 })
            &&& p.traits.m == vstd::map::Map::<TraitName, Set<TraitMethodName>>::empty()
            &&& p.vtables.m == vstd::map::Map::<VTableName, VTable>::empty() }),
        build__program(fns) == build__program_with_globals(fns, List { s: Seq::empty() }),
        build__block(st, t, k) == (BasicBlock { statements: st, terminator: t, kind: k }),
{
    broadcast use map_from_ext;
}

/// a program of one function with one block that ends by exiting
pub proof fn tiny_program(locals: List<Type>, st: List<Statement>)
    ensures build__small_program(locals, st) == build__program(List { s: seq![build__function(Ret::No, 0, locals, List { s: seq![BasicBlock { statements: st, terminator: intr(IntrinsicOp::Exit, Seq::<ValueExpr>::empty(), unit_pl(), None), kind: BbKind::Regular }] })] }),
{ }

/// zero-initialised globals have the size and alignment of their type, and no relocations
pub proof fn global_values(t: Type, i: int)
    requires Type__layout(t) is Sized
    ensures
        ({ let g = build__global_int(t); let n = (Type__layout(t)->Sized_0).raw;
            &&& g.bytes.s == Seq::new(if n < 0 { 0nat } else { n as nat }, |i: int| Some(0u8))
            &&& g.relocations.s.len() == 0
            &&& g.align == Type__layout(t)->Sized_1 }),
{ }

// ---- FunctionBuilder: a ghost view of the state and its transitions
/// the current block, and the builder's invariant: every name handed out so far is below the counter, and open blocks are not finished ones
pub open spec fn fb_inv(b: FunctionBuilder) -> bool {
    &&& b.next_block >= 1 && b.next_local >= 0
    &&& b.start == bb(0)
    &&& forall|n: BbName| #[trigger] b.blocks.m.contains_key(n) ==> 0 <= bbn(n) < b.next_block
    &&& forall|n: LocalName| #[trigger] b.locals.m.contains_key(n) ==> 0 <= locn(n) < b.next_local
    &&& b.args.s.no_duplicates()
    &&& forall|i: int| 0 <= i < b.args.s.len() ==> b.locals.m.contains_key(#[trigger] b.args.s[i])
    &&& (b.ret is Some ==> b.locals.m.contains_key(b.ret->0))
    &&& (b.cur_block is Some ==> 0 <= bbn(b.cur_block->0.name) < b.next_block && !b.blocks.m.contains_key(b.cur_block->0.name))
}
pub open spec fn fb_open(b: FunctionBuilder) -> bool { fb_inv(b) && b.cur_block is Some }
/// close the current block with a terminator
pub open spec fn closed(b: FunctionBuilder, t: Terminator) -> FunctionBuilder {
    FunctionBuilder { cur_block: None, blocks: Map { m: b.blocks.m.insert(b.cur_block->0.name, BasicBlock { statements: b.cur_block->0.statements, terminator: t, kind: b.cur_block->0.kind }) }, ..b }
}
/// open a block
pub open spec fn opened(b: FunctionBuilder, n: BbName, k: BbKind) -> FunctionBuilder {
    FunctionBuilder { cur_block: Some(CurBlock { statements: List { s: Seq::<Statement>::empty() }, name: n, kind: k }), ..b }
}
/// hand out a block name
pub open spec fn declared(b: FunctionBuilder) -> FunctionBuilder { FunctionBuilder { next_block: b.next_block + 1, ..b } }
/// close the current block and continue in a fresh one of the same kind
pub open spec fn stepped(b: FunctionBuilder, t: Terminator) -> FunctionBuilder {
    opened(closed(declared(b), t), bb(b.next_block), b.cur_block->0.kind)
}
/// append a statement to the current block
pub open spec fn pushed(b: FunctionBuilder, s: Statement) -> FunctionBuilder {
    FunctionBuilder { cur_block: Some(CurBlock { statements: List { s: b.cur_block->0.statements.s.push(s) }, ..b.cur_block->0 }), ..b }
}
/// y was reached from x by builder calls: nothing finished is changed, new names are fresh, the open block is finished or still open
pub open spec fn grows(x: FunctionBuilder, y: FunctionBuilder) -> bool {
    &&& y.name == x.name && y.start == x.start
    &&& y.next_block >= x.next_block && y.next_local >= x.next_local
    &&& forall|n: BbName| #[trigger] x.blocks.m.contains_key(n) ==> y.blocks.m.contains_key(n) && y.blocks.m[n] == x.blocks.m[n]
    &&& forall|n: BbName| #[trigger] y.blocks.m.contains_key(n) ==> x.blocks.m.contains_key(n) || bbn(n) >= x.next_block || (x.cur_block is Some && n == x.cur_block->0.name)
    &&& forall|n: LocalName| #[trigger] x.locals.m.contains_key(n) ==> y.locals.m.contains_key(n) && y.locals.m[n] == x.locals.m[n]
    &&& (x.cur_block is Some ==> y.blocks.m.contains_key(x.cur_block->0.name) || (y.cur_block is Some && y.cur_block->0.name == x.cur_block->0.name))
    &&& (y.cur_block is Some ==> bbn(y.cur_block->0.name) >= x.next_block || (x.cur_block is Some && y.cur_block->0.name == x.cur_block->0.name))
}
/// a body passed to a structured-control-flow builder
pub open spec fn good_body(f: spec_fn(FunctionBuilder) -> FunctionBuilder) -> bool {
    forall|b: FunctionBuilder| fb_open(b) ==> fb_inv(#[trigger] f(b)) && grows(b, f(b))
}

/// a fresh function: start block 0, regular, empty; Rust calling convention
pub proof fn new_function(n: FnName)
    ensures
        fb_open(FunctionBuilder__new(n)), FunctionBuilder__new_ok(n),
        ({ let b = FunctionBuilder__new(n);
            &&& b.name == n && b.conv == CallingConvention::Rust && b.ret is None && b.next_block == 1 && b.next_local == 0
            &&& b.args.s.len() == 0 && b.locals.m.dom() =~= vstd::set::Set::empty() && b.blocks.m.dom() =~= vstd::set::Set::empty()
            &&& b.cur_block == Some(CurBlock { statements: List { s: Seq::<Statement>::empty() }, name: bb(0), kind: BbKind::Regular }) }),
{ }

/// block names are fresh
pub proof fn declare_block(b: FunctionBuilder)
    requires fb_inv(b)
    ensures
        FunctionBuilder__declare_block(b) == (declared(b), bb(b.next_block)),
        fb_inv(declared(b)), grows(b, declared(b)), !b.blocks.m.contains_key(bb(b.next_block)),
{ }

/// the calling convention
pub proof fn set_conv(b: FunctionBuilder, c: CallingConvention)
    ensures
        FunctionBuilder__set_conv(b, c) == (FunctionBuilder { conv: c, ..b }),
{ }

/// a fresh local of the given type; nothing else changes
pub open spec fn with_local(b: FunctionBuilder, t: Type) -> FunctionBuilder {
    FunctionBuilder { next_local: b.next_local + 1, locals: Map { m: b.locals.m.insert(loc(b.next_local), t) }, ..b }
}

/// locals, arguments and the return place are fresh
pub proof fn declare_locals(b: FunctionBuilder, t: Type)
    requires fb_inv(b)
    ensures
        !b.locals.m.contains_key(loc(b.next_local)),
        FunctionBuilder__declare_local(b, t) == (with_local(b, t), PlaceExpr::Local(loc(b.next_local))), FunctionBuilder__declare_local_ok(b, t),
        FunctionBuilder__declare_local_with_ty(b, t) == (with_local(b, t), PlaceExpr::Local(loc(b.next_local))),
        FunctionBuilder__declare_arg(b, t) == (FunctionBuilder { args: List { s: b.args.s.push(loc(b.next_local)) }, ..with_local(b, t) }, PlaceExpr::Local(loc(b.next_local))), FunctionBuilder__declare_arg_ok(b, t),
        FunctionBuilder__declare_arg_with_ty(b, t) == FunctionBuilder__declare_arg(b, t),
        b.ret is None ==> FunctionBuilder__declare_ret(b, t) == (FunctionBuilder { ret: Some(loc(b.next_local)), ..with_local(b, t) }, PlaceExpr::Local(loc(b.next_local))),
        FunctionBuilder__declare_ret_ok(b, t) <==> b.ret is None,
        fb_inv(FunctionBuilder__declare_local(b, t).0), fb_inv(FunctionBuilder__declare_arg(b, t).0), b.ret is None ==> fb_inv(FunctionBuilder__declare_ret(b, t).0),
{ }

/// statements are appended to the current block and change nothing else
pub proof fn append_statements(b: FunctionBuilder, p: PlaceExpr, v: ValueExpr, d: int, e: bool, l: LocalName, s: Statement)
    requires fb_open(b)
    ensures
        FunctionBuilder__assign(b, p, v) == pushed(b, Statement::Assign { destination: p, source: v }), FunctionBuilder__assign_ok(b, p, v),
        FunctionBuilder__place_mention(b, p) == pushed(b, Statement::PlaceMention(p)), FunctionBuilder__place_mention_ok(b, p),
        FunctionBuilder__set_discriminant(b, p, d) == pushed(b, Statement::SetDiscriminant { destination: p, value: d }), FunctionBuilder__set_discriminant_ok(b, p, d),
        FunctionBuilder__validate(b, p, e) == pushed(b, Statement::Validate { place: p, fn_entry: e }), FunctionBuilder__validate_ok(b, p, e),
        FunctionBuilder__storage_live(b, PlaceExpr::Local(l)) == pushed(b, Statement::StorageLive(l)), FunctionBuilder__storage_live_ok(b, PlaceExpr::Local(l)),
        FunctionBuilder__storage_dead(b, PlaceExpr::Local(l)) == pushed(b, Statement::StorageDead(l)), FunctionBuilder__storage_dead_ok(b, PlaceExpr::Local(l)),
        fb_open(pushed(b, s)), grows(b, pushed(b, s)),
{ }

/// finishing a block stores exactly its statements, kind and terminator, under its name, and changes nothing else
pub proof fn finish_blocks(b: FunctionBuilder, a: ValueExpr, x: BbName, t: Terminator)
    requires fb_open(b)
    ensures
        FunctionBuilder__finish_block(b, t) == closed(b, t), FunctionBuilder__finish_block_ok(b, t),
        FunctionBuilder__goto(b, x) == closed(b, Terminator::Goto(x)), FunctionBuilder__goto_ok(b, x),
        FunctionBuilder__return_(b) == closed(b, Terminator::Return), FunctionBuilder__return__ok(b),
        FunctionBuilder__unreachable(b) == closed(b, Terminator::Unreachable), FunctionBuilder__unreachable_ok(b),
        FunctionBuilder__resume_unwind(b) == closed(b, Terminator::ResumeUnwind), FunctionBuilder__resume_unwind_ok(b),
        FunctionBuilder__stop_unwind(b, x) == closed(b, Terminator::StopUnwind(x)), FunctionBuilder__stop_unwind_ok(b, x),
        FunctionBuilder__start_unwind(b, a, x) == closed(b, Terminator::StartUnwind { unwind_block: x, unwind_payload: a }), FunctionBuilder__start_unwind_ok(b, a, x),
        FunctionBuilder__exit(b) == closed(b, intr(IntrinsicOp::Exit, Seq::<ValueExpr>::empty(), unit_pl(), None)), FunctionBuilder__exit_ok(b),
        FunctionBuilder__abort(b) == closed(b, intr(IntrinsicOp::Abort, Seq::<ValueExpr>::empty(), unit_pl(), None)), FunctionBuilder__abort_ok(b),
        fb_inv(closed(b, t)), grows(b, closed(b, t)),
{ }

/// intrinsics end the block and continue in a fresh block of the same kind (1)
pub proof fn step_intrinsics_1(fb: FunctionBuilder, a: ValueExpr, b: ValueExpr, c: ValueExpr, p: PlaceExpr, f: FnName)
    requires fb_open(fb)
    ensures
        FunctionBuilder__assume(fb, a) == stepped(fb, intr(IntrinsicOp::Assume, Seq::<ValueExpr>::empty().push(a), unit_pl(), Some(bb(fb.next_block)))), FunctionBuilder__assume_ok(fb, a),
        FunctionBuilder__print(fb, a) == stepped(fb, intr(IntrinsicOp::PrintStdout, Seq::<ValueExpr>::empty().push(a), unit_pl(), Some(bb(fb.next_block)))), FunctionBuilder__print_ok(fb, a),
        FunctionBuilder__eprint(fb, a) == stepped(fb, intr(IntrinsicOp::PrintStderr, Seq::<ValueExpr>::empty().push(a), unit_pl(), Some(bb(fb.next_block)))), FunctionBuilder__eprint_ok(fb, a),
        FunctionBuilder__allocate(fb, a, b, p) == stepped(fb, intr(IntrinsicOp::Allocate, Seq::<ValueExpr>::empty().push(a).push(b), p, Some(bb(fb.next_block)))), FunctionBuilder__allocate_ok(fb, a, b, p),
        FunctionBuilder__deallocate(fb, a, b, c) == stepped(fb, intr(IntrinsicOp::Deallocate, Seq::<ValueExpr>::empty().push(a).push(b).push(c), unit_pl(), Some(bb(fb.next_block)))), FunctionBuilder__deallocate_ok(fb, a, b, c),
        FunctionBuilder__spawn(fb, f, b, p) == stepped(fb, intr(IntrinsicOp::Spawn, Seq::<ValueExpr>::empty().push(fn_const(f)).push(b), p, Some(bb(fb.next_block)))), FunctionBuilder__spawn_ok(fb, f, b, p),
        FunctionBuilder__join(fb, a) == stepped(fb, intr(IntrinsicOp::Join, Seq::<ValueExpr>::empty().push(a), unit_pl(), Some(bb(fb.next_block)))), FunctionBuilder__join_ok(fb, a),
        FunctionBuilder__atomic_store(fb, a, b) == stepped(fb, intr(IntrinsicOp::AtomicStore, Seq::<ValueExpr>::empty().push(a).push(b), unit_pl(), Some(bb(fb.next_block)))), FunctionBuilder__atomic_store_ok(fb, a, b),
{ }

/// intrinsics end the block and continue in a fresh block of the same kind (2)
pub proof fn step_intrinsics_2(fb: FunctionBuilder, a: ValueExpr, b: ValueExpr, c: ValueExpr, p: PlaceExpr, f: FnName)
    requires fb_open(fb)
    ensures
        FunctionBuilder__atomic_load(fb, p, a) == stepped(fb, intr(IntrinsicOp::AtomicLoad, Seq::<ValueExpr>::empty().push(a), p, Some(bb(fb.next_block)))), FunctionBuilder__atomic_load_ok(fb, p, a),
        FunctionBuilder__compare_exchange(fb, p, a, b, c) == stepped(fb, intr(IntrinsicOp::AtomicCompareExchange, Seq::<ValueExpr>::empty().push(a).push(b).push(c), p, Some(bb(fb.next_block)))), FunctionBuilder__compare_exchange_ok(fb, p, a, b, c),
        FunctionBuilder__expose_provenance(fb, p, a) == stepped(fb, intr(IntrinsicOp::PointerExposeProvenance, Seq::<ValueExpr>::empty().push(a), p, Some(bb(fb.next_block)))), FunctionBuilder__expose_provenance_ok(fb, p, a),
        FunctionBuilder__with_exposed_provenance(fb, p, a) == stepped(fb, intr(IntrinsicOp::PointerWithExposedProvenance, Seq::<ValueExpr>::empty().push(a), p, Some(bb(fb.next_block)))), FunctionBuilder__with_exposed_provenance_ok(fb, p, a),
        FunctionBuilder__lock_create(fb, p) == stepped(fb, intr(IntrinsicOp::Lock(IntrinsicLockOp::Create), Seq::<ValueExpr>::empty(), p, Some(bb(fb.next_block)))), FunctionBuilder__lock_create_ok(fb, p),
        FunctionBuilder__lock_acquire(fb, a) == stepped(fb, intr(IntrinsicOp::Lock(IntrinsicLockOp::Acquire), Seq::<ValueExpr>::empty().push(a), unit_pl(), Some(bb(fb.next_block)))), FunctionBuilder__lock_acquire_ok(fb, a),
        FunctionBuilder__lock_release(fb, a) == stepped(fb, intr(IntrinsicOp::Lock(IntrinsicLockOp::Release), Seq::<ValueExpr>::empty().push(a), unit_pl(), Some(bb(fb.next_block)))), FunctionBuilder__lock_release_ok(fb, a),
        FunctionBuilder__raw_eq(fb, p, a, b) == stepped(fb, intr(IntrinsicOp::RawEq, Seq::<ValueExpr>::empty().push(a).push(b), p, Some(bb(fb.next_block)))), FunctionBuilder__raw_eq_ok(fb, p, a, b),
        FunctionBuilder__get_unwind_payload(fb, p) == stepped(fb, intr(IntrinsicOp::GetUnwindPayload, Seq::<ValueExpr>::empty(), p, Some(bb(fb.next_block)))), FunctionBuilder__get_unwind_payload_ok(fb, p),
        FunctionBuilder__atomic_fetch(fb, FetchBinOp::Add, p, a, b) == stepped(fb, intr(IntrinsicOp::AtomicFetchAndOp(IntBinOp::Add), Seq::<ValueExpr>::empty().push(a).push(b), p, Some(bb(fb.next_block)))),
        FunctionBuilder__atomic_fetch(fb, FetchBinOp::Sub, p, a, b) == stepped(fb, intr(IntrinsicOp::AtomicFetchAndOp(IntBinOp::Sub), Seq::<ValueExpr>::empty().push(a).push(b), p, Some(bb(fb.next_block)))),
{ }

/// stepping keeps the invariant
pub proof fn step_invariant(b: FunctionBuilder, t: Terminator)
    requires fb_open(b)
    ensures
        fb_open(stepped(b, t)), grows(b, stepped(b, t)), stepped(b, t).cur_block->0.kind == b.cur_block->0.kind,
{ }

/// a call terminator
pub open spec fn callt(ret: PlaceExpr, f: ValueExpr, args: List<ArgumentExpr>, conv: CallingConvention, next: Option<BbName>, unwind: Option<BbName>) -> Terminator {
    Terminator::Call { callee: f, calling_convention: conv, arguments: args, ret: ret, next_block: next, unwind_block: unwind }
}

/// calls: callee, arguments, return place, convention, successor and unwind block are the given ones
pub proof fn calls(b: FunctionBuilder, ret: PlaceExpr, f: ValueExpr, args: List<ArgumentExpr>, conv: CallingConvention, u: BbName)
    requires fb_open(b)
    ensures
        FunctionBuilder__call(b, ret, f, args, u) == stepped(b, callt(ret, f, args, CallingConvention::Rust, Some(bb(b.next_block)), Some(u))), FunctionBuilder__call_ok(b, ret, f, args, u),
        FunctionBuilder__call_with_conv(b, ret, f, args, conv, u) == stepped(b, callt(ret, f, args, conv, Some(bb(b.next_block)), Some(u))), FunctionBuilder__call_with_conv_ok(b, ret, f, args, conv, u),
        FunctionBuilder__call_nounwind(b, ret, f, args) == stepped(b, callt(ret, f, args, CallingConvention::Rust, Some(bb(b.next_block)), None)), FunctionBuilder__call_nounwind_ok(b, ret, f, args),
        FunctionBuilder__call_ignoreret(b, f, args) == stepped(b, callt(unit_pl(), f, args, CallingConvention::Rust, Some(bb(b.next_block)), None)), FunctionBuilder__call_ignoreret_ok(b, f, args),
        FunctionBuilder__call_noret(b, ret, f, args) == closed(b, callt(ret, f, args, CallingConvention::Rust, None, None)), FunctionBuilder__call_noret_ok(b, ret, f, args),
{ }

/// cleanup, catch and terminating blocks are built aside, with their own kind, and the current block is resumed afterwards
pub open spec fn aside(b: FunctionBuilder, f: spec_fn(FunctionBuilder) -> FunctionBuilder, k: BbKind) -> FunctionBuilder {
    FunctionBuilder { cur_block: b.cur_block, ..f(opened(declared(b), bb(b.next_block), k)) }
}

/// side blocks
pub proof fn side_blocks(b: FunctionBuilder, f: spec_fn(FunctionBuilder) -> FunctionBuilder, k: BbKind)
    requires fb_inv(b), good_body(f),
        forall|x: FunctionBuilder| fb_open(x) ==> (#[trigger] f(x)).cur_block is None
    ensures
        FunctionBuilder__cleanup_block(b, f) == (aside(b, f, BbKind::Cleanup), bb(b.next_block)), FunctionBuilder__cleanup_block_ok(b, f, |x: FunctionBuilder| true),
        FunctionBuilder__catch_block(b, f) == (aside(b, f, BbKind::Catch), bb(b.next_block)), FunctionBuilder__catch_block_ok(b, f, |x: FunctionBuilder| true),
        FunctionBuilder__terminating_block(b, f) == (aside(b, f, BbKind::Terminate), bb(b.next_block)), FunctionBuilder__terminating_block_ok(b, f, |x: FunctionBuilder| true),
        fb_inv(aside(b, f, k)), grows(b, aside(b, f, k)), aside(b, f, k).blocks.m.contains_key(bb(b.next_block)), !b.blocks.m.contains_key(bb(b.next_block)),
{
    let x = FunctionBuilder { cur_block: None, ..b };
    assert(fb_open(opened(declared(b), bb(b.next_block), k)));
    assert(fb_open(opened(declared(b), bb(b.next_block), BbKind::Cleanup)));
    assert(fb_open(opened(declared(b), bb(b.next_block), BbKind::Catch)));
    assert(fb_open(opened(declared(b), bb(b.next_block), BbKind::Terminate)));
    let y = f(opened(declared(b), bb(b.next_block), k));
    let o = opened(declared(b), bb(b.next_block), k);
    assert(grows(o, y));
    let z = aside(b, f, k);
    assert(z.blocks == y.blocks && z.locals == y.locals);
    assert forall|n: BbName| #[trigger] b.blocks.m.contains_key(n) implies z.blocks.m.contains_key(n) && z.blocks.m[n] == b.blocks.m[n] by { assert(o.blocks.m.contains_key(n)); }
    assert forall|n: LocalName| #[trigger] b.locals.m.contains_key(n) implies z.locals.m.contains_key(n) && z.locals.m[n] == b.locals.m[n] by { assert(o.locals.m.contains_key(n)); }
    assert forall|n: BbName| #[trigger] z.blocks.m.contains_key(n) implies b.blocks.m.contains_key(n) || bbn(n) >= b.next_block by { assert(y.blocks.m.contains_key(n)); assert(o.cur_block->0.name == bb(b.next_block)); }
}

// ---- structured control flow
pub type Body = spec_fn(FunctionBuilder) -> FunctionBuilder;
/// run the branches in order, each in its own block of the given kind; a branch that falls through jumps to the (lazily declared) join block
pub open spec fn run_branches(bs: Seq<(Body, BbName)>, i: int, k: BbKind, b: FunctionBuilder, after: Option<BbName>) -> (FunctionBuilder, Option<BbName>)
    decreases bs.len() - i
{
    if i < 0 || i >= bs.len() { (b, after) } else {
        let o = (bs[i].0)(opened(b, bs[i].1, k));
        if o.cur_block is None { run_branches(bs, i + 1, k, o, after) }
        else {
            let a = if after is Some { after->0 } else { bb(o.next_block) };
            let o2 = if after is Some { o } else { declared(o) };
            run_branches(bs, i + 1, k, closed(o2, Terminator::Goto(a)), Some(a))
        }
    }
}
pub open spec fn case_seq(cases: Seq<(int, Body)>, n: int, len: int) -> Seq<(int, BbName)> { Seq::new(len as nat, |j: int| (cases[j].0, bb(n + j))) }
pub open spec fn branch_seq(cases: Seq<(int, Body)>, n: int, len: int) -> Seq<(Body, BbName)> { Seq::new(len as nat, |j: int| (cases[j].1, bb(n + j))) }
pub open spec fn distinct_cases(cases: Seq<(int, Body)>) -> bool { forall|i: int, j: int| 0 <= i < j < cases.len() ==> (#[trigger] cases[i]).0 != (#[trigger] cases[j]).0 }

/// the first loop of switch_int: one fresh block per case
pub proof fn switch_declares(it: List<(int, Body)>, i: int, b: FunctionBuilder, n: int, br: List<(Body, BbName)>, m: Map<int, BbName>)
    requires 0 <= i <= it.s.len(), distinct_cases(it.s), b.next_block == n + i, br.s == branch_seq(it.s, n, i), m.m == map_from(case_seq(it.s, n, i))
    ensures
        FunctionBuilder__switch_int__loop1_ok(it, i, b, br, m),
        FunctionBuilder__switch_int__loop1(it, i, b, br, m) == (FunctionBuilder { next_block: n + it.s.len(), ..b },
            List { s: branch_seq(it.s, n, it.s.len() as int) }, Map { m: map_from(case_seq(it.s, n, it.s.len() as int)) }),
    decreases it.s.len() - i
{
    if i < it.s.len() {
        let p = case_seq(it.s, n, i);
        let q = case_seq(it.s, n, i + 1);
        map_from_distinct(p);
        assert(!map_from(p).contains_key(it.s[i].0));
        assert(q.drop_last() =~= p);
        let br2 = List { s: br.s.push((it.s[i].1, bb(n + i))) };
        assert(br2.s =~= branch_seq(it.s, n, i + 1));
        switch_declares(it, i + 1, declared(b), n, br2, Map { m: map_from(q) });
    }
}

/// before branch i: its block and the later ones, and the join block, are declared and not finished
pub open spec fn ready(bs: Seq<(Body, BbName)>, i: int, b: FunctionBuilder, after: Option<BbName>) -> bool {
    &&& fb_inv(b) && b.cur_block is None
    &&& forall|j: int| i <= j < bs.len() ==> 0 <= bbn((#[trigger] bs[j]).1) < b.next_block && !b.blocks.m.contains_key(bs[j].1)
    &&& forall|j: int, l: int| 0 <= j < l < bs.len() ==> (#[trigger] bs[j]).1 != (#[trigger] bs[l]).1
    &&& forall|j: int| 0 <= j < bs.len() ==> good_body((#[trigger] bs[j]).0)
    &&& (after is Some ==> 0 <= bbn(after->0) < b.next_block && !b.blocks.m.contains_key(after->0))
    &&& (after is Some ==> forall|j: int| i <= j < bs.len() ==> (#[trigger] bs[j]).1 != after->0)
}
/// names handed out stay as they are
pub open spec fn keeps(x: FunctionBuilder, y: FunctionBuilder) -> bool {
    &&& y.name == x.name && y.start == x.start && y.next_block >= x.next_block && y.next_local >= x.next_local
    &&& forall|n: BbName| #[trigger] x.blocks.m.contains_key(n) ==> y.blocks.m.contains_key(n) && y.blocks.m[n] == x.blocks.m[n]
    &&& forall|n: LocalName| #[trigger] x.locals.m.contains_key(n) ==> y.locals.m.contains_key(n) && y.locals.m[n] == x.locals.m[n]
}
/// the second loop of switch_int runs the branches, cannot panic, keeps what was finished, and finishes every branch block
pub proof fn switch_runs(bs: List<(Body, BbName)>, i: int, k: BbKind, b: FunctionBuilder, after: Option<BbName>)
    requires 0 <= i <= bs.s.len(), ready(bs.s, i, b, after)
    ensures
        FunctionBuilder__switch_int__loop2_ok(bs, i, k, b, after),
        FunctionBuilder__switch_int__loop2(bs, i, k, b, after) == run_branches(bs.s, i, k, b, after),
        ({ let (r, a) = run_branches(bs.s, i, k, b, after);
            &&& ready(bs.s, bs.s.len() as int, r, a) && keeps(b, r)
            &&& (after is Some ==> a == after) && (after is None && a is Some ==> bbn(a->0) >= b.next_block)
            &&& forall|n: BbName| #[trigger] r.blocks.m.contains_key(n) ==> b.blocks.m.contains_key(n) || bbn(n) >= b.next_block || (exists|j: int| i <= j < bs.s.len() && (#[trigger] bs.s[j]).1 == n)
            &&& forall|j: int| i <= j < bs.s.len() ==> r.blocks.m.contains_key((#[trigger] bs.s[j]).1) }),
    decreases bs.s.len() - i
{
    if i < bs.s.len() {
        let e = opened(b, bs.s[i].1, k);
        assert(fb_open(e));
        assert(good_body(bs.s[i].0));
        let o = (bs.s[i].0)(e);
        assert(fb_inv(o) && grows(e, o));
        assert forall|n: BbName| #[trigger] b.blocks.m.contains_key(n) implies o.blocks.m.contains_key(n) && o.blocks.m[n] == b.blocks.m[n] by { assert(e.blocks.m.contains_key(n)); }
        assert forall|n: LocalName| #[trigger] b.locals.m.contains_key(n) implies o.locals.m.contains_key(n) && o.locals.m[n] == b.locals.m[n] by { assert(e.locals.m.contains_key(n)); }
        assert forall|n: BbName| #[trigger] o.blocks.m.contains_key(n) implies b.blocks.m.contains_key(n) || bbn(n) >= b.next_block || n == bs.s[i].1 by { }
        let a = if o.cur_block is None { after } else if after is Some { after } else { Some(bb(o.next_block)) };
        let o3 = if o.cur_block is None { o } else { closed(if after is Some { o } else { declared(o) }, Terminator::Goto(a->0)) };
        assert(keeps(b, o3));
        assert(fb_inv(o3) && o3.cur_block is None);
        assert forall|n: BbName| #[trigger] o3.blocks.m.contains_key(n) implies b.blocks.m.contains_key(n) || bbn(n) >= b.next_block || n == bs.s[i].1 by { }
        assert(o3.blocks.m.contains_key(bs.s[i].1));
        assert forall|j: int| i + 1 <= j < bs.s.len() implies 0 <= bbn((#[trigger] bs.s[j]).1) < o3.next_block && !o3.blocks.m.contains_key(bs.s[j].1) by { assert(bs.s[j].1 != bs.s[i].1); }
        if a is Some && after is None { assert(a->0 == bb(o.next_block)); assert(!o.blocks.m.contains_key(a->0)); }
        assert(ready(bs.s, i + 1, o3, a));
        switch_runs(bs, i + 1, k, o3, a);
        let (r, ra) = run_branches(bs.s, i, k, b, after);
        assert((r, ra) == run_branches(bs.s, i + 1, k, o3, a));
        assert(keeps(o3, r));
        assert forall|n: BbName| #[trigger] b.blocks.m.contains_key(n) implies r.blocks.m.contains_key(n) && r.blocks.m[n] == b.blocks.m[n] by { assert(o3.blocks.m.contains_key(n)); }
        assert forall|n: LocalName| #[trigger] b.locals.m.contains_key(n) implies r.locals.m.contains_key(n) && r.locals.m[n] == b.locals.m[n] by { assert(o3.locals.m.contains_key(n)); }
        assert forall|n: BbName| #[trigger] r.blocks.m.contains_key(n) implies b.blocks.m.contains_key(n) || bbn(n) >= b.next_block || (exists|j: int| i <= j < bs.s.len() && (#[trigger] bs.s[j]).1 == n) by {
            if o3.blocks.m.contains_key(n) { if n == bs.s[i].1 { } }
        }
    }
}

/// what a switch produces: the current block ends in a switch from each case value to that case's own fresh block (the fallback last)
pub open spec fn switched(b: FunctionBuilder, v: ValueExpr, cases: Seq<(int, Body)>, fallback: Body) -> FunctionBuilder {
    let n = b.next_block;
    let len = cases.len() as int;
    let c = closed(FunctionBuilder { next_block: n + len + 1, ..b }, Terminator::Switch { value: v, cases: Map { m: map_from(case_seq(cases, n, len)) }, fallback: bb(n + len) });
    let (r, after) = run_branches(branch_seq(cases, n, len).push((fallback, bb(n + len))), 0, b.cur_block->0.kind, c, None);
    if after is Some { opened(r, after->0, b.cur_block->0.kind) } else { r }
}
/// switch_int
pub proof fn switches(b: FunctionBuilder, v: ValueExpr, cases: List<(int, Body)>, fallback: Body)
    requires fb_open(b), distinct_cases(cases.s), good_body(fallback), forall|j: int| 0 <= j < cases.s.len() ==> good_body((#[trigger] cases.s[j]).1)
    ensures
        FunctionBuilder__switch_int_ok(b, v, cases, fallback, |x: FunctionBuilder| true),
        FunctionBuilder__switch_int(b, v, cases, fallback) == switched(b, v, cases.s, fallback),
        fb_inv(switched(b, v, cases.s, fallback)), grows(b, switched(b, v, cases.s, fallback)),
        forall|j: int| 0 <= j <= cases.s.len() ==> switched(b, v, cases.s, fallback).blocks.m.contains_key(#[trigger] bb(b.next_block + j)),
{
    let n = b.next_block;
    let len = cases.s.len() as int;
    let k = b.cur_block->0.kind;
    let no = List { s: Seq::<(Body, BbName)>::empty() };
    let nm = Map { m: vstd::map::Map::<int, BbName>::empty() };
    assert(no.s =~= branch_seq(cases.s, n, 0));
    assert(nm.m == map_from(case_seq(cases.s, n, 0)));
    switch_declares(cases, 0, b, n, no, nm);
    let bs = List { s: branch_seq(cases.s, n, len).push((fallback, bb(n + len))) };
    let d = FunctionBuilder { next_block: n + len + 1, ..b };
    let c = closed(d, Terminator::Switch { value: v, cases: Map { m: map_from(case_seq(cases.s, n, len)) }, fallback: bb(n + len) });
    assert(fb_inv(c));
    assert forall|j: int| 0 <= j < bs.s.len() implies good_body((#[trigger] bs.s[j]).0) by { if j < len { assert(bs.s[j].0 == cases.s[j].1); } }
    assert(ready(bs.s, 0, c, None));
    switch_runs(bs, 0, k, c, None);
    let (r, after) = run_branches(bs.s, 0, k, c, None);
    let z = switched(b, v, cases.s, fallback);
    assert(keeps(c, r));
    assert(c.blocks.m.contains_key(b.cur_block->0.name));
    assert forall|x: BbName| #[trigger] b.blocks.m.contains_key(x) implies z.blocks.m.contains_key(x) && z.blocks.m[x] == b.blocks.m[x] by { assert(c.blocks.m.contains_key(x)); }
    assert forall|x: LocalName| #[trigger] b.locals.m.contains_key(x) implies z.locals.m.contains_key(x) && z.locals.m[x] == b.locals.m[x] by { assert(c.locals.m.contains_key(x)); }
    assert forall|j: int| 0 <= j <= cases.s.len() implies z.blocks.m.contains_key(#[trigger] bb(b.next_block + j)) by { assert(bs.s[j].1 == bb(n + j)); }
    assert(fb_inv(z));
}

/// if: a switch on the byte of the condition with the then-branch at 1
pub proof fn conditionals(b: FunctionBuilder, v: ValueExpr, t: Body, e: Body)
    requires fb_open(b), good_body(t), good_body(e)
    ensures
        FunctionBuilder__if_(b, v, t, e) == switched(b, as_u8(v), Seq::<(int, Body)>::empty().push((1int, t)), e),
        FunctionBuilder__if__ok(b, v, t, |x: FunctionBuilder| true, e, |x: FunctionBuilder| true),
{
    switches(b, as_u8(v), List { s: Seq::<(int, Body)>::empty().push((1int, t)) }, e);
}

/// while: a fresh head block tests the condition; the body jumps back to the head; the code goes on in a block reached when the test fails
pub open spec fn looped(b: FunctionBuilder, v: ValueExpr, body: Body) -> FunctionBuilder {
    let n = b.next_block;
    let k = b.cur_block->0.kind;
    let c = opened(closed(declared(b), Terminator::Goto(bb(n))), bb(n), k);
    let d = closed(FunctionBuilder { next_block: n + 3, ..c }, Terminator::Switch { value: as_u8(v), cases: Map { m: vstd::map::Map::empty().insert(1int, bb(n + 1)) }, fallback: bb(n + 2) });
    let o = body(opened(d, bb(n + 1), k));
    let o2 = if o.cur_block is Some { closed(o, Terminator::Goto(bb(n))) } else { o };
    let p = opened(o2, bb(n + 2), k);
    opened(closed(declared(p), Terminator::Goto(bb(p.next_block))), bb(p.next_block), k)
}
/// while_
pub proof fn loops(b: FunctionBuilder, v: ValueExpr, body: Body)
    requires fb_open(b), good_body(body)
    ensures
        FunctionBuilder__while_(b, v, body) == looped(b, v, body),
        fb_open(looped(b, v, body)), grows(b, looped(b, v, body)),
        looped(b, v, body).cur_block->0.kind == b.cur_block->0.kind,
{
    let n = b.next_block;
    let k = b.cur_block->0.kind;
    let c = opened(closed(declared(b), Terminator::Goto(bb(n))), bb(n), k);
    let d = closed(FunctionBuilder { next_block: n + 3, ..c }, Terminator::Switch { value: as_u8(v), cases: Map { m: vstd::map::Map::empty().insert(1int, bb(n + 1)) }, fallback: bb(n + 2) });
    let e = opened(d, bb(n + 1), k);
    assert(fb_open(e));
    let o = body(e);
    assert(fb_inv(o) && grows(e, o));
    let o2 = if o.cur_block is Some { closed(o, Terminator::Goto(bb(n))) } else { o };
    assert(fb_inv(o2));
    assert(!o2.blocks.m.contains_key(bb(n + 2)));
    let z = looped(b, v, body);
    assert forall|x: BbName| #[trigger] b.blocks.m.contains_key(x) implies z.blocks.m.contains_key(x) && z.blocks.m[x] == b.blocks.m[x] by { assert(e.blocks.m.contains_key(x)); }
    assert forall|x: LocalName| #[trigger] b.locals.m.contains_key(x) implies z.locals.m.contains_key(x) && z.locals.m[x] == b.locals.m[x] by { assert(e.locals.m.contains_key(x)); }
    assert(e.blocks.m.contains_key(b.cur_block->0.name));
    reveal_with_fuel(FunctionBuilder__switch_int__loop1, 3);
    reveal_with_fuel(FunctionBuilder__switch_int__loop2, 4);
}

// ---- whole functions and programs
/// the function a builder ends up with: a unit return place is added if none was declared
pub open spec fn finished(b: FunctionBuilder) -> Function {
    let r = if b.ret is Some { b } else { FunctionBuilder { ret: Some(loc(b.next_local)), ..with_local(b, unit_t()) } };
    Function { locals: r.locals, args: r.args, ret: r.ret->0, calling_convention: r.conv, blocks: r.blocks, start: r.start }
}
pub proof fn finish_function(b: FunctionBuilder)
    requires fb_inv(b), b.cur_block is None
    ensures FunctionBuilder__finish_function(b) == finished(b), FunctionBuilder__finish_function_ok(b)
{ }

pub open spec fn pb_inv(p: ProgramBuilder) -> bool {
    &&& p.next_fn >= 0 && p.next_global >= 0 && p.next_vtable >= 0 && p.next_trait >= 0
    &&& forall|n: FnName| #[trigger] p.functions.m.contains_key(n) ==> 0 <= n.0.id < p.next_fn
    &&& forall|n: GlobalName| #[trigger] p.globals.m.contains_key(n) ==> 0 <= n.0.id < p.next_global
    &&& forall|n: VTableName| #[trigger] p.vtables.m.contains_key(n) ==> 0 <= n.0.id < p.next_vtable
    &&& forall|n: TraitName| #[trigger] p.traits.m.contains_key(n) ==> 0 <= n.0.id < p.next_trait
}
/// an empty program
pub proof fn new_program()
    ensures pb_inv(ProgramBuilder__new()),
        ProgramBuilder__new() == (ProgramBuilder { functions: Map { m: vstd::map::Map::empty() }, globals: Map { m: vstd::map::Map::empty() }, vtables: Map { m: vstd::map::Map::empty() }, traits: Map { m: vstd::map::Map::empty() }, next_fn: 0, next_global: 0, next_vtable: 0, next_trait: 0 }),
{ }
/// function names are fresh
pub proof fn declare_function(p: ProgramBuilder)
    requires pb_inv(p)
    ensures
        ProgramBuilder__declare_function(p) == (ProgramBuilder { next_fn: p.next_fn + 1, ..p }, FunctionBuilder__new(FnName(Name { id: p.next_fn }))),
        !p.functions.m.contains_key(FnName(Name { id: p.next_fn })), pb_inv(ProgramBuilder__declare_function(p).0),
{ }
/// a finished function is stored under its own name; everything else is as before
pub proof fn store_function(p: ProgramBuilder, f: FunctionBuilder)
    requires pb_inv(p), fb_inv(f), f.cur_block is None, 0 <= f.name.0.id < p.next_fn, !p.functions.m.contains_key(f.name)
    ensures
        ProgramBuilder__finish_function(p, f) == (ProgramBuilder { functions: Map { m: p.functions.m.insert(f.name, finished(f)) }, ..p }, f.name),
        ProgramBuilder__finish_function_ok(p, f), pb_inv(ProgramBuilder__finish_function(p, f).0),
{ }
/// the program: everything declared, starting at the given function, which gets the C calling convention
pub proof fn finish_program(p: ProgramBuilder, s: FnName)
    requires p.functions.m.contains_key(s)
    ensures
        ProgramBuilder__finish_program(p, s).1 == (Program { start: s, globals: p.globals, traits: p.traits, vtables: p.vtables,
            functions: Map { m: p.functions.m.insert(s, Function { calling_convention: CallingConvention::C, ..p.functions.m[s] }) } }),
        ProgramBuilder__finish_program_ok(p, s),
{ }
/// globals: fresh name, zero bytes of the type's size, its alignment, no relocations
pub proof fn declare_global(p: ProgramBuilder, t: Type)
    requires pb_inv(p), Type__layout(t) is Sized, ({ let n = (Type__layout(t)->Sized_0).raw; 0 <= n < 0x1_0000_0000_0000_0000 })
    ensures
        ({ let (q, pl) = ProgramBuilder__declare_global_zero_initialized(p, t);
           let n = GlobalName(Name { id: p.next_global });
           let g = q.globals.m[n];
            &&& q == (ProgramBuilder { next_global: p.next_global + 1, globals: Map { m: p.globals.m.insert(n, g) }, ..p })
            &&& !p.globals.m.contains_key(n) && pb_inv(q)
            &&& g.bytes.s == Seq::new((Type__layout(t)->Sized_0).raw as nat, |i: int| Some(0u8)) && g.relocations.s.len() == 0 && g.align == Type__layout(t)->Sized_1
            &&& pl == (PlaceExpr::Deref { operand: Box::new(ValueExpr::Constant(Constant::GlobalPointer(Relocation { name: n, offset: Size { raw: 0 } }), thin_ptr())), ty: t }) }),
{ }
/// traits and their methods
pub proof fn traits(p: ProgramBuilder, t: TraitBuilder, n: TraitName)
    requires pb_inv(p), 0 <= t.name.0.id < p.next_trait, !p.traits.m.contains_key(t.name)
    ensures
        ProgramBuilder__declare_trait(p) == (ProgramBuilder { next_trait: p.next_trait + 1, ..p }, TraitBuilder { name: TraitName(Name { id: p.next_trait }), next_method: 0, method_names: Set { s: vstd::set::Set::empty() } }),
        TraitBuilder__declare_method(t) == (TraitBuilder { next_method: t.next_method + 1, method_names: Set { s: t.method_names.s.insert(TraitMethodName(Name { id: t.next_method })) }, ..t }, TraitMethodName(Name { id: t.next_method })),
        ProgramBuilder__finish_trait(p, t) == (ProgramBuilder { traits: Map { m: p.traits.m.insert(t.name, t.method_names) }, ..p }, t.name),
        ProgramBuilder__finish_trait_ok(p, t), pb_inv(ProgramBuilder__declare_trait(p).0), pb_inv(ProgramBuilder__finish_trait(p, t).0),
{ }
/// vtables: fresh name, the given size, alignment and cells, and the added methods
pub proof fn vtables(p: ProgramBuilder, v: VTableBuilder, tr: TraitName, size: Size, al: Align, cells: List<(Size, Size)>, m: TraitMethodName, f: FnName, t: Type)
    requires pb_inv(p), 0 <= v.name.0.id < p.next_vtable, !p.vtables.m.contains_key(v.name), Type__layout(t) is Sized
    ensures
        ProgramBuilder__declare_vtable(p, tr, size, al, cells) == (ProgramBuilder { next_vtable: p.next_vtable + 1, ..p },
            VTableBuilder { trait_name: tr, name: VTableName(Name { id: p.next_vtable }), size: size, align: al, cells: cells, methods: Map { m: vstd::map::Map::empty() } }),
        ProgramBuilder__declare_vtable_for_frozen_ty(p, tr, t) == ProgramBuilder__declare_vtable(p, tr, Type__layout(t)->Sized_0, Type__layout(t)->Sized_1, List { s: Seq::empty() }),
        VTableBuilder__add_method(v, m, f) == (VTableBuilder { methods: Map { m: v.methods.m.insert(m, f) }, ..v }),
        ProgramBuilder__finish_vtable(p, v) == (ProgramBuilder { vtables: Map { m: p.vtables.m.insert(v.name, VTable { trait_name: v.trait_name, size: v.size, align: v.align, cells: v.cells, methods: v.methods }) }, ..p }, v.name),
        pb_inv(ProgramBuilder__declare_vtable(p, tr, size, al, cells).0), pb_inv(ProgramBuilder__finish_vtable(p, v).0),
{ }
/// a vtable is accepted exactly if its methods are the methods of its (declared) trait
pub proof fn vtable_methods_checked(p: ProgramBuilder, v: VTableBuilder)
    requires v.methods.m.dom().finite(), !p.vtables.m.contains_key(v.name)
    ensures ProgramBuilder__finish_vtable_ok(p, v) <==> p.traits.m.contains_key(v.trait_name) && p.traits.m[v.trait_name].s == v.methods.m.dom()
{
    assert(Map__keys(v.methods).s.to_set() =~= v.methods.m.dom());
}
