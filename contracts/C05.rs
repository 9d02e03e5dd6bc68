// C05: exactly the byte lists that represent a value of the type can be loaded at the type.

pub open spec fn is_init(b: AbstractByte<Prov>) -> bool { b is Init }
pub open spec fn all_init(b: List<AbstractByte<Prov>>) -> bool { forall|k: int| 0 <= k < b.s.len() ==> (#[trigger] b.s[k]) is Init }
pub open spec fn datum(b: AbstractByte<Prov>) -> u8 { match b { AbstractByte::Init(x, _) => x, AbstractByte::Uninit => 0u8 } }
pub open spec fn data(b: List<AbstractByte<Prov>>) -> List<u8> { List { s: Seq::new(b.s.len(), |k: int| datum(b.s[k])) } }

/// the bytes' data, exactly if none of them is uninitialised
pub proof fn init_data(b: List<AbstractByte<Prov>>, f: spec_fn(AbstractByte<Prov>) -> Option<u8>)
    requires forall|x: AbstractByte<Prov>| #[trigger] f(x) == AbstractByte__data::<Prov>(x)
    ensures List__try_map_opt(b, f) is Some <==> all_init(b), all_init(b) ==> List__try_map_opt(b, f)->0 == data(b),
{
    if all_init(b) {
        assert forall|i: int| 0 <= i < b.s.len() implies f(#[trigger] b.s[i]) is Some by { }
        assert(List__try_map_opt(b, f)->0.s =~= data(b).s);
    } else {
        let k = choose|k: int| 0 <= k < b.s.len() && !((#[trigger] b.s[k]) is Init);
        assert(f(b.s[k]) is None);
    }
}
// ---------------------------------------------------------------- which bytes are values
/// booleans: 0 and 1, whatever their provenance
pub proof fn booleans(b: AbstractByte<Prov>)
    ensures ({
        let r = Type__decode(Type::Bool, List { s: seq![b] });
        match b { AbstractByte::Init(x, _) => if x == 0 { r == Some(Value::Bool(false)) } else if x == 1 { r == Some(Value::Bool(true)) } else { r is None }, AbstractByte::Uninit => r is None }
    })
{ Type__decode__def(Type::Bool, List { s: seq![b] }); }
/// what n bytes can mean
pub proof fn be_range(s: Seq<u8>, sg: Signedness)
    requires s.len() >= 1
    ensures in_range(IntType { signed: sg, size: Size { raw: s.len() as int } }, be_val(s, sg))
    decreases s.len()
{
    let n = s.len(); let m = (n - 1) as nat;
    assert(p2(8) == 256 && p2(7) == 128) by { reveal_with_fuel(pow, 9); }
    if n > 1 {
        be_range(s.drop_last(), sg);
        assert(p2(8 * n as int) == 256 * p2(8 * m as int) && p2(8 * n as int - 1) == 256 * p2(8 * m as int - 1)) by {
            lemma_pow_adds(2, 8, 8 * m); lemma_pow_adds(2, 8, (8 * m - 1) as nat);
            assert(8 + 8 * m == 8 * n);
        }
    }
}
/// integers: every initialised byte list of the right length, whatever the provenance; the value fits the type
pub proof fn integers(t: IntType, b: List<AbstractByte<Prov>>)
    requires int_wf(t), b.s.len() == t.size.raw
    ensures ({
        let r = Type__decode(Type::Int(t), b);
        if all_init(b) { r == Some(Value::Int(Endianness__decode(T__ENDIANNESS(), t.signed, data(b)))) && in_range(t, Endianness__decode(T__ENDIANNESS(), t.signed, data(b))) } else { r is None }
    })
{
    Type__decode__def(Type::Int(t), b);
    init_data(b, |b: AbstractByte<Prov>| { AbstractByte__data::<Prov>(b) });
    be_range(data(b).s, t.signed);
    be_range(data(b).s.reverse(), t.signed);
}
/// thin pointers: every initialised byte list of the right length; the address fits
pub proof fn pointers(pt: PtrType, b: List<AbstractByte<Prov>>)
    requires target_ok(), b.s.len() == T__PTR_SIZE().raw, PtrType__meta_kind(pt) == PointerMetaKind::None
    ensures ({
        let r = Type__decode(Type::Ptr(pt), b);
        if all_init(b) { r is Some && r->0 is Ptr && r->0->Ptr_0.metadata is None && r->0->Ptr_0.thin_pointer.addr == Endianness__decode(T__ENDIANNESS(), Signedness::Unsigned, data(b)) && in_range(IntType__usize_ty(), r->0->Ptr_0.thin_pointer.addr) } else { r is None }
    })
{
    Type__decode__def(Type::Ptr(pt), b);
    init_data(b, |b: AbstractByte<Prov>| { AbstractByte__data::<Prov>(b) });
    be_range(data(b).s, Signedness::Unsigned);
    be_range(data(b).s.reverse(), Signedness::Unsigned);
}
pub open spec fn sliced(b: List<AbstractByte<Prov>>, at: int, n: int) -> List<AbstractByte<Prov>> { List { s: b.s.subrange(at, at + n) } }
pub open spec fn lay_size(t: Type) -> int { LayoutStrategy__expect_size(Type__layout(t), Str).raw }
/// the value of field j, if its bytes are one
pub open spec fn field(f: Seq<(Size, Type)>, b: List<AbstractByte<Prov>>, j: int) -> Option<Value> { Type__decode(f[j].1, sliced(b, f[j].0.raw, lay_size(f[j].1))) }
pub proof fn field_loop(f: List<(Size, Type)>, i: int, b: List<AbstractByte<Prov>>, acc: List<Value>)
    requires 0 <= i <= f.s.len(), acc.s.len() == i, forall|j: int| 0 <= j < i ==> field(f.s, b, j) == Some(#[trigger] acc.s[j])
    ensures ({
        let r = Type__decode__loop1(f, i, b, acc);
        if forall|j: int| i <= j < f.s.len() ==> (#[trigger] field(f.s, b, j)) is Some { r is Cont && (r->Cont_0).s.len() == f.s.len() && forall|j: int| 0 <= j < f.s.len() ==> field(f.s, b, j) == Some(#[trigger] (r->Cont_0).s[j]) }
        else { r == Flow::<Option<Value>, List<Value>>::Exit(None) }
    })
    decreases f.s.len() - i
{
    Type__decode__loop1__def(f, i, b, acc);
    if i < f.s.len() {
        let v = field(f.s, b, i);
        if v is Some {
            let c = List { s: acc.s.push(v->0) };
            assert forall|j: int| 0 <= j < i + 1 implies field(f.s, b, j) == Some(#[trigger] c.s[j]) by { if j < i { assert(c.s[j] == acc.s[j]); } }
            field_loop(f, i + 1, b, c);
            assert((forall|j: int| i <= j < f.s.len() ==> (#[trigger] field(f.s, b, j)) is Some) <==> (forall|j: int| i + 1 <= j < f.s.len() ==> (#[trigger] field(f.s, b, j)) is Some));
        }
    }
}
/// structs and tuples: exactly if each field's bytes are a value of the field; bytes outside the fields do not matter
pub proof fn structs(f: List<(Size, Type)>, h: TupleHeadLayout, b: List<AbstractByte<Prov>>)
    requires b.s.len() == TupleHeadLayout__head_size_and_align(h).0.raw
    ensures ({
        let r = Type__decode(Type::Tuple { sized_fields: f, sized_head_layout: h, unsized_field: Box::new(None) }, b);
        if forall|j: int| 0 <= j < f.s.len() ==> (#[trigger] field(f.s, b, j)) is Some {
            r is Some && r->0 is Tuple && (r->0->Tuple_0).s.len() == f.s.len() && forall|j: int| 0 <= j < f.s.len() ==> field(f.s, b, j) == Some(#[trigger] (r->0->Tuple_0).s[j])
        } else { r is None }
    })
{
    Type__decode__def(Type::Tuple { sized_fields: f, sized_head_layout: h, unsized_field: Box::new(None) }, b);
    field_loop(f, 0, b, List__new::<Value>());
}
/// enums: exactly if the tag is one of a variant and the bytes are a value of that variant
pub proof fn enums(vr: Map<int, Variant>, dt: IntType, dr: Discriminator, n: Size, al: Align, b: List<AbstractByte<Prov>>)
    requires b.s.len() == n.raw
    ensures ({
        let t = Type::Enum { variants: vr, discriminant_ty: dt, discriminator: dr, size: n, align: al };
        let d = Result__unwrap::<Option<int>, TerminationInfo>(decode_discriminant::<()>((), |nost: (), offset_3: Size, size_6: Size| { (nost, Ok(List__subslice_with_length::<AbstractByte<Prov>>(b, Size__bytes(offset_3), Size__bytes(size_6)))) }, dr).1);
        match d {
            None => Type__decode(t, b) is None,
            Some(k) => match Type__decode(vr.m[k].ty, b) { None => Type__decode(t, b) is None, Some(v) => Type__decode(t, b) == Some(Value::Variant { discriminant: k, data: Box::new(v) }) },
        }
    })
{ Type__decode__def(Type::Enum { variants: vr, discriminant_ty: dt, discriminator: dr, size: n, align: al }, b); }

// ---------------------------------------------------------------- which values are valid
/// the demands on a reference or box: not null, aligned, pointing to memory it may access, of an inhabited type
pub open spec fn ref_ok(m: Machine, p: Pointer<Prov>, i: PointeeInfo) -> bool {
    let size = Machine__compute_size(m, i.layout, p.metadata);
    let align = Machine__compute_align(m, i.layout, p.metadata);
    &&& int__in_bounds(size.raw, Signedness::Signed, T__PTR_SIZE())
    &&& p.thin_pointer.addr != 0
    &&& Align__is_aligned(align, p.thin_pointer.addr)
    &&& i.inhabited
    &&& ConcurrentMemory__dereferenceable(m.mem, p.thin_pointer, size) is Ok
}
pub proof fn references(m: Machine, p: Pointer<Prov>, pt: PtrType, i: PointeeInfo)
    requires PtrType__safe_pointee(pt) == Some(i), int__in_bounds(p.thin_pointer.addr, Signedness::Unsigned, T__PTR_SIZE()), Machine__check_ptr_metadata(m, p.metadata, PtrType__meta_kind(pt)) is Ok
    ensures ({ let r = Machine__check_value(m, Value::Ptr(p), Type::Ptr(pt)); if ref_ok(m, p, i) { r is Ok } else { is_ub(r) } })
{
    Machine__check_value__def(m, Value::Ptr(p), Type::Ptr(pt));
    Machine__check_ptr__def(m, p, pt);
}
/// raw pointers may point anywhere
pub proof fn raw_pointers(m: Machine, p: ThinPointer<Prov>)
    requires int__in_bounds(p.addr, Signedness::Unsigned, T__PTR_SIZE())
    ensures Machine__check_value(m, Value::Ptr(Pointer { thin_pointer: p, metadata: None }), Type::Ptr(PtrType::Raw { meta_kind: PointerMetaKind::None })) is Ok
{
    let q = Pointer { thin_pointer: p, metadata: None }; let pt = PtrType::Raw { meta_kind: PointerMetaKind::None };
    Machine__check_value__def(m, Value::Ptr(q), Type::Ptr(pt));
    Machine__check_ptr__def(m, q, pt);
    Machine__check_ptr_metadata__def(m, None, PointerMetaKind::None);
}
/// metadata of the wrong kind, or a length that is no usize, is undefined behaviour
pub proof fn metadata(m: Machine, p: Option<PointerMeta<Prov>>, k: PointerMetaKind)
    requires target_ok()
    ensures
        k is None ==> (if p is None { Machine__check_ptr_metadata(m, p, k) is Ok } else { is_ub(Machine__check_ptr_metadata(m, p, k)) }),
        k is ElementCount ==> (if p is Some && p->0 is ElementCount && in_range(IntType__usize_ty(), p->0->ElementCount_0) { Machine__check_ptr_metadata(m, p, k) is Ok } else { is_ub(Machine__check_ptr_metadata(m, p, k)) }),
        k is VTablePointer && !(p is Some && p->0 is VTablePointer) ==> is_ub(Machine__check_ptr_metadata(m, p, k)),
{
    Machine__check_ptr_metadata__def(m, p, k);
    lemma_int_ty(IntType__usize_ty());
    match p { Some(PointerMeta::ElementCount(n)) => { Machine__check_value__def(m, Value::Int(n), Type::Int(IntType__usize_ty())); } _ => { } }
}
pub proof fn int_values(m: Machine, t: IntType, i: int)
    requires int_wf(t)
    ensures ({ let r = Machine__check_value(m, Value::Int(i), Type::Int(t)); if in_range(t, i) { r is Ok } else { is_ub(r) } })
{ Machine__check_value__def(m, Value::Int(i), Type::Int(t)); lemma_int_ty(t); }
pub proof fn bool_values(m: Machine, b: bool)
    ensures Machine__check_value(m, Value::Bool(b), Type::Bool) is Ok
{ Machine__check_value__def(m, Value::Bool(b), Type::Bool); }
pub open spec fn valid(m: Machine, v: Value, t: Type) -> bool { Machine__check_value(m, v, t) is Ok }
pub proof fn tuple_loop(z: List<(Value, (Size, Type))>, i: int, m: Machine)
    requires 0 <= i <= z.s.len(), forall|j: int| i <= j < z.s.len() && !valid(m, (#[trigger] z.s[j]).0, z.s[j].1.1) ==> is_ub(Machine__check_value(m, z.s[j].0, z.s[j].1.1)),
    ensures ({
        let r = Machine__check_value__loop1(z, i, m);
        if forall|j: int| i <= j < z.s.len() ==> valid(m, (#[trigger] z.s[j]).0, z.s[j].1.1) { r is Cont } else { r is Exit && is_ub(r->Exit_0) }
    })
    decreases z.s.len() - i
{
    Machine__check_value__loop1__def(z, i, m);
    if i < z.s.len() { tuple_loop(z, i + 1, m);
        if valid(m, z.s[i].0, z.s[i].1.1) && (forall|j: int| i + 1 <= j < z.s.len() ==> valid(m, (#[trigger] z.s[j]).0, z.s[j].1.1)) {
            assert forall|j: int| i <= j < z.s.len() implies valid(m, (#[trigger] z.s[j]).0, z.s[j].1.1) by { if j > i { } }
        } }
}
/// a struct is valid exactly if every field is
pub proof fn struct_values(m: Machine, f: List<(Size, Type)>, h: TupleHeadLayout, vs: List<Value>)
    requires vs.s.len() == f.s.len(), forall|j: int| 0 <= j < f.s.len() && !valid(m, #[trigger] vs.s[j], f.s[j].1) ==> is_ub(Machine__check_value(m, vs.s[j], f.s[j].1))
    ensures ({
        let r = Machine__check_value(m, Value::Tuple(vs), Type::Tuple { sized_fields: f, sized_head_layout: h, unsized_field: Box::new(None) });
        if forall|j: int| 0 <= j < f.s.len() ==> valid(m, #[trigger] vs.s[j], f.s[j].1) { r is Ok } else { is_ub(r) }
    })
{
    let z = List__zip::<Value, (Size, Type)>(vs, f);
    Machine__check_value__def(m, Value::Tuple(vs), Type::Tuple { sized_fields: f, sized_head_layout: h, unsized_field: Box::new(None) });
    assert forall|j: int| 0 <= j < z.s.len() && !valid(m, (#[trigger] z.s[j]).0, z.s[j].1.1) implies is_ub(Machine__check_value(m, z.s[j].0, z.s[j].1.1)) by { assert(z.s[j] == (vs.s[j], f.s[j])); assert(!valid(m, vs.s[j], f.s[j].1)); }
    tuple_loop(z, 0, m);
    if forall|j: int| 0 <= j < f.s.len() ==> valid(m, #[trigger] vs.s[j], f.s[j].1) {
        assert forall|j: int| 0 <= j < z.s.len() implies valid(m, (#[trigger] z.s[j]).0, z.s[j].1.1) by { assert(z.s[j] == (vs.s[j], f.s[j])); assert(valid(m, vs.s[j], f.s[j].1)); }
    } else {
        let j = choose|j: int| 0 <= j < f.s.len() && !valid(m, #[trigger] vs.s[j], f.s[j].1);
        assert(z.s[j] == (vs.s[j], f.s[j]));
    }
}
/// an enum value is valid exactly if its variant exists and its data is valid
pub proof fn enum_values(m: Machine, vr: Map<int, Variant>, dt: IntType, dr: Discriminator, n: Size, al: Align, d: int, v: Value)
    ensures ({
        let r = Machine__check_value(m, Value::Variant { discriminant: d, data: Box::new(v) }, Type::Enum { variants: vr, discriminant_ty: dt, discriminator: dr, size: n, align: al });
        if !vr.m.contains_key(d) { is_ub(r) } else { match Machine__check_value(m, v, vr.m[d].ty) { Ok(_) => r is Ok, Err(e) => r is Err && r->Err_0 == e } }
    })
{ Machine__check_value__def(m, Value::Variant { discriminant: d, data: Box::new(v) }, Type::Enum { variants: vr, discriminant_ty: dt, discriminator: dr, size: n, align: al }); }

// ---------------------------------------------------------------- loads
/// a load whose bytes are no value of the type, or whose value is not valid, is undefined behaviour; otherwise it yields the value
pub proof fn loads(m: Machine, p: ThinPointer<Prov>, t: Type, al: Align, at: Atomicity)
    ensures ({
        let (n, r) = Machine__typed_load(m, p, t, al, at);
        let (mem, b) = ConcurrentMemory__load(m.mem, p, LayoutStrategy__expect_size(Type__layout(t), Str), al, at);
        let n1 = Machine { mem, ..m };
        n == n1 && (b is Ok ==> match Type__decode(t, b->Ok_0) {
            None => is_ub(r),
            Some(v) => match Machine__check_value(n1, v, t) { Ok(_) => r == Ok::<Value, TerminationInfo>(v), Err(e) => r is Err && r->Err_0 == e },
        })
    })
{ }
/// unreachable code and violated assumptions are undefined behaviour, met ones have no effect
pub proof fn unreachable_is_ub(m: Machine)
    ensures is_ub(Machine__eval_terminator(m, Terminator::Unreachable).1), Machine__eval_terminator(m, Terminator::Unreachable).0 == m,
{ }
pub proof fn assumptions(m: Machine, b: bool, t: Type)
    ensures ({
        let (n, r) = Machine__eval_intrinsic(m, IntrinsicOp::Assume, List { s: seq![(Value::Bool(b), t)] }, unit_type());
        n == m && (if b { r == Ok::<Value, TerminationInfo>(unit_value()) } else { is_ub(r) })
    })
{ }

// ---------------------------------------------------------------- the MIR translation of reinterpreting casts
/// a transmute, and a cast between function pointers, reads the operand's bytes at exactly the type named: nothing is assumed valid
pub proof fn mir_transmute(f: FnCtxt, k: SmCastKind, x: SmOperand, t: SmTy, sp: RsSpan)
    requires FnCtxt__translate_rvalue_smir_ok(f, SmRvalue::Cast(k, x, t), sp), k is Transmute || k is FnPtrToPtr || k == SmCastKind::PointerCoercion(SmPointerCoercion::UnsafeFnPointer)
    ensures ({
        let e = FnCtxt__translate_rvalue_smir(f, SmRvalue::Cast(k, x, t), sp).1;
        e is UnOp && e->UnOp_operator is Cast && e->UnOp_operator->Cast_0 is Transmute && tr_sty(f, t, e->UnOp_operator->Cast_0->Transmute_0) && tr_op(f, x, *e->operand)
    })
{
    reveal(FnCtxt__translate_rvalue_smir); reveal(FnCtxt__translate_rvalue_smir_ok);
}
/// a pointer type knows whether its pointee can have a value at all, exactly as the compiler says
pub proof fn mir_pointee_inhabited(c: Ctxt, t: RsTy, sp: RsSpan)
    requires Ctxt__pointee_info_of_ok(c, t, sp)
    ensures Ctxt__pointee_info_of(c, t, sp).1.inhabited == !RsLayout__is_uninhabited(Ctxt__rs_layout_of(c, t).layout)
{ reveal(Ctxt__pointee_info_of); reveal(Ctxt__pointee_info_of_ok); }

// ---------------------------------------------------------------- refusing to make up values of a type
pub open spec fn rs_name(f: FnCtxt, i: RsInstance) -> RsSym { RsTyCtxt__item_name(f.cx.tcx, RsInstance__def_id(i)) }
/// goes on to the target
pub open spec fn to_target(f: FnCtxt, t: Terminator, target: Option<int>) -> bool { target is Some && f.bb_name_map.m.contains_key(target->0) && t == Terminator::Goto(f.bb_name_map.m[target->0]) }
/// making up a value of a type aborts exactly if the compiler says the type does not allow it
pub proof fn mir_assert_valid(f: FnCtxt, i: RsInstance, args: List<RsSpanned<RsOperand>>, dest: RsPlace, target: Option<int>, sp: RsSpan)
    requires FnCtxt__translate_rs_intrinsic_ok(f, i, args, dest, target, sp), rs_name(f, i) is assert_inhabited || rs_name(f, i) is assert_zero_valid || rs_name(f, i) is assert_mem_uninitialized_valid
    ensures ({
        let r = FnCtxt__translate_rs_intrinsic(f, i, args, dest, target, sp).1; let q = RsValidityRequirement__from_intrinsic(rs_name(f, i))->0;
        let good = RsTyCtxt__check_validity_requirement(f.cx.tcx, (q, RsTypingEnv__as_query_input::<RsTy, RsQueryInputTy>(Ctxt__typing_env(f.cx), RsGenericArgsRef__type_at(i.args, 0))))->0;
        r.stmts.s.len() == 0 && if good { to_target(f, r.terminator, target) } else { abort_t(r.terminator) }
    })
{ reveal(FnCtxt__translate_rs_intrinsic); reveal(FnCtxt__translate_rs_intrinsic_ok); }
/// what a pointer type says about its pointee: the compiler's size and alignment, or how to work them out from the metadata
pub proof fn mir_pointee_layout(c: Ctxt, t: RsTy, sp: RsSpan)
    requires Ctxt__pointee_info_of_ok(c, t, sp)
    ensures ({
        let i = Ctxt__pointee_info_of(c, t, sp).1; let l = Ctxt__rs_layout_of(c, t).layout; let k = RsTy__kind(t);
        &&& (RsLayout__is_sized(l) ==> i.layout is Sized && i.layout->Sized_0.raw == RsSize__bytes(RsLayout__size(l)) && i.layout->Sized_1.raw == RsAlign__bytes(RsLayout__align(l).abi))
        &&& (!RsLayout__is_sized(l) && k is Slice ==> i.layout is Slice && ({
            let e = Ctxt__rs_layout_of(c, k->Slice_0).layout;
            i.layout->Slice_0.raw == RsSize__bytes(RsLayout__size(e)) && i.layout->Slice_1.raw == RsAlign__bytes(RsLayout__align(e).abi)
        }))
        &&& (!RsLayout__is_sized(l) && k is Str ==> i.layout is Slice && i.layout->Slice_0.raw == 1 && i.layout->Slice_1.raw == 1)
        &&& (!RsLayout__is_sized(l) && k is Dynamic ==> i.layout is TraitObject && i.layout->TraitObject_0 == Ctxt__get_trait_name(c, t).1)
    })
{
    reveal(Ctxt__pointee_info_of); reveal(Ctxt__pointee_info_of_ok);
}
