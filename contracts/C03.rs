// C03: sizes, alignments and offsets.

/// r is the least multiple of a that is not below x
pub open spec fn least_multiple(x: int, a: int, r: int) -> bool { r % a == 0 && x <= r < x + a }
pub open spec fn capped(h: TupleHeadLayout, a: int) -> int { if h.packed_align is Some && (h.packed_align->0).raw < a { (h.packed_align->0).raw } else { a } }
pub open spec fn imax(a: int, b: int) -> int { if a > b { a } else { b } }
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn head_ok(h: TupleHeadLayout) -> bool { h.end.raw >= 0 && h.align.raw > 0 && (h.packed_align is Some ==> (h.packed_align->0).raw > 0) }

/// aligning an offset
pub proof fn align_to(x: Size, a: Align)
    requires a.raw > 0, x.raw >= 0
    ensures least_multiple(x.raw, a.raw, Size__align_to(x, a).raw)
{
    lemma_fundamental_div_mod(-x.raw, a.raw);
    lemma_mod_bound(-x.raw, a.raw);
    let y = (-x.raw) / a.raw;
    assert((-y) * a.raw == x.raw + (-x.raw) % a.raw) by (nonlinear_arith) requires -x.raw == a.raw * y + (-x.raw) % a.raw;
    lemma_mod_multiples_basic(-y, a.raw);
}
/// the least multiple is unique
pub proof fn align_to_unique(x: int, a: int, r: int, s: int)
    requires a > 0, least_multiple(x, a, r), least_multiple(x, a, s)
    ensures r == s
{
    lemma_fundamental_div_mod(r, a); lemma_fundamental_div_mod(s, a);
    let p = r / a; let q = s / a;
    assert(r - s == a * (p - q)) by (nonlinear_arith) requires r == a * p, s == a * q;
    if p - q >= 1 { assert(a * (p - q) >= a) by (nonlinear_arith) requires p - q >= 1, a > 0; }
    if p - q <= -1 { assert(a * (p - q) <= -a) by (nonlinear_arith) requires p - q <= -1, a > 0; }
}
/// the unsized tail of a tuple starts at the first suitably aligned offset at or after the end of the head
pub proof fn tail_offset(h: TupleHeadLayout, a: Align)
    requires head_ok(h), a.raw > 0
    ensures least_multiple(h.end.raw, capped(h, a.raw), TupleHeadLayout__tail_offset(h, a).raw), TupleHeadLayout__tail_offset_ok(h, a), TupleHeadLayout__capped_tail_align(h, a).raw == capped(h, a.raw)
{ align_to(h.end, TupleHeadLayout__capped_tail_align(h, a)); }
/// the full tuple: big enough, no bigger than needed, a multiple of its alignment
pub proof fn full_size(h: TupleHeadLayout, s: Size, a: Align)
    requires head_ok(h), s.raw >= 0, a.raw > 0
    ensures TupleHeadLayout__full_size_and_align_ok(h, s, a), ({
        let (rs, ra) = TupleHeadLayout__full_size_and_align(h, s, a);
        ra.raw == imax(capped(h, a.raw), h.align.raw) && least_multiple(TupleHeadLayout__tail_offset(h, a).raw + s.raw, ra.raw, rs.raw)
    })
{ tail_offset(h, a); align_to(size_add(TupleHeadLayout__tail_offset(h, a), s), Align__max(TupleHeadLayout__capped_tail_align(h, a), h.align)); }
/// a sized tuple is the tuple with an empty tail
pub proof fn head_size(h: TupleHeadLayout)
    requires head_ok(h)
    ensures TupleHeadLayout__head_size_and_align_ok(h), TupleHeadLayout__head_size_and_align(h) == TupleHeadLayout__full_size_and_align(h, Size { raw: 0 }, Align { raw: 1 }),
        least_multiple(h.end.raw, h.align.raw, TupleHeadLayout__head_size_and_align(h).0.raw), TupleHeadLayout__head_size_and_align(h).1 == h.align,
{
    let one = Align { raw: 1 };
    tail_offset(h, one); align_to(h.end, h.align); full_size(h, Size { raw: 0 }, one);
    assert(h.end.raw % 1 == 0);
    align_to_unique(h.end.raw, 1, h.end.raw, TupleHeadLayout__tail_offset(h, one).raw);
}
/// what a layout must satisfy for sizes to make sense
pub open spec fn lay_ok(l: LayoutStrategy) -> bool decreases l {
    match l {
        LayoutStrategy::Sized(s, a) => s.raw >= 0 && a.raw > 0,
        LayoutStrategy::Slice(s, a) => s.raw >= 0 && a.raw > 0,
        LayoutStrategy::TraitObject(_) => true,
        LayoutStrategy::Tuple { head, tail } => head_ok(head) && lay_ok(*tail) && !(*tail is Sized),
    }
}
pub open spec fn meta_ok<P>(l: LayoutStrategy, m: Option<PointerMeta<P>>, f: spec_fn(ThinPointer<P>) -> VTable) -> bool {
    match LayoutStrategy__meta_kind(l) {
        PointerMetaKind::None => m is None,
        PointerMetaKind::ElementCount => m is Some && m->0 is ElementCount && (m->0)->ElementCount_0 >= 0,
        PointerMetaKind::VTablePointer(_) => m is Some && m->0 is VTablePointer && f((m->0)->VTablePointer_0).size.raw >= 0 && f((m->0)->VTablePointer_0).align.raw > 0
            && f((m->0)->VTablePointer_0).size.raw % f((m->0)->VTablePointer_0).align.raw == 0,
    }
}
/// what the size and alignment of a value must be, given its layout
pub open spec fn size_spec<P>(l: LayoutStrategy, m: Option<PointerMeta<P>>, f: spec_fn(ThinPointer<P>) -> VTable, f_ok: spec_fn(ThinPointer<P>) -> bool) -> bool {
    let (s, a) = LayoutStrategy__compute_size_and_align(l, m, f);
    match l {
        LayoutStrategy::Sized(s0, a0) => s == s0 && a == a0,
        LayoutStrategy::Slice(s0, a0) => s.raw == s0.raw * (m->0)->ElementCount_0 && a == a0,
        LayoutStrategy::TraitObject(_) => s == f((m->0)->VTablePointer_0).size && a == f((m->0)->VTablePointer_0).align,
        LayoutStrategy::Tuple { head, tail } => {
            let (ts, ta) = LayoutStrategy__compute_size_and_align(*tail, m, f);
            a.raw == imax(capped(head, ta.raw), head.align.raw) && least_multiple(TupleHeadLayout__tail_offset(head, ta).raw + ts.raw, a.raw, s.raw)
        }
    }
}
pub open spec fn size_fine<P>(l: LayoutStrategy, m: Option<PointerMeta<P>>, f: spec_fn(ThinPointer<P>) -> VTable, f_ok: spec_fn(ThinPointer<P>) -> bool) -> bool {
    let (s, a) = LayoutStrategy__compute_size_and_align(l, m, f);
    s.raw >= 0 && a.raw > 0 && (LayoutStrategy__check_aligned(l) is Ok ==> s.raw % a.raw == 0) && LayoutStrategy__compute_size_and_align_ok(l, m, f, f_ok)
}
/// values of a statically known size
pub proof fn computed_size_sized<P>(l: LayoutStrategy, m: Option<PointerMeta<P>>, f: spec_fn(ThinPointer<P>) -> VTable, f_ok: spec_fn(ThinPointer<P>) -> bool)
    requires l is Sized, lay_ok(l), meta_ok(l, m, f)
    ensures size_fine(l, m, f, f_ok), size_spec(l, m, f, f_ok)
{
    let (s0, a0) = (l->Sized_0, l->Sized_1);
    lemma_rem0(s0.raw, a0.raw);
    reveal_with_fuel(LayoutStrategy__check_aligned, 2);
}
/// slices
pub proof fn computed_size_slice<P>(l: LayoutStrategy, m: Option<PointerMeta<P>>, f: spec_fn(ThinPointer<P>) -> VTable, f_ok: spec_fn(ThinPointer<P>) -> bool)
    requires l is Slice, lay_ok(l), meta_ok(l, m, f)
    ensures size_fine(l, m, f, f_ok), size_spec(l, m, f, f_ok)
{
    let (s0, a0) = (l->Slice_0, l->Slice_1);
    lemma_rem0(s0.raw, a0.raw);
    let n = (m->0)->ElementCount_0;
    assert(LayoutStrategy__meta_kind(l) == PointerMetaKind::ElementCount);
    assert(LayoutStrategy__check_aligned(l) is Ok ==> int_rem(s0.raw, a0.raw) == 0);
    assert(s0.raw * n >= 0) by (nonlinear_arith) requires s0.raw >= 0, n >= 0;
    if s0.raw % a0.raw == 0 { lemma_fundamental_div_mod(s0.raw, a0.raw); let q = s0.raw / a0.raw; assert(s0.raw * n == (q * n) * a0.raw) by (nonlinear_arith) requires s0.raw == a0.raw * q; lemma_mod_multiples_basic(q * n, a0.raw); }
}
/// trait objects
pub proof fn computed_size_dyn<P>(l: LayoutStrategy, m: Option<PointerMeta<P>>, f: spec_fn(ThinPointer<P>) -> VTable, f_ok: spec_fn(ThinPointer<P>) -> bool)
    requires l is TraitObject, lay_ok(l), meta_ok(l, m, f), forall|p: ThinPointer<P>| #[trigger] f_ok(p)
    ensures size_fine(l, m, f, f_ok), size_spec(l, m, f, f_ok)
{
    assert(LayoutStrategy__meta_kind(l) is VTablePointer);
    assert(f_ok((m->0)->VTablePointer_0));
}
/// structs with an unsized tail, and by induction every layout
pub proof fn computed_size<P>(l: LayoutStrategy, m: Option<PointerMeta<P>>, f: spec_fn(ThinPointer<P>) -> VTable, f_ok: spec_fn(ThinPointer<P>) -> bool)
    requires lay_ok(l), meta_ok(l, m, f), forall|p: ThinPointer<P>| #[trigger] f_ok(p)
    ensures size_fine(l, m, f, f_ok), size_spec(l, m, f, f_ok)
    decreases l
{
    match l {
        LayoutStrategy::Sized(s0, a0) => { computed_size_sized(l, m, f, f_ok); }
        LayoutStrategy::Slice(s0, a0) => { computed_size_slice(l, m, f, f_ok); }
        LayoutStrategy::TraitObject(_) => { computed_size_dyn(l, m, f, f_ok); }
        LayoutStrategy::Tuple { head, tail } => {
            assert(LayoutStrategy__meta_kind(l) == LayoutStrategy__meta_kind(*tail));
            computed_size(*tail, m, f, f_ok);
            let (ts, ta) = LayoutStrategy__compute_size_and_align(*tail, m, f);
            tail_offset(head, ta); full_size(head, ts, ta);
            assert(LayoutStrategy__compute_size_and_align(l, m, f) == TupleHeadLayout__full_size_and_align(head, ts, ta));
        }
    }
}
pub proof fn lemma_rem0(a: int, b: int)
    requires a >= 0, b > 0
    ensures int_rem(a, b) == a % b
{ }
/// what the statically known layout of a type is
pub proof fn type_layout(t: Type)
    requires target_ok(), 1 <= T__PTR_ALIGN().raw
    ensures
        (t is Int && is_p2(t->Int_0.size.raw) ==> Type__layout(t) == LayoutStrategy::Sized(t->Int_0.size, Align { raw: imin(t->Int_0.size.raw, T__INT_MAX_ALIGN().raw) })),
        (t is Bool ==> Type__layout(t) == LayoutStrategy::Sized(Size { raw: 1 }, Align { raw: 1 })),
        (t is Ptr ==> Type__layout(t) == LayoutStrategy::Sized(Size { raw: if PtrType__meta_kind(t->Ptr_0) is None { T__PTR_SIZE().raw } else { 2 * T__PTR_SIZE().raw } }, T__PTR_ALIGN())),
        (t is Union ==> Type__layout(t) == LayoutStrategy::Sized(t->Union_size, t->Union_align)),
        (t is Enum ==> Type__layout(t) == LayoutStrategy::Sized(t->Enum_size, t->Enum_align)),
        (t is Tuple && *t->Tuple_unsized_field is None ==> Type__layout(t) is Sized && Type__layout(t)->Sized_0 == TupleHeadLayout__head_size_and_align(t->Tuple_sized_head_layout).0 && Type__layout(t)->Sized_1 == t->Tuple_sized_head_layout.align),
        (t is Tuple && *t->Tuple_unsized_field is Some ==> Type__layout(t) is Tuple && Type__layout(t)->Tuple_head == t->Tuple_sized_head_layout && *Type__layout(t)->Tuple_tail == Type__layout((*t->Tuple_unsized_field)->0)),
        (t is Array && Type__layout(*t->Array_elem) is Sized && Type__layout(*t->Array_elem)->Sized_0.raw >= 0 && t->Array_count >= 0 ==> Type__layout(t) is Sized && Type__layout(t)->Sized_0.raw == Type__layout(*t->Array_elem)->Sized_0.raw * t->Array_count && Type__layout(t)->Sized_1 == Type__layout(*t->Array_elem)->Sized_1),
        (t is Slice && Type__layout(*t->Slice_elem) is Sized ==> Type__layout(t) == LayoutStrategy::Slice(Type__layout(*t->Slice_elem)->Sized_0, Type__layout(*t->Slice_elem)->Sized_1)),
        (t is TraitObject ==> Type__layout(t) == LayoutStrategy::TraitObject(t->TraitObject_0)),
{
    if t is Array && Type__layout(*t->Array_elem) is Sized && Type__layout(*t->Array_elem)->Sized_0.raw >= 0 && t->Array_count >= 0 {
        let (x, y) = (Type__layout(*t->Array_elem)->Sized_0.raw, t->Array_count);
        assert(x * y >= 0) by (nonlinear_arith) requires x >= 0, y >= 0;
    }
}
/// the metadata kind of a type is that of its layout
pub proof fn meta_kind_agrees(t: Type)
    ensures LayoutStrategy__meta_kind(Type__layout(t)) == Type__meta_kind(t)
    decreases t
{
    if t is Tuple && *t->Tuple_unsized_field is Some { meta_kind_agrees((*t->Tuple_unsized_field)->0); }
}

// ---------------------------------------------------------------- the layout of a Rust type is handed on unchanged
/// y is what the compiler's type becomes, under any cache
pub open spec fn gives_ty(c: Ctxt, t: RsTy, y: Type) -> bool {
    exists|cx: Ctxt, sp: RsSpan| cx.tcx == c.tcx && y == (#[trigger] Ctxt__translate_ty(cx, t, sp)).1
}
/// i is what a type says about places of it
pub open spec fn gives_info(c: Ctxt, t: RsTy, i: PointeeInfo) -> bool {
    exists|cx: Ctxt, sp: RsSpan| cx.tcx == c.tcx && i == (#[trigger] Ctxt__pointee_info_of(cx, t, sp)).1
}
pub open spec fn fresh_ty(c: Ctxt, t: RsTy) -> bool { !c.ty_cache.m.contains_key(t) }
pub open spec fn int_ty(n: int, s: Signedness) -> Type { Type::Int(IntType { size: Size { raw: n }, signed: s }) }
/// the type seen before is the same type again
pub proof fn mir_ty_cached(c: Ctxt, t: RsTy, sp: RsSpan)
    requires Ctxt__translate_ty_ok(c, t, sp)
    ensures !fresh_ty(c, t) ==> Ctxt__translate_ty(c, t, sp) == (c, c.ty_cache.m[t])
{ Ctxt__translate_ty__def(c, t, sp); }
/// types without parts
pub proof fn mir_ty_scalar(c: Ctxt, t: RsTy, sp: RsSpan)
    requires Ctxt__translate_ty_ok(c, t, sp), fresh_ty(c, t)
    ensures ({
        let k = RsTy__kind(t); let (n, y) = Ctxt__translate_ty(c, t, sp);
        &&& (k is Bool ==> y is Bool)
        &&& (k is Int ==> y == int_ty(RsSize__bytes(RsInteger__size(RsInteger__from_int_ty(c.tcx, k->Int_0))), Signedness::Signed))
        &&& (k is Uint ==> y == int_ty(RsSize__bytes(RsInteger__size(RsInteger__from_uint_ty(c.tcx, k->Uint_0))), Signedness::Unsigned))
        &&& (k is Char ==> y == int_ty(4, Signedness::Unsigned))
        &&& (k is Str ==> y is Slice && *y->Slice_elem == int_ty(1, Signedness::Unsigned))
        &&& (k is FnPtr ==> y == Type::Ptr(PtrType::FnPtr))
        &&& (k is Never ==> y is Enum && y->Enum_variants.m =~= vstd::map::Map::<int, Variant>::empty() && y->Enum_discriminator is Invalid && y->Enum_size.raw == 0 && y->Enum_align.raw == 1)
        &&& (k is Dynamic ==> y is TraitObject && y->TraitObject_0 == Ctxt__get_trait_name(c, t).1)
        &&& (k is Bool || k is Int || k is Uint || k is Char || k is Str || k is FnPtr || k is Never) ==> n == (Ctxt { ty_cache: Map { m: c.ty_cache.m.insert(t, y) }, ..c })
    })
{
    Ctxt__translate_ty__def(c, t, sp); Ctxt__translate_ty_ok__def(c, t, sp);
    reveal_with_fuel(pow, 10);
}
/// types made of one other type
pub proof fn mir_ty_parts(c: Ctxt, t: RsTy, sp: RsSpan)
    requires Ctxt__translate_ty_ok(c, t, sp), fresh_ty(c, t)
    ensures ({
        let k = RsTy__kind(t); let (n, y) = Ctxt__translate_ty(c, t, sp);
        &&& (k is Pat ==> gives_ty(c, k->Pat_0, y))
        &&& (k is FnDef ==> gives_ty(c, c.tcx.types.unit, y))
        &&& (k is Array ==> y is Array && gives_ty(c, k->Array_0, *y->Array_elem) && RsConst__try_to_target_usize(k->Array_1, c.tcx) == Some(y->Array_count))
        &&& (k is Slice ==> y is Slice && gives_ty(c, k->Slice_0, *y->Slice_elem))
        &&& (k is Ref ==> y is Ptr && y->Ptr_0 is Ref && gives_info(c, k->Ref_1, y->Ptr_0->Ref_pointee) && (y->Ptr_0->Ref_mutbl is Mutable <==> k->Ref_2 is Mut))
        &&& (k is RawPtr ==> y is Ptr && y->Ptr_0 is Raw && exists|i: PointeeInfo| #[trigger] gives_info(c, k->RawPtr_0, i) && y->Ptr_0->Raw_meta_kind == LayoutStrategy__meta_kind(i.layout))
        &&& (k is Adt && RsAdtDef__is_box(k->Adt_0) ==> y is Ptr && y->Ptr_0 is Box && gives_info(c, RsTy__expect_boxed_ty(t), y->Ptr_0->Box_pointee))
        &&& (k is Array || k is Slice || k is Ref || k is RawPtr || k is Pat ==> n.ty_cache.m.contains_key(t) && n.ty_cache.m[t] == y)
    })
{
    Ctxt__translate_ty__def(c, t, sp); Ctxt__translate_ty_ok__def(c, t, sp);
    let k = RsTy__kind(t);
    if k is Ref { assert(gives_info(c, k->Ref_1, Ctxt__pointee_info_of(c, k->Ref_1, sp).1)); }
    if k is RawPtr { assert(gives_info(c, k->RawPtr_0, Ctxt__pointee_info_of(c, k->RawPtr_0, sp).1)); }
    if k is Adt && RsAdtDef__is_box(k->Adt_0) { assert(gives_info(c, RsTy__expect_boxed_ty(t), Ctxt__pointee_info_of(c, RsTy__expect_boxed_ty(t), sp).1)); }
    if k is Array { assert(gives_ty(c, k->Array_0, Ctxt__translate_ty(c, k->Array_0, sp).1)); }
    if k is Slice { assert(gives_ty(c, k->Slice_0, Ctxt__translate_ty(c, k->Slice_0, sp).1)); }
    if k is Pat { assert(gives_ty(c, k->Pat_0, Ctxt__translate_ty(c, k->Pat_0, sp).1)); }
    if k is FnDef { assert(gives_ty(c, c.tcx.types.unit, Ctxt__translate_ty(c, c.tcx.types.unit, sp).1)); }
}
/// one field: where the compiler puts it, with its own type
pub open spec fn lay_field(c: Ctxt, l: RsTyAndLayout, x: (Size, Type), i: int) -> bool {
    x.0.raw == RsSize__bytes(RsFieldsShape__offset(l.fields, i)) && exists|d: Ctxt| d.tcx == c.tcx && gives_ty(c, (#[trigger] RsTyAndLayout__field(l, d, i)).ty, x.1)
}
pub open spec fn lay_fields(c: Ctxt, l: RsTyAndLayout, s: Seq<(Size, Type)>, n: int) -> bool { s.len() == n && forall|i: int| 0 <= i < n ==> lay_field(c, l, #[trigger] s[i], i) }
pub proof fn mir_layout_fields(c: Ctxt, l: RsTyAndLayout, sp: RsSpan, n: int, i: int, d: Ctxt, acc: List<(Size, Type)>)
    requires Ctxt__tuple_from_layout__loop1_ok(List__range(0, n), i, l, sp, d, acc), 0 <= i <= n, d.tcx == c.tcx, lay_fields(c, l, acc.s, i)
    ensures lay_fields(c, l, Ctxt__tuple_from_layout__loop1(List__range(0, n), i, l, sp, d, acc).1.s, n)
    decreases n - i
{
    let it = List__range(0, n);
    Ctxt__tuple_from_layout__loop1__def(it, i, l, sp, d, acc); Ctxt__tuple_from_layout__loop1_ok__def(it, i, l, sp, d, acc);
    if i < n {
        let ft = RsTyAndLayout__field(l, d, i).ty;
        let r = Ctxt__translate_ty(d, ft, sp);
        assert(gives_ty(c, ft, r.1));
        let x = (mini__translate_size(RsFieldsShape__offset(l.fields, i)), r.1);
        assert(lay_field(c, l, x, i));
        let acc2 = List { s: acc.s.push(x) };
        assert forall|j: int| 0 <= j < i + 1 implies lay_field(c, l, #[trigger] acc2.s[j], j) by { if j < i { assert(acc2.s[j] == acc.s[j]); } }
        mir_layout_fields(c, l, sp, n, i + 1, r.0, acc2);
    }
}
/// tuples and closures: every field where the compiler puts it, the size and the alignment the compiler gives
pub proof fn mir_ty_tuple(c: Ctxt, t: RsTy, sp: RsSpan)
    requires Ctxt__translate_ty_ok(c, t, sp), fresh_ty(c, t), RsTy__kind(t) is Tuple || RsTy__kind(t) is Closure, RsFieldsShape__count(Ctxt__rs_layout_of(c, t).fields) >= 0
    ensures ({
        let y = Ctxt__translate_ty(c, t, sp).1; let l = Ctxt__rs_layout_of(c, t);
        &&& y is Tuple && lay_fields(c, l, y->Tuple_sized_fields.s, RsFieldsShape__count(l.fields))
        &&& y->Tuple_sized_head_layout.end.raw == RsSize__bytes(l.size) && y->Tuple_sized_head_layout.align.raw == RsAlign__bytes(l.align.abi) && y->Tuple_sized_head_layout.packed_align is None
        &&& *y->Tuple_unsized_field is None
    })
{
    Ctxt__translate_ty__def(c, t, sp); Ctxt__translate_ty_ok__def(c, t, sp);
    let l = Ctxt__rs_layout_of(c, t);
    Ctxt__tuple_from_layout__def(c, l, sp); Ctxt__tuple_from_layout_ok__def(c, l, sp);
    mir_layout_fields(c, l, sp, RsFieldsShape__count(l.fields), 0, c, List__new::<(Size, Type)>());
}
/// one field of a struct, a union or a variant: where the compiler puts it (the start, in a variant it leaves out), with its own type
pub open spec fn adt_field(c: Ctxt, shape: Option<RsFieldsShape>, v: RsVariantDef, g: RsGenericArgsRef, x: (Size, Type), i: int) -> bool {
    x.0.raw == RsSize__bytes(if shape is Some { RsFieldsShape__offset(shape->0, i) } else { RsSize__ZERO() })
    && gives_ty(c, RsTyCtxt__normalize_erasing_regions(c.tcx, Ctxt__typing_env(c), RsFieldDef__ty(v.fields.s[i], c.tcx, g)), x.1)
}
pub open spec fn adt_fields(c: Ctxt, shape: Option<RsFieldsShape>, v: RsVariantDef, g: RsGenericArgsRef, s: Seq<(Size, Type)>, n: int) -> bool {
    s.len() == n && forall|i: int| 0 <= i < n ==> adt_field(c, shape, v, g, #[trigger] s[i], i)
}
pub proof fn mir_adt_fields_loop(c: Ctxt, shape: Option<RsFieldsShape>, v: RsVariantDef, g: RsGenericArgsRef, sp: RsSpan, i: int, d: Ctxt, acc: List<(Size, Type)>)
    requires Ctxt__translate_adt_variant_fields__loop1_ok(List__iter_enumerated::<RsFieldDef>(v.fields), i, shape, g, sp, d, acc), 0 <= i <= v.fields.s.len(), d.tcx == c.tcx, adt_fields(c, shape, v, g, acc.s, i)
    ensures adt_fields(c, shape, v, g, Ctxt__translate_adt_variant_fields__loop1(List__iter_enumerated::<RsFieldDef>(v.fields), i, shape, g, sp, d, acc).1.s, v.fields.s.len() as int)
    decreases v.fields.s.len() - i
{
    let it = List__iter_enumerated::<RsFieldDef>(v.fields);
    Ctxt__translate_adt_variant_fields__loop1__def(it, i, shape, g, sp, d, acc); Ctxt__translate_adt_variant_fields__loop1_ok__def(it, i, shape, g, sp, d, acc);
    if i < v.fields.s.len() {
        let ft = RsTyCtxt__normalize_erasing_regions(d.tcx, Ctxt__typing_env(d), RsFieldDef__ty(v.fields.s[i], d.tcx, g));
        let r = Ctxt__translate_ty(d, ft, sp);
        assert(gives_ty(c, ft, r.1));
        let x = (mini__translate_size(if shape is Some { RsFieldsShape__offset(shape->0, i) } else { RsSize__ZERO() }), r.1);
        let acc2 = List { s: acc.s.push(x) };
        assert(adt_field(c, shape, v, g, x, i));
        assert forall|j: int| 0 <= j < i + 1 implies adt_field(c, shape, v, g, #[trigger] acc2.s[j], j) by { if j < i { assert(acc2.s[j] == acc.s[j]); } }
        mir_adt_fields_loop(c, shape, v, g, sp, i + 1, r.0, acc2);
    }
}
pub proof fn mir_adt_fields(c: Ctxt, shape: Option<RsFieldsShape>, v: RsVariantDef, g: RsGenericArgsRef, sp: RsSpan)
    requires Ctxt__translate_adt_variant_fields_ok(c, shape, v, g, sp)
    ensures adt_fields(c, shape, v, g, Ctxt__translate_adt_variant_fields(c, shape, v, g, sp).1.s, v.fields.s.len() as int)
{
    Ctxt__translate_adt_variant_fields__def(c, shape, v, g, sp); Ctxt__translate_adt_variant_fields_ok__def(c, shape, v, g, sp);
    mir_adt_fields_loop(c, shape, v, g, sp, 0, c, List__new::<(Size, Type)>());
}
/// structs and unions: every field where the compiler puts it, the size and the alignment the compiler gives
pub proof fn mir_ty_adt(c: Ctxt, t: RsTy, sp: RsSpan)
    requires Ctxt__translate_ty_ok(c, t, sp), fresh_ty(c, t), RsTy__kind(t) is Adt, !RsAdtDef__is_box(RsTy__kind(t)->Adt_0)
    ensures ({
        let (a, g) = (RsTy__kind(t)->Adt_0, RsTy__kind(t)->Adt_1);
        let y = Ctxt__translate_ty(c, t, sp).1; let l = Ctxt__rs_layout_of(c, t).layout; let v = RsAdtDef__non_enum_variant(a);
        let (size, align) = (RsSize__bytes(RsLayout__size(l)), RsAlign__bytes(RsLayout__align(l).abi));
        &&& (RsAdtDef__is_struct(a) ==> y is Tuple && adt_fields(c, Some(RsLayout__fields(l)), v, g, y->Tuple_sized_fields.s, v.fields.s.len() as int)
            && y->Tuple_sized_head_layout.end.raw == size && y->Tuple_sized_head_layout.align.raw == align && y->Tuple_sized_head_layout.packed_align is None && *y->Tuple_unsized_field is None)
        &&& (RsAdtDef__is_union(a) && !RsAdtDef__is_struct(a) ==> y is Union && adt_fields(c, Some(RsLayout__fields(l)), v, g, y->Union_fields.s, v.fields.s.len() as int)
            && y->Union_size.raw == size && y->Union_align.raw == align && y->Union_chunks == mini__calc_chunks(y->Union_fields, y->Union_size))
        &&& (RsAdtDef__is_enum(a) && !RsAdtDef__is_struct(a) && !RsAdtDef__is_union(a) ==> y == Ctxt__translate_enum(c, t, a, g, sp).1)
    })
{
    let (a, g) = (RsTy__kind(t)->Adt_0, RsTy__kind(t)->Adt_1);
    let l = Ctxt__rs_layout_of(c, t).layout; let v = RsAdtDef__non_enum_variant(a);
    Ctxt__translate_ty__def(c, t, sp); Ctxt__translate_ty_ok__def(c, t, sp);
    Ctxt__translate_non_enum_adt__def(c, t, a, g, sp); Ctxt__translate_non_enum_adt_ok__def(c, t, a, g, sp);
    if RsAdtDef__is_struct(a) || RsAdtDef__is_union(a) { mir_adt_fields(c, Some(RsLayout__fields(l)), v, g, sp); }
}
/// what a pointer type says about its pointee: the compiler's size and alignment, or how to work them out from the metadata
pub proof fn mir_pointee_layout(c: Ctxt, t: RsTy, sp: RsSpan)
    requires Ctxt__pointee_info_of_ok(c, t, sp)
    ensures ({
        let i = Ctxt__pointee_info_of(c, t, sp).1; let l = Ctxt__rs_layout_of(c, t).layout; let k = RsTy__kind(t);
        &&& (RsLayout__is_sized(l) ==> i.layout is Sized && i.layout->Sized_0.raw == RsSize__bytes(RsLayout__size(l)) && i.layout->Sized_1.raw == RsAlign__bytes(RsLayout__align(l).abi))
        &&& (!RsLayout__is_sized(l) && k is Slice ==> i.layout is Slice && ({
            let e = Ctxt__rs_layout_of(c, k->Slice_0).layout;
            i.layout->Slice_0.raw == RsSize__bytes(RsLayout__size(e)) && i.layout->Slice_1.raw == RsAlign__bytes(RsLayout__align(e).abi)
        }))
        &&& (!RsLayout__is_sized(l) && k is Str ==> i.layout is Slice && i.layout->Slice_0.raw == 1 && i.layout->Slice_1.raw == 1)
        &&& (!RsLayout__is_sized(l) && k is Dynamic ==> i.layout is TraitObject && i.layout->TraitObject_0 == Ctxt__get_trait_name(c, t).1)
    })
{
    reveal(Ctxt__pointee_info_of); reveal(Ctxt__pointee_info_of_ok);
}

// ---------------------------------------------------------------- sizes and alignments at run time
pub open spec fn rs_name(f: FnCtxt, i: RsInstance) -> RsSym { RsTyCtxt__item_name(f.cx.tcx, RsInstance__def_id(i)) }
/// goes on to the target
pub open spec fn to_target(f: FnCtxt, t: Terminator, target: Option<int>) -> bool { target is Some && f.bb_name_map.m.contains_key(target->0) && t == Terminator::Goto(f.bb_name_map.m[target->0]) }
/// assigns src to the destination, and goes on
pub open spec fn assigned(f: FnCtxt, r: TerminatorResult, dest: RsPlace, target: Option<int>) -> bool {
    r.stmts.s.len() == 1 && r.stmts.s[0] is Assign && tr_rplace(f, dest, r.stmts.s[0]->Assign_destination) && to_target(f, r.terminator, target)
}
/// the size, or the alignment, of what a pointer points to: of the type named, with the pointer's metadata
pub proof fn mir_size_of_val(f: FnCtxt, i: RsInstance, args: List<RsSpanned<RsOperand>>, dest: RsPlace, target: Option<int>, sp: RsSpan)
    requires FnCtxt__translate_rs_intrinsic_ok(f, i, args, dest, target, sp), rs_name(f, i) is size_of_val || rs_name(f, i) is align_of_val
    ensures ({
        let r = FnCtxt__translate_rs_intrinsic(f, i, args, dest, target, sp).1; let e = r.stmts.s[0]->Assign_source; let op = e->UnOp_operator;
        &&& assigned(f, r, dest, target) && e is UnOp
        &&& *e->operand is UnOp && (*e->operand)->UnOp_operator is GetMetadata && tr_rop(f, args.s[0].node, *(*e->operand)->operand)
        &&& (rs_name(f, i) is size_of_val ==> op is ComputeSize && tr_ty(f, RsGenericArgsRef__type_at(i.args, 0), op->ComputeSize_0))
        &&& (rs_name(f, i) is align_of_val ==> op is ComputeAlign && tr_ty(f, RsGenericArgsRef__type_at(i.args, 0), op->ComputeAlign_0))
    })
{
    reveal(FnCtxt__translate_rs_intrinsic); reveal(FnCtxt__translate_rs_intrinsic_ok);
    assert(same_fn(f, f));
    let (g1, d) = FnCtxt__translate_place(f, dest, sp);
    let (g2, p) = FnCtxt__translate_operand(g1, args.s[0].node, sp);
}
