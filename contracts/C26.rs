// C26: dynamic dispatch and the attributes of trait objects go through the vtable the program declared for the concrete type.

/// vtable pointer p stands for the declared vtable n
pub open spec fn stands_for(m: Machine, p: ThinPointer<Prov>, n: VTableName) -> bool { m.vtable_ptrs.m.contains_key(n) && m.vtable_ptrs.m[n] == p }
/// different vtables have different pointers (C06: allocations do not share their address)
pub open spec fn distinct(m: Machine) -> bool {
    m.vtable_ptrs.m.dom().finite() && forall|a: VTableName, b: VTableName| #[trigger] m.vtable_ptrs.m.contains_key(a) && #[trigger] m.vtable_ptrs.m.contains_key(b) && m.vtable_ptrs.m[a] == m.vtable_ptrs.m[b] ==> a == b
}
pub open spec fn vt(m: Machine, n: VTableName) -> VTable { m.prog.vtables.m[n] }
pub proof fn find_is<A>(s: Seq<A>, i: int, f: spec_fn(A) -> bool)
    requires 0 <= i
    ensures ({ let k = find_from(s, i, f); (k >= 0 ==> i <= k < s.len() && f(s[k])) && (k < 0 ==> forall|j: int| i <= j < s.len() ==> !f(#[trigger] s[j])) })
    decreases s.len() - i
{ if i < s.len() { find_is(s, i + 1, f); } }

/// what looking up a pointer in the table of vtables finds
pub proof fn lookup(m: Machine, p: ThinPointer<Prov>, f: spec_fn((VTableName, ThinPointer<Prov>)) -> bool)
    requires m.vtable_ptrs.m.dom().finite(), forall|x: (VTableName, ThinPointer<Prov>)| #[trigger] f(x) == (x.1 == p)
    ensures ({
        let r = List__find(Map__iter::<VTableName, ThinPointer<Prov>>(m.vtable_ptrs), f);
        &&& (r is Some ==> stands_for(m, p, (r->Some_0).0))
        &&& (r is None ==> forall|n: VTableName| !#[trigger] stands_for(m, p, n))
    })
{
    let l = Map__iter::<VTableName, ThinPointer<Prov>>(m.vtable_ptrs);
    let ks = Map__keys(m.vtable_ptrs);
    find_is(l.s, 0, f);
    let k = find_from(l.s, 0, f);
    if k >= 0 {
        assert(l.s[k] == (ks.s[k], m.vtable_ptrs.m[ks.s[k]]));
        assert(ks.s.contains(ks.s[k]));
    } else {
        assert forall|n: VTableName| !#[trigger] stands_for(m, p, n) by {
            if stands_for(m, p, n) {
                assert(ks.s.contains(n));
                let j = choose|j: int| 0 <= j < ks.s.len() && ks.s[j] == n;
                assert(l.s[j] == (n, m.vtable_ptrs.m[n]));
                assert(f(l.s[j]));
            }
        }
    }
}
/// a pointer that stands for a vtable resolves to exactly that vtable's declaration
pub proof fn from_ptr(m: Machine, p: ThinPointer<Prov>, n: VTableName)
    requires distinct(m), stands_for(m, p, n)
    ensures Machine__vtable_from_ptr(m, p) == Ok::<VTable, TerminationInfo>(vt(m, n)), Machine__vtable_lookup(m)(p) == vt(m, n),
{
    let f = |x: (VTableName, ThinPointer<Prov>)| { let (_, vtable_ptr) = x; (vtable_ptr == p) };
    lookup(m, p, f);
    let g = |y: (VTableName, ThinPointer<Prov>)| { let (_, vtable_ptr) = y; (vtable_ptr == p) };
    lookup(m, p, g);
}
/// and one that stands for none is undefined behaviour
pub proof fn from_ptr_invalid(m: Machine, p: ThinPointer<Prov>)
    requires m.vtable_ptrs.m.dom().finite(), forall|n: VTableName| !#[trigger] stands_for(m, p, n)
    ensures is_ub(Machine__vtable_from_ptr(m, p))
{
    let f = |y: (VTableName, ThinPointer<Prov>)| { let (_, vtable_ptr) = y; (vtable_ptr == p) };
    lookup(m, p, f);
}

// ---------------------------------------------------------------- dispatch
/// looking up a method yields a pointer to exactly the function the concrete type's vtable names for it
pub proof fn dispatch(m: Machine, p: Pointer<Prov>, pt: PtrType, n: VTableName, method: TraitMethodName)
    requires distinct(m), stands_for(m, p.thin_pointer, n)
    ensures Machine__eval_un_op(m, UnOp::VTableMethodLookup(method), (Value::Ptr(p), Type::Ptr(pt)))
        == Ok::<(Value, Type), TerminationInfo>((Value::Ptr(Pointer { thin_pointer: m.fn_ptrs.m[vt(m, n).methods.m[method]], metadata: None }), Type::Ptr(PtrType::FnPtr))),
{ from_ptr(m, p.thin_pointer, n); }
/// the receiver handed to it and the vtable consulted are the two halves of the wide pointer
pub proof fn halves(m: Machine, d: ThinPointer<Prov>, v: ThinPointer<Prov>, t: TraitName, pt: PtrType)
    requires PtrType__meta_kind(pt) == PointerMetaKind::VTablePointer(t)
    ensures
        Machine__eval_un_op(m, UnOp::GetThinPointer, (Value::Ptr(Pointer { thin_pointer: d, metadata: Some(PointerMeta::VTablePointer(v)) }), Type::Ptr(pt)))
            == Ok::<(Value, Type), TerminationInfo>((Value::Ptr(Pointer { thin_pointer: d, metadata: None }), Type::Ptr(PtrType::Raw { meta_kind: PointerMetaKind::None }))),
        Machine__eval_un_op(m, UnOp::GetMetadata, (Value::Ptr(Pointer { thin_pointer: d, metadata: Some(PointerMeta::VTablePointer(v)) }), Type::Ptr(pt)))
            == Ok::<(Value, Type), TerminationInfo>((Value::Ptr(Pointer { thin_pointer: v, metadata: None }), Type::Ptr(PtrType::VTablePtr(t)))),
{ }
/// putting a receiver and a vtable of the trait together yields a wide pointer with exactly these
pub proof fn unsize(m: Machine, d: ThinPointer<Prov>, v: ThinPointer<Prov>, t: TraitName, n: VTableName, ty: Type)
    requires
        distinct(m), stands_for(m, v, n), vt(m, n).trait_name == t,
        int__in_bounds(d.addr, Signedness::Unsigned, T__PTR_SIZE()), int__in_bounds(v.addr, Signedness::Unsigned, T__PTR_SIZE()),
    ensures ({
        let pt = PtrType::Raw { meta_kind: PointerMetaKind::VTablePointer(t) };
        Machine__eval_bin_op(m, BinOp::ConstructWidePointer(pt), (Value::Ptr(Pointer { thin_pointer: d, metadata: None }), ty), (Value::Ptr(Pointer { thin_pointer: v, metadata: None }), Type::Ptr(PtrType::VTablePtr(t))))
            == Ok::<(Value, Type), TerminationInfo>((Value::Ptr(Pointer { thin_pointer: d, metadata: Some(PointerMeta::VTablePointer(v)) }), Type::Ptr(pt)))
    })
{
    let pt = PtrType::Raw { meta_kind: PointerMetaKind::VTablePointer(t) };
    let w = Pointer { thin_pointer: d, metadata: Some(PointerMeta::VTablePointer(v)) };
    Machine__check_value__def(m, Value::Ptr(w), Type::Ptr(pt));
    Machine__check_ptr__def(m, w, pt);
    Machine__check_ptr_metadata__def(m, w.metadata, PointerMetaKind::VTablePointer(t));
    Machine__check_ptr_metadata__def(m, None, PointerMetaKind::None);
    Machine__check_ptr__def(m, Pointer { thin_pointer: v, metadata: None }, PtrType::VTablePtr(t));
    from_ptr(m, v, n);
}
/// a vtable of another trait, or a pointer that is no vtable, is undefined behaviour as metadata
pub proof fn wrong_vtable(m: Machine, d: ThinPointer<Prov>, v: ThinPointer<Prov>, t: TraitName)
    requires
        m.vtable_ptrs.m.dom().finite(),
        (distinct(m) && exists|n: VTableName| #[trigger] stands_for(m, v, n) && vt(m, n).trait_name != t) || (forall|n: VTableName| !#[trigger] stands_for(m, v, n)),
    ensures is_ub(Machine__check_value(m, Value::Ptr(Pointer { thin_pointer: d, metadata: Some(PointerMeta::VTablePointer(v)) }), Type::Ptr(PtrType::Raw { meta_kind: PointerMetaKind::VTablePointer(t) })))
{
    let pt = PtrType::Raw { meta_kind: PointerMetaKind::VTablePointer(t) };
    let w = Pointer { thin_pointer: d, metadata: Some(PointerMeta::VTablePointer(v)) };
    Machine__check_value__def(m, Value::Ptr(w), Type::Ptr(pt));
    Machine__check_ptr__def(m, w, pt);
    Machine__check_ptr_metadata__def(m, w.metadata, PointerMetaKind::VTablePointer(t));
    Machine__check_ptr_metadata__def(m, None, PointerMetaKind::None);
    Machine__check_ptr__def(m, Pointer { thin_pointer: v, metadata: None }, PtrType::VTablePtr(t));
    if forall|n: VTableName| !#[trigger] stands_for(m, v, n) { from_ptr_invalid(m, v); } else {
        let n = choose|n: VTableName| #[trigger] stands_for(m, v, n) && vt(m, n).trait_name != t;
        from_ptr(m, v, n);
    }
}

// ---------------------------------------------------------------- attributes of a trait object
/// size and alignment of a trait object are those its vtable declares
pub proof fn attributes(m: Machine, t: TraitName, v: ThinPointer<Prov>, n: VTableName)
    requires distinct(m), stands_for(m, v, n)
    ensures
        Machine__compute_size(m, LayoutStrategy::TraitObject(t), Some(PointerMeta::VTablePointer(v))) == vt(m, n).size,
        Machine__compute_align(m, LayoutStrategy::TraitObject(t), Some(PointerMeta::VTablePointer(v))) == vt(m, n).align,
{ from_ptr(m, v, n); }
/// inside a struct, the trait object's size and alignment are combined with the fields before it
pub proof fn attributes_tail(m: Machine, h: TupleHeadLayout, t: TraitName, v: ThinPointer<Prov>, n: VTableName)
    requires distinct(m), stands_for(m, v, n)
    ensures ({
        let l = LayoutStrategy::Tuple { head: h, tail: Box::new(LayoutStrategy::TraitObject(t)) };
        let w = Some(PointerMeta::VTablePointer(v));
        (Machine__compute_size(m, l, w), Machine__compute_align(m, l, w)) == TupleHeadLayout__full_size_and_align(h, vt(m, n).size, vt(m, n).align)
    })
{ from_ptr(m, v, n); reveal_with_fuel(LayoutStrategy__compute_size_and_align, 3); }

// ---------------------------------------------------------------- declaring vtables
/// a vtable is declared under a fresh name with exactly the given trait, size, alignment, cells and methods, and leaves the others alone
pub proof fn declared(p: ProgramBuilder, t: TraitName, size: Size, align: Align, cells: List<(Size, Size)>)
    ensures ({
        let (q, b) = ProgramBuilder__declare_vtable(p, t, size, align, cells);
        &&& q == (ProgramBuilder { next_vtable: p.next_vtable + 1, ..p })
        &&& VTableBuilder__name(b) == VTableName(Name__from_internal(p.next_vtable))
        &&& b.trait_name == t && b.size == size && b.align == align && b.cells == cells && b.methods.m =~= vstd::map::Map::empty()
    })
{ }
pub proof fn method_added(b: VTableBuilder, i: TraitMethodName, f: FnName)
    ensures VTableBuilder__add_method(b, i, f) == (VTableBuilder { methods: Map { m: b.methods.m.insert(i, f) }, ..b })
{ }
pub proof fn finished(p: ProgramBuilder, b: VTableBuilder)
    requires !p.vtables.m.contains_key(b.name)
    ensures ({
        let (q, n) = ProgramBuilder__finish_vtable(p, b);
        &&& n == b.name
        &&& q == (ProgramBuilder { vtables: Map { m: p.vtables.m.insert(n, VTable { trait_name: b.trait_name, size: b.size, align: b.align, cells: b.cells, methods: b.methods }) }, ..p })
    })
{ }

// ---------------------------------------------------------------- the MIR translation of traits, vtables and unsizing
pub open spec fn meth(i: int) -> TraitMethodName { TraitMethodName(Name { id: i }) }
pub open spec fn drop_meth() -> TraitMethodName { meth(RsCOMMON_VTABLE_ENTRIES_DROPINPLACE()) }
/// the function an instance becomes
pub open spec fn fn_of(tcx: RsTyCtxt, i: RsInstance, n: FnName) -> bool { exists|st: Ctxt| st.tcx == tcx && n == (#[trigger] Ctxt__get_fn_name(st, i)).1 }
pub proof fn kept_entry(s: Seq<(int, RsVtblEntry)>, p: spec_fn((int, RsVtblEntry)) -> bool, x: (int, RsVtblEntry))
    requires s.filter(p).contains(x)
    ensures s.contains(x)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let r = s.drop_last().filter(p);
        if r.contains(x) {
            kept_entry(s.drop_last(), p, x);
            let j = choose|j: int| 0 <= j < s.len() - 1 && s.drop_last()[j] == x;
            assert(s[j] == x);
        } else { assert(s.last() == x); assert(s[s.len() - 1] == x); }
    }
}
pub proof fn keeps_entry(s: Seq<(int, RsVtblEntry)>, p: spec_fn((int, RsVtblEntry)) -> bool, i: int)
    requires 0 <= i < s.len(), p(s[i])
    ensures s.filter(p).contains(s[i])
    decreases s.len()
{
    reveal(Seq::filter);
    let r = s.drop_last().filter(p);
    if i < s.len() - 1 {
        keeps_entry(s.drop_last(), p, i);
        assert(s.drop_last()[i] == s[i]);
        let j = choose|j: int| 0 <= j < r.len() && r[j] == s[i];
        assert(s.filter(p)[j] == s[i]);
    } else { assert(s.filter(p)[r.len() as int] == s[i]); }
}
pub open spec fn is_meth(l: Seq<RsVtblEntry>, i: int) -> bool { l[i] is Method }
pub proof fn method_names(l: List<RsVtblEntry>, p: spec_fn((int, RsVtblEntry)) -> bool, nf: spec_fn((int, RsVtblEntry)) -> TraitMethodName)
    requires forall|x: (int, RsVtblEntry)| #[trigger] p(x) == (x.1 is Method), forall|x: (int, RsVtblEntry)| #[trigger] nf(x) == meth(x.0)
    ensures forall|t: TraitMethodName| #[trigger] Set__from_list(List__map(List__filter(List__enumerate::<RsVtblEntry>(List__iter::<RsVtblEntry>(l)), p), nf)).s.contains(t) <==> exists|i: int| 0 <= i < l.s.len() && #[trigger] is_meth(l.s, i) && t == meth(i)
{
    let e = List__enumerate::<RsVtblEntry>(List__iter::<RsVtblEntry>(l)).s;
    let k = e.filter(p);
    let m = List__map(List__filter(List__enumerate::<RsVtblEntry>(List__iter::<RsVtblEntry>(l)), p), nf).s;
    e.filter_lemma(p);
    assert forall|t: TraitMethodName| #[trigger] m.to_set().contains(t) <==> exists|i: int| 0 <= i < l.s.len() && #[trigger] is_meth(l.s, i) && t == meth(i) by {
        if m.to_set().contains(t) {
            let j = choose|j: int| 0 <= j < m.len() && m[j] == t;
            assert(t == nf(k[j]));
            assert(k.contains(k[j]));
            kept_entry(e, p, k[j]);
            let i = choose|i: int| 0 <= i < e.len() && e[i] == k[j];
            assert(p(k[j]));
            assert(is_meth(l.s, i));
        }
        if exists|i: int| 0 <= i < l.s.len() && #[trigger] is_meth(l.s, i) && t == meth(i) {
            let i = choose|i: int| 0 <= i < l.s.len() && #[trigger] is_meth(l.s, i) && t == meth(i);
            assert(e[i] == (i, l.s[i]));
            assert(p(e[i]));
            keeps_entry(e, p, i);
            let j = choose|j: int| 0 <= j < k.len() && k[j] == e[i];
            assert(m[j] == nf(k[j]));
            assert(m.contains(m[j]));
        }
    }
}
pub proof fn kept_from(s: Seq<(int, RsVtblEntry)>, f: spec_fn((int, RsVtblEntry)) -> List<TraitMethodName>, t: TraitMethodName)
    ensures flat_map_from(s, f).contains(t) <==> exists|i: int| 0 <= i < s.len() && f(#[trigger] s[i]).s.contains(t)
    decreases s.len()
{
    let m = flat_map_from(s, f);
    if s.len() > 0 {
        let d = s.drop_last(); let a = flat_map_from(d, f); let b = f(s.last()).s;
        kept_from(d, f, t);
        assert(m == a + b);
        if m.contains(t) {
            let j = choose|j: int| 0 <= j < m.len() && m[j] == t;
            if j < a.len() { assert(a.contains(a[j])); let i = choose|i: int| 0 <= i < d.len() && f(#[trigger] d[i]).s.contains(t); assert(s[i] == d[i]); }
            else { assert(b[j - a.len()] == t); assert(s[s.len() - 1] == s.last()); }
        }
        if exists|i: int| 0 <= i < s.len() && f(#[trigger] s[i]).s.contains(t) {
            let i = choose|i: int| 0 <= i < s.len() && f(#[trigger] s[i]).s.contains(t);
            if i < d.len() { assert(d[i] == s[i]); let j = choose|j: int| 0 <= j < a.len() && a[j] == t; assert(m[j] == t); }
            else { let j = choose|j: int| 0 <= j < b.len() && b[j] == t; assert(m[a.len() + j] == t); }
        }
    }
}
/// the same when the entries are filtered and named in one go
pub proof fn method_names_at_once(l: List<RsVtblEntry>, g: spec_fn((int, RsVtblEntry)) -> Option<TraitMethodName>)
    requires forall|x: (int, RsVtblEntry)| #[trigger] g(x) == if x.1 is Method { Some(meth(x.0)) } else { None::<TraitMethodName> }
    ensures forall|t: TraitMethodName| (#[trigger] Set__from_list(List__filter_map(List__enumerate::<RsVtblEntry>(List__iter::<RsVtblEntry>(l)), g))).s.contains(t) <==> exists|i: int| 0 <= i < l.s.len() && #[trigger] is_meth(l.s, i) && t == meth(i)
{
    let e = List__enumerate::<RsVtblEntry>(List__iter::<RsVtblEntry>(l)).s;
    assert forall|f: spec_fn((int, RsVtblEntry)) -> List<TraitMethodName>, t: TraitMethodName|
        (forall|x: (int, RsVtblEntry)| #[trigger] f(x) == match g(x) { Some(b) => list_once(b), None => List__new::<TraitMethodName>() }) implies
        ((#[trigger] flat_map_from(e, f).to_set().contains(t)) <==> exists|i: int| 0 <= i < l.s.len() && #[trigger] is_meth(l.s, i) && t == meth(i)) by {
        let m = flat_map_from(e, f);
        kept_from(e, f, t);
        assert(m.to_set().contains(t) <==> m.contains(t));
        if m.contains(t) {
            let i = choose|i: int| 0 <= i < e.len() && f(#[trigger] e[i]).s.contains(t);
            assert(e[i] == (i, l.s[i]));
            assert(is_meth(l.s, i));
        }
        if exists|i: int| 0 <= i < l.s.len() && #[trigger] is_meth(l.s, i) && t == meth(i) {
            let i = choose|i: int| 0 <= i < l.s.len() && #[trigger] is_meth(l.s, i) && t == meth(i);
            assert(e[i] == (i, l.s[i]));
            assert(f(e[i]).s[0] == t);
        }
    }
}
/// the entries of the vtable of a trait, for a self type
pub open spec fn entries_for(tcx: RsTyCtxt, p: RsPolyExistentialTraitRef, ty: RsTy) -> List<RsVtblEntry> {
    RsTyCtxt__vtable_entries(tcx, RsTyCtxt__erase_and_anonymize_regions(tcx, RsTyCtxt__instantiate_bound_regions_with_erased(tcx, RsPolyExistentialTraitRef__with_self_ty(p, tcx, ty))))
}
/// a trait has one method per callable entry of its vtable, inherited ones included, and the destructor
pub proof fn mir_trait(c: Ctxt, d: RsTy)
    requires Ctxt__generate_trait_ok(c, d)
    ensures RsTy__kind(d) is Dynamic, ({
        let s = Ctxt__generate_trait(c, d).1.s;
        match RsList__principal(RsTy__kind(d)->Dynamic_0) {
            Some(p) => { let l = entries_for(c.tcx, p, d).s; forall|t: TraitMethodName| #[trigger] s.contains(t) <==> t == drop_meth() || exists|i: int| 0 <= i < l.len() && #[trigger] is_meth(l, i) && t == meth(i) }
            None => forall|t: TraitMethodName| #[trigger] s.contains(t) <==> t == drop_meth(),
        }
    })
{
    reveal(Ctxt__generate_trait); reveal(Ctxt__generate_trait_ok);
    match RsList__principal(RsTy__kind(d)->Dynamic_0) {
        Some(p) => {
            let l = entries_for(c.tcx, p, d);
            assert forall|g: spec_fn((int, RsVtblEntry)) -> Option<TraitMethodName>| (forall|x: (int, RsVtblEntry)| #[trigger] g(x) == if x.1 is Method { Some(meth(x.0)) } else { None::<TraitMethodName> }) implies
                forall|t: TraitMethodName| (#[trigger] Set__from_list(List__filter_map(List__enumerate::<RsVtblEntry>(List__iter::<RsVtblEntry>(l)), g))).s.contains(t) <==> exists|i: int| 0 <= i < l.s.len() && #[trigger] is_meth(l.s, i) && t == meth(i) by { method_names_at_once(l, g); }
            assert forall|p: spec_fn((int, RsVtblEntry)) -> bool, nf: spec_fn((int, RsVtblEntry)) -> TraitMethodName|
                (forall|x: (int, RsVtblEntry)| #[trigger] p(x) == (x.1 is Method)) && (forall|x: (int, RsVtblEntry)| #[trigger] nf(x) == meth(x.0)) implies
                forall|t: TraitMethodName| (#[trigger] Set__from_list(List__map(List__filter(List__enumerate::<RsVtblEntry>(List__iter::<RsVtblEntry>(l)), p), nf))).s.contains(t) <==> exists|i: int| 0 <= i < l.s.len() && #[trigger] is_meth(l.s, i) && t == meth(i) by { method_names(l, p, nf); }
        }
        None => {
            let q = List__push::<TraitMethodName>(List__new::<TraitMethodName>(), drop_meth()).s;
            assert(q[0] == drop_meth());
            assert forall|t: TraitMethodName| #[trigger] q.to_set().contains(t) <==> t == drop_meth() by { if t == drop_meth() { assert(q.contains(q[0])); } }
        }
    }
}
/// what the entries of a vtable become: every callable one the function of its instance, under its own index; the destructor the drop glue of the type
pub open spec fn entry_done(tcx: RsTyCtxt, ty: RsTy, l: Seq<RsVtblEntry>, i: int, m: vstd::map::Map<TraitMethodName, FnName>) -> bool {
    match l[i] {
        RsVtblEntry::Method(f) => m.contains_key(meth(i)) && fn_of(tcx, f, m[meth(i)]),
        RsVtblEntry::MetadataDropInPlace => m.contains_key(drop_meth()) && fn_of(tcx, RsInstance__resolve_drop_in_place(tcx, ty), m[drop_meth()]),
        _ => true,
    }
}
/// the destructor has its own place in every vtable
pub open spec fn drop_first(l: Seq<RsVtblEntry>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i] is MetadataDropInPlace <==> i == RsCOMMON_VTABLE_ENTRIES_DROPINPLACE()) }
pub proof fn mir_entries(tcx: RsTyCtxt, l: List<RsVtblEntry>, i: int, ty: RsTy, c: Ctxt, acc: List<(TraitMethodName, FnName)>)
    requires Ctxt__generate_vtable__loop1_ok(List__enumerate::<RsVtblEntry>(List__iter::<RsVtblEntry>(l)), i, ty, c, acc), 0 <= i <= l.s.len(), c.tcx == tcx, drop_first(l.s),
        forall|j: int| 0 <= j < i ==> #[trigger] entry_done(tcx, ty, l.s, j, map_from(acc.s)),
        forall|t: TraitMethodName| #[trigger] map_from(acc.s).contains_key(t) ==> t == drop_meth() || exists|j: int| 0 <= j < l.s.len() && #[trigger] is_meth(l.s, j) && t == meth(j),
    ensures ({
        let (g, out) = Ctxt__generate_vtable__loop1(List__enumerate::<RsVtblEntry>(List__iter::<RsVtblEntry>(l)), i, ty, c, acc);
        &&& g.tcx == tcx && forall|j: int| 0 <= j < l.s.len() ==> #[trigger] entry_done(tcx, ty, l.s, j, map_from(out.s))
        &&& forall|t: TraitMethodName| #[trigger] map_from(out.s).contains_key(t) ==> t == drop_meth() || exists|j: int| 0 <= j < l.s.len() && #[trigger] is_meth(l.s, j) && t == meth(j)
    })
    decreases l.s.len() - i
{
    reveal_with_fuel(Ctxt__generate_vtable__loop1, 2); reveal_with_fuel(Ctxt__generate_vtable__loop1_ok, 2);
    let it = List__enumerate::<RsVtblEntry>(List__iter::<RsVtblEntry>(l));
    if i < l.s.len() {
        assert(it.s[i] == (i, l.s[i]));
        let (g, acc2) = match l.s[i] {
            RsVtblEntry::Method(f) => (Ctxt__get_fn_name(c, f).0, List { s: acc.s.push((meth(i), Ctxt__get_fn_name(c, f).1)) }),
            RsVtblEntry::MetadataDropInPlace => { let f = RsInstance__resolve_drop_in_place(c.tcx, ty); (Ctxt__get_fn_name(c, f).0, List { s: acc.s.push((drop_meth(), Ctxt__get_fn_name(c, f).1)) }) }
            _ => (c, acc),
        };
        if acc2.s.len() > acc.s.len() { assert(acc2.s.drop_last() =~= acc.s); assert(map_from(acc2.s) == map_from(acc.s).insert(acc2.s.last().0, acc2.s.last().1)); }
        assert(entry_done(tcx, ty, l.s, i, map_from(acc2.s)));
        assert forall|j: int| 0 <= j < i + 1 implies #[trigger] entry_done(tcx, ty, l.s, j, map_from(acc2.s)) by { if j < i { assert(entry_done(tcx, ty, l.s, j, map_from(acc.s))); assert(l.s[j] is MetadataDropInPlace <==> j == RsCOMMON_VTABLE_ENTRIES_DROPINPLACE()); assert(l.s[i] is MetadataDropInPlace <==> i == RsCOMMON_VTABLE_ENTRIES_DROPINPLACE()); } }
        assert forall|t: TraitMethodName| #[trigger] map_from(acc2.s).contains_key(t) implies t == drop_meth() || exists|j: int| 0 <= j < l.s.len() && #[trigger] is_meth(l.s, j) && t == meth(j) by {
            if !map_from(acc.s).contains_key(t) && t != drop_meth() { assert(is_meth(l.s, i)); }
        }
        assert(Ctxt__generate_vtable__loop1(it, i, ty, c, acc) == Ctxt__generate_vtable__loop1(it, i + 1, ty, g, acc2));
        mir_entries(tcx, l, i + 1, ty, g, acc2);
    }
}
/// the same cells, in the order of their offsets
pub open spec fn sorted_cells(s: Seq<(Size, Size)>, out: Seq<(Size, Size)>) -> bool {
    out.to_multiset() == s.to_multiset() && out.len() == s.len() && forall|x: int, y: int| 0 <= x <= y < out.len() ==> (#[trigger] out[x]).0.raw <= (#[trigger] out[y]).0.raw
}
/// a vtable has the size and alignment of its type, its cells in the order of their offsets, and exactly the methods of the trait, each the function of this type
pub proof fn mir_vtable(c: Ctxt, ty: RsTy, d: RsTy, sp: RsSpan)
    requires Ctxt__generate_vtable_ok(c, ty, d, sp), match RsList__principal(RsTy__kind(d)->Dynamic_0) { Some(p) => drop_first(entries_for(c.tcx, p, ty).s), None => true }
    ensures ({
        let v = Ctxt__generate_vtable(c, ty, d, sp).1;
        &&& v.size == mini__translate_size(Ctxt__rs_layout_of(c, ty).size) && v.align == mini__translate_align(Ctxt__rs_layout_of(c, ty).align.abi)
        &&& exists|st: Ctxt| st.tcx == c.tcx && sorted_cells((#[trigger] Ctxt__cells_in_sized_ty(st, ty, sp)).1.s, v.cells.s)
        &&& exists|st: Ctxt| st.tcx == c.tcx && v.trait_name == (#[trigger] Ctxt__get_trait_name(st, d)).1
        &&& match RsList__principal(RsTy__kind(d)->Dynamic_0) {
            Some(p) => {
                let l = entries_for(c.tcx, p, ty).s;
                &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] entry_done(c.tcx, ty, l, i, v.methods.m)
                &&& forall|t: TraitMethodName| #[trigger] v.methods.m.contains_key(t) ==> t == drop_meth() || exists|i: int| 0 <= i < l.len() && #[trigger] is_meth(l, i) && t == meth(i)
            }
            None => v.methods.m.dom() =~= set![drop_meth()] && fn_of(c.tcx, RsInstance__resolve_drop_in_place(c.tcx, ty), v.methods.m[drop_meth()]),
        }
    })
{
    reveal(Ctxt__generate_vtable); reveal(Ctxt__generate_vtable_ok);
    broadcast use axiom_sort_perm, axiom_sort_sorted_size;
    let c1 = c;
    if Ctxt__cells_in_sized_ty_ok(c, ty, sp) { assert(Ctxt__cells_in_sized_ty(c, ty, sp).0 == c); }
    match RsList__principal(RsTy__kind(d)->Dynamic_0) {
        Some(p) => {
            assert(map_from(List__new::<(TraitMethodName, FnName)>().s) == vstd::map::Map::<TraitMethodName, FnName>::empty());
            mir_entries(c.tcx, entries_for(c.tcx, p, ty), 0, ty, c1, List__new::<(TraitMethodName, FnName)>());
            let (g, out) = Ctxt__generate_vtable__loop1(List__enumerate::<RsVtblEntry>(List__iter::<RsVtblEntry>(entries_for(c.tcx, p, ty))), 0, ty, c1, List__new::<(TraitMethodName, FnName)>());
            let v = Ctxt__generate_vtable(c, ty, d, sp).1;
            assert(v.methods.m == map_from(out.s));
            let n = Ctxt__get_trait_name(g, d);
            assert(v.trait_name == n.1 && g.tcx == c.tcx);
        }
        None => { assert(fn_of(c.tcx, RsInstance__resolve_drop_in_place(c.tcx, ty), Ctxt__get_fn_name(c1, RsInstance__resolve_drop_in_place(c.tcx, ty)).1));
            let (g, x) = Ctxt__get_fn_name(c1, RsInstance__resolve_drop_in_place(c.tcx, ty));
            let v = Ctxt__generate_vtable(c, ty, d, sp).1;
            assert(v.methods.m == vstd::map::Map::<TraitMethodName, FnName>::empty().insert(drop_meth(), x));
            assert(v.methods.m.dom() =~= set![drop_meth()]);
            let n = Ctxt__get_trait_name(g, d);
            assert(v.trait_name == n.1 && g.tcx == c.tcx);
        }
    }
}
/// there is one vtable per concrete type and trait: the one made the first time is used from then on, and another pair never gets its name
pub proof fn mir_get_vtable(c: Ctxt, ty: RsTy, d: RsTy, sp: RsSpan)
    requires Ctxt__get_vtable_ok(c, ty, d, sp), forall|n: VTableName| #[trigger] c.vtables.m.contains_key(n) ==> n.0.id < Map__len(c.vtable_map)
    ensures ({
        let (g, n) = Ctxt__get_vtable(c, ty, d, sp);
        let k = (ty, RsTy__kind(d)->Dynamic_0);
        &&& RsTy__kind(d) is Dynamic && g.vtables.m.contains_key(n)
        &&& c.vtable_map.m.contains_key(k) ==> g == c && n == c.vtable_map.m[k]
        &&& !c.vtable_map.m.contains_key(k) ==> !c.vtables.m.contains_key(n) && g.vtable_map.m == c.vtable_map.m.insert(k, n) && g.vtables.m == c.vtables.m.insert(n, Ctxt__generate_vtable(c, ty, d, sp).1)
    })
{ reveal(Ctxt__get_vtable); reveal(Ctxt__get_vtable_ok); }
/// there is one name per trait
pub proof fn mir_get_trait(c: Ctxt, d: RsTy)
    requires Ctxt__get_trait_name_ok(c, d), forall|n: TraitName| #[trigger] c.traits.m.contains_key(n) ==> n.0.id < Map__len(c.trait_map)
    ensures ({
        let (g, n) = Ctxt__get_trait_name(c, d);
        let k = RsTy__kind(d)->Dynamic_0;
        &&& RsTy__kind(d) is Dynamic && g.traits.m.contains_key(n)
        &&& c.trait_map.m.contains_key(k) ==> g == c && n == c.trait_map.m[k]
        &&& !c.trait_map.m.contains_key(k) ==> !c.traits.m.contains_key(n) && g.trait_map.m == c.trait_map.m.insert(k, n) && g.traits.m == c.traits.m.insert(n, Ctxt__generate_trait(c, d).1)
    })
{ reveal(Ctxt__get_trait_name); reveal(Ctxt__get_trait_name_ok); }
/// a pointer to a concrete type made a pointer to a trait object keeps the pointer and gets the vtable of exactly that type for exactly that trait
pub proof fn mir_unsize_dyn(f: FnCtxt, x: SmOperand, t: SmTy, sp: RsSpan)
    requires FnCtxt__translate_rvalue_smir_ok(f, SmRvalue::Cast(SmCastKind::PointerCoercion(SmPointerCoercion::Unsize), x, t), sp),
        RsTy__kind(RsTy__builtin_deref(SmTy__smir_internal(t), true)->0) is Dynamic, !(RsTy__kind(RsTy__builtin_deref(SmTy__smir_internal(SmOperand__ty(x, f.locals_smir)->0), true)->0) is Dynamic)
    ensures ({
        let e = FnCtxt__translate_rvalue_smir(f, SmRvalue::Cast(SmCastKind::PointerCoercion(SmPointerCoercion::Unsize), x, t), sp).1;
        let from = RsTy__builtin_deref(SmTy__smir_internal(SmOperand__ty(x, f.locals_smir)->0), true)->0;
        let to = RsTy__builtin_deref(SmTy__smir_internal(t), true)->0;
        &&& e is BinOp && e->BinOp_operator is ConstructWidePointer && tr_sty(f, t, Type::Ptr(e->BinOp_operator->ConstructWidePointer_0)) && tr_op(f, x, *e->left)
        &&& exists|c: Ctxt, d: Ctxt| c.tcx == f.cx.tcx && d.tcx == f.cx.tcx && *e->right == ValueExpr::Constant(Constant::VTablePointer((#[trigger] Ctxt__get_vtable(c, from, to, sp)).1), Type::Ptr(PtrType::VTablePtr((#[trigger] Ctxt__get_trait_name(d, to)).1)))
    })
{
    reveal(FnCtxt__translate_rvalue_smir); reveal(FnCtxt__translate_rvalue_smir_ok);
    let from = RsTy__builtin_deref(SmTy__smir_internal(SmOperand__ty(x, f.locals_smir)->0), true)->0;
    let to = RsTy__builtin_deref(SmTy__smir_internal(t), true)->0;
    let y = Ctxt__translate_ty_smir(f.cx, t, sp);
    assert(tr_sty(f, t, y.1));
    let a = FnCtxt__translate_operand_smir(FnCtxt { cx: y.0, ..f }, x, sp);
    assert(tr_op(f, x, a.1));
    let v = Ctxt__get_vtable(a.0.cx, from, to, sp);
    let n = Ctxt__get_trait_name(v.0, to);
}
