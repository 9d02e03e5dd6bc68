// C07: an access succeeds exactly when it is aligned, in bounds of one live allocation named by the pointer; it reads and writes exactly those bytes.

pub open spec fn aligned(p: int, al: Align) -> bool { p % al.raw == 0 }
/// the bytes [p, p+n) of the allocation p points into
pub open spec fn bytes_at<P, A>(m: BasicMemory<P, A>, p: ThinPointer<(AllocId, P)>, n: int) -> Seq<AbstractByte<(AllocId, P)>> {
    if n == 0 { Seq::empty() } else { let a = m.allocations.s[aid(p)]; a.data.s.subrange(p.addr - a.addr, p.addr - a.addr + n) }
}
/// n is m with bytes b written at p; nothing else but the extra state of that allocation changed
pub open spec fn written<P, A>(m: BasicMemory<P, A>, n: BasicMemory<P, A>, p: ThinPointer<(AllocId, P)>, b: Seq<AbstractByte<(AllocId, P)>>) -> bool {
    if b.len() == 0 { n == m } else {
        let x = m.allocations.s[aid(p)]; let y = n.allocations.s[aid(p)];
        &&& frame_except(m, n, aid(p))
        &&& same_shape(x, y)
        &&& forall|j: int| 0 <= j < x.data.s.len() ==> #[trigger] y.data.s[j] == (if p.addr - x.addr <= j < p.addr - x.addr + b.len() { b[j - (p.addr - x.addr)] } else { x.data.s[j] })
    }
}
/// only the extra state of the allocation of p may differ
pub open spec fn only_extra<P, A>(m: BasicMemory<P, A>, n: BasicMemory<P, A>, p: ThinPointer<(AllocId, P)>) -> bool {
    n == m || (p.provenance is Some && frame_except(m, n, aid(p)) && same_shape(m.allocations.s[aid(p)], n.allocations.s[aid(p)]) && m.allocations.s[aid(p)].data == n.allocations.s[aid(p)].data)
}
/// the bounds check
pub proof fn check_ptr<P, A>(m: BasicMemory<P, A>, p: ThinPointer<(AllocId, P)>, len: Size)
    requires prov_ok(m, p), len.raw >= 0
    ensures BasicMemory__check_ptr_ok(m, p, len), ({
        let r = BasicMemory__check_ptr(m, p, len);
        &&& (r is Ok <==> deref_ok(m, p, len.raw))
        &&& (r is Err ==> is_ub(r))
        &&& (r is Ok && len.raw == 0 ==> r->Ok_0 is None)
        &&& (r is Ok && len.raw > 0 ==> r->Ok_0 is Some && (r->Ok_0->0).0 == AllocId(aid(p)) && (r->Ok_0->0).1 == (p.provenance->0).1 && (r->Ok_0->0).2.raw == p.addr - m.allocations.s[aid(p)].addr)
    })
{ }
pub proof fn store<P, A>(m: BasicMemory<P, A>, p: ThinPointer<(AllocId, P)>, b: List<AbstractByte<(AllocId, P)>>, al: Align, f: spec_fn(A, P, Size) -> (A, Result<(), TerminationInfo>), f_ok: spec_fn(A, P, Size) -> bool)
    requires prov_ok(m, p), al.raw > 0, forall|a: A, q: P, o: Size| #[trigger] f_ok(a, q, o)
    ensures BasicMemory__store_ok(m, p, b, al, f, f_ok), ({
        let (n, r) = BasicMemory__store(m, p, b, al, f);
        let a = m.allocations.s[aid(p)];
        let e = f(a.extra, (p.provenance->0).1, Size { raw: p.addr - a.addr });
        let valid = aligned(p.addr, al) && deref_ok(m, p, b.s.len() as int);
        &&& (!valid ==> is_ub(r))
        &&& (valid && b.s.len() > 0 && e.1 is Err ==> r is Err && r->Err_0 == e.1->Err_0)
        &&& (valid && (b.s.len() == 0 || e.1 is Ok) ==> r is Ok)
        &&& (r is Ok ==> written(m, n, p, b.s))
        &&& (r is Ok && b.s.len() > 0 ==> n.allocations.s[aid(p)].extra == e.0)
        &&& (r is Err ==> n == m)
    })
{
    lemma_aligned(al);
    check_ptr(m, p, Size { raw: b.s.len() as int });
}
pub proof fn load<P, A>(m: BasicMemory<P, A>, p: ThinPointer<(AllocId, P)>, len: Size, al: Align, f: spec_fn(A, P, Size) -> (A, Result<(), TerminationInfo>), f_ok: spec_fn(A, P, Size) -> bool)
    requires prov_ok(m, p), al.raw > 0, len.raw >= 0, forall|a: A, q: P, o: Size| #[trigger] f_ok(a, q, o)
    ensures BasicMemory__load_ok(m, p, len, al, f, f_ok), ({
        let (n, r) = BasicMemory__load(m, p, len, al, f);
        let a = m.allocations.s[aid(p)];
        let e = f(a.extra, (p.provenance->0).1, Size { raw: p.addr - a.addr });
        let valid = aligned(p.addr, al) && deref_ok(m, p, len.raw);
        &&& (!valid ==> is_ub(r))
        &&& (valid && len.raw > 0 && e.1 is Err ==> r is Err && r->Err_0 == e.1->Err_0)
        &&& (valid && (len.raw == 0 || e.1 is Ok) ==> r is Ok)
        &&& (r is Ok ==> r->Ok_0.s =~= bytes_at(m, p, len.raw) && only_extra(m, n, p))
        &&& (r is Ok && len.raw > 0 ==> n.allocations.s[aid(p)].extra == e.0)
        &&& (r is Err ==> n == m)
    })
{
    lemma_aligned(al);
    check_ptr(m, p, len);
}
/// the basic memory model adds no further condition, and loads change nothing
pub proof fn basic_access(m: BasicMemory<(), ()>, p: ThinPointer<(AllocId, ())>, b: List<AbstractByte<(AllocId, ())>>, len: Size, al: Align)
    requires prov_ok(m, p), al.raw > 0, len.raw >= 0
    ensures ({
        let (n, r) = BasicMemory__Memory__store(m, p, b, al);
        (if aligned(p.addr, al) && deref_ok(m, p, b.s.len() as int) { r is Ok && written(m, n, p, b.s) } else { is_ub(r) && n == m })
    }), ({
        let (n, r) = BasicMemory__Memory__load(m, p, len, al);
        n =~= m && (if aligned(p.addr, al) && deref_ok(m, p, len.raw) { r is Ok && r->Ok_0.s =~= bytes_at(m, p, len.raw) } else { is_ub(r) })
    }), ({
        let r = BasicMemory__Memory__dereferenceable(m, p, len);
        if deref_ok(m, p, len.raw) { r is Ok } else { is_ub(r) }
    }), BasicMemory__Memory__store_ok(m, p, b, al), BasicMemory__Memory__load_ok(m, p, len, al), BasicMemory__Memory__dereferenceable_ok(m, p, len),
{
    lemma_aligned(al);
    check_ptr(m, p, len);
    check_ptr(m, p, Size { raw: b.s.len() as int });
    let (n, r) = BasicMemory__Memory__load(m, p, len, al);
    assert(n.allocations.s =~= m.allocations.s);
}
/// Tree Borrows accepts no access the basic model rejects, and moves the same bytes
pub proof fn tb_access(m: TreeBorrowsMemory, p: ThinPointer<(AllocId, List<int>)>, b: List<AbstractByte<(AllocId, List<int>)>>, len: Size, al: Align)
    requires prov_ok(m.mem, p), al.raw > 0, len.raw >= 0
    ensures ({
        let (n, r) = TreeBorrowsMemory__Memory__store(m, p, b, al);
        &&& (r is Ok ==> aligned(p.addr, al) && deref_ok(m.mem, p, b.s.len() as int) && written(m.mem, n.mem, p, b.s))
        &&& (!(aligned(p.addr, al) && deref_ok(m.mem, p, b.s.len() as int)) ==> is_ub(r))
        &&& (aligned(p.addr, al) && b.s.len() == 0 ==> r is Ok)
        &&& (r is Err ==> n == m)
    }), ({
        let (n, r) = TreeBorrowsMemory__Memory__load(m, p, len, al);
        &&& (r is Ok ==> aligned(p.addr, al) && deref_ok(m.mem, p, len.raw) && r->Ok_0.s =~= bytes_at(m.mem, p, len.raw) && only_extra(m.mem, n.mem, p))
        &&& (!(aligned(p.addr, al) && deref_ok(m.mem, p, len.raw)) ==> is_ub(r))
        &&& (aligned(p.addr, al) && len.raw == 0 ==> r is Ok)
        &&& (r is Err ==> n == m)
    }), ({
        let r = TreeBorrowsMemory__Memory__dereferenceable(m, p, len);
        if deref_ok(m.mem, p, len.raw) { r is Ok } else { is_ub(r) }
    })
{
    lemma_aligned(al);
    check_ptr(m.mem, p, len);
    check_ptr(m.mem, p, Size { raw: b.s.len() as int });
}
/// a write is read back by any pointer to the same place, and is invisible to reads of other bytes
pub proof fn read_back(m: BasicMemory<(), ()>, p: ThinPointer<(AllocId, ())>, b: List<AbstractByte<(AllocId, ())>>, al: Align, q: ThinPointer<(AllocId, ())>, len: Size, al2: Align)
    requires prov_ok(m, p), prov_ok(m, q), al.raw > 0, al2.raw > 0, len.raw >= 0, BasicMemory__Memory__store(m, p, b, al).1 is Ok
    ensures ({
        let n = BasicMemory__Memory__store(m, p, b, al).0;
        let r0 = BasicMemory__Memory__load(m, q, len, al2).1; let r1 = BasicMemory__Memory__load(n, q, len, al2).1;
        &&& (r0 is Ok <==> r1 is Ok)
        &&& (r1 is Ok && q == p && len.raw == b.s.len() ==> r1->Ok_0.s =~= b.s)
        &&& (r1 is Ok && r0 is Ok && len.raw > 0 && b.s.len() > 0 && (aid(q) != aid(p) || q.addr + len.raw <= p.addr || p.addr + b.s.len() <= q.addr) ==> r1->Ok_0.s =~= r0->Ok_0.s)
    })
{
    let n = BasicMemory__Memory__store(m, p, b, al).0;
    basic_access(m, p, b, len, al); basic_access(m, q, b, len, al2); basic_access(n, q, b, len, al2);
}
/// stores keep the memory invariant
pub proof fn store_inv(m: BasicMemory<(), ()>, t: TreeBorrowsMemory, p: ThinPointer<(AllocId, ())>, pt: ThinPointer<(AllocId, List<int>)>, b: List<AbstractByte<(AllocId, ())>>, bt: List<AbstractByte<(AllocId, List<int>)>>, len: Size, al: Align)
    requires prov_ok(m, p), prov_ok(t.mem, pt), al.raw > 0, len.raw >= 0, mem_inv(m), mem_inv(t.mem)
    ensures mem_inv(BasicMemory__Memory__store(m, p, b, al).0), mem_inv(TreeBorrowsMemory__Memory__store(t, pt, bt, al).0.mem), mem_inv(TreeBorrowsMemory__Memory__load(t, pt, len, al).0.mem)
{
    basic_access(m, p, b, len, al); tb_access(t, pt, bt, len, al);
    keep(m, BasicMemory__Memory__store(m, p, b, al).0, aid(p));
    keep(t.mem, TreeBorrowsMemory__Memory__store(t, pt, bt, al).0.mem, aid(pt));
    keep(t.mem, TreeBorrowsMemory__Memory__load(t, pt, len, al).0.mem, aid(pt));
}
pub proof fn keep<P, A>(m: BasicMemory<P, A>, n: BasicMemory<P, A>, i: int)
    requires mem_inv(m)
    ensures n == m ==> mem_inv(n), 0 <= i < m.allocations.s.len() && frame_except(m, n, i) && same_shape(m.allocations.s[i], n.allocations.s[i]) ==> mem_inv(n)
{
    if 0 <= i < m.allocations.s.len() && frame_except(m, n, i) && same_shape(m.allocations.s[i], n.allocations.s[i]) {
        assert forall|j: int| 0 <= j < m.allocations.s.len() implies same_shape(m.allocations.s[j], #[trigger] n.allocations.s[j]) by { }
        let x = m.allocations.s; let y = n.allocations.s;
        assert forall|j: int| 0 <= j < y.len() implies ({ let a = #[trigger] y[j]; 0 < a.addr && a.addr + alen(a) < addr_end() && a.align.raw > 0 && a.addr % a.align.raw == 0 && alen(a) < addr_end() / 2 }) by { let b = x[j]; }
        assert forall|j: int, k: int| 0 <= j < k < y.len() && (#[trigger] y[j]).live && (#[trigger] y[k]).live implies apart(y[j].addr, alen(y[j]), y[k].addr, alen(y[k])) by { let b = x[j]; let c = x[k]; }
    }
}

// ---------------------------------------------------------------- the MIR translation of places
/// one step of a place: into a field, through a pointer, to an element, into a variant
pub open spec fn place_step(f: FnCtxt, p: SmProjectionElem, t: SmTy, from: PlaceExpr, to: PlaceExpr) -> bool {
    match p {
        SmProjectionElem::Field(i, _) => to == PlaceExpr::Field { root: Box::new(from), field: i },
        SmProjectionElem::Deref => to is Deref && *to->operand == (ValueExpr::Load { source: Box::new(from) }) && tr_sty(f, t, to->Deref_ty),
        SmProjectionElem::Index(l) => to == PlaceExpr::Index { root: Box::new(from), index: Box::new(ValueExpr::Load { source: Box::new(PlaceExpr::Local(f.local_name_map.m[l])) }) },
        SmProjectionElem::Downcast(v) => to is Downcast && *to->Downcast_root == from
            && exists|cx: Ctxt, sp: RsSpan| cx.tcx == f.cx.tcx && to->Downcast_discriminant == (#[trigger] Ctxt__discriminant_for_variant_smir(cx, t, v, sp)).1,
        _ => false,
    }
}
pub open spec fn place_steps(f: FnCtxt, ps: Seq<SmProjectionElem>, i: int, t: SmTy, from: PlaceExpr, to: PlaceExpr) -> bool
    decreases ps.len() - i
{
    if i < 0 || i >= ps.len() { to == from }
    else { let u = SmProjectionElem__ty(ps[i], t)->0; exists|x: PlaceExpr| #[trigger] place_step(f, ps[i], u, from, x) && place_steps(f, ps, i + 1, u, x, to) }
}
pub proof fn mir_projections(f: FnCtxt, l: List<SmProjectionElem>, i: int, sp: RsSpan, g: FnCtxt, acc: (PlaceExpr, SmTy))
    requires FnCtxt__translate_place_smir__loop1_ok(l, i, sp, g, acc), 0 <= i <= l.s.len(), same_fn(f, g)
    ensures place_steps(f, l.s, i, acc.1, acc.0, FnCtxt__translate_place_smir__loop1(l, i, sp, g, acc).1.0)
    decreases l.s.len() - i
{
    reveal_with_fuel(FnCtxt__translate_place_smir__loop1, 2); reveal_with_fuel(FnCtxt__translate_place_smir__loop1_ok, 2);
    if i < l.s.len() {
        let p = l.s[i];
        let u = SmProjectionElem__ty(p, acc.1)->0;
        let y = Ctxt__translate_ty_smir(g.cx, u, sp);
        let v = if p is Downcast { Ctxt__discriminant_for_variant_smir(g.cx, u, p->Downcast_0, sp) } else { arbitrary() };
        let x = match p {
            SmProjectionElem::Field(k, _) => PlaceExpr::Field { root: Box::new(acc.0), field: k },
            SmProjectionElem::Deref => PlaceExpr::Deref { operand: Box::new(ValueExpr::Load { source: Box::new(acc.0) }), ty: y.1 },
            SmProjectionElem::Index(k) => PlaceExpr::Index { root: Box::new(acc.0), index: Box::new(ValueExpr::Load { source: Box::new(PlaceExpr::Local(g.local_name_map.m[k])) }) },
            SmProjectionElem::Downcast(_) => PlaceExpr::Downcast { root: Box::new(acc.0), discriminant: v.1 },
            _ => arbitrary(),
        };
        let g2 = if p is Deref { FnCtxt { cx: y.0, ..g } } else if p is Downcast { FnCtxt { cx: v.0, ..g } } else { g };
        assert(place_step(f, p, u, acc.0, x));
        assert(FnCtxt__translate_place_smir__loop1(l, i, sp, g, acc) == FnCtxt__translate_place_smir__loop1(l, i + 1, sp, g2, (x, u)));
        mir_projections(f, l, i + 1, sp, g2, (x, u));
    }
}
/// a place starts at its own local and takes exactly the steps named, in order, each at the type the compiler gives it
pub proof fn mir_place(f: FnCtxt, p: SmPlace, sp: RsSpan)
    requires FnCtxt__translate_place_smir_ok(f, p, sp)
    ensures place_steps(f, p.projection.s, 0, List__index_at::<SmLocalDecl>(f.locals_smir, p.local).ty, PlaceExpr::Local(f.local_name_map.m[p.local]), FnCtxt__translate_place_smir(f, p, sp).1)
{
    reveal(FnCtxt__translate_place_smir); reveal(FnCtxt__translate_place_smir_ok);
    mir_projections(f, p.projection, 0, sp, f, (PlaceExpr::Local(f.local_name_map.m[p.local]), List__index_at::<SmLocalDecl>(f.locals_smir, p.local).ty));
}
/// the length of an array is the number of its elements; the length of a slice is what its pointer says
pub proof fn mir_len(f: FnCtxt, p: SmPlace, sp: RsSpan)
    requires FnCtxt__translate_rvalue_smir_ok(f, SmRvalue::Len(p), sp)
    ensures ({
        let e = FnCtxt__translate_rvalue_smir(f, SmRvalue::Len(p), sp).1;
        match ty_of_place(f, p, sp) {
            Type::Array { count, .. } => e == ValueExpr::Constant(Constant::Int(count), build__tyconv__usize()),
            Type::Slice { .. } => e is UnOp && e->UnOp_operator is GetMetadata && *e->operand is AddrOf && (*e->operand)->AddrOf_ptr_ty == (PtrType::Raw { meta_kind: PointerMetaKind::ElementCount }) && tr_place(f, p, *(*e->operand)->AddrOf_target),
            _ => false,
        }
    })
{
    reveal(FnCtxt__translate_rvalue_smir); reveal(FnCtxt__translate_rvalue_smir_ok);
}
/// the compiler's pointees of an unsizing cast
pub open spec fn pointees(f: FnCtxt, x: SmOperand, t: SmTy) -> (RsTyKind, RsTyKind) {
    (RsTy__kind(RsTy__builtin_deref(SmTy__smir_internal(SmOperand__ty(x, f.locals_smir)->0), true)->0), RsTy__kind(RsTy__builtin_deref(SmTy__smir_internal(t), true)->0))
}
/// a pointer to an array made a pointer to a slice keeps the pointer and gets the number of elements
pub proof fn mir_unsize_slice(f: FnCtxt, x: SmOperand, t: SmTy, sp: RsSpan)
    requires FnCtxt__translate_rvalue_smir_ok(f, SmRvalue::Cast(SmCastKind::PointerCoercion(SmPointerCoercion::Unsize), x, t), sp), pointees(f, x, t).0 is Array, pointees(f, x, t).1 is Slice
    ensures ({
        let e = FnCtxt__translate_rvalue_smir(f, SmRvalue::Cast(SmCastKind::PointerCoercion(SmPointerCoercion::Unsize), x, t), sp).1;
        &&& e is BinOp && e->BinOp_operator is ConstructWidePointer && tr_sty(f, t, Type::Ptr(e->BinOp_operator->ConstructWidePointer_0)) && tr_op(f, x, *e->left)
        &&& *e->right == ValueExpr::Constant(Constant::Int(RsConst__try_to_target_usize(pointees(f, x, t).0->Array_1, f.cx.tcx)->0), build__tyconv__usize())
    })
{
    reveal(FnCtxt__translate_rvalue_smir); reveal(FnCtxt__translate_rvalue_smir_ok);
}
/// a raw pointer put together from its parts has exactly these parts
pub proof fn mir_wide(f: FnCtxt, k: SmAggregateKind, l: List<SmOperand>, sp: RsSpan)
    requires FnCtxt__translate_rvalue_smir_ok(f, SmRvalue::Aggregate(k, l), sp),
        ({ let t = Ctxt__translate_ty_smir(f.cx, SmRvalue__ty(SmRvalue::Aggregate(k, l), f.locals_smir)->0, sp).1; t is Ptr && t->Ptr_0 is Raw })
    ensures ({
        let e = FnCtxt__translate_rvalue_smir(f, SmRvalue::Aggregate(k, l), sp).1;
        let t = Ctxt__translate_ty_smir(f.cx, SmRvalue__ty(SmRvalue::Aggregate(k, l), f.locals_smir)->0, sp).1;
        l.s.len() == 2 && e is BinOp && e->BinOp_operator == BinOp::ConstructWidePointer(t->Ptr_0) && tr_op(f, l.s[0], *e->left) && tr_op(f, l.s[1], *e->right)
    })
{
    reveal(FnCtxt__translate_rvalue_smir); reveal(FnCtxt__translate_rvalue_smir_ok);
}
/// reading a place that is copied or moved is a load of that place
pub proof fn mir_load(f: FnCtxt, o: SmOperand, p: SmPlace, sp: RsSpan)
    requires FnCtxt__translate_operand_smir_ok(f, o, sp), o == SmOperand::Copy(p) || o == SmOperand::Move(p)
    ensures ({ let e = FnCtxt__translate_operand_smir(f, o, sp).1; e is Load && tr_place(f, p, *e->source) })
{
    reveal(FnCtxt__translate_operand_smir); reveal(FnCtxt__translate_operand_smir_ok);
}

// ---------------------------------------------------------------- comparing bytes
pub open spec fn rs_name(f: FnCtxt, i: RsInstance) -> RsSym { RsTyCtxt__item_name(f.cx.tcx, RsInstance__def_id(i)) }
/// goes on to the target
pub open spec fn to_target(f: FnCtxt, t: Terminator, target: Option<int>) -> bool { target is Some && f.bb_name_map.m.contains_key(target->0) && t == Terminator::Goto(f.bb_name_map.m[target->0]) }
pub open spec fn tr_sargs(f: FnCtxt, l: Seq<RsSpanned<RsOperand>>, out: Seq<ValueExpr>, n: int) -> bool { out.len() >= n && forall|i: int| 0 <= i < n ==> tr_rop(f, l[i].node, #[trigger] out[i]) }
pub proof fn mir_rs_args(f: FnCtxt, l: List<RsSpanned<RsOperand>>, i: int, g: FnCtxt, acc: List<ValueExpr>)
    requires FnCtxt__translate_rs_intrinsic__loop1_ok(l, i, g, acc), 0 <= i <= l.s.len(), acc.s.len() == i, same_fn(f, g), tr_sargs(f, l.s, acc.s, i)
    ensures ({ let (h, out) = FnCtxt__translate_rs_intrinsic__loop1(l, i, g, acc); same_fn(f, h) && out.s.len() == l.s.len() && tr_sargs(f, l.s, out.s, l.s.len() as int) })
    decreases l.s.len() - i
{
    reveal_with_fuel(FnCtxt__translate_rs_intrinsic__loop1, 2); reveal_with_fuel(FnCtxt__translate_rs_intrinsic__loop1_ok, 2);
    if i < l.s.len() {
        let a = FnCtxt__translate_operand(g, l.s[i].node, l.s[i].span);
        let acc2 = List { s: acc.s.push(a.1) };
        assert forall|j: int| 0 <= j < i + 1 implies tr_rop(f, l.s[j].node, #[trigger] acc2.s[j]) by { if j < i { assert(acc2.s[j] == acc.s[j]); } }
        mir_rs_args(f, l, i + 1, a.0, acc2);
    }
}
/// comparing bytes is the machine's operation, with the operands in order
pub proof fn mir_raw_eq(f: FnCtxt, i: RsInstance, args: List<RsSpanned<RsOperand>>, dest: RsPlace, target: Option<int>, sp: RsSpan)
    requires FnCtxt__translate_rs_intrinsic_ok(f, i, args, dest, target, sp), rs_name(f, i) is raw_eq
    ensures ({
        let r = FnCtxt__translate_rs_intrinsic(f, i, args, dest, target, sp).1; let t = r.terminator;
        &&& r.stmts.s.len() == 0 && t is Intrinsic && t->Intrinsic_intrinsic is RawEq && t->Intrinsic_arguments.s.len() == args.s.len() && tr_sargs(f, args.s, t->Intrinsic_arguments.s, args.s.len() as int)
        &&& tr_rplace(f, dest, t->Intrinsic_ret)
        &&& (target is None ==> t->Intrinsic_next_block is None) && (target is Some ==> f.bb_name_map.m.contains_key(target->0) && t->Intrinsic_next_block == Some(f.bb_name_map.m[target->0]))
    })
{
    reveal(FnCtxt__translate_rs_intrinsic); reveal(FnCtxt__translate_rs_intrinsic_ok);
    assert(same_fn(f, f));
    mir_rs_args(f, args, 0, f, List__new::<ValueExpr>());
}
/// what a pointer type says about its pointee: the compiler's size and alignment, or how to work them out from the metadata
pub proof fn mir_pointee_layout(c: Ctxt, t: RsTy, sp: RsSpan)
    requires Ctxt__pointee_info_of_ok(c, t, sp)
    ensures ({
        let i = Ctxt__pointee_info_of(c, t, sp).1; let l = Ctxt__rs_layout_of(c, t).layout; let k = RsTy__kind(t);
        &&& (RsLayout__is_sized(l) ==> i.layout is Sized && i.layout->Sized_0.raw == RsSize__bytes(RsLayout__size(l)) && i.layout->Sized_1.raw == RsAlign__bytes(RsLayout__align(l).abi))
        &&& (!RsLayout__is_sized(l) && k is Slice ==> i.layout is Slice && ({
            let e = Ctxt__rs_layout_of(c, k->Slice_0).layout;
            i.layout->Slice_0.raw == RsSize__bytes(RsLayout__size(e)) && i.layout->Slice_1.raw == RsAlign__bytes(RsLayout__align(e).abi)
        }))
        &&& (!RsLayout__is_sized(l) && k is Str ==> i.layout is Slice && i.layout->Slice_0.raw == 1 && i.layout->Slice_1.raw == 1)
        &&& (!RsLayout__is_sized(l) && k is Dynamic ==> i.layout is TraitObject && i.layout->TraitObject_0 == Ctxt__get_trait_name(c, t).1)
    })
{
    reveal(Ctxt__pointee_info_of); reveal(Ctxt__pointee_info_of_ok);
}
