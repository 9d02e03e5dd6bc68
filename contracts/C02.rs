// C02: pointer arithmetic computes the exact address, keeps provenance, and is undefined behaviour exactly where the in-bounds rules say so.

/// the interface contract of the memory (proved for both memory models below): a non-empty range is dereferenceable only
/// strictly inside the address space and only if shorter than half of it; the empty range always is; failure is undefined behaviour
pub open spec fn mem_contract(m: MemM) -> bool {
    forall|p: ThinPointer<Prov>, n: Size| n.raw >= 0 ==> {
        let r = #[trigger] MemM__dereferenceable(m, p, n);
        &&& (n.raw == 0 ==> r is Ok)
        &&& (r is Err ==> is_ub(r))
        &&& (r is Ok && n.raw > 0 ==> 0 < p.addr && p.addr + n.raw < addr_end() && n.raw < addr_end() / 2)
    }
}
pub open spec fn mem_total(m: MemM) -> bool { forall|p: ThinPointer<Prov>, n: Size| n.raw >= 0 ==> #[trigger] MemM__dereferenceable_ok(m, p, n) }
/// the bytes between p and p + d
pub open spec fn gap_ok(m: MemM, p: ThinPointer<Prov>, d: int) -> bool {
    if d >= 0 { MemM__dereferenceable(m, p, Size { raw: d }) is Ok } else { MemM__dereferenceable(m, ThinPointer { addr: p.addr + d, ..p }, Size { raw: -d }) is Ok }
}
pub open spec fn thin(p: ThinPointer<Prov>) -> Value { Value::Ptr(Pointer { thin_pointer: p, metadata: None }) }

pub proof fn models_meet_contract(m: BasicMemory<(), ()>, t: TreeBorrowsMemory, p: ThinPointer<(AllocId, ())>, q: ThinPointer<(AllocId, List<int>)>, n: Size)
    requires target_ok(), mem_inv(m), mem_inv(t.mem), prov_ok(m, p), prov_ok(t.mem, q), n.raw >= 0
    ensures ({
        let r = BasicMemory__Memory__dereferenceable(m, p, n);
        &&& (n.raw == 0 ==> r is Ok) && (r is Err ==> is_ub(r))
        &&& (r is Ok && n.raw > 0 ==> 0 < p.addr && p.addr + n.raw < addr_end() && n.raw < addr_end() / 2)
        &&& BasicMemory__Memory__dereferenceable_ok(m, p, n)
    }), ({
        let r = TreeBorrowsMemory__Memory__dereferenceable(t, q, n);
        &&& (n.raw == 0 ==> r is Ok) && (r is Err ==> is_ub(r))
        &&& (r is Ok && n.raw > 0 ==> 0 < q.addr && q.addr + n.raw < addr_end() && n.raw < addr_end() / 2)
        &&& TreeBorrowsMemory__Memory__dereferenceable_ok(t, q, n)
    })
{ if p.provenance is Some { let a = m.allocations.s[aid(p)]; } if q.provenance is Some { let a = t.mem.allocations.s[aid(q)]; } }

/// the signed form checks the bytes between the pointer and its offset position
pub proof fn signed_range(m: ConcurrentMemory, p: ThinPointer<Prov>, d: int)
    requires mem_total(m.memory), mem_contract(m.memory)
    ensures ConcurrentMemory__signed_dereferenceable_ok(m, p, d), ({
        let r = ConcurrentMemory__signed_dereferenceable(m, p, d);
        &&& (r is Ok <==> gap_ok(m.memory, p, d))
        &&& (r is Err ==> is_ub(r))
    })
{ assert(ThinPointer { addr: p.addr + 0, ..p } == p); }
/// wrapping offset: the address modulo the address space, same provenance, never fails
pub proof fn wrapping(m: Machine, p: ThinPointer<Prov>, d: int)
    requires target_ok()
    ensures ({
        let r = Machine__ptr_offset_wrapping(m, p, d);
        0 <= r.addr < addr_end() && (r.addr - (p.addr + d)) % addr_end() == 0 && r.provenance == p.provenance
    }), Machine__ptr_offset_wrapping_ok(m, p, d), 0 <= p.addr + d < addr_end() ==> Machine__ptr_offset_wrapping(m, p, d).addr == p.addr + d,
{
    let t = IntType { signed: Signedness::Unsigned, size: T__PTR_SIZE() };
    lemma_int_ty(t);
    assert(in_range(t, p.addr + d) ==> int__bring_in_bounds(p.addr + d, t.signed, t.size) == p.addr + d);
    assert(is_wrap(t, p.addr + d, int__bring_in_bounds(p.addr + d, t.signed, t.size)));
}
/// wrapping offsets compose
pub proof fn wrapping_compose(m: Machine, p: ThinPointer<Prov>, d: int, e: int)
    requires target_ok()
    ensures Machine__ptr_offset_wrapping(m, Machine__ptr_offset_wrapping(m, p, d), e) == Machine__ptr_offset_wrapping(m, p, d + e)
{
    let t = IntType { signed: Signedness::Unsigned, size: T__PTR_SIZE() };
    let q = Machine__ptr_offset_wrapping(m, p, d);
    let x = Machine__ptr_offset_wrapping(m, q, e);
    wrapping(m, p, d); wrapping(m, q, e); wrapping(m, p, d + e);
    lemma_pow_pos(bits_of(t) as nat);
    let n = addr_end();
    assert((x.addr - (p.addr + d + e)) % n == 0) by {
        lemma_fundamental_div_mod(x.addr - (q.addr + e), n); lemma_fundamental_div_mod(q.addr - (p.addr + d), n);
        let a = (x.addr - (q.addr + e)) / n; let b = (q.addr - (p.addr + d)) / n;
        assert(x.addr - (p.addr + d + e) == (a + b) * n) by (nonlinear_arith) requires x.addr - (q.addr + e) == n * a, q.addr - (p.addr + d) == n * b;
        lemma_mod_multiples_basic(a + b, n);
    }
    assert((p.addr + (d + e)) == p.addr + d + e);
    lemma_wrap_unique(t, p.addr + d + e, x.addr, Machine__ptr_offset_wrapping(m, p, d + e).addr);
}
/// in-bounds offset: exact address, same provenance, defined exactly if the gap is dereferenceable, never wraps
pub proof fn inbounds(m: Machine, p: ThinPointer<Prov>, d: int)
    requires target_ok(), mem_contract(m.mem.memory), mem_total(m.mem.memory), 0 <= p.addr < addr_end()
    ensures Machine__ptr_offset_inbounds_ok(m, p, d), ({
        let r = Machine__ptr_offset_inbounds(m, p, d);
        &&& (r is Ok <==> gap_ok(m.mem.memory, p, d))
        &&& (r is Err ==> is_ub(r))
        &&& (r is Ok ==> r->Ok_0.addr == p.addr + d && r->Ok_0.provenance == p.provenance && 0 <= r->Ok_0.addr < addr_end() && -(addr_end() / 2) <= d < addr_end() / 2)
    })
{
    signed_range(m.mem, p, d);
    let s = IntType { signed: Signedness::Signed, size: T__PTR_SIZE() }; let u = IntType { signed: Signedness::Unsigned, size: T__PTR_SIZE() };
    lemma_int_ty(s); lemma_int_ty(u); lemma_p2_half(bits_of(u));
    assert(int__in_bounds(d, s.signed, s.size) <==> in_range(s, d));
    assert(int__in_bounds(p.addr + d, u.signed, u.size) <==> in_range(u, p.addr + d));
}
/// the operators apply exactly these functions and keep the pointer's type
pub proof fn offset_op(m: Machine, p: ThinPointer<Prov>, d: int, pt: Type, it: Type, ib: bool)
    requires target_ok(), mem_contract(m.mem.memory), mem_total(m.mem.memory), 0 <= p.addr < addr_end()
    ensures Machine__eval_bin_op_ok(m, BinOp::PtrOffset { inbounds: ib }, (thin(p), pt), (Value::Int(d), it)), ({
        let r = Machine__eval_bin_op(m, BinOp::PtrOffset { inbounds: ib }, (thin(p), pt), (Value::Int(d), it));
        let q = Machine__ptr_offset_wrapping(m, p, d);
        if ib { (r is Ok <==> gap_ok(m.mem.memory, p, d)) && (r is Err ==> is_ub(r)) && (r is Ok ==> r->Ok_0 == (thin(ThinPointer { addr: p.addr + d, ..p }), pt)) }
        else { r == Ok::<(Value, Type), TerminationInfo>((thin(q), pt)) }
    })
{ inbounds(m, p, d); wrapping(m, p, d); }
/// distances: exact when in bounds (from both ends), wrapped otherwise; negative results are undefined behaviour if excluded
pub proof fn offset_from(m: Machine, p: ThinPointer<Prov>, q: ThinPointer<Prov>, pt: Type, qt: Type, ib: bool, nn: bool)
    requires target_ok(), mem_contract(m.mem.memory), mem_total(m.mem.memory)
    ensures Machine__eval_bin_op_ok(m, BinOp::PtrOffsetFrom { inbounds: ib, nonneg: nn }, (thin(p), pt), (thin(q), qt)), ({
        let r = Machine__eval_bin_op(m, BinOp::PtrOffsetFrom { inbounds: ib, nonneg: nn }, (thin(p), pt), (thin(q), qt));
        let it = IntType { signed: Signedness::Signed, size: T__PTR_SIZE() };
        let d = p.addr - q.addr;
        let w = int__bring_in_bounds(d, it.signed, it.size);
        &&& is_wrap(it, d, w)
        &&& (r is Err ==> is_ub(r))
        &&& (r is Ok ==> r->Ok_0.1 == Type::Int(it) && r->Ok_0.0 is Int && in_range(it, r->Ok_0.0->Int_0))
        &&& (ib ==> (r is Ok <==> gap_ok(m.mem.memory, p, -d) && gap_ok(m.mem.memory, q, d) && (nn ==> d >= 0)) && (r is Ok ==> r->Ok_0.0 == Value::Int(d)))
        &&& (!ib ==> (r is Ok <==> (nn ==> w >= 0)) && (r is Ok ==> r->Ok_0.0 == Value::Int(w)))
    })
{
    let it = IntType { signed: Signedness::Signed, size: T__PTR_SIZE() };
    let d = p.addr - q.addr;
    signed_range(m.mem, p, -d); signed_range(m.mem, q, d);
    lemma_int_ty(it); lemma_p2_half(bits_of(it) );
    assert(is_wrap(it, d, int__bring_in_bounds(d, it.signed, it.size)));
}
/// offsetting and measuring are inverse: measuring p + d against p gives d back
pub proof fn offset_inverse(m: Machine, p: ThinPointer<Prov>, d: int, pt: Type)
    requires target_ok(), mem_contract(m.mem.memory), mem_total(m.mem.memory), 0 <= p.addr < addr_end(), Machine__ptr_offset_inbounds(m, p, d) is Ok
    ensures Machine__eval_bin_op(m, BinOp::PtrOffsetFrom { inbounds: true, nonneg: false }, (thin(Machine__ptr_offset_inbounds(m, p, d)->Ok_0), pt), (thin(p), pt))
        == Ok::<(Value, Type), TerminationInfo>((Value::Int(d), Type::Int(IntType { signed: Signedness::Signed, size: T__PTR_SIZE() })))
{
    inbounds(m, p, d);
    let q = Machine__ptr_offset_inbounds(m, p, d)->Ok_0;
    offset_from(m, q, p, pt, pt, true, false);
    assert(ThinPointer { addr: q.addr - d, ..q } == p);
    assert(ThinPointer { addr: p.addr + d, ..p } == q);
    if d == 0 { assert(q == p); }
}

// ---------------------------------------------------------------- the MIR translation of pointer arithmetic
/// moving a pointer by n elements moves it by n times the size of the element, without overflow and inside its allocation
pub proof fn mir_offset(f: FnCtxt, l: SmOperand, r: SmOperand, sp: RsSpan, t: SmTy, m: SmMutability)
    requires FnCtxt__translate_rvalue_smir_ok(f, SmRvalue::BinaryOp(SmBinOp::Offset, l, r), sp), ty_of_op(f, l, sp) is Ptr, SmTy__kind(SmOperand__ty(l, f.locals_smir)->0) == SmTyKind::RigidTy(SmRigidTy::RawPtr(t, m))
    ensures ({
        let e = FnCtxt__translate_rvalue_smir(f, SmRvalue::BinaryOp(SmBinOp::Offset, l, r), sp).1;
        &&& e is BinOp && e->BinOp_operator == (BinOp::PtrOffset { inbounds: true }) && tr_op(f, l, *e->left)
        &&& *e->right is BinOp && (*e->right)->BinOp_operator == BinOp::Int(IntBinOp::MulUnchecked)
        &&& tr_op(f, r, *(*e->right)->left) && *(*e->right)->right is Constant
        &&& exists|cx: Ctxt| cx.tcx == f.cx.tcx && (*(*e->right)->right)->Constant_0 == Constant::Int(RsSize__bytes((#[trigger] Ctxt__rs_layout_of_smir(cx, t)).size))
        &&& tr_sty(f, SmOperand__ty(r, f.locals_smir)->0, (*(*e->right)->right)->Constant_1)
    })
{
    reveal(FnCtxt__translate_rvalue_smir); reveal(FnCtxt__translate_rvalue_smir_ok);
}
/// a cast between raw pointers keeps the pointer, and drops what a thin one does not need
pub proof fn mir_ptr_cast(f: FnCtxt, x: SmOperand, t: SmTy, sp: RsSpan)
    requires FnCtxt__translate_rvalue_smir_ok(f, SmRvalue::Cast(SmCastKind::PtrToPtr, x, t), sp)
    ensures ({
        let e = FnCtxt__translate_rvalue_smir(f, SmRvalue::Cast(SmCastKind::PtrToPtr, x, t), sp).1;
        let from = ty_of_op(f, x, sp);
        exists|a: ValueExpr, to: Type| #[trigger] tr_op(f, x, a) && #[trigger] tr_sty(f, t, to) && from is Ptr && from->Ptr_0 is Raw && to is Ptr && to->Ptr_0 is Raw
            && if from->Ptr_0->Raw_meta_kind == to->Ptr_0->Raw_meta_kind { e == a } else { to->Ptr_0->Raw_meta_kind is None && e == ValueExpr::UnOp { operator: UnOp::GetThinPointer, operand: Box::new(a) } }
    })
{
    reveal(FnCtxt__translate_rvalue_smir); reveal(FnCtxt__translate_rvalue_smir_ok);
    let f1 = FnCtxt { cx: Ctxt__translate_ty_smir(f.cx, SmOperand__ty(x, f.locals_smir)->0, sp).0, ..f };
    let to = Ctxt__translate_ty_smir(f1.cx, t, sp);
    let f2 = FnCtxt { cx: to.0, ..f1 };
    assert(tr_sty(f, t, to.1));
    assert(tr_op(f, x, FnCtxt__translate_operand_smir(f2, x, sp).1));
}

// ---------------------------------------------------------------- pointer arithmetic the compiler asks for by name
pub open spec fn rs_name(f: FnCtxt, i: RsInstance) -> RsSym { RsTyCtxt__item_name(f.cx.tcx, RsInstance__def_id(i)) }
/// goes on to the target
pub open spec fn to_target(f: FnCtxt, t: Terminator, target: Option<int>) -> bool { target is Some && f.bb_name_map.m.contains_key(target->0) && t == Terminator::Goto(f.bb_name_map.m[target->0]) }
/// assigns src to the destination, and goes on
pub open spec fn assigned(f: FnCtxt, r: TerminatorResult, dest: RsPlace, target: Option<int>) -> bool {
    r.stmts.s.len() == 1 && r.stmts.s[0] is Assign && tr_rplace(f, dest, r.stmts.s[0]->Assign_destination) && to_target(f, r.terminator, target)
}
/// the size the compiler gives what a pointer type points to
pub open spec fn pointee_size(f: FnCtxt, t: RsTy) -> int { RsSize__bytes(Ctxt__rs_layout_of(f.cx, RsTy__builtin_deref(t, true)->0).size) }
pub open spec fn is_const(e: ValueExpr, n: int) -> bool { e is Constant && e->Constant_0 == Constant::Int(n) }
/// wrapping pointer arithmetic: the pointer moved, without any bounds, by the count times the size of the pointee
pub proof fn mir_arith_offset(f: FnCtxt, i: RsInstance, args: List<RsSpanned<RsOperand>>, dest: RsPlace, target: Option<int>, sp: RsSpan)
    requires FnCtxt__translate_rs_intrinsic_ok(f, i, args, dest, target, sp), rs_name(f, i) is arith_offset
    ensures ({
        let r = FnCtxt__translate_rs_intrinsic(f, i, args, dest, target, sp).1; let e = r.stmts.s[0]->Assign_source;
        &&& assigned(f, r, dest, target) && e is BinOp && e->BinOp_operator == (BinOp::PtrOffset { inbounds: false }) && tr_rop(f, args.s[0].node, *e->left)
        &&& *e->right is BinOp && (*e->right)->BinOp_operator == BinOp::Int(IntBinOp::Mul) && tr_rop(f, args.s[1].node, *(*e->right)->left)
        &&& is_const(*(*e->right)->right, pointee_size(f, RsOperand__ty(args.s[0].node, f.body, f.cx.tcx)))
    })
{
    reveal(FnCtxt__translate_rs_intrinsic); reveal(FnCtxt__translate_rs_intrinsic_ok);
    assert(same_fn(f, f));
    let (g1, l) = FnCtxt__translate_operand(f, args.s[0].node, sp);
    let (g2, r) = FnCtxt__translate_operand(g1, args.s[1].node, sp);
}
/// the distance of two pointers: in bounds, in bytes, divided exactly by the size of the pointee
pub open spec fn distance(f: FnCtxt, args: List<RsSpanned<RsOperand>>, e: ValueExpr, unsigned: bool) -> bool {
    &&& e is BinOp && e->BinOp_operator == BinOp::Int(IntBinOp::DivExact)
    &&& *e->left is BinOp && (*e->left)->BinOp_operator == (BinOp::PtrOffsetFrom { inbounds: true, nonneg: unsigned }) && tr_rop(f, args.s[0].node, *(*e->left)->left) && tr_rop(f, args.s[1].node, *(*e->left)->right)
    &&& is_const(*e->right, pointee_size(f, RsOperand__ty(args.s[0].node, f.body, f.cx.tcx)))
}
pub proof fn mir_offset_from(f: FnCtxt, i: RsInstance, args: List<RsSpanned<RsOperand>>, dest: RsPlace, target: Option<int>, sp: RsSpan)
    requires FnCtxt__translate_rs_intrinsic_ok(f, i, args, dest, target, sp), rs_name(f, i) is ptr_offset_from || rs_name(f, i) is ptr_offset_from_unsigned
    ensures ({
        let r = FnCtxt__translate_rs_intrinsic(f, i, args, dest, target, sp).1; let e = r.stmts.s[0]->Assign_source;
        &&& assigned(f, r, dest, target)
        &&& (rs_name(f, i) is ptr_offset_from ==> distance(f, args, e, false))
        &&& (rs_name(f, i) is ptr_offset_from_unsigned ==> e is UnOp && e->UnOp_operator is Cast && e->UnOp_operator->Cast_0 is IntToInt && e->UnOp_operator->Cast_0->IntToInt_0.signed is Unsigned && distance(f, args, *e->operand, true))
    })
{
    reveal(FnCtxt__translate_rs_intrinsic); reveal(FnCtxt__translate_rs_intrinsic_ok);
    assert(same_fn(f, f));
    let (g1, l) = FnCtxt__translate_operand(f, args.s[0].node, sp);
    let (g2, r) = FnCtxt__translate_operand(g1, args.s[1].node, sp);
}
