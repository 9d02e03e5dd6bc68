// C08: memory is released exactly once, with exactly the parameters it was created with; afterwards it is inaccessible; leaks are exactly live heap allocations.

pub open spec fn may_free<P, A>(m: BasicMemory<P, A>, p: ThinPointer<(AllocId, P)>, kind: AllocationKind, size: Size, align: Align) -> bool {
    p.provenance is Some && {
        let a = m.allocations.s[aid(p)];
        a.live && a.addr == p.addr && a.kind == kind && alen(a) == size.raw && a.align == align
    }
}
/// n is m with the allocation of p dead (its extra state may differ)
pub open spec fn freed<P, A>(m: BasicMemory<P, A>, n: BasicMemory<P, A>, p: ThinPointer<(AllocId, P)>) -> bool {
    let x = m.allocations.s[aid(p)]; let y = n.allocations.s[aid(p)];
    &&& frame_except(m, n, aid(p))
    &&& !y.live && y.data == x.data && y.addr == x.addr && y.align == x.align && y.kind == x.kind
}
pub proof fn deallocate<P, A>(m: BasicMemory<P, A>, p: ThinPointer<(AllocId, P)>, kind: AllocationKind, size: Size, align: Align, f: spec_fn(A, P) -> (A, Result<(), TerminationInfo>), f_ok: spec_fn(A, P) -> bool)
    requires prov_ok(m, p), forall|a: A, q: P| #[trigger] f_ok(a, q)
    ensures BasicMemory__deallocate_ok(m, p, kind, size, align, f, f_ok), ({
        let (n, r) = BasicMemory__deallocate(m, p, kind, size, align, f);
        let e = f(m.allocations.s[aid(p)].extra, (p.provenance->0).1);
        &&& (!may_free(m, p, kind, size, align) ==> is_ub(r))
        &&& (may_free(m, p, kind, size, align) && e.1 is Err ==> r is Err && r->Err_0 == e.1->Err_0)
        &&& (may_free(m, p, kind, size, align) && e.1 is Ok ==> r is Ok)
        &&& (r is Ok ==> freed(m, n, p) && n.allocations.s[aid(p)].extra == e.0)
        &&& (r is Err ==> n == m)
    })
{ }
pub proof fn models_deallocate(m: BasicMemory<(), ()>, t: TreeBorrowsMemory, p: ThinPointer<(AllocId, ())>, q: ThinPointer<(AllocId, List<int>)>, kind: AllocationKind, size: Size, align: Align)
    requires prov_ok(m, p), prov_ok(t.mem, q)
    ensures ({
        let (n, r) = BasicMemory__Memory__deallocate(m, p, kind, size, align);
        if may_free(m, p, kind, size, align) { r is Ok && freed(m, n, p) } else { is_ub(r) && n == m }
    }), ({
        let (n, r) = TreeBorrowsMemory__Memory__deallocate(t, q, kind, size, align);
        &&& (!may_free(t.mem, q, kind, size, align) ==> is_ub(r))
        &&& (r is Ok ==> may_free(t.mem, q, kind, size, align) && freed(t.mem, n.mem, q))
        &&& (r is Err ==> n == t)
    })
{ }
/// once released, the allocation can never be accessed or released again, through any pointer
pub proof fn dead_is_dead<P, A>(m: BasicMemory<P, A>, p: ThinPointer<(AllocId, P)>, len: Size, kind: AllocationKind, size: Size, align: Align, f: spec_fn(A, P) -> (A, Result<(), TerminationInfo>))
    requires prov_ok(m, p), p.provenance is Some, !m.allocations.s[aid(p)].live, len.raw > 0
    ensures is_ub(BasicMemory__check_ptr(m, p, len)), is_ub(BasicMemory__deallocate(m, p, kind, size, align, f).1),
{ }
/// nothing brings a dead allocation back to life
pub proof fn stays_dead<P, A>(m: BasicMemory<P, A>, p: ThinPointer<(AllocId, P)>, i: int, b: List<AbstractByte<(AllocId, P)>>, len: Size, kind: AllocationKind, size: Size, align: Align, pe: P, ae: A,
    f: spec_fn(A, P) -> (A, Result<(), TerminationInfo>), g: spec_fn(A, P, Size) -> (A, Result<(), TerminationInfo>))
    requires prov_ok(m, p), 0 <= i < m.allocations.s.len(), !m.allocations.s[i].live
    ensures !BasicMemory__store(m, p, b, align, g).0.allocations.s[i].live, !BasicMemory__load(m, p, len, align, g).0.allocations.s[i].live,
        !BasicMemory__deallocate(m, p, kind, size, align, f).0.allocations.s[i].live, !BasicMemory__allocate(m, kind, size, align, pe, ae).0.allocations.s[i].live,
{ }
pub proof fn leak_loop<P, A>(l: List<Allocation<P, A>>, i: int)
    requires 0 <= i <= l.s.len()
    ensures BasicMemory__leak_check__loop1_ok(l, i), ({
        let r = BasicMemory__leak_check__loop1(l, i);
        if exists|j: int| i <= j < l.s.len() && (#[trigger] l.s[j]).live && l.s[j].kind == AllocationKind::Heap { r is Exit && r->Exit_0 is Err && r->Exit_0->Err_0 is MemoryLeak } else { r is Cont }
    })
    decreases l.s.len() - i
{
    if i < l.s.len() {
        leak_loop(l, i + 1);
        assert(l.s[i].kind is Heap <==> l.s[i].kind == AllocationKind::Heap);
    }
}
/// the leak check reports exactly the live heap allocations
pub proof fn leak_check<P, A>(m: BasicMemory<P, A>, b: BasicMemory<(), ()>, t: TreeBorrowsMemory)
    ensures ({
        let r = BasicMemory__leak_check(m);
        if exists|j: int| 0 <= j < m.allocations.s.len() && (#[trigger] m.allocations.s[j]).live && m.allocations.s[j].kind == AllocationKind::Heap { r is Err && r->Err_0 is MemoryLeak } else { r is Ok }
    }), BasicMemory__Memory__leak_check(b) == BasicMemory__leak_check(b), TreeBorrowsMemory__Memory__leak_check(t) == BasicMemory__leak_check(t.mem)
{ leak_loop(m.allocations, 0); }

// ---------------------------------------------------------------- allocating and releasing from Rust
pub open spec fn tr_sargs(f: FnCtxt, l: Seq<RsSpanned<RsOperand>>, out: Seq<ValueExpr>, n: int) -> bool { out.len() >= n && forall|i: int| 0 <= i < n ==> tr_rop(f, l[i].node, #[trigger] out[i]) }
pub proof fn mir_intrinsic_args(f: FnCtxt, l: List<RsSpanned<RsOperand>>, i: int, g: FnCtxt, acc: List<ValueExpr>)
    requires FnCtxt__translate_call__loop2_ok(l, i, g, acc), 0 <= i <= l.s.len(), acc.s.len() == i, same_fn(f, g), tr_sargs(f, l.s, acc.s, i)
    ensures ({ let (h, out) = FnCtxt__translate_call__loop2(l, i, g, acc); same_fn(f, h) && out.s.len() == l.s.len() && tr_sargs(f, l.s, out.s, l.s.len() as int) })
    decreases l.s.len() - i
{
    reveal_with_fuel(FnCtxt__translate_call__loop2, 2); reveal_with_fuel(FnCtxt__translate_call__loop2_ok, 2);
    if i < l.s.len() {
        let a = FnCtxt__translate_operand(g, l.s[i].node, l.s[i].span);
        let acc2 = List { s: acc.s.push(a.1) };
        assert forall|j: int| 0 <= j < i + 1 implies tr_rop(f, l.s[j].node, #[trigger] acc2.s[j]) by { if j < i { assert(acc2.s[j] == acc.s[j]); } }
        mir_intrinsic_args(f, l, i + 1, a.0, acc2);
    }
}
/// the function called is one of the machine's own
pub open spec fn own_fn(f: FnCtxt, func: RsOperand, sp: RsSpan, name: Txt) -> bool {
    let k = RsTy__kind(RsOperand__ty(func, f.body, f.cx.tcx));
    k is FnDef && !(RsInstance__expect_resolve(f.cx.tcx, Ctxt__typing_env(f.cx), k->FnDef_0, k->FnDef_1, sp).def is Intrinsic)
    && RsSym__as_str(RsTyCtxt__crate_name(f.cx.tcx, k->FnDef_0.krate)) == txt__intrinsics() && RsSym__as_str(RsTyCtxt__item_name(f.cx.tcx, k->FnDef_0)) == name
}
/// the allocation functions become the machine operations they name, with every argument at its position
pub proof fn mir_intrinsic(f: FnCtxt, func: RsOperand, args: List<RsSpanned<RsOperand>>, dest: RsPlace, target: Option<int>, sp: RsSpan, u: RsUnwindAction, bb: RsBasicBlockData, name: Txt)
    requires FnCtxt__translate_call_ok(f, func, args, dest, target, sp, u, bb), own_fn(f, func, sp, name), name == txt__allocate() || name == txt__deallocate()
    ensures ({
        let r = FnCtxt__translate_call(f, func, args, dest, target, sp, u, bb).1; let t = r.terminator; let op = t->Intrinsic_intrinsic;
        &&& t is Intrinsic && r.stmts.s.len() == 0
        &&& (name == txt__allocate() ==> op is Allocate)
        &&& (name == txt__deallocate() ==> op is Deallocate)
        &&& t->Intrinsic_arguments.s.len() == args.s.len() && tr_sargs(f, args.s, t->Intrinsic_arguments.s, args.s.len() as int)
        &&& tr_rplace(f, dest, t->Intrinsic_ret)
        &&& (target is None ==> t->Intrinsic_next_block is None) && (target is Some ==> f.bb_name_map.m.contains_key(target->0) && t->Intrinsic_next_block == Some(f.bb_name_map.m[target->0]))
    })
{
    reveal(FnCtxt__translate_call); reveal(FnCtxt__translate_call_ok);
    assert(same_fn(f, f));
    let z = List__new::<ValueExpr>();
    mir_intrinsic_args(f, args, 0, f, z);
}
