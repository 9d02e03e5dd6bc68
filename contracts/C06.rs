// C06: allocation hands out fresh, disjoint, aligned, uninitialised memory.

/// preconditions of an allocation request
pub open spec fn alloc_req<P, A>(m: BasicMemory<P, A>, size: Size, align: Align) -> bool {
    target_ok() && mem_inv(m) && size.raw >= 0 && is_p2(align.raw) && align.raw < addr_end()
}
/// what a successful allocation is
pub open spec fn fresh<P, A>(m: BasicMemory<P, A>, n: BasicMemory<P, A>, p: ThinPointer<(AllocId, P)>, kind: AllocationKind, size: Size, align: Align, pe: P, ae: A) -> bool {
    let k = m.allocations.s.len() as int;
    &&& n.allocations.s.len() == k + 1
    &&& forall|i: int| 0 <= i < k ==> m.allocations.s[i] == #[trigger] n.allocations.s[i]
    &&& p.provenance == Some((AllocId(k), pe))
    &&& ({ let a = n.allocations.s[k];
           a.live && a.addr == p.addr && a.kind == kind && a.align == align && alen(a) == size.raw && a.extra == ae
           && (forall|j: int| 0 <= j < size.raw ==> #[trigger] a.data.s[j] == AbstractByte::<(AllocId, P)>::Uninit)
           && 0 < a.addr && a.addr % align.raw == 0 && a.addr + size.raw < addr_end() })
    &&& forall|i: int| 0 <= i < k && (#[trigger] m.allocations.s[i]).live ==> apart(m.allocations.s[i].addr, alen(m.allocations.s[i]), p.addr, size.raw)
    &&& mem_inv(n)
}
pub proof fn lemma_p2_pos(a: int)
    requires is_p2(a)
    ensures a > 0
{ }
pub proof fn lemma_half(n: int)
    requires n >= 1
    ensures p2(n) == 2 * p2(n - 1), p2(n) / 2 == p2(n - 1), p2(n - 1) > 0, p2(n) > 0
{ lemma_p2_half(n); }

pub open spec fn wf_usize() -> IntType { IntType { signed: Signedness::Unsigned, size: T__PTR_SIZE() } }

/// BasicMemory::allocate
pub proof fn allocate<P, A>(m: BasicMemory<P, A>, kind: AllocationKind, size: Size, align: Align, pe: P, ae: A)
    requires alloc_req(m, size, align)
    ensures ({
        let (n, r) = BasicMemory__allocate(m, kind, size, align, pe, ae);
        &&& (size.raw >= addr_end() / 2 ==> is_ub(r) && n == m)
        &&& (size.raw < addr_end() / 2 ==> r is Ok || (r is Err && r->Err_0 is NdStuck && n == m))
        &&& (r is Ok ==> fresh(m, n, r->Ok_0, kind, size, align, pe, ae))
    })
{
    let w = 8 * T__PTR_SIZE().raw;
    lemma_half(w);
    lemma_int_ty(wf_usize());
    let (n, r) = BasicMemory__allocate(m, kind, size, align, pe, ae);
    lemma_distr(align.raw, w);
    axiom_stuck();
    if r is Ok {
        let p = r->Ok_0;
        let k = m.allocations.s.len() as int;
        assert(n.allocations.s == m.allocations.s.push(n.allocations.s[k]));
        assert(alen(n.allocations.s[k]) == size.raw);
        assert(0 < p.addr);
        assert(p.addr + size.raw < addr_end());
        assert(p.addr % align.raw == 0);
    }
}
pub proof fn lemma_distr(al: int, w: int)
    requires al > 0, al < p2(w), 1 <= w <= 64
    ensures distr_ok(IntDistribution { start: 1, end: p2(w), divisor: al })
{
    let e = p2(w);
    lemma_fundamental_div_mod(-1, al);
    lemma_fundamental_div_mod(-e, al);
    let q1 = (-1int) / al; let q2 = (-e) / al;
    assert(q1 == -1) by (nonlinear_arith) requires -1 == al * q1 + (-1int) % al, 0 <= (-1int) % al < al, al > 0;
    assert(q2 < -1) by (nonlinear_arith) requires -e == al * q2 + (-e) % al, 0 <= (-e) % al < al, al > 0, e > al;
}

/// allocate never panics
pub proof fn allocate_total<P, A>(m: BasicMemory<P, A>, kind: AllocationKind, size: Size, align: Align, pe: P, ae: A)
    requires alloc_req(m, size, align)
    ensures BasicMemory__allocate_ok(m, kind, size, align, pe, ae)
{
    let w = 8 * T__PTR_SIZE().raw;
    lemma_half(w);
    lemma_distr(align.raw, w);
    lemma_p2_64(w - 1);
    lemma_pow_pos(w as nat);
    lemma_int_ty(wf_usize());
}
pub proof fn lemma_p2_64(w: int)
    requires 0 <= w < 64
    ensures p2(w) <= 0x8000_0000_0000_0000
    decreases 64 - w
{
    if w < 63 { lemma_half(w + 1); lemma_p2_64(w + 1); }
    else { lemma2_to64_rest(); lemma_pow2(63); }
}

/// the memory starts empty, and the representation invariant holds
pub proof fn new_memory()
    ensures mem_inv(BasicMemory__new::<(), ()>()), mem_inv(BasicMemory__Memory__new()), mem_inv(TreeBorrowsMemory__Memory__new().mem),
        BasicMemory__Memory__new().allocations.s.len() == 0, TreeBorrowsMemory__Memory__new().mem.allocations.s.len() == 0,
{ }

/// both memory models hand out memory like that; Tree Borrows starts each allocation with a root that permits everything
pub proof fn allocate_models(b: BasicMemory<(), ()>, t: TreeBorrowsMemory, kind: AllocationKind, size: Size, align: Align)
    requires alloc_req(b, size, align), alloc_req(t.mem, size, align)
    ensures ({
        let (n, r) = BasicMemory__Memory__allocate(b, kind, size, align);
        (r is Ok ==> fresh(b, n, r->Ok_0, kind, size, align, (), ())) && (r is Err ==> n == b) && (size.raw >= addr_end() / 2 ==> is_ub(r)) && (size.raw < addr_end() / 2 ==> !is_ub(r))
    }), ({
        let (n, r) = TreeBorrowsMemory__Memory__allocate(t, kind, size, align);
        (r is Ok ==> exists|e: TreeBorrowsAllocationExtra, l: List<int>| fresh(t.mem, n.mem, r->Ok_0, kind, size, align, l, e)
            && l.s.len() == 0 && e.root.children.s.len() == 0 && e.root.protected is No && e.root.permissions.s.len() == size.raw
            && (forall|i: int| 0 <= i < size.raw ==> #[trigger] e.root.permissions.s[i] == Permission::Unprot(PermissionUnprot::Unique)))
        && (r is Err ==> n == t) && (size.raw >= addr_end() / 2 ==> is_ub(r)) && (size.raw < addr_end() / 2 ==> !is_ub(r))
    })
{
    allocate::<(), ()>(b, kind, size, align, (), ());
    let root = Node { children: List { s: Seq::empty() }, permissions: List__from_elem(Permission::Unprot(PermissionUnprot::Unique), size.raw), protected: Protected::No };
    allocate::<List<int>, TreeBorrowsAllocationExtra>(t.mem, kind, size, align, List__new::<int>(), TreeBorrowsAllocationExtra { root });
    let (n, r) = TreeBorrowsMemory__Memory__allocate(t, kind, size, align);
    if r is Ok {
        let e = n.mem.allocations.s[t.mem.allocations.s.len() as int].extra;
        let l = (r->Ok_0.provenance->0).1;
        assert(fresh(t.mem, n.mem, r->Ok_0, kind, size, align, l, e));
    }
}

/// the real target satisfies what is assumed of targets here
pub proof fn target_x86_64()
    ensures 1 <= x86_64__PTR_SIZE().raw, 8 * x86_64__PTR_SIZE().raw <= 64,
        forall|s: Size| #[trigger] x86_64__valid_size(s) <==> (-p2(8 * x86_64__PTR_SIZE().raw - 1) <= s.raw < p2(8 * x86_64__PTR_SIZE().raw - 1)),
        forall|s: Size| #[trigger] x86_64__valid_size_ok(s),
{
    let t = IntType { signed: Signedness::Signed, size: x86_64__PTR_SIZE() };
    assert(t.size.raw == 8);
    lemma_int_ty(t);
    assert forall|s: Size| #[trigger] x86_64__valid_size(s) <==> (-p2(63) <= s.raw < p2(63)) by { assert(int__in_bounds(s.raw, t.signed, t.size) <==> in_range(t, s.raw)); }
}
/// exposing a pointer's provenance and using exposed provenance are translated to the operations of that name, on the cast's operand
pub proof fn mir_exposed(f: FnCtxt, s: RsStatement)
    requires FnCtxt__translate_stmt_ok(f, s), s.kind is Assign, (s.kind->Assign_0).1 is Cast
    ensures ({
        let r = FnCtxt__translate_stmt(f, s).1;
        let (p, v) = s.kind->Assign_0;
        let k = v->Cast_0;
        k is PointerExposeProvenance || k is PointerWithExposedProvenance ==> {
            &&& r is Intrinsic && tr_rplace(f, p, r->destination) && r->arguments.s.len() == 1 && tr_rop(f, v->Cast_1, r->arguments.s[0])
            &&& k is PointerExposeProvenance ==> r->intrinsic is PointerExposeProvenance
            &&& k is PointerWithExposedProvenance ==> r->intrinsic is PointerWithExposedProvenance
        }
    })
{
    reveal(FnCtxt__translate_stmt); reveal(FnCtxt__translate_stmt_ok);
    let (p, v) = s.kind->Assign_0;
}
