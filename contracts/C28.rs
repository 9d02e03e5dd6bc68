// C28: constants and statics have the value and sharing the program gives them.

pub open spec fn gname(gs: List<(GlobalName, Global)>, i: int) -> GlobalName { gs.s[i].0 }
pub open spec fn global(gs: List<(GlobalName, Global)>, i: int) -> Global { gs.s[i].1 }
pub open spec fn gsize(g: Global) -> Size { Size { raw: g.bytes.s.len() as int } }
/// the memory after the first i globals have got their allocations
pub open spec fn given(gs: List<(GlobalName, Global)>, mem: ConcurrentMemory, i: int) -> ConcurrentMemory
    decreases i
{
    if i <= 0 { mem } else { ConcurrentMemory__allocate(given(gs, mem, i - 1), AllocationKind::Global, gsize(global(gs, i - 1)), global(gs, i - 1).align).0 }
}
/// what the memory answered for the i-th global
pub open spec fn answer(gs: List<(GlobalName, Global)>, mem: ConcurrentMemory, i: int) -> Result<ThinPointer<Prov>, TerminationInfo> {
    ConcurrentMemory__allocate(given(gs, mem, i), AllocationKind::Global, gsize(global(gs, i)), global(gs, i).align).1
}
pub open spec fn distinct_names(gs: List<(GlobalName, Global)>) -> bool {
    forall|i: int, j: int| 0 <= i < gs.s.len() && 0 <= j < gs.s.len() && i != j ==> #[trigger] gname(gs, i) != #[trigger] gname(gs, j)
}
pub proof fn allocation_loop(gs: List<(GlobalName, Global)>, i: int, mem: ConcurrentMemory, ptrs: Map<GlobalName, ThinPointer<Prov>>)
    requires 0 <= i <= gs.s.len(), distinct_names(gs)
    ensures ({
        let r = Machine__new__loop1(gs, i, given(gs, mem, i), ptrs);
        &&& (r is Cont <==> (forall|j: int| i <= j < gs.s.len() ==> (#[trigger] answer(gs, mem, j)) is Ok))
        &&& (r matches Flow::Cont((n, q)) ==> n == given(gs, mem, gs.s.len() as int)
                && (forall|j: int| i <= j < gs.s.len() ==> q.m.contains_key(#[trigger] gname(gs, j)) && q.m[gname(gs, j)] == answer(gs, mem, j)->Ok_0)
                && (forall|k: GlobalName| (forall|j: int| i <= j < gs.s.len() ==> #[trigger] gname(gs, j) != k) ==> #[trigger] q.m.contains_key(k) == ptrs.m.contains_key(k) && q.m[k] == ptrs.m[k]))
        &&& (r matches Flow::Exit(e) ==> e is Err)
    })
    decreases gs.s.len() - i
{
    if i < gs.s.len() {
        let a = answer(gs, mem, i);
        assert(global(gs, i) == gs.s[i].1);
        assert(given(gs, mem, i + 1) == ConcurrentMemory__allocate(given(gs, mem, i), AllocationKind::Global, gsize(global(gs, i)), global(gs, i).align).0);
        if a is Ok {
            let q = Map { m: ptrs.m.insert(gname(gs, i), a->Ok_0) };
            allocation_loop(gs, i + 1, mem, q);
            let r = Machine__new__loop1(gs, i, given(gs, mem, i), ptrs);
            assert(r == Machine__new__loop1(gs, i + 1, given(gs, mem, i + 1), q));
            assert forall|j: int| i < j < gs.s.len() implies #[trigger] gname(gs, j) != gname(gs, i) by { }
            assert(r is Cont <==> (forall|j: int| i + 1 <= j < gs.s.len() ==> (#[trigger] answer(gs, mem, j)) is Ok));
            if r is Cont {
                let qq = (r->Cont_0).1;
                let k0 = gname(gs, i);
                assert(q.m.contains_key(k0) && q.m[k0] == a->Ok_0);
                assert(forall|j: int| i + 1 <= j < gs.s.len() ==> #[trigger] gname(gs, j) != k0);
                assert(qq.m.contains_key(k0) == q.m.contains_key(k0));
                assert(qq.m[k0] == q.m[k0]);
                assert(qq.m.contains_key(gname(gs, i)) && qq.m[gname(gs, i)] == a->Ok_0);
                assert forall|j: int| i <= j < gs.s.len() implies qq.m.contains_key(#[trigger] gname(gs, j)) && qq.m[gname(gs, j)] == answer(gs, mem, j)->Ok_0 by { if j == i { } }
                assert forall|j: int| i <= j < gs.s.len() implies (#[trigger] answer(gs, mem, j)) is Ok by { if j == i { } }
                assert forall|k: GlobalName| (forall|j: int| i <= j < gs.s.len() ==> #[trigger] gname(gs, j) != k) implies #[trigger] qq.m.contains_key(k) == ptrs.m.contains_key(k) && qq.m[k] == ptrs.m[k] by {
                    assert(k != gname(gs, i));
                }
            }
        }
    }
}
/// the bytes of pointer p as memory holds them
pub open spec fn ptr_bytes(p: ThinPointer<Prov>) -> Seq<AbstractByte<Prov>> { encode_ptr(p).s }
pub open spec fn raw_byte(b: Option<u8>) -> AbstractByte<Prov> { match b { Some(x) => AbstractByte::Init(x, None), None => AbstractByte::Uninit } }
/// the pointer a relocation stands for: into its global, at its offset, with the global's provenance
pub open spec fn target(r: Relocation, ptrs: Map<GlobalName, ThinPointer<Prov>>) -> ThinPointer<Prov> {
    ThinPointer { addr: int__bring_in_bounds(ptrs.m[r.name].addr + r.offset.raw, Signedness::Unsigned, T__PTR_SIZE()), provenance: ptrs.m[r.name].provenance }
}
pub open spec fn rel(rs: List<(Size, Relocation)>, k: int) -> (Size, Relocation) { rs.s[k] }
pub open spec fn covers(rs: List<(Size, Relocation)>, ptrs: Map<GlobalName, ThinPointer<Prov>>, k: int, j: int) -> bool {
    rel(rs, k).0.raw <= j < rel(rs, k).0.raw + ptr_bytes(target(rel(rs, k).1, ptrs)).len()
}
/// byte j after the relocations from the i-th on: the last one that covers it decides
pub open spec fn decided(rs: List<(Size, Relocation)>, ptrs: Map<GlobalName, ThinPointer<Prov>>, i: int, j: int, b: AbstractByte<Prov>) -> AbstractByte<Prov>
    decreases rs.s.len() - i
{
    if i < 0 || i >= rs.s.len() { b }
    else { decided(rs, ptrs, i + 1, j, if covers(rs, ptrs, i, j) { ptr_bytes(target(rel(rs, i).1, ptrs))[j - rel(rs, i).0.raw] } else { b }) }
}
pub proof fn relocation_loop(rs: List<(Size, Relocation)>, i: int, ptrs: Map<GlobalName, ThinPointer<Prov>>, bytes: List<AbstractByte<Prov>>)
    requires 0 <= i <= rs.s.len()
    ensures ({
        let r = Machine__new__loop3(rs, i, ptrs, bytes);
        r.s.len() == bytes.s.len() && forall|j: int| 0 <= j < bytes.s.len() ==> #[trigger] r.s[j] == decided(rs, ptrs, i, j, bytes.s[j])
    })
    decreases rs.s.len() - i
{
    if i < rs.s.len() {
        let n = List__write_subslice_at_index(bytes, Size__bytes(rs.s[i].0), encode_ptr(target(rs.s[i].1, ptrs)));
        assert(Machine__new__loop3(rs, i, ptrs, bytes) == Machine__new__loop3(rs, i + 1, ptrs, n));
        relocation_loop(rs, i + 1, ptrs, n);
        assert forall|j: int| 0 <= j < bytes.s.len() implies #[trigger] Machine__new__loop3(rs, i, ptrs, bytes).s[j] == decided(rs, ptrs, i, j, bytes.s[j]) by {
            assert(n.s[j] == if covers(rs, ptrs, i, j) { ptr_bytes(target(rel(rs, i).1, ptrs))[j - rel(rs, i).0.raw] } else { bytes.s[j] });
        }
    }
}
/// the initial contents of a global: the bytes the compiler gave, with pointers where it asks for them
pub open spec fn contents(g: Global, ptrs: Map<GlobalName, ThinPointer<Prov>>) -> List<AbstractByte<Prov>> {
    List { s: Seq::new(g.bytes.s.len(), |j: int| decided(g.relocations, ptrs, 0, j, raw_byte(g.bytes.s[j]))) }
}
pub proof fn global_contents(g: Global, ptrs: Map<GlobalName, ThinPointer<Prov>>, f: spec_fn(Option<u8>) -> AbstractByte<Prov>)
    requires forall|b: Option<u8>| #[trigger] f(b) == raw_byte(b)
    ensures Machine__new__loop3(g.relocations, 0, ptrs, List__map(g.bytes, f)) == contents(g, ptrs)
{
    relocation_loop(g.relocations, 0, ptrs, List__map(g.bytes, f));
    let r = Machine__new__loop3(g.relocations, 0, ptrs, List__map(g.bytes, f));
    assert forall|j: int| 0 <= j < g.bytes.s.len() implies #[trigger] r.s[j] == contents(g, ptrs).s[j] by { assert(List__map(g.bytes, f).s[j] == raw_byte(g.bytes.s[j])); }
    assert(r.s =~= contents(g, ptrs).s);
}
/// relocations that do not overlap each appear whole, and every other byte is the one the compiler gave
pub open spec fn separate(rs: List<(Size, Relocation)>, ptrs: Map<GlobalName, ThinPointer<Prov>>) -> bool {
    forall|k: int, l: int, j: int| 0 <= k < rs.s.len() && 0 <= l < rs.s.len() && k != l ==> !(#[trigger] covers(rs, ptrs, k, j) && #[trigger] covers(rs, ptrs, l, j))
}
pub proof fn undecided(rs: List<(Size, Relocation)>, ptrs: Map<GlobalName, ThinPointer<Prov>>, i: int, j: int, b: AbstractByte<Prov>)
    requires 0 <= i <= rs.s.len(), forall|k: int| i <= k < rs.s.len() ==> !#[trigger] covers(rs, ptrs, k, j)
    ensures decided(rs, ptrs, i, j, b) == b
    decreases rs.s.len() - i
{ if i < rs.s.len() { undecided(rs, ptrs, i + 1, j, b); } }
pub proof fn decided_by(rs: List<(Size, Relocation)>, ptrs: Map<GlobalName, ThinPointer<Prov>>, i: int, k: int, j: int, b: AbstractByte<Prov>)
    requires 0 <= i <= k < rs.s.len(), covers(rs, ptrs, k, j), separate(rs, ptrs)
    ensures decided(rs, ptrs, i, j, b) == ptr_bytes(target(rel(rs, k).1, ptrs))[j - rel(rs, k).0.raw]
    decreases rs.s.len() - i
{
    if i == k { undecided(rs, ptrs, i + 1, j, ptr_bytes(target(rel(rs, k).1, ptrs))[j - rel(rs, k).0.raw]); }
    else { decided_by(rs, ptrs, i + 1, k, j, b); }
}
pub proof fn exact_contents(g: Global, ptrs: Map<GlobalName, ThinPointer<Prov>>)
    requires separate(g.relocations, ptrs)
    ensures contents(g, ptrs).s.len() == g.bytes.s.len(),
        forall|k: int, j: int| 0 <= k < g.relocations.s.len() && 0 <= j < g.bytes.s.len() && #[trigger] covers(g.relocations, ptrs, k, j) ==> contents(g, ptrs).s[j] == ptr_bytes(target(rel(g.relocations, k).1, ptrs))[j - rel(g.relocations, k).0.raw],
        forall|j: int| 0 <= j < g.bytes.s.len() && (forall|k: int| 0 <= k < g.relocations.s.len() ==> !#[trigger] covers(g.relocations, ptrs, k, j)) ==> #[trigger] contents(g, ptrs).s[j] == raw_byte(g.bytes.s[j]),
{
    assert forall|k: int, j: int| 0 <= k < g.relocations.s.len() && 0 <= j < g.bytes.s.len() && #[trigger] covers(g.relocations, ptrs, k, j) implies contents(g, ptrs).s[j] == ptr_bytes(target(rel(g.relocations, k).1, ptrs))[j - rel(g.relocations, k).0.raw] by {
        decided_by(g.relocations, ptrs, 0, k, j, raw_byte(g.bytes.s[j]));
    }
    assert forall|j: int| 0 <= j < g.bytes.s.len() && (forall|k: int| 0 <= k < g.relocations.s.len() ==> !#[trigger] covers(g.relocations, ptrs, k, j)) implies #[trigger] contents(g, ptrs).s[j] == raw_byte(g.bytes.s[j]) by {
        undecided(g.relocations, ptrs, 0, j, raw_byte(g.bytes.s[j]));
    }
}
/// the memory after the globals from the i-th on have got their contents, each through its own pointer
pub open spec fn filled(gs: List<(GlobalName, Global)>, ptrs: Map<GlobalName, ThinPointer<Prov>>, mem: ConcurrentMemory, i: int) -> ConcurrentMemory
    decreases gs.s.len() - i
{
    if i < 0 || i >= gs.s.len() { mem }
    else { filled(gs, ptrs, ConcurrentMemory__store(mem, ptrs.m[gname(gs, i)], contents(global(gs, i), ptrs), global(gs, i).align, Atomicity::None).0, i + 1) }
}
pub proof fn fill_loop(gs: List<(GlobalName, Global)>, i: int, ptrs: Map<GlobalName, ThinPointer<Prov>>, mem: ConcurrentMemory)
    requires 0 <= i <= gs.s.len()
    ensures Machine__new__loop2(gs, i, ptrs, mem) == filled(gs, ptrs, mem, i)
    decreases gs.s.len() - i
{
    if i < gs.s.len() {
        let g = gs.s[i].1;
        assert forall|f: spec_fn(Option<u8>) -> AbstractByte<Prov>| (forall|b: Option<u8>| #[trigger] f(b) == raw_byte(b)) implies Machine__new__loop3(g.relocations, 0, ptrs, #[trigger] List__map(g.bytes, f)) == contents(g, ptrs) by { global_contents(g, ptrs, f); }
        fill_loop(gs, i + 1, ptrs, ConcurrentMemory__store(mem, ptrs.m[gname(gs, i)], contents(g, ptrs), g.align, Atomicity::None).0);
    }
}
pub open spec fn fn_answer(fs: List<(FnName, Function)>, mem: ConcurrentMemory) -> Result<ThinPointer<Prov>, TerminationInfo> { ConcurrentMemory__allocate(mem, AllocationKind::Function, Size__ZERO(), Align__ONE()).1 }
/// every function and every vtable gets a pointer of its own; names not in the program get none
pub proof fn function_loop(fs: List<(FnName, Function)>, i: int, mem: ConcurrentMemory, ptrs: Map<FnName, ThinPointer<Prov>>)
    requires 0 <= i <= fs.s.len()
    ensures ({
        let r = Machine__new__loop4(fs, i, mem, ptrs);
        &&& (r matches Flow::Cont((n, q)) ==> forall|k: FnName| #[trigger] q.m.contains_key(k) <==> ptrs.m.contains_key(k) || exists|j: int| i <= j < fs.s.len() && (#[trigger] fs.s[j]).0 == k)
        &&& (r matches Flow::Exit(e) ==> e is Err)
    })
    decreases fs.s.len() - i
{
    if i < fs.s.len() {
        let (m, a) = ConcurrentMemory__allocate(mem, AllocationKind::Function, Size__ZERO(), Align__ONE());
        if a is Ok {
            let q = Map { m: ptrs.m.insert(fs.s[i].0, a->Ok_0) };
            function_loop(fs, i + 1, m, q);
            let r = Machine__new__loop4(fs, i, mem, ptrs);
            assert(r == Machine__new__loop4(fs, i + 1, m, q));
            if r is Cont {
                let qq = (r->Cont_0).1;
                assert forall|k: FnName| #[trigger] qq.m.contains_key(k) <==> ptrs.m.contains_key(k) || exists|j: int| i <= j < fs.s.len() && (#[trigger] fs.s[j]).0 == k by {
                    assert(fs.s[i].0 == k || q.m.contains_key(k) == ptrs.m.contains_key(k));
                    if exists|j: int| i <= j < fs.s.len() && (#[trigger] fs.s[j]).0 == k { let j = choose|j: int| i <= j < fs.s.len() && (#[trigger] fs.s[j]).0 == k; if j == i { assert(q.m.contains_key(k)); } }
                }
            }
        }
    }
}
pub proof fn vtable_loop(fs: List<(VTableName, VTable)>, i: int, mem: ConcurrentMemory, ptrs: Map<VTableName, ThinPointer<Prov>>)
    requires 0 <= i <= fs.s.len()
    ensures ({
        let r = Machine__new__loop5(fs, i, mem, ptrs);
        &&& (r matches Flow::Cont((n, q)) ==> forall|k: VTableName| #[trigger] q.m.contains_key(k) <==> ptrs.m.contains_key(k) || exists|j: int| i <= j < fs.s.len() && (#[trigger] fs.s[j]).0 == k)
        &&& (r matches Flow::Exit(e) ==> e is Err)
    })
    decreases fs.s.len() - i
{
    if i < fs.s.len() {
        let (m, a) = ConcurrentMemory__allocate(mem, AllocationKind::VTable, Size__ZERO(), Align__ONE());
        if a is Ok {
            let q = Map { m: ptrs.m.insert(fs.s[i].0, a->Ok_0) };
            vtable_loop(fs, i + 1, m, q);
            let r = Machine__new__loop5(fs, i, mem, ptrs);
            assert(r == Machine__new__loop5(fs, i + 1, m, q));
            if r is Cont {
                let qq = (r->Cont_0).1;
                assert forall|k: VTableName| #[trigger] qq.m.contains_key(k) <==> ptrs.m.contains_key(k) || exists|j: int| i <= j < fs.s.len() && (#[trigger] fs.s[j]).0 == k by {
                    assert(fs.s[i].0 == k || q.m.contains_key(k) == ptrs.m.contains_key(k));
                    if exists|j: int| i <= j < fs.s.len() && (#[trigger] fs.s[j]).0 == k { let j = choose|j: int| i <= j < fs.s.len() && (#[trigger] fs.s[j]).0 == k; if j == i { assert(q.m.contains_key(k)); } }
                }
            }
        }
    }
}
/// only memory differs
pub open spec fn same_but_mem(m: Machine, n: Machine) -> bool { n == (Machine { mem: n.mem, ..m }) }

pub proof fn args_live_loop(l: List<LocalName>, i: int, m: Machine, f: StackFrame)
    ensures ({
        let r = Machine__create_frame__loop1(l, i, m, f);
        &&& (r is Cont ==> same_but_mem(m, (r->Cont_0).0) && (r->Cont_0).1 == (StackFrame { locals: (r->Cont_0).1.locals, ..f }))
        &&& (r is Exit ==> same_but_mem(m, (r->Exit_0).0) && (r->Exit_0).1 is Err)
    })
    decreases l.s.len() - i
{
    if 0 <= i && i < l.s.len() {
        let (f2, mem, r) = StackFrame__storage_live(f, m.mem, l.s[i]);
        if r is Ok { args_live_loop(l, i + 1, Machine { mem, ..m }, f2); }
    }
}
pub proof fn args_store_loop(l: List<(LocalName, (Value, Type))>, i: int, func: Function, f: StackFrame, m: Machine)
    ensures ({
        let r = Machine__create_frame__loop2(l, i, func, f, m);
        &&& (r is Cont ==> same_but_mem(m, r->Cont_0))
        &&& (r is Exit ==> same_but_mem(m, (r->Exit_0).0) && is_ub((r->Exit_0).1))
    })
    decreases l.s.len() - i
{
    if 0 <= i && i < l.s.len() {
        let (local, (v, t)) = l.s[i];
        let align = LayoutStrategy__expect_align(Type__layout(t), Str);
        let n = Machine__typed_store(m, Map__index_at::<LocalName, ThinPointer<Prov>>(f.locals, local), v, t, align, Atomicity::None).0;
        args_store_loop(l, i + 1, func, f, n);
    }
}
/// setting up a frame touches memory only, and the frame starts at the function's first statement
pub proof fn create_frame(m: Machine, func: Function, act: StackPopAction, conv: CallingConvention, ret: Type, args: List<(Value, Type)>)
    ensures ({
        let (n, r) = Machine__create_frame(m, func, act, conv, ret, args);
        &&& same_but_mem(m, n)
        &&& (r is Ok ==> r->Ok_0.func == func && r->Ok_0.next_block == func.start && r->Ok_0.next_stmt == 0 && r->Ok_0.stack_pop_action == act)
        &&& (r is Ok ==> conv == func.calling_convention && args.s.len() == func.args.s.len())
    })
{
    let f0 = StackFrame { func, locals: Map__new::<LocalName, ThinPointer<Prov>>(), stack_pop_action: act, next_block: func.start, next_stmt: 0int, extra: MemM__new_call() };
    let (f1, mem, r1) = StackFrame__storage_live(f0, m.mem, func.ret);
    let m1 = Machine { mem, ..m };
    args_live_loop(func.args, 0, m1, f1);
    match Machine__create_frame__loop1(func.args, 0, m1, f1) {
        Flow::Cont((m2, f2)) => { args_store_loop(List__zip::<LocalName, (Value, Type)>(func.args, args), 0, func, f2, m2); }
        _ => { }
    }
}
/// a machine starts with one allocation for every global (of exactly its size and alignment), filled with exactly its contents, and keeps the pointer for the whole run
pub proof fn start(p: Program, out: DynWrite, err: DynWrite)
    requires p.globals.m.dom().finite(), p.functions.m.dom().finite(), p.vtables.m.dom().finite()
    ensures ({
        let gs = Map__iter(p.globals);
        let m0 = ConcurrentMemory__new();
        let n = gs.s.len() as int;
        Machine__new(p, out, err) matches Ok(m) ==> {
            &&& m.prog == p && m.stdout == out && m.stderr == err
            &&& m.threads.s.len() == 1 && m.threads.s[0].stack.s.len() == 1 && m.threads.s[0].stack.s[0].func == p.functions.m[p.start] && m.active_thread == 0
            &&& (forall|g: GlobalName| #[trigger] m.global_ptrs.m.contains_key(g) <==> p.globals.m.contains_key(g))
            &&& (forall|i: int| 0 <= i < n ==> (#[trigger] answer(gs, m0, i)) is Ok && m.global_ptrs.m[gname(gs, i)] == answer(gs, m0, i)->Ok_0 && global(gs, i) == p.globals.m[gname(gs, i)])
            &&& (forall|f: FnName| #[trigger] m.fn_ptrs.m.contains_key(f) <==> p.functions.m.contains_key(f))
            &&& (forall|v: VTableName| #[trigger] m.vtable_ptrs.m.contains_key(v) <==> p.vtables.m.contains_key(v))
            &&& Machine__new__loop4(Map__iter(p.functions), 0, filled(gs, m.global_ptrs, given(gs, m0, n), 0), Map__new()) is Cont
        }
    })
{
    let gs = Map__iter(p.globals);
    let m0 = ConcurrentMemory__new();
    let n = gs.s.len() as int;
    let ks = Map__keys(p.globals).s;
    broadcast use axiom_map_keys;
    assert(distinct_names(gs)) by {
        assert forall|i: int, j: int| 0 <= i < gs.s.len() && 0 <= j < gs.s.len() && i != j implies #[trigger] gname(gs, i) != #[trigger] gname(gs, j) by { assert(gname(gs, i) == ks[i] && gname(gs, j) == ks[j]); }
    }
    allocation_loop(gs, 0, m0, Map__new());
    let r1 = Machine__new__loop1(gs, 0, m0, Map__new());
    assert(given(gs, m0, 0) == m0);
    if r1 is Cont {
        let (m1, q) = r1->Cont_0;
        fill_loop(gs, 0, q, m1);
        let m2 = filled(gs, q, m1, 0);
        let fs = Map__iter(p.functions);
        function_loop(fs, 0, m2, Map__new());
        let r4 = Machine__new__loop4(fs, 0, m2, Map__new());
        if r4 is Cont {
            let vs = Map__iter(p.vtables);
            vtable_loop(vs, 0, (r4->Cont_0).0, Map__new());
            let fq = (r4->Cont_0).1;
            assert forall|f: FnName| #[trigger] fq.m.contains_key(f) <==> p.functions.m.contains_key(f) by {
                if p.functions.m.contains_key(f) { assert(Map__keys(p.functions).s.contains(f)); assert(fs.s[Map__keys(p.functions).s.index_of(f)].0 == f); }
                if exists|j: int| 0 <= j < fs.s.len() && (#[trigger] fs.s[j]).0 == f { let j = choose|j: int| 0 <= j < fs.s.len() && (#[trigger] fs.s[j]).0 == f; assert(Map__keys(p.functions).s[j] == f); assert(Map__keys(p.functions).s.contains(f)); }
            }
            let r5 = Machine__new__loop5(vs, 0, (r4->Cont_0).0, Map__new());
            if r5 is Cont {
                let vq = (r5->Cont_0).1;
                let machine = Machine { prog: p, mem: (r5->Cont_0).0, intptrcast: IntPtrCast__new::<Prov>(), global_ptrs: q, fn_ptrs: fq, vtable_ptrs: vq, threads: List__new::<Thread>(), locks: List__new::<LockState>(), active_thread: 0int, synchronized_threads: Set__new::<int>(), stdout: out, stderr: err };
                create_frame(machine, p.functions.m[p.start], StackPopAction::BottomOfStack, CallingConvention::C, unit_type(), List__new());
                let (n1, r6) = Machine__new_thread(machine, p.functions.m[p.start], List__new());
                if r6 is Ok && Program__check_wf(p) is Ok {
                    assert(Machine__new(p, out, err) == Ok::<Machine, TerminationInfo>(n1));
                    assert(n1.prog == p && n1.global_ptrs == q && n1.fn_ptrs == fq && n1.vtable_ptrs == vq);
                    assert(n1.threads.s.len() == 1 && n1.threads.s[0].stack.s.len() == 1);
                }
                assert forall|f: VTableName| #[trigger] vq.m.contains_key(f) <==> p.vtables.m.contains_key(f) by {
                    if p.vtables.m.contains_key(f) { assert(Map__keys(p.vtables).s.contains(f)); assert(vs.s[Map__keys(p.vtables).s.index_of(f)].0 == f); }
                    if exists|j: int| 0 <= j < vs.s.len() && (#[trigger] vs.s[j]).0 == f { let j = choose|j: int| 0 <= j < vs.s.len() && (#[trigger] vs.s[j]).0 == f; assert(Map__keys(p.vtables).s[j] == f); assert(Map__keys(p.vtables).s.contains(f)); }
                }
            }
        }
        assert forall|g: GlobalName| #[trigger] q.m.contains_key(g) <==> p.globals.m.contains_key(g) by {
            if p.globals.m.contains_key(g) { assert(ks.contains(g)); assert(gname(gs, ks.index_of(g)) == g); }
            else { assert forall|j: int| 0 <= j < gs.s.len() implies #[trigger] gname(gs, j) != g by { assert(ks[j] == gname(gs, j)); assert(ks.contains(ks[j])); } }
        }
    }
}
/// a constant pointer is the one of the allocation it names, at its offset, with that allocation's provenance; other constants are their value; evaluating one changes nothing
pub proof fn constants(m: Machine, c: Constant)
    ensures ({
        let (n, r) = Machine__eval_constant(m, c);
        n == m && r is Ok && match c {
            Constant::Int(i) => r->Ok_0 == Value::Int(i),
            Constant::Bool(b) => r->Ok_0 == Value::Bool(b),
            Constant::GlobalPointer(x) => r->Ok_0 == Value::Ptr(Pointer { thin_pointer: target(x, m.global_ptrs), metadata: None::<PointerMeta<Prov>> }),
            Constant::FnPointer(f) => r->Ok_0 == Value::Ptr(Pointer { thin_pointer: m.fn_ptrs.m[f], metadata: None::<PointerMeta<Prov>> }),
            Constant::VTablePointer(v) => r->Ok_0 == Value::Ptr(Pointer { thin_pointer: m.vtable_ptrs.m[v], metadata: None::<PointerMeta<Prov>> }),
            Constant::PointerWithoutProvenance(a) => r->Ok_0 == Value::Ptr(Pointer { thin_pointer: ThinPointer { addr: a, provenance: None::<Prov> }, metadata: None::<PointerMeta<Prov>> }),
        }
    })
{ }
/// a relocation is accepted exactly if it stays within (or one past) a global of the program; a constant exactly if it is a value of its type
pub proof fn relocations_in_bounds(r: Relocation, gs: Map<GlobalName, Global>)
    ensures Relocation__check_wf(r, gs) is Ok <==> gs.m.contains_key(r.name) && r.offset.raw <= gs.m[r.name].bytes.s.len()
{ }
pub open spec fn rel_ok(p: Program, g: Global, k: int) -> bool {
    let (o, r) = rel(g.relocations, k);
    o.raw + T__PTR_SIZE().raw <= g.bytes.s.len() && p.globals.m.contains_key(r.name) && r.offset.raw <= p.globals.m[r.name].bytes.s.len()
}
pub proof fn relocations_checked(p: Program, g: Global, i: int)
    requires 0 <= i <= g.relocations.s.len()
    ensures ({
        let r = Program__check_wf__loop4(g.relocations, i, p, gsize(g));
        &&& (r is Cont <==> forall|k: int| i <= k < g.relocations.s.len() ==> #[trigger] rel_ok(p, g, k))
        &&& (r is Exit ==> r->Exit_0 is Err)
    })
    decreases g.relocations.s.len() - i
{
    if i < g.relocations.s.len() {
        relocations_checked(p, g, i + 1);
        let (o, r) = g.relocations.s[i];
        relocations_in_bounds(r, p.globals);
        assert(rel(g.relocations, i) == g.relocations.s[i]);
        let x = Program__check_wf__loop4(g.relocations, i, p, gsize(g));
        let y = Program__check_wf__loop4(g.relocations, i + 1, p, gsize(g));
        if rel_ok(p, g, i) {
            assert(x == y);
            if y is Cont { assert forall|k: int| i <= k < g.relocations.s.len() implies #[trigger] rel_ok(p, g, k) by { if k == i { } } }
        } else { assert(x is Exit && x->Exit_0 is Err); }
    }
}
pub proof fn globals_checked(p: Program, gs: List<(GlobalName, Global)>, i: int)
    requires 0 <= i <= gs.s.len()
    ensures ({
        let r = Program__check_wf__loop3(gs, i, p);
        &&& (r is Cont <==> forall|j: int, k: int| i <= j < gs.s.len() && 0 <= k < global(gs, j).relocations.s.len() ==> #[trigger] rel_ok(p, global(gs, j), k))
        &&& (r is Exit ==> r->Exit_0 is Err)
    })
    decreases gs.s.len() - i
{
    if i < gs.s.len() {
        let g = gs.s[i].1;
        assert(global(gs, i) == g);
        relocations_checked(p, g, 0);
        globals_checked(p, gs, i + 1);
        let x = Program__check_wf__loop3(gs, i, p);
        let y = Program__check_wf__loop3(gs, i + 1, p);
        if Program__check_wf__loop4(g.relocations, 0, p, gsize(g)) is Cont {
            assert(x == y);
            if y is Cont {
                assert forall|j: int, k: int| i <= j < gs.s.len() && 0 <= k < global(gs, j).relocations.s.len() implies #[trigger] rel_ok(p, global(gs, j), k) by { if j == i { } }
            }
        } else {
            let k = choose|k: int| 0 <= k < g.relocations.s.len() && !#[trigger] rel_ok(p, g, k);
            assert(!rel_ok(p, global(gs, i), k));
        }
    }
}
pub proof fn vtables_reject(p: Program, vs: List<(VTableName, VTable)>, i: int)
    ensures Program__check_wf__loop1(vs, i, p) is Exit ==> Program__check_wf__loop1(vs, i, p)->Exit_0 is Err
    decreases vs.s.len() - i
{ if 0 <= i && i < vs.s.len() { vtables_reject(p, vs, i + 1); } }
pub proof fn functions_reject(p: Program, fs: List<Function>, i: int)
    ensures Program__check_wf__loop2(fs, i, p) is Exit ==> Program__check_wf__loop2(fs, i, p)->Exit_0 is Err
    decreases fs.s.len() - i
{ if 0 <= i && i < fs.s.len() { functions_reject(p, fs, i + 1); } }
/// a program that is accepted has every relocation inside its own global and inside (or one past) the one it points to: the machine never indexes past either
pub proof fn accepted_relocations(p: Program)
    requires p.globals.m.dom().finite(), Program__check_wf(p) is Ok
    ensures forall|j: int, k: int| 0 <= j < Map__iter(p.globals).s.len() && 0 <= k < global(Map__iter(p.globals), j).relocations.s.len() ==> #[trigger] rel_ok(p, global(Map__iter(p.globals), j), k)
{
    globals_checked(p, Map__iter(p.globals), 0);
    vtables_reject(p, Map__iter(p.vtables), 0);
    functions_reject(p, Map__values::<FnName, Function>(p.functions), 0);
}

// ---------------------------------------------------------------- the MIR translation of constants and statics
/// the bytes of a constant allocation: what the compiler evaluated, except where it is uninitialised
pub open spec fn const_byte(a: RsAllocation, raw: List<u8>, i: int) -> Option<u8> {
    if RsInitMask__get(RsAllocation__init_mask(a), RsSize__from_bytes(i)) { Some(raw.s[i]) } else { None }
}
pub proof fn mir_init_mask(a: RsAllocation, raw: List<u8>, i: int, bytes: List<Option<u8>>)
    requires 0 <= i <= raw.s.len(), bytes.s.len() == raw.s.len(), forall|j: int| 0 <= j < raw.s.len() ==> #[trigger] bytes.s[j] == if j < i { const_byte(a, raw, j) } else { Some(raw.s[j]) }
    ensures ({
        let r = FnCtxt__translate_const_allocation__loop1(raw.s.len() as int, i, a, bytes);
        r.s.len() == raw.s.len() && forall|j: int| 0 <= j < raw.s.len() ==> #[trigger] r.s[j] == const_byte(a, raw, j)
    })
    decreases raw.s.len() - i
{
    FnCtxt__translate_const_allocation__loop1__def(raw.s.len() as int, i, a, bytes);
    if i < raw.s.len() {
        let b2 = List { s: bytes.s.update(i, const_byte(a, raw, i)) };
        assert(b2.s =~= List__set::<Option<u8>>(bytes, i, const_byte(a, raw, i)).s);
        mir_init_mask(a, raw, i + 1, b2);
    }
}
/// the offset a pointer inside a constant has within its target
pub open spec fn inner_offset(bytes: List<Option<u8>>, at: int) -> RsSize {
    let raw = List { s: Seq::new(T__PTR_SIZE().raw as nat, |j: int| bytes.s[at + j]->0) };
    RsSize__from_bytes(Endianness__decode(T__ENDIANNESS(), Signedness::Unsigned, raw))
}
/// the pointer at one place of a constant: at the same place, into the target allocation, at the offset the bytes say
pub open spec fn points(f: FnCtxt, bytes: List<Option<u8>>, p: (RsSize, RsCtfeProvenance), r: (Size, Relocation)) -> bool {
    &&& r.0 == mini__translate_size(p.0)
    &&& exists|st: FnCtxt| st.cx.tcx == f.cx.tcx && r.1 == (#[trigger] FnCtxt__translate_relocation(st, RsCtfeProvenance__alloc_id(p.1), inner_offset(bytes, RsSize__bytes_usize(p.0)))).1
}
pub open spec fn all_point(f: FnCtxt, bytes: List<Option<u8>>, l: Seq<(RsSize, RsCtfeProvenance)>, out: Seq<(Size, Relocation)>, n: int) -> bool {
    out.len() >= n && forall|j: int| 0 <= j < n ==> #[trigger] points(f, bytes, l[j], out[j])
}
pub proof fn mir_relocations(f: FnCtxt, l: List<(RsSize, RsCtfeProvenance)>, i: int, bytes: List<Option<u8>>, g: FnCtxt, acc: List<(Size, Relocation)>)
    requires FnCtxt__translate_const_allocation__loop2_ok(l, i, bytes, g, acc), g.cx.tcx == f.cx.tcx, 0 <= i <= l.s.len(), acc.s.len() == i, all_point(f, bytes, l.s, acc.s, i), T__PTR_SIZE().raw >= 0
    ensures ({ let (h, out) = FnCtxt__translate_const_allocation__loop2(l, i, bytes, g, acc); out.s.len() == l.s.len() && all_point(f, bytes, l.s, out.s, l.s.len() as int) })
    decreases l.s.len() - i
{
    FnCtxt__translate_const_allocation__loop2__def(l, i, bytes, g, acc); FnCtxt__translate_const_allocation__loop2_ok__def(l, i, bytes, g, acc);
    if i < l.s.len() {
        let (o, a) = l.s[i];
        let at = RsSize__bytes_usize(o);
        let off = inner_offset(bytes, at);
        let raw = List__map(List__iter::<Option<u8>>(List__subslice_with_length::<Option<u8>>(bytes, at, T__PTR_SIZE().raw)), |x: Option<u8>| { Option__unwrap::<u8>(x) });
        assert(raw.s =~= Seq::new(T__PTR_SIZE().raw as nat, |j: int| bytes.s[at + j]->0));
        let r = FnCtxt__translate_relocation(g, RsCtfeProvenance__alloc_id(a), off);
        let acc2 = List { s: acc.s.push((mini__translate_size(o), r.1)) };
        assert(FnCtxt__translate_const_allocation__loop2(l, i, bytes, g, acc) == FnCtxt__translate_const_allocation__loop2(l, i + 1, bytes, r.0, acc2));
        assert(points(f, bytes, l.s[i], acc2.s[i]));
        assert forall|j: int| 0 <= j < i + 1 implies #[trigger] points(f, bytes, l.s[j], acc2.s[j]) by { if j < i { assert(acc2.s[j] == acc.s[j]); } }
        mir_relocations(f, l, i + 1, bytes, r.0, acc2);
    }
}
/// a constant allocation becomes a global with the same bytes, the same uninitialised gaps, the same alignment, and a pointer wherever it has one
pub proof fn mir_global(f: FnCtxt, c: RsConstAllocation, n: GlobalName)
    requires FnCtxt__translate_const_allocation_ok(f, c, n), T__PTR_SIZE().raw >= 0
    ensures ({
        let g = FnCtxt__translate_const_allocation(f, c, n).cx.globals.m;
        let a = RsConstAllocation__inner(c);
        let raw = RsAllocation__inspect_with_uninit_and_ptr_outside_interpreter(a, List__range(0, RsSize__bytes_usize(RsAllocation__size(a))));
        let ptrs = RsProvenanceMap__ptrs(RsAllocation__provenance(a)).s;
        &&& g.contains_key(n) && g[n].align == mini__translate_align(a.align)
        &&& g[n].bytes.s.len() == raw.s.len() && forall|j: int| 0 <= j < raw.s.len() ==> #[trigger] g[n].bytes.s[j] == const_byte(a, raw, j)
        &&& g[n].relocations.s.len() == ptrs.len() && all_point(f, g[n].bytes, ptrs, g[n].relocations.s, ptrs.len() as int)
    })
{
    FnCtxt__translate_const_allocation__def(f, c, n); FnCtxt__translate_const_allocation_ok__def(f, c, n);
    let a = RsConstAllocation__inner(c);
    let raw = RsAllocation__inspect_with_uninit_and_ptr_outside_interpreter(a, List__range(0, RsSize__bytes_usize(RsAllocation__size(a))));
    let bytes = List__map(List__copied::<u8>(List__iter::<u8>(raw)), |x: u8| { Some(x) });
    mir_init_mask(a, raw, 0, bytes);
    let b = FnCtxt__translate_const_allocation__loop1(raw.s.len() as int, 0, a, bytes);
    let ptrs = RsProvenanceMap__ptrs(RsAllocation__provenance(a));
    mir_relocations(f, ptrs, 0, b, f, List__new::<(Size, Relocation)>());
}
/// every allocation becomes one global: the name it was given is kept, a new one gets a name not in use, known before its contents are translated
pub proof fn mir_alloc_id(f: FnCtxt, id: RsAllocId)
    requires FnCtxt__translate_alloc_id_ok(f, id), f.cx.globals.m.dom().finite(), forall|n: GlobalName| #[trigger] f.cx.globals.m.contains_key(n) ==> 0 <= n.0.id < f.cx.globals.m.dom().len()
    ensures ({
        let (g, n) = FnCtxt__translate_alloc_id(f, id);
        &&& f.cx.alloc_map.m.contains_key(id) ==> g == f && n == f.cx.alloc_map.m[id]
        &&& !f.cx.alloc_map.m.contains_key(id) ==> !f.cx.globals.m.contains_key(n) && exists|st: FnCtxt, c: RsConstAllocation|
            g == (#[trigger] FnCtxt__translate_const_allocation(st, c, n)) && alloc_contents(f, id, c) && st.cx.tcx == f.cx.tcx && st.cx.alloc_map.m == f.cx.alloc_map.m.insert(id, n)
                && forall|o: GlobalName| #[trigger] f.cx.globals.m.contains_key(o) ==> st.cx.globals.m.contains_key(o) && st.cx.globals.m[o] == f.cx.globals.m[o]
    })
{
    FnCtxt__translate_alloc_id__def(f, id); FnCtxt__translate_alloc_id_ok__def(f, id);
}
/// what the compiler keeps in the allocation: a constant's memory, or the initial value of a static
pub open spec fn alloc_contents(f: FnCtxt, id: RsAllocId, c: RsConstAllocation) -> bool {
    match RsTyCtxt__global_alloc(f.cx.tcx, id) {
        RsGlobalAlloc::Memory(a) => c == a,
        RsGlobalAlloc::Static(d) => RsTyCtxt__eval_static_initializer(f.cx.tcx, d) == Some(c),
        _ => false,
    }
}
/// a pointer into an allocation points into its global, at the same offset
pub proof fn mir_relocation(f: FnCtxt, id: RsAllocId, o: RsSize)
    ensures ({ let (g, r) = FnCtxt__translate_relocation(f, id, o); r.name == FnCtxt__translate_alloc_id(f, id).1 && g == FnCtxt__translate_alloc_id(f, id).0 && r.offset.raw == RsSize__bytes(o) })
{ FnCtxt__translate_relocation__def(f, id, o); }
/// the constant the compiler reads at one place: `t` is the type translated for it
pub open spec fn read_at(v: RsOpTy, span: RsSpan, tcx: RsTyCtxt, e: ValueExpr) -> bool {
    exists|st: FnCtxt, ec: RsCompileTimeInterpCx| st.cx.tcx == tcx && e == (#[trigger] FnCtxt__translate_const_val(st, v, ec, span)).2
}
pub open spec fn field_read(v: RsOpTy, i: int, span: RsSpan, tcx: RsTyCtxt, e: ValueExpr) -> bool {
    exists|ec: RsCompileTimeInterpCx| read_at((#[trigger] RsCompileTimeInterpCx__project_field(ec, v, i))->0, span, tcx, e)
}
pub open spec fn fields_read(v: RsOpTy, span: RsSpan, tcx: RsTyCtxt, out: Seq<ValueExpr>, n: int) -> bool {
    out.len() >= n && forall|i: int| 0 <= i < n ==> #[trigger] field_read(v, i, span, tcx, out[i])
}
pub proof fn mir_const_fields(l: List<(Size, Type)>, i: int, v: RsOpTy, span: RsSpan, f: FnCtxt, ec: RsCompileTimeInterpCx, acc: List<ValueExpr>)
    requires FnCtxt__translate_const_val__loop1_ok(List__enumerate::<(Size, Type)>(List__iter::<(Size, Type)>(l)), i, v, span, f, ec, acc), 0 <= i <= l.s.len(), acc.s.len() == i, fields_read(v, span, f.cx.tcx, acc.s, i)
    ensures ({ let (g, _, out) = FnCtxt__translate_const_val__loop1(List__enumerate::<(Size, Type)>(List__iter::<(Size, Type)>(l)), i, v, span, f, ec, acc); out.s.len() == l.s.len() && fields_read(v, span, f.cx.tcx, out.s, l.s.len() as int) })
    decreases l.s.len() - i
{
    let it = List__enumerate::<(Size, Type)>(List__iter::<(Size, Type)>(l));
    FnCtxt__translate_const_val__loop1__def(it, i, v, span, f, ec, acc); FnCtxt__translate_const_val__loop1_ok__def(it, i, v, span, f, ec, acc);
    if i < l.s.len() {
        assert(it.s[i].0 == i);
        let x = RsCompileTimeInterpCx__project_field(ec, v, i)->0;
        let (g, ec2, e) = FnCtxt__translate_const_val(f, x, ec, span);
        let acc2 = List { s: acc.s.push(e) };
        assert(read_at(x, span, f.cx.tcx, e));
        assert(field_read(v, i, span, f.cx.tcx, acc2.s[i]));
        assert forall|j: int| 0 <= j < i + 1 implies #[trigger] field_read(v, j, span, f.cx.tcx, acc2.s[j]) by { if j < i { assert(acc2.s[j] == acc.s[j]); } }
        mir_const_fields(l, i + 1, v, span, g, ec2, acc2);
    }
}
pub proof fn mir_const_payload(n: int, i: int, v: RsOpTy, span: RsSpan, f: FnCtxt, ec: RsCompileTimeInterpCx, acc: List<ValueExpr>)
    requires FnCtxt__translate_const_val__loop2_ok(n, i, span, v, f, ec, acc), 0 <= i <= n, acc.s.len() == i, fields_read(v, span, f.cx.tcx, acc.s, i)
    ensures ({ let (g, _, out) = FnCtxt__translate_const_val__loop2(n, i, span, v, f, ec, acc); out.s.len() == n && fields_read(v, span, f.cx.tcx, out.s, n) })
    decreases n - i
{
    FnCtxt__translate_const_val__loop2__def(n, i, span, v, f, ec, acc); FnCtxt__translate_const_val__loop2_ok__def(n, i, span, v, f, ec, acc);
    if i < n {
        let x = RsCompileTimeInterpCx__project_field(ec, v, i)->0;
        let (g, ec2, e) = FnCtxt__translate_const_val(f, x, ec, span);
        let acc2 = List { s: acc.s.push(e) };
        assert(read_at(x, span, f.cx.tcx, e));
        assert(field_read(v, i, span, f.cx.tcx, acc2.s[i]));
        assert forall|j: int| 0 <= j < i + 1 implies #[trigger] field_read(v, j, span, f.cx.tcx, acc2.s[j]) by { if j < i { assert(acc2.s[j] == acc.s[j]); } }
        mir_const_payload(n, i + 1, v, span, g, ec2, acc2);
    }
}
/// the compiler's iterator over an array passes through the states `its`, yielding the elements `vs` in order, then nothing, whatever the interpreter is at
pub open spec fn walks(its: Seq<RsArrayIter>, vs: Seq<RsOpTy>) -> bool {
    &&& forall|k: int, ec: RsCompileTimeInterpCx| 0 <= k < vs.len() ==> (#[trigger] RsArrayIter__next(its[k], ec)).0 == its[k + 1] && RsArrayIter__next(its[k], ec).1 is Some && RsArrayIter__next(its[k], ec).1->0 is Some && (RsArrayIter__next(its[k], ec).1->0->0).1 == vs[k]
    &&& forall|ec: RsCompileTimeInterpCx| (#[trigger] RsArrayIter__next(its[vs.len() as int], ec)).1 == Some(None::<(int, RsOpTy)>)
}
pub open spec fn all_read(vs: Seq<RsOpTy>, span: RsSpan, tcx: RsTyCtxt, out: Seq<ValueExpr>, n: int) -> bool {
    out.len() >= n && forall|i: int| 0 <= i < n ==> read_at(#[trigger] vs[i], span, tcx, out[i])
}
/// every element of a constant array, once and in order
pub proof fn mir_const_elements(its: Seq<RsArrayIter>, vs: Seq<RsOpTy>, i: int, span: RsSpan, f: FnCtxt, ec: RsCompileTimeInterpCx, acc: List<ValueExpr>)
    requires walks(its, vs), its.len() == vs.len() + 1, FnCtxt__translate_const_val__loop3_ok(span, f, ec, acc, its[i]), 0 <= i <= vs.len(), acc.s.len() == i, all_read(vs, span, f.cx.tcx, acc.s, i)
    ensures ({ let (g, _, out, _) = FnCtxt__translate_const_val__loop3(span, f, ec, acc, its[i]); out.s.len() == vs.len() && all_read(vs, span, f.cx.tcx, out.s, vs.len() as int) })
    decreases vs.len() - i
{
    FnCtxt__translate_const_val__loop3__def(span, f, ec, acc, its[i]); FnCtxt__translate_const_val__loop3_ok__def(span, f, ec, acc, its[i]);
    let nx = RsArrayIter__next(its[i], ec);
    if i < vs.len() {
        let (g, ec2, e) = FnCtxt__translate_const_val(f, vs[i], ec, span);
        let acc2 = List { s: acc.s.push(e) };
        assert(read_at(vs[i], span, f.cx.tcx, e));
        assert forall|j: int| 0 <= j < i + 1 implies read_at(#[trigger] vs[j], span, f.cx.tcx, acc2.s[j]) by { if j < i { assert(acc2.s[j] == acc.s[j]); } }
        mir_const_elements(its, vs, i + 1, span, g, ec2, acc2);
    }
}
/// a scalar read by the compiler, at the signedness of the type it has
pub open spec fn scalar_at(s: Signedness, x: RsScalar) -> int {
    match s { Signedness::Signed => RsScalar__to_int(x, RsScalar__size(x))->0, Signedness::Unsigned => RsScalar__to_uint(x, RsScalar__size(x))->0 }
}
/// every constant means the value the compiler computed: integers at their own signedness, pointers into the same allocation at the same offset (or without provenance, at the same address), tuples and enum variants field by field, and a variant under the discriminant the compiler gives it
pub proof fn mir_const_val(f: FnCtxt, v: RsOpTy, ec: RsCompileTimeInterpCx, span: RsSpan)
    requires FnCtxt__translate_const_val_ok(f, v, ec, span)
    ensures ({
        let ty = Ctxt__translate_ty(f.cx, v.layout.ty, span).1;
        let e = FnCtxt__translate_const_val(f, v, ec, span).2;
        match ty {
            Type::Int(it) => e == ValueExpr::Constant(Constant::Int(scalar_at(it.signed, RsCompileTimeInterpCx__read_scalar(ec, v)->0)), ty),
            Type::Bool => e == ValueExpr::Constant(Constant::Bool(RsScalar__to_bool(RsCompileTimeInterpCx__read_scalar(ec, v)->0)->0), ty),
            Type::Ptr(p) if !(p is FnPtr) && PtrType__meta_kind(p) is None => {
                let (prov, off) = RsPointer__into_raw_parts(RsCompileTimeInterpCx__read_pointer(ec, v)->0);
                match prov {
                    Some(a) => exists|st: FnCtxt| st.cx.tcx == f.cx.tcx && e == ValueExpr::Constant(Constant::GlobalPointer((#[trigger] FnCtxt__translate_relocation(st, RsCtfeProvenance__alloc_id(a), off)).1), ty),
                    None => e == ValueExpr::Constant(Constant::PointerWithoutProvenance(RsSize__bytes_usize(off)), ty),
                }
            }
            Type::Ptr(p) if !(p is FnPtr) && PtrType__meta_kind(p) is ElementCount => {
                let (thin, meta) = RsImmTy__to_scalar_and_meta(RsCompileTimeInterpCx__read_immediate(ec, v)->0);
                let (prov, off) = RsPointer__into_raw_parts(RsScalar__to_pointer(thin, ec)->0);
                let count = ValueExpr::Constant(Constant::Int(RsScalar__to_target_usize(RsMemPlaceMeta__unwrap_meta(meta), ec)->0), Type::Int(IntType { signed: Signedness::Unsigned, size: Size { raw: 8 } }));
                match prov {
                    Some(a) => exists|st: FnCtxt| st.cx.tcx == f.cx.tcx && e == build__construct_wide_pointer(ValueExpr::Constant(Constant::GlobalPointer((#[trigger] FnCtxt__translate_relocation(st, RsCtfeProvenance__alloc_id(a), off)).1), build__raw_void_ptr_ty()), count, ty),
                    None => e == build__construct_wide_pointer(ValueExpr::Constant(Constant::PointerWithoutProvenance(RsSize__bytes_usize(off)), build__raw_void_ptr_ty()), count, ty),
                }
            }
            Type::Array { .. } => forall|its: Seq<RsArrayIter>, vs: Seq<RsOpTy>| its.len() == vs.len() + 1 && its[0] == RsCompileTimeInterpCx__project_array_fields(ec, v)->0 && #[trigger] walks(its, vs)
                ==> e is Tuple && e->Tuple_1 == ty && e->Tuple_0.s.len() == vs.len() && all_read(vs, span, f.cx.tcx, e->Tuple_0.s, vs.len() as int),
            Type::Tuple { sized_fields, .. } => e is Tuple && e->Tuple_1 == ty && e->Tuple_0.s.len() == sized_fields.s.len() && fields_read(v, span, f.cx.tcx, e->Tuple_0.s, sized_fields.s.len() as int),
            Type::Enum { variants, discriminant_ty, .. } => {
                let idx = RsCompileTimeInterpCx__read_discriminant(ec, v)->0;
                let x = RsCompileTimeInterpCx__project_downcast(ec, v, idx)->0;
                let n = RsFieldsShape__count(x.layout.fields);
                &&& e is Variant && e->enum_ty == ty
                &&& exists|ec2: RsCompileTimeInterpCx| e->Variant_discriminant == scalar_at(discriminant_ty.signed, RsImmTy__to_scalar((#[trigger] RsCompileTimeInterpCx__discriminant_for_variant(ec2, v.layout.ty, idx))->0))
                &&& *e->data is Tuple && (*e->data)->Tuple_1 == variants.m[e->Variant_discriminant].ty
                &&& n >= 0 ==> (*e->data)->Tuple_0.s.len() == n && fields_read(x, span, f.cx.tcx, (*e->data)->Tuple_0.s, n)
            }
            _ => true,
        }
    })
{
    FnCtxt__translate_const_val__def(f, v, ec, span); FnCtxt__translate_const_val_ok__def(f, v, ec, span);
    let (cx, ty) = Ctxt__translate_ty(f.cx, v.layout.ty, span);
    let g = FnCtxt { cx, ..f };
    match ty {
        Type::Tuple { sized_fields, .. } => { mir_const_fields(sized_fields, 0, v, span, g, ec, List__new::<ValueExpr>()); }
        Type::Enum { .. } => {
            let idx = RsCompileTimeInterpCx__read_discriminant(ec, v)->0;
            let x = RsCompileTimeInterpCx__project_downcast(ec, v, idx)->0;
            let n = RsFieldsShape__count(x.layout.fields);
            if n >= 0 { mir_const_payload(n, 0, x, span, g, ec, List__new::<ValueExpr>()); }
        }
        Type::Array { .. } => {
            let it = RsCompileTimeInterpCx__project_array_fields(ec, v)->0;
            assert forall|its: Seq<RsArrayIter>, vs: Seq<RsOpTy>| its.len() == vs.len() + 1 && its[0] == it && #[trigger] walks(its, vs) implies ({
                let e = FnCtxt__translate_const_val(f, v, ec, span).2;
                e is Tuple && e->Tuple_1 == ty && e->Tuple_0.s.len() == vs.len() && all_read(vs, span, f.cx.tcx, e->Tuple_0.s, vs.len() as int)
            }) by { mir_const_elements(its, vs, 0, span, g, ec, List__new::<ValueExpr>()); }
        }
        _ => {}
    }
}
