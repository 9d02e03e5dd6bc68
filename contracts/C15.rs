// C15: threads start, wait for each other and end as specified.

pub open spec fn nthr(m: Machine) -> int { m.threads.s.len() as int }
/// only memory differs
pub open spec fn same_but_mem(m: Machine, n: Machine) -> bool { n == (Machine { mem: n.mem, ..m }) }

pub proof fn args_live_loop(l: List<LocalName>, i: int, m: Machine, f: StackFrame)
    ensures ({
        let r = Machine__create_frame__loop1(l, i, m, f);
        &&& (r is Cont ==> same_but_mem(m, (r->Cont_0).0) && (r->Cont_0).1 == (StackFrame { locals: (r->Cont_0).1.locals, ..f }))
        &&& (r is Exit ==> same_but_mem(m, (r->Exit_0).0) && (r->Exit_0).1 is Err)
    })
    decreases l.s.len() - i
{
    if 0 <= i && i < l.s.len() {
        let (f2, mem, r) = StackFrame__storage_live(f, m.mem, l.s[i]);
        if r is Ok { args_live_loop(l, i + 1, Machine { mem, ..m }, f2); }
    }
}
pub proof fn args_store_loop(l: List<(LocalName, (Value, Type))>, i: int, func: Function, f: StackFrame, m: Machine)
    ensures ({
        let r = Machine__create_frame__loop2(l, i, func, f, m);
        &&& (r is Cont ==> same_but_mem(m, r->Cont_0))
        &&& (r is Exit ==> same_but_mem(m, (r->Exit_0).0) && is_ub((r->Exit_0).1))
    })
    decreases l.s.len() - i
{
    if 0 <= i && i < l.s.len() {
        let (local, (v, t)) = l.s[i];
        let align = LayoutStrategy__expect_align(Type__layout(t), Str);
        let n = Machine__typed_store(m, Map__index_at::<LocalName, ThinPointer<Prov>>(f.locals, local), v, t, align, Atomicity::None).0;
        args_store_loop(l, i + 1, func, f, n);
    }
}
/// setting up a frame touches memory only, and the frame starts at the function's first statement
pub proof fn create_frame(m: Machine, func: Function, act: StackPopAction, conv: CallingConvention, ret: Type, args: List<(Value, Type)>)
    ensures ({
        let (n, r) = Machine__create_frame(m, func, act, conv, ret, args);
        &&& same_but_mem(m, n)
        &&& (r is Ok ==> r->Ok_0.func == func && r->Ok_0.next_block == func.start && r->Ok_0.next_stmt == 0 && r->Ok_0.stack_pop_action == act)
        &&& (r is Ok ==> conv == func.calling_convention && args.s.len() == func.args.s.len())
    })
{
    let f0 = StackFrame { func, locals: Map__new::<LocalName, ThinPointer<Prov>>(), stack_pop_action: act, next_block: func.start, next_stmt: 0int, extra: MemM__new_call() };
    let (f1, mem, r1) = StackFrame__storage_live(f0, m.mem, func.ret);
    let m1 = Machine { mem, ..m };
    args_live_loop(func.args, 0, m1, f1);
    match Machine__create_frame__loop1(func.args, 0, m1, f1) {
        Flow::Cont((m2, f2)) => { args_store_loop(List__zip::<LocalName, (Value, Type)>(func.args, args), 0, func, f2, m2); }
        _ => { }
    }
}
/// a new thread gets the next id, can run, and is about to execute the first statement of its function; no other thread changes
pub open spec fn started(m: Machine, n: Machine, func: Function) -> bool {
    let k = nthr(m);
    &&& n.threads.s == m.threads.s.push(n.threads.s[k]) && nthr(n) == k + 1
    &&& ({ let t = n.threads.s[k];
           t.state == ThreadState::Enabled && t.unwind_payloads.s.len() == 0 && t.stack.s.len() == 1
           && t.stack.s[0].func == func && t.stack.s[0].next_block == func.start && t.stack.s[0].next_stmt == 0 && t.stack.s[0].stack_pop_action == StackPopAction::BottomOfStack })
    &&& n.locks == m.locks && n.active_thread == m.active_thread && n.prog == m.prog && n.intptrcast == m.intptrcast
}
pub proof fn new_thread(m: Machine, func: Function, args: List<(Value, Type)>)
    ensures ({
        let (n, r) = Machine__new_thread(m, func, args);
        &&& (r is Ok ==> r->Ok_0 == nthr(m) && started(m, n, func) && n.synchronized_threads == m.synchronized_threads && args.s.len() == func.args.s.len() && func.calling_convention == CallingConvention::C)
        &&& (r is Err ==> n.threads == m.threads && n.locks == m.locks)
    })
{
    create_frame(m, func, StackPopAction::BottomOfStack, CallingConvention::C, unit_type(), args);
    let (n, r) = Machine__new_thread(m, func, args);
    if r is Ok { assert(n.threads.s[nthr(m)].stack.s.len() == 1); }
}
/// spawning additionally synchronizes the new thread, and hands it exactly the data pointer
pub proof fn spawn(m: Machine, func: Function, data: Value, ty: Type)
    ensures ({
        let (n, r) = Machine__spawn(m, func, data, ty);
        &&& (r is Ok ==> r->Ok_0 == nthr(m) && started(m, n, func) && n.synchronized_threads.s == m.synchronized_threads.s.insert(nthr(m)) && func.args.s.len() == 1)
        &&& (r is Err ==> n.threads == m.threads && n.synchronized_threads == m.synchronized_threads)
        &&& r == Machine__new_thread(m, func, List { s: seq![(data, ty)] }).1
    })
{
    let args = List__push::<(Value, Type)>(List__new::<(Value, Type)>(), (data, ty));
    assert(args.s =~= seq![(data, ty)]);
    new_thread(m, func, args);
    create_frame(m, func, StackPopAction::BottomOfStack, CallingConvention::C, unit_type(), args);
}
/// waiting for a thread that has ended has no effect; otherwise the active thread blocks until it has; a thread that does not exist is undefined behaviour
pub proof fn join(m: Machine, t: int)
    requires 0 <= m.active_thread < nthr(m) < 0x1_0000_0000_0000_0000
    ensures fits_usize(t) ==> Machine__join_ok(m, t), ({
        let (n, r) = Machine__join(m, t);
        &&& (!(0 <= t < nthr(m)) ==> is_ub(r) && n == m)
        &&& (0 <= t < nthr(m) ==> r is Ok)
        &&& (0 <= t < nthr(m) && m.threads.s[t].state is Terminated ==> n == m)
        &&& (0 <= t < nthr(m) && !(m.threads.s[t].state is Terminated) ==> n == (Machine { threads: n.threads, ..m })
            && n.threads.s == m.threads.s.update(m.active_thread, Thread { state: ThreadState::BlockedOnJoin(t), ..m.threads.s[m.active_thread] }))
    })
{ }

/// thread t of m, woken if it waits for a
pub open spec fn woken(t: Thread, a: int) -> Thread { if t.state == ThreadState::BlockedOnJoin(a) { Thread { state: ThreadState::Enabled, ..t } } else { t } }
pub proof fn wake_loop(i: int, a: int, m: Machine)
    requires 0 <= i <= nthr(m)
    ensures Machine__terminate_active_thread__loop1_ok(nthr(m), i, a, m), ({
        let n = Machine__terminate_active_thread__loop1(nthr(m), i, a, m);
        &&& nthr(n) == nthr(m) && n == (Machine { threads: n.threads, synchronized_threads: n.synchronized_threads, ..m })
        &&& forall|j: int| 0 <= j < nthr(m) ==> #[trigger] n.threads.s[j] == if j >= i { woken(m.threads.s[j], a) } else { m.threads.s[j] }
        &&& forall|j: int| #[trigger] n.synchronized_threads.s.contains(j) <==> m.synchronized_threads.s.contains(j) || (i <= j < nthr(m) && m.threads.s[j].state == ThreadState::BlockedOnJoin(a))
    })
    decreases nthr(m) - i
{
    if i < nthr(m) {
        if m.threads.s[i].state == ThreadState::BlockedOnJoin(a) {
            let n = Machine { synchronized_threads: Set__insert::<int>(m.synchronized_threads, i), threads: List__set::<Thread>(m.threads, i, Thread { state: ThreadState::Enabled, ..m.threads.s[i] }), ..m };
            wake_loop(i + 1, a, n);
        } else { wake_loop(i + 1, a, m); }
    }
}
/// the main thread must not end by returning; any other thread that ends is marked so, and wakes and synchronizes exactly the threads that wait for it
pub proof fn terminate(m: Machine)
    requires 0 <= m.active_thread < nthr(m)
    ensures m.active_thread == 0 || m.threads.s[m.active_thread].stack.s.len() == 0 ==> Machine__terminate_active_thread_ok(m), ({
        let (n, r) = Machine__terminate_active_thread(m);
        let a = m.active_thread;
        &&& (a == 0 ==> is_ub(r) && n == m)
        &&& (a != 0 ==> {
            &&& r is Ok && nthr(n) == nthr(m) && n == (Machine { threads: n.threads, synchronized_threads: n.synchronized_threads, ..m })
            &&& n.threads.s[a] == (Thread { state: ThreadState::Terminated, ..m.threads.s[a] })
            &&& forall|j: int| 0 <= j < nthr(m) && j != a ==> #[trigger] n.threads.s[j] == woken(m.threads.s[j], a)
            &&& forall|j: int| #[trigger] n.synchronized_threads.s.contains(j) <==> m.synchronized_threads.s.contains(j) || (0 <= j < nthr(m) && j != a && m.threads.s[j].state == ThreadState::BlockedOnJoin(a))
        })
    })
{
    let a = m.active_thread;
    let e = Thread { state: ThreadState::Terminated, ..m.threads.s[a] };
    let m2 = Machine { threads: List__set::<Thread>(m.threads, a, e), ..m };
    assert(m2.threads.s[a] == e);
    wake_loop(0, a, m2);
}
/// so nobody goes on waiting for a thread that has ended
pub open spec fn join_inv(m: Machine) -> bool {
    forall|t: int| 0 <= t < nthr(m) ==> match (#[trigger] m.threads.s[t]).state { ThreadState::BlockedOnJoin(u) => 0 <= u < nthr(m) && !(m.threads.s[u].state is Terminated), _ => true }
}
pub proof fn nobody_waits_forever(m: Machine, t: int, func: Function, data: Value, ty: Type)
    requires 0 <= m.active_thread < nthr(m) < 0x1_0000_0000_0000_0000, join_inv(m), m.threads.s[m.active_thread].state == ThreadState::Enabled
    ensures join_inv(Machine__join(m, t).0), join_inv(Machine__terminate_active_thread(m).0), join_inv(Machine__spawn(m, func, data, ty).0),
{
    join(m, t); terminate(m); spawn(m, func, data, ty);
    let n = Machine__terminate_active_thread(m).0;
    if m.active_thread != 0 {
        assert forall|t: int| 0 <= t < nthr(n) implies match (#[trigger] n.threads.s[t]).state { ThreadState::BlockedOnJoin(u) => 0 <= u < nthr(n) && !(n.threads.s[u].state is Terminated), _ => true } by {
            if t != m.active_thread { assert(n.threads.s[t] == woken(m.threads.s[t], m.active_thread)); }
        }
    }
}

// ---------------------------------------------------------------- the intrinsics
pub proof fn intrinsics(m: Machine, args: List<(Value, Type)>, ret: Type)
    ensures ({
        let (n, r) = Machine__eval_intrinsic(m, IntrinsicOp::Spawn, args, ret);
        let f = Machine__fn_from_ptr(m, args.s[0].0);
        if args.s.len() == 2 && f is Ok && args.s[1].1 is Ptr && ret is Int {
            let (n2, r2) = Machine__spawn(m, f->Ok_0, args.s[1].0, args.s[1].1);
            n == n2 && (r2 is Ok ==> r == Ok::<Value, TerminationInfo>(Value::Int(r2->Ok_0))) && (r2 is Err ==> r is Err && r->Err_0 == r2->Err_0)
        } else { is_ub(r) && n == m }
    }), ({
        let (n, r) = Machine__eval_intrinsic(m, IntrinsicOp::Join, args, ret);
        if args.s.len() == 1 && args.s[0].0 is Int && ret == unit_type() {
            let (n2, r2) = Machine__join(m, args.s[0].0->Int_0);
            n == n2 && (r2 is Ok ==> r == Ok::<Value, TerminationInfo>(unit_value())) && (r2 is Err ==> r is Err && r->Err_0 == r2->Err_0)
        } else { is_ub(r) && n == m }
    })
{ }
/// a function pointer names the function it was created for, or calling through it is undefined behaviour
pub proof fn fn_from_ptr(m: Machine, v: Value)
    ensures ({
        let r = Machine__fn_from_ptr(m, v);
        &&& (r is Ok ==> v is Ptr && v->Ptr_0.metadata is None && exists|f: FnName| m.fn_ptrs.m.contains_key(f) && m.fn_ptrs.m[f] == v->Ptr_0.thin_pointer && r->Ok_0 == #[trigger] m.prog.functions.m[f]) || !m.fn_ptrs.m.dom().finite()
        &&& (r is Err ==> is_ub(r))
    })
{
    if v is Ptr && v->Ptr_0.metadata is None && m.fn_ptrs.m.dom().finite() {
        let p = v->Ptr_0.thin_pointer;
        let l = Map__iter::<FnName, ThinPointer<Prov>>(m.fn_ptrs);
        let g = |a: (FnName, ThinPointer<Prov>)| { let (_, fn_ptr) = a; (fn_ptr == p) };
        find_is(l.s, 0, g);
        let k = find_from(l.s, 0, g);
        if k >= 0 {
            assert(l.s[k] == (Map__keys(m.fn_ptrs).s[k], m.fn_ptrs.m[Map__keys(m.fn_ptrs).s[k]]));
            assert(Map__keys(m.fn_ptrs).s.contains(Map__keys(m.fn_ptrs).s[k]));
        }
    }
}
pub proof fn find_is<A>(s: Seq<A>, i: int, f: spec_fn(A) -> bool)
    requires 0 <= i
    ensures ({ let k = find_from(s, i, f); (k >= 0 ==> i <= k < s.len() && f(s[k])) && (k < 0 ==> forall|j: int| i <= j < s.len() ==> !f(#[trigger] s[j])) })
    decreases s.len() - i
{ if i < s.len() { find_is(s, i + 1, f); } }

// ---------------------------------------------------------------- threads from Rust
pub open spec fn tr_sargs(f: FnCtxt, l: Seq<RsSpanned<RsOperand>>, out: Seq<ValueExpr>, n: int) -> bool { out.len() >= n && forall|i: int| 0 <= i < n ==> tr_rop(f, l[i].node, #[trigger] out[i]) }
pub proof fn mir_intrinsic_args(f: FnCtxt, l: List<RsSpanned<RsOperand>>, i: int, g: FnCtxt, acc: List<ValueExpr>)
    requires FnCtxt__translate_call__loop2_ok(l, i, g, acc), 0 <= i <= l.s.len(), acc.s.len() == i, same_fn(f, g), tr_sargs(f, l.s, acc.s, i)
    ensures ({ let (h, out) = FnCtxt__translate_call__loop2(l, i, g, acc); same_fn(f, h) && out.s.len() == l.s.len() && tr_sargs(f, l.s, out.s, l.s.len() as int) })
    decreases l.s.len() - i
{
    reveal_with_fuel(FnCtxt__translate_call__loop2, 2); reveal_with_fuel(FnCtxt__translate_call__loop2_ok, 2);
    if i < l.s.len() {
        let a = FnCtxt__translate_operand(g, l.s[i].node, l.s[i].span);
        let acc2 = List { s: acc.s.push(a.1) };
        assert forall|j: int| 0 <= j < i + 1 implies tr_rop(f, l.s[j].node, #[trigger] acc2.s[j]) by { if j < i { assert(acc2.s[j] == acc.s[j]); } }
        mir_intrinsic_args(f, l, i + 1, a.0, acc2);
    }
}
/// the function called is one of the machine's own
pub open spec fn own_fn(f: FnCtxt, func: RsOperand, sp: RsSpan, name: Txt) -> bool {
    let k = RsTy__kind(RsOperand__ty(func, f.body, f.cx.tcx));
    k is FnDef && !(RsInstance__expect_resolve(f.cx.tcx, Ctxt__typing_env(f.cx), k->FnDef_0, k->FnDef_1, sp).def is Intrinsic)
    && RsSym__as_str(RsTyCtxt__crate_name(f.cx.tcx, k->FnDef_0.krate)) == txt__intrinsics() && RsSym__as_str(RsTyCtxt__item_name(f.cx.tcx, k->FnDef_0)) == name
}
/// the thread functions become the machine operations they name, with every argument at its position
pub proof fn mir_intrinsic(f: FnCtxt, func: RsOperand, args: List<RsSpanned<RsOperand>>, dest: RsPlace, target: Option<int>, sp: RsSpan, u: RsUnwindAction, bb: RsBasicBlockData, name: Txt)
    requires FnCtxt__translate_call_ok(f, func, args, dest, target, sp, u, bb), own_fn(f, func, sp, name), name == txt__spawn() || name == txt__join()
    ensures ({
        let r = FnCtxt__translate_call(f, func, args, dest, target, sp, u, bb).1; let t = r.terminator; let op = t->Intrinsic_intrinsic;
        &&& t is Intrinsic && r.stmts.s.len() == 0
        &&& (name == txt__spawn() ==> op is Spawn)
        &&& (name == txt__join() ==> op is Join)
        &&& t->Intrinsic_arguments.s.len() == args.s.len() && tr_sargs(f, args.s, t->Intrinsic_arguments.s, args.s.len() as int)
        &&& tr_rplace(f, dest, t->Intrinsic_ret)
        &&& (target is None ==> t->Intrinsic_next_block is None) && (target is Some ==> f.bb_name_map.m.contains_key(target->0) && t->Intrinsic_next_block == Some(f.bb_name_map.m[target->0]))
    })
{
    reveal(FnCtxt__translate_call); reveal(FnCtxt__translate_call_ok);
    assert(same_fn(f, f));
    let z = List__new::<ValueExpr>();
    mir_intrinsic_args(f, args, 0, f, z);
}
