// C14: locks give mutual exclusion; deadlocks are detected.

pub open spec fn nthr(m: Machine) -> int { m.threads.s.len() as int }
pub open spec fn waits_for(m: Machine, t: int, l: int) -> bool { 0 <= t < nthr(m) && m.threads.s[t].state == ThreadState::BlockedOnLock(l) }
pub open spec fn lock_of(m: Machine, l: int) -> Option<LockState> { if 0 <= l < m.locks.s.len() { Some(m.locks.s[l]) } else { None } }
/// the thread the machine currently runs exists; whoever waits for a lock waits for one that exists and is held
pub open spec fn lock_inv(m: Machine) -> bool {
    &&& 0 <= m.active_thread < nthr(m) && nthr(m) < 0x1_0000_0000_0000_0000
    &&& m.locks.s.len() < 0x1_0000_0000_0000_0000
    &&& forall|t: int, l: int| #[trigger] waits_for(m, t, l) ==> lock_of(m, l) is Some && lock_of(m, l)->0 is LockedBy
}
/// nothing but locks and the state of threads differs
pub open spec fn same_but_locks(m: Machine, n: Machine) -> bool {
    &&& nthr(n) == nthr(m) && n.active_thread == m.active_thread && n.mem == m.mem && n.prog == m.prog && n.intptrcast == m.intptrcast
    &&& n.global_ptrs == m.global_ptrs && n.fn_ptrs == m.fn_ptrs && n.vtable_ptrs == m.vtable_ptrs && n.stdout == m.stdout && n.stderr == m.stderr
    &&& forall|t: int| 0 <= t < nthr(m) ==> (#[trigger] n.threads.s[t]).stack == m.threads.s[t].stack && n.threads.s[t].unwind_payloads == m.threads.s[t].unwind_payloads
}
pub open spec fn other_threads_same(m: Machine, n: Machine, t: int) -> bool { forall|u: int| 0 <= u < nthr(m) && u != t ==> #[trigger] n.threads.s[u] == m.threads.s[u] }
pub open spec fn other_locks_same(m: Machine, n: Machine, l: int) -> bool {
    n.locks.s.len() == m.locks.s.len() && forall|k: int| 0 <= k < m.locks.s.len() && k != l ==> #[trigger] n.locks.s[k] == m.locks.s[k]
}

/// a new lock is unlocked and no lock before it changes
pub proof fn create(m: Machine)
    ensures Machine__lock_create_ok(m), ({
        let (n, id) = Machine__lock_create(m);
        &&& id == m.locks.s.len() && n.locks.s == m.locks.s.push(LockState::Unlocked)
        &&& n == (Machine { locks: n.locks, ..m })
    })
{ }
pub proof fn create_keeps_inv(m: Machine)
    requires lock_inv(m), m.locks.s.len() + 1 < 0x1_0000_0000_0000_0000
    ensures lock_inv(Machine__lock_create(m).0)
{
    let n = Machine__lock_create(m).0;
    assert forall|t: int, l: int| #[trigger] waits_for(n, t, l) implies lock_of(n, l) is Some && lock_of(n, l)->0 is LockedBy by { assert(waits_for(m, t, l)); }
}
/// a free lock goes to the thread that asks; a held one blocks it and stays with its owner; one that does not exist is undefined behaviour
pub proof fn acquire(m: Machine, l: int)
    requires lock_inv(m)
    ensures fits_usize(l) ==> Machine__lock_acquire_ok(m, l), ({
        let (n, r) = Machine__lock_acquire(m, l);
        match lock_of(m, l) {
            None => is_ub(r) && n == m,
            Some(LockState::Unlocked) => r is Ok && n.locks.s[l] == LockState::LockedBy(m.active_thread) && n.threads == m.threads,
            Some(LockState::LockedBy(o)) => r is Ok && n.locks == m.locks && n.threads.s[m.active_thread].state == ThreadState::BlockedOnLock(l),
        }
    }), ({
        let (n, r) = Machine__lock_acquire(m, l);
        &&& other_locks_same(m, n, l) && other_threads_same(m, n, m.active_thread) && same_but_locks(m, n)
        &&& n.synchronized_threads == m.synchronized_threads && lock_inv(n)
    })
{
    let (n, r) = Machine__lock_acquire(m, l);
    assert forall|t: int, k: int| #[trigger] waits_for(n, t, k) implies lock_of(n, k) is Some && lock_of(n, k)->0 is LockedBy by { if waits_for(m, t, k) { } }
}
/// a lock is never taken away from its owner by an acquisition
pub proof fn mutual_exclusion(m: Machine, l: int, k: int, o: int)
    requires lock_inv(m), lock_of(m, k) == Some(LockState::LockedBy(o))
    ensures lock_of(Machine__lock_acquire(m, l).0, k) == Some(LockState::LockedBy(o)),
        lock_of(Machine__lock_create(m).0, k) == Some(LockState::LockedBy(o)),
        l != k || o != m.active_thread ==> lock_of(Machine__lock_release(m, l).0, k) == Some(LockState::LockedBy(o)),
{ acquire(m, l); release(m, l); }

pub open spec fn any_waits(m: Machine, l: int) -> bool { exists|t: int| waits_for(m, t, l) }
/// only the owner may release; if anybody waits, one waiting thread gets the lock, is woken and synchronized; otherwise the lock is free
pub proof fn release(m: Machine, l: int)
    requires lock_inv(m)
    ensures fits_usize(l) ==> Machine__lock_release_ok(m, l), ({
        let (n, r) = Machine__lock_release(m, l);
        let held = lock_of(m, l) == Some(LockState::LockedBy(m.active_thread));
        &&& (!held ==> is_ub(r) && n == m)
        &&& (held && !any_waits(m, l) ==> r is Ok && n.locks.s[l] == LockState::Unlocked && n.threads == m.threads && n.synchronized_threads == m.synchronized_threads)
        &&& (held && any_waits(m, l) ==> (r is Err ==> r->Err_0 is NdStuck && n == m) && (r is Ok ==> exists|a: int| #[trigger] handed(m, n, l, a)))
        &&& other_locks_same(m, n, l) && same_but_locks(m, n) && lock_inv(n)
    })
{
    let (n, r) = Machine__lock_release(m, l);
    let held = lock_of(m, l) == Some(LockState::LockedBy(m.active_thread));
    let d = IntDistribution { start: 0int, end: List__len::<Thread>(m.threads), divisor: 1int };
    let any = List__any(m.threads, |thread: Thread| { (thread.state == ThreadState::BlockedOnLock(l)) });
    axiom_stuck();
    assert(distr_ok(d)) by { assert(nthr(m) > 0); }
    assert forall|x: int| in_distr(d, x) implies fits_usize(x) by { }
    assert(any == any_waits(m, l)) by {
        if any { let i = choose|i: int| 0 <= i < m.threads.s.len() && (#[trigger] m.threads.s[i]).state == ThreadState::BlockedOnLock(l); assert(waits_for(m, i, l)); }
        if any_waits(m, l) { let i = choose|i: int| waits_for(m, i, l); assert(m.threads.s[i].state == ThreadState::BlockedOnLock(l)); }
    }
    if held && any && r is Ok {
        let a = nd_pick::<TerminationInfo>(d, |id: int| { match List__get::<Thread>(m.threads, id) { Some(thread_2) => { (thread_2.state == ThreadState::BlockedOnLock(l)) } _ => { false } } })->Ok_0;
        assert(handed(m, n, l, a));
    }
    assert forall|t: int, k: int| #[trigger] waits_for(n, t, k) implies lock_of(n, k) is Some && lock_of(n, k)->0 is LockedBy by {
        if waits_for(m, t, k) { } 
        if held && !any && k == l { assert(waits_for(m, t, k)); assert(any_waits(m, l)); }
    }
}
/// lock l went from the active thread to the waiting thread a
pub open spec fn handed(m: Machine, n: Machine, l: int, a: int) -> bool {
    &&& waits_for(m, a, l) && n.threads.s[a].state == ThreadState::Enabled && n.locks.s[l] == LockState::LockedBy(a)
    &&& n.synchronized_threads.s == m.synchronized_threads.s.insert(a) && other_threads_same(m, n, a)
}

// ---------------------------------------------------------------- the intrinsics
pub open spec fn one_int(args: List<(Value, Type)>) -> Option<int> {
    if args.s.len() == 1 { match args.s[0].0 { Value::Int(i) => Some(i), _ => None } } else { None }
}
pub proof fn intrinsics(m: Machine, args: List<(Value, Type)>, ret: Type)
    ensures ({
        let (n, r) = Machine__eval_intrinsic(m, IntrinsicOp::Lock(IntrinsicLockOp::Create), args, ret);
        if args.s.len() == 0 && ret is Int { n == Machine__lock_create(m).0 && r == Ok::<Value, TerminationInfo>(Value::Int(Machine__lock_create(m).1)) } else { is_ub(r) && n == m }
    }), ({
        let (n, r) = Machine__eval_intrinsic(m, IntrinsicOp::Lock(IntrinsicLockOp::Acquire), args, ret);
        if one_int(args) is Some && ret == unit_type() {
            let (n2, r2) = Machine__lock_acquire(m, one_int(args)->0);
            n == n2 && (r2 is Ok ==> r == Ok::<Value, TerminationInfo>(unit_value())) && (r2 is Err ==> r is Err && r->Err_0 == r2->Err_0)
        } else { is_ub(r) && n == m }
    }), ({
        let (n, r) = Machine__eval_intrinsic(m, IntrinsicOp::Lock(IntrinsicLockOp::Release), args, ret);
        if one_int(args) is Some && ret == unit_type() {
            let (n2, r2) = Machine__lock_release(m, one_int(args)->0);
            n == n2 && (r2 is Ok ==> r == Ok::<Value, TerminationInfo>(unit_value())) && (r2 is Err ==> r is Err && r->Err_0 == r2->Err_0)
        } else { is_ub(r) && n == m }
    })
{ }

// ---------------------------------------------------------------- scheduling
pub open spec fn runnable(m: Machine, t: int) -> bool { 0 <= t < nthr(m) && m.threads.s[t].state == ThreadState::Enabled }
/// a step is refused as a deadlock exactly if no thread can run
pub proof fn deadlock(m: Machine)
    ensures (forall|t: int| !runnable(m, t)) ==> Machine__step(m).1 is Err && Machine__step(m).1->Err_0 is Deadlock && Machine__step(m).0 == m,
{
    if forall|t: int| !runnable(m, t) {
        if List__any(m.threads, |thread: Thread| { (thread.state == ThreadState::Enabled) }) {
            let i = choose|i: int| 0 <= i < m.threads.s.len() && (#[trigger] m.threads.s[i]).state == ThreadState::Enabled;
            assert(runnable(m, i));
        }
    }
}
/// the thread a step picks
pub open spec fn picks(m: Machine) -> Result<int, TerminationInfo> {
    nd_pick::<TerminationInfo>(IntDistribution { start: 0, end: nthr(m), divisor: 1 }, |id: int| { match List__get::<Thread>(m.threads, id) { Some(thread_2) => { (thread_2.state == ThreadState::Enabled) } _ => { false } } })
}
/// only a thread that can run is ever picked: one that waits for a lock or a thread, or has ended, does not move
pub proof fn only_runnable(m: Machine)
    requires nthr(m) > 0, picks(m) is Ok
    ensures runnable(m, picks(m)->Ok_0)
{ assert(distr_ok(IntDistribution { start: 0, end: nthr(m), divisor: 1 })); }
/// a step with a runnable thread evaluates exactly one statement or terminator of the thread picked
pub proof fn step_runs_picked(m: Machine, t: int)
    requires runnable(m, t), picks(m) is Ok
    ensures ({
        let (n, r) = Machine__step(m);
        let p = Machine { active_thread: picks(m)->Ok_0, ..Machine__reset_data_race_tracking(m).0 };
        let f = Machine__cur_frame(p);
        let b = Map__index_at::<BbName, BasicBlock>(f.func.blocks, f.next_block);
        if f.next_stmt == b.statements.s.len() {
            let (q, e) = Machine__eval_terminator(p, b.terminator);
            n == q && (e is Err ==> r is Err && r->Err_0 == e->Err_0)
        } else {
            let (q, e) = Machine__eval_statement(p, b.statements.s[f.next_stmt]);
            (e is Err ==> n == q && r is Err && r->Err_0 == e->Err_0)
            && (r is Ok ==> e is Ok && n == Machine__try_mutate_cur_frame::<()>(q, |frame_2: StackFrame, _mem: ConcurrentMemory| { let frame_2 = StackFrame { next_stmt: (frame_2.next_stmt + 1int), ..frame_2 }; (frame_2, _mem, Ok(())) }).0)
        }
    })
{
    assert(List__any(m.threads, |thread: Thread| { (thread.state == ThreadState::Enabled) })) by { assert(m.threads.s[t].state == ThreadState::Enabled); }
}

// ---------------------------------------------------------------- locks from Rust
pub open spec fn tr_sargs(f: FnCtxt, l: Seq<RsSpanned<RsOperand>>, out: Seq<ValueExpr>, n: int) -> bool { out.len() >= n && forall|i: int| 0 <= i < n ==> tr_rop(f, l[i].node, #[trigger] out[i]) }
pub proof fn mir_intrinsic_args(f: FnCtxt, l: List<RsSpanned<RsOperand>>, i: int, g: FnCtxt, acc: List<ValueExpr>)
    requires FnCtxt__translate_call__loop2_ok(l, i, g, acc), 0 <= i <= l.s.len(), acc.s.len() == i, same_fn(f, g), tr_sargs(f, l.s, acc.s, i)
    ensures ({ let (h, out) = FnCtxt__translate_call__loop2(l, i, g, acc); same_fn(f, h) && out.s.len() == l.s.len() && tr_sargs(f, l.s, out.s, l.s.len() as int) })
    decreases l.s.len() - i
{
    reveal_with_fuel(FnCtxt__translate_call__loop2, 2); reveal_with_fuel(FnCtxt__translate_call__loop2_ok, 2);
    if i < l.s.len() {
        let a = FnCtxt__translate_operand(g, l.s[i].node, l.s[i].span);
        let acc2 = List { s: acc.s.push(a.1) };
        assert forall|j: int| 0 <= j < i + 1 implies tr_rop(f, l.s[j].node, #[trigger] acc2.s[j]) by { if j < i { assert(acc2.s[j] == acc.s[j]); } }
        mir_intrinsic_args(f, l, i + 1, a.0, acc2);
    }
}
/// the function called is one of the machine's own
pub open spec fn own_fn(f: FnCtxt, func: RsOperand, sp: RsSpan, name: Txt) -> bool {
    let k = RsTy__kind(RsOperand__ty(func, f.body, f.cx.tcx));
    k is FnDef && !(RsInstance__expect_resolve(f.cx.tcx, Ctxt__typing_env(f.cx), k->FnDef_0, k->FnDef_1, sp).def is Intrinsic)
    && RsSym__as_str(RsTyCtxt__crate_name(f.cx.tcx, k->FnDef_0.krate)) == txt__intrinsics() && RsSym__as_str(RsTyCtxt__item_name(f.cx.tcx, k->FnDef_0)) == name
}
/// the lock functions become the machine operations they name, with every argument at its position
pub proof fn mir_intrinsic(f: FnCtxt, func: RsOperand, args: List<RsSpanned<RsOperand>>, dest: RsPlace, target: Option<int>, sp: RsSpan, u: RsUnwindAction, bb: RsBasicBlockData, name: Txt)
    requires FnCtxt__translate_call_ok(f, func, args, dest, target, sp, u, bb), own_fn(f, func, sp, name), name == txt__create_lock() || name == txt__acquire() || name == txt__release()
    ensures ({
        let r = FnCtxt__translate_call(f, func, args, dest, target, sp, u, bb).1; let t = r.terminator; let op = t->Intrinsic_intrinsic;
        &&& t is Intrinsic && r.stmts.s.len() == 0
        &&& (name == txt__create_lock() ==> op is Lock && op->Lock_0 is Create)
        &&& (name == txt__acquire() ==> op is Lock && op->Lock_0 is Acquire)
        &&& (name == txt__release() ==> op is Lock && op->Lock_0 is Release)
        &&& t->Intrinsic_arguments.s.len() == args.s.len() && tr_sargs(f, args.s, t->Intrinsic_arguments.s, args.s.len() as int)
        &&& tr_rplace(f, dest, t->Intrinsic_ret)
        &&& (target is None ==> t->Intrinsic_next_block is None) && (target is Some ==> f.bb_name_map.m.contains_key(target->0) && t->Intrinsic_next_block == Some(f.bb_name_map.m[target->0]))
    })
{
    reveal(FnCtxt__translate_call); reveal(FnCtxt__translate_call_ok);
    assert(same_fn(f, f));
    let z = List__new::<ValueExpr>();
    mir_intrinsic_args(f, args, 0, f, z);
}
