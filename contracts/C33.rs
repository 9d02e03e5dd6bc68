// C33: how a run ends is decided by the step that ends it, and nothing hides it.

pub open spec fn printable(v: Value) -> bool { v is Int || v is Bool }
pub proof fn print_loop(args: List<(Value, Type)>, i: int, m: Machine)
    requires 0 <= i <= args.s.len()
    ensures Machine__eval_print__loop1_ok(args, i, m), ({
        let r = Machine__eval_print__loop1(args, i, m);
        &&& (r is Cont <==> forall|j: int| i <= j < args.s.len() ==> printable((#[trigger] args.s[j]).0))
        &&& (r is Exit ==> (r->Exit_0).0 == m && is_ub((r->Exit_0).1))
    })
    decreases args.s.len() - i
{
    if i < args.s.len() {
        print_loop(args, i + 1, m);
        if printable(args.s[i].0) {
            assert(Machine__eval_print__loop1(args, i, m) == Machine__eval_print__loop1(args, i + 1, m));
            if Machine__eval_print__loop1(args, i, m) is Cont {
                assert forall|j: int| i <= j < args.s.len() implies printable((#[trigger] args.s[j]).0) by { if j == i { } }
            }
        }
    }
}
/// printing succeeds exactly if every argument is an integer or a boolean, and has no other effect on the machine
pub proof fn print(m: Machine, s: DynWrite, args: List<(Value, Type)>)
    ensures Machine__eval_print_ok(m, s, args), ({
        let (n, r) = Machine__eval_print(m, s, args);
        n == m && if forall|j: int| 0 <= j < args.s.len() ==> printable((#[trigger] args.s[j]).0) { r is Ok } else { is_ub(r) }
    })
{ print_loop(args, 0, m); }
/// each print goes to the stream it names, and gives the unit value
pub proof fn streams(m: Machine, args: List<(Value, Type)>, ret: Type)
    ensures ({
        let (n, r) = Machine__eval_intrinsic(m, IntrinsicOp::PrintStdout, args, ret);
        let e = Machine__eval_print(m, m.stdout, args).1;
        n == m && if ret != unit_type() || e is Err { is_ub(r) } else { r == Ok::<Value, TerminationInfo>(unit_value()) }
    }), ({
        let (n, r) = Machine__eval_intrinsic(m, IntrinsicOp::PrintStderr, args, ret);
        let e = Machine__eval_print(m, m.stderr, args).1;
        n == m && if ret != unit_type() || e is Err { is_ub(r) } else { r == Ok::<Value, TerminationInfo>(unit_value()) }
    })
{ print(m, m.stdout, args); print(m, m.stderr, args); }
/// exiting ends the run: regularly if nothing has leaked, otherwise with what the leak check says; aborting ends it as an abort; neither is ever undone
pub proof fn exits(m: Machine, args: List<(Value, Type)>, ret: Type)
    ensures ({
        let (n, r) = Machine__eval_intrinsic(m, IntrinsicOp::Exit, args, ret);
        let l = ConcurrentMemory__leak_check(m.mem);
        n == m && r is Err && r->Err_0 == if l is Err { l->Err_0 } else { TerminationInfo::MachineStop }
    }), ({
        let (n, r) = Machine__eval_intrinsic(m, IntrinsicOp::Abort, args, ret);
        n == m && r is Err && r->Err_0 is Abort
    })
{ }
/// the leak check finds exactly the live heap blocks
pub proof fn leaks_loop<P, A>(l: List<Allocation<P, A>>, i: int)
    requires 0 <= i <= l.s.len()
    ensures BasicMemory__leak_check__loop1_ok(l, i), ({
        let r = BasicMemory__leak_check__loop1(l, i);
        if exists|j: int| i <= j < l.s.len() && (#[trigger] l.s[j]).live && l.s[j].kind == AllocationKind::Heap { r is Exit && r->Exit_0 is Err && r->Exit_0->Err_0 is MemoryLeak } else { r is Cont }
    })
    decreases l.s.len() - i
{
    if i < l.s.len() {
        leaks_loop(l, i + 1);
        assert(l.s[i].kind is Heap <==> l.s[i].kind == AllocationKind::Heap);
    }
}
/// and its only complaint is a leak
pub proof fn leak_outcome(b: BasicMemory<(), ()>, t: TreeBorrowsMemory)
    ensures ({ let r = BasicMemory__Memory__leak_check(b); r is Err ==> r->Err_0 is MemoryLeak }), ({ let r = TreeBorrowsMemory__Memory__leak_check(t); r is Err ==> r->Err_0 is MemoryLeak })
{ leaks_loop(b.allocations, 0); leaks_loop(t.mem.allocations, 0); }

// ---------------------------------------------------------------- one step
pub open spec fn enabled(m: Machine) -> bool { exists|t: int| 0 <= t < m.threads.s.len() && (#[trigger] m.threads.s[t]).state == ThreadState::Enabled }
pub open spec fn chosen(m: Machine) -> Result<int, TerminationInfo> {
    nd_pick::<TerminationInfo>(IntDistribution { start: 0, end: m.threads.s.len() as int, divisor: 1 }, |id: int| { match List__get::<Thread>(m.threads, id) { Some(thread_2) => { (thread_2.state == ThreadState::Enabled) } _ => { false } } })
}
pub open spec fn resumed(m: Machine) -> Machine { Machine { active_thread: chosen(m)->Ok_0, ..Machine__reset_data_race_tracking(m).0 } }
pub open spec fn next_block(m: Machine) -> BasicBlock { Map__index_at::<BbName, BasicBlock>(Machine__cur_frame(m).func.blocks, Machine__cur_frame(m).next_block) }
pub open spec fn at_end(m: Machine) -> bool { Machine__cur_frame(m).next_stmt == next_block(m).statements.s.len() }
/// the outcome of the code the step runs
pub open spec fn ran(m: Machine) -> Result<(), TerminationInfo> {
    let p = resumed(m);
    if at_end(p) { Machine__eval_terminator(p, next_block(p).terminator).1 } else { Machine__eval_statement(p, next_block(p).statements.s[Machine__cur_frame(p).next_stmt]).1 }
}
pub proof fn any_enabled(m: Machine)
    ensures List__any(m.threads, |thread: Thread| { (thread.state == ThreadState::Enabled) }) <==> enabled(m)
{
    let f = |thread: Thread| { (thread.state == ThreadState::Enabled) };
    if enabled(m) { let t = choose|t: int| 0 <= t < m.threads.s.len() && (#[trigger] m.threads.s[t]).state == ThreadState::Enabled; assert(f(m.threads.s[t])); }
    if List__any(m.threads, f) { let i = choose|i: int| 0 <= i < m.threads.s.len() && f(#[trigger] m.threads.s[i]); assert(m.threads.s[i].state == ThreadState::Enabled); }
}
/// a run with nobody to continue it ends as a deadlock; otherwise the outcome of a step is the outcome of the one statement or terminator it runs: an error of that code is the machine's, unchanged
pub proof fn step_outcome(m: Machine)
    ensures !enabled(m) ==> Machine__step(m).1 is Err && Machine__step(m).1->Err_0 is Deadlock && Machine__step(m).0 == m,
        enabled(m) && chosen(m) is Ok && ran(m) is Err ==> Machine__step(m).1 == ran(m),
        enabled(m) && chosen(m) is Ok && Machine__step(m).1 is Ok ==> ran(m) is Ok,
{
    any_enabled(m);
}
pub proof fn arguments_fail(l: List<ValueExpr>, i: int, m: Machine, acc: List<(Value, Type)>)
    ensures Machine__eval_terminator__loop4(l, i, m, acc) is Exit ==> (Machine__eval_terminator__loop4(l, i, m, acc)->Exit_0).1 is Err
    decreases l.s.len() - i
{
    if 0 <= i && i < l.s.len() {
        let (n, r) = Machine__eval_value(m, l.s[i]);
        if r is Ok { arguments_fail(l, i + 1, n, List__push::<(Value, Type)>(acc, r->Ok_0)); }
    }
}
/// an exit or abort the program reaches with its operands evaluated always ends the run: nothing after it executes, whatever its other threads are doing
pub proof fn exit_ends_run(m: Machine, i: IntrinsicOp, args: List<ValueExpr>, ret: PlaceExpr, next: Option<BbName>)
    requires i is Exit || i is Abort
    ensures Machine__eval_terminator(m, Terminator::Intrinsic { intrinsic: i, arguments: args, ret, next_block: next }).1 is Err,
{
    let (m1, p) = Machine__eval_place(m, ret);
    arguments_fail(args, 0, m1, List__new());
}

// ---------------------------------------------------------------- output and exit from Rust
pub open spec fn tr_sargs(f: FnCtxt, l: Seq<RsSpanned<RsOperand>>, out: Seq<ValueExpr>, n: int) -> bool { out.len() >= n && forall|i: int| 0 <= i < n ==> tr_rop(f, l[i].node, #[trigger] out[i]) }
pub proof fn mir_intrinsic_args(f: FnCtxt, l: List<RsSpanned<RsOperand>>, i: int, g: FnCtxt, acc: List<ValueExpr>)
    requires FnCtxt__translate_call__loop2_ok(l, i, g, acc), 0 <= i <= l.s.len(), acc.s.len() == i, same_fn(f, g), tr_sargs(f, l.s, acc.s, i)
    ensures ({ let (h, out) = FnCtxt__translate_call__loop2(l, i, g, acc); same_fn(f, h) && out.s.len() == l.s.len() && tr_sargs(f, l.s, out.s, l.s.len() as int) })
    decreases l.s.len() - i
{
    reveal_with_fuel(FnCtxt__translate_call__loop2, 2); reveal_with_fuel(FnCtxt__translate_call__loop2_ok, 2);
    if i < l.s.len() {
        let a = FnCtxt__translate_operand(g, l.s[i].node, l.s[i].span);
        let acc2 = List { s: acc.s.push(a.1) };
        assert forall|j: int| 0 <= j < i + 1 implies tr_rop(f, l.s[j].node, #[trigger] acc2.s[j]) by { if j < i { assert(acc2.s[j] == acc.s[j]); } }
        mir_intrinsic_args(f, l, i + 1, a.0, acc2);
    }
}
/// the function called is one of the machine's own
pub open spec fn own_fn(f: FnCtxt, func: RsOperand, sp: RsSpan, name: Txt) -> bool {
    let k = RsTy__kind(RsOperand__ty(func, f.body, f.cx.tcx));
    k is FnDef && !(RsInstance__expect_resolve(f.cx.tcx, Ctxt__typing_env(f.cx), k->FnDef_0, k->FnDef_1, sp).def is Intrinsic)
    && RsSym__as_str(RsTyCtxt__crate_name(f.cx.tcx, k->FnDef_0.krate)) == txt__intrinsics() && RsSym__as_str(RsTyCtxt__item_name(f.cx.tcx, k->FnDef_0)) == name
}
/// the functions for output and for ending the program become the machine operations they name, with every argument at its position
pub proof fn mir_intrinsic(f: FnCtxt, func: RsOperand, args: List<RsSpanned<RsOperand>>, dest: RsPlace, target: Option<int>, sp: RsSpan, u: RsUnwindAction, bb: RsBasicBlockData, name: Txt)
    requires FnCtxt__translate_call_ok(f, func, args, dest, target, sp, u, bb), own_fn(f, func, sp, name), name == txt__print() || name == txt__eprint() || name == txt__exit() || name == txt__panic()
    ensures ({
        let r = FnCtxt__translate_call(f, func, args, dest, target, sp, u, bb).1; let t = r.terminator; let op = t->Intrinsic_intrinsic;
        &&& t is Intrinsic && r.stmts.s.len() == 0
        &&& (name == txt__print() ==> op is PrintStdout)
        &&& (name == txt__eprint() ==> op is PrintStderr)
        &&& (name == txt__exit() ==> op is Exit)
        &&& (name == txt__panic() ==> op is Abort)
        &&& t->Intrinsic_arguments.s.len() == args.s.len() && tr_sargs(f, args.s, t->Intrinsic_arguments.s, args.s.len() as int)
        &&& tr_rplace(f, dest, t->Intrinsic_ret)
        &&& (target is None ==> t->Intrinsic_next_block is None) && (target is Some ==> f.bb_name_map.m.contains_key(target->0) && t->Intrinsic_next_block == Some(f.bb_name_map.m[target->0]))
    })
{
    reveal(FnCtxt__translate_call); reveal(FnCtxt__translate_call_ok);
    assert(same_fn(f, f));
    let z = List__new::<ValueExpr>();
    mir_intrinsic_args(f, args, 0, f, z);
}
