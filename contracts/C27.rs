// C27: control reaches exactly the block the terminator names, and every statement runs once, in order.

/// the active thread exists and has a frame
pub open spec fn running(m: Machine) -> bool { 0 <= m.active_thread < m.threads.s.len() && m.threads.s[m.active_thread].stack.s.len() > 0 }
pub open spec fn active(m: Machine) -> Thread { m.threads.s[m.active_thread] }
pub open spec fn top(m: Machine) -> StackFrame { active(m).stack.s.last() }
/// m with another active thread state, and with another top frame: nothing else changes
pub open spec fn with_thread(m: Machine, t: Thread) -> Machine { Machine { threads: List { s: m.threads.s.update(m.active_thread, t) }, ..m } }
pub open spec fn with_stack(m: Machine, st: Seq<StackFrame>) -> Machine { with_thread(m, Thread { stack: List { s: st }, ..active(m) }) }
pub open spec fn with_top(m: Machine, f: StackFrame) -> Machine { with_stack(m, active(m).stack.s.update(active(m).stack.s.len() - 1, f)) }
/// control of the active thread is at the first statement of block b
pub open spec fn at_block(f: StackFrame, b: BbName) -> StackFrame { StackFrame { next_block: b, next_stmt: 0, ..f } }
/// r is e's error, or success
pub open spec fn same_result<A, B>(r: Result<A, TerminationInfo>, e: Result<B, TerminationInfo>) -> bool {
    match e { Ok(_) => r is Ok, Err(x) => r is Err && r->Err_0 == x }
}
pub proof fn jump(m: Machine, b: BbName)
    requires running(m)
    ensures Machine__jump_to_block_ok(m, b), Machine__jump_to_block(m, b).1 is Ok, Machine__jump_to_block(m, b).0 == with_top(m, at_block(top(m), b)),
{
    let n = Machine__jump_to_block(m, b).0;
    assert(n.threads.s =~= with_top(m, at_block(top(m), b)).threads.s);
}
/// a jump moves the active thread to the start of the block, and changes nothing else
pub proof fn goto(m: Machine, b: BbName)
    requires running(m)
    ensures Machine__eval_terminator(m, Terminator::Goto(b)).1 is Ok, Machine__eval_terminator(m, Terminator::Goto(b)).0 == with_top(m, at_block(top(m), b)),
{ jump(m, b); }
/// a switch goes to the case equal to the value, and to the fallback exactly if there is none
pub proof fn switch(m: Machine, v: ValueExpr, cases: Map<int, BbName>, fallback: BbName)
    requires running(Machine__eval_value(m, v).0)
    ensures ({
        let (n, r) = Machine__eval_terminator(m, Terminator::Switch { value: v, cases, fallback });
        let (m1, e) = Machine__eval_value(m, v);
        &&& (e is Err ==> n == m1 && same_result(r, e))
        &&& (e is Ok && (e->Ok_0).0 is Int ==> ({
            let x = (e->Ok_0).0->Int_0;
            let b = if cases.m.contains_key(x) { cases.m[x] } else { fallback };
            r is Ok && n == with_top(m1, at_block(top(m1), b))
        }))
    })
{
    let m1 = Machine__eval_value(m, v).0;
    assert forall|b: BbName| #[trigger] Machine__jump_to_block(m1, b) == (with_top(m1, at_block(top(m1), b)), Machine__jump_to_block(m1, b).1) && Machine__jump_to_block(m1, b).1 is Ok by { jump(m1, b); }
}
pub proof fn unreachable(m: Machine)
    ensures is_ub(Machine__eval_terminator(m, Terminator::Unreachable).1), Machine__eval_terminator(m, Terminator::Unreachable).0 == m
{ }
/// assumptions that do not hold are undefined behaviour, and those that do have no effect
pub proof fn assumption(m: Machine, args: List<(Value, Type)>, ret: Type)
    ensures ({
        let (n, r) = Machine__eval_intrinsic(m, IntrinsicOp::Assume, args, ret);
        n == m && if args.s.len() == 1 && args.s[0].0 == Value::Bool(true) && ret == unit_type() { r == Ok::<Value, TerminationInfo>(unit_value()) } else { is_ub(r) }
    })
{ }
/// after an intrinsic, control continues at its next block; without one, returning from it is undefined behaviour
pub proof fn intrinsic_continues(m: Machine, i: IntrinsicOp, args: List<ValueExpr>, ret: PlaceExpr, next: Option<BbName>)
    ensures ({
        let (n, r) = Machine__eval_terminator(m, Terminator::Intrinsic { intrinsic: i, arguments: args, ret, next_block: next });
        r is Ok ==> next is Some
    })
{ args_loop(args, 0, Machine__eval_place(m, ret).0, List__new::<(Value, Type)>()); }
/// the operands are evaluated in order, each once, and an error ends the evaluation
pub proof fn args_loop(l: List<ValueExpr>, i: int, m: Machine, acc: List<(Value, Type)>)
    requires 0 <= i <= l.s.len()
    ensures ({
        let r = Machine__eval_terminator__loop4(l, i, m, acc);
        &&& (r is Exit ==> (r->Exit_0).1 is Err)
        &&& (r is Cont ==> (r->Cont_0).1.s.len() == acc.s.len() + (l.s.len() - i))
        &&& (r is Cont && i < l.s.len() ==> ({ let (m1, v) = Machine__eval_value(m, l.s[i]); v is Ok && Machine__eval_terminator__loop4(l, i + 1, m1, List { s: acc.s.push(v->Ok_0) }) == r }))
    })
    decreases l.s.len() - i
{
    if i < l.s.len() {
        let (m1, v) = Machine__eval_value(m, l.s[i]);
        if v is Ok { args_loop(l, i + 1, m1, List { s: acc.s.push(v->Ok_0) }); }
    }
}
/// the thread a step runs
pub open spec fn picked(m: Machine) -> Result<int, TerminationInfo> {
    nd_pick::<TerminationInfo>(IntDistribution { start: 0, end: m.threads.s.len() as int, divisor: 1 }, |id: int| { match List__get::<Thread>(m.threads, id) { Some(thread_2) => { (thread_2.state == ThreadState::Enabled) } _ => { false } } })
}
pub open spec fn start_of_step(m: Machine) -> Machine { Machine { active_thread: picked(m)->Ok_0, ..Machine__reset_data_race_tracking(m).0 } }
/// a statement is followed by the next one of its block, exactly once: the position advances by one after it and nothing else moves
pub proof fn statement_then_next(m: Machine)
    requires ({
        let p = start_of_step(m); let f = Machine__cur_frame(p); let b = f.func.blocks.m[f.next_block];
        f.next_stmt != b.statements.s.len() && running(Machine__eval_statement(p, b.statements.s[f.next_stmt]).0)
    }), Machine__step(m).1 is Ok
    ensures ({
        let p = start_of_step(m); let f = Machine__cur_frame(p); let b = f.func.blocks.m[f.next_block];
        let q = Machine__eval_statement(p, b.statements.s[f.next_stmt]).0;
        Machine__step(m).0 == with_top(q, StackFrame { next_stmt: top(q).next_stmt + 1, ..top(q) })
    })
{
    let p = start_of_step(m); let f = Machine__cur_frame(p); let b = f.func.blocks.m[f.next_block];
    let q = Machine__eval_statement(p, b.statements.s[f.next_stmt]).0;
    assert(Machine__step(m).0.threads.s =~= with_top(q, StackFrame { next_stmt: top(q).next_stmt + 1, ..top(q) }).threads.s);
}
/// at the end of the block, and only there, the terminator runs
pub proof fn terminator_last(m: Machine)
    requires ({
        let p = start_of_step(m); let f = Machine__cur_frame(p);
        f.next_stmt == f.func.blocks.m[f.next_block].statements.s.len()
    }), Machine__step(m).1 is Ok
    ensures ({
        let p = start_of_step(m); let f = Machine__cur_frame(p);
        Machine__step(m).0 == Machine__eval_terminator(p, f.func.blocks.m[f.next_block].terminator).0
    })
{ }

// ---------------------------------------------------------------- from MIR to MiniRust
/// the simple terminators go where the compiler's say they go
pub proof fn mir_jumps(f: FnCtxt, bb: RsBasicBlockData)
    requires FnCtxt__translate_terminator_ok(f, bb)
    ensures ({
        let k = RsBasicBlockData__terminator(bb).kind;
        let (g, r) = FnCtxt__translate_terminator(f, bb);
        &&& (k is Return ==> r.terminator is Return)
        &&& (k is Goto ==> f.bb_name_map.m.contains_key(k->Goto_target) && r.terminator == Terminator::Goto(f.bb_name_map.m[k->Goto_target]))
        &&& (k is Unreachable ==> r.terminator is Unreachable)
        &&& (k is UnwindResume ==> r.terminator is ResumeUnwind)
        &&& ((k is Return || k is Goto || k is Unreachable || k is UnwindResume) ==> r.stmts.s.len() == 0 && g == f)
    })
{ reveal(FnCtxt__translate_terminator); reveal(FnCtxt__translate_terminator_ok); }
/// a switch dispatches on the (value of the) same operand, each of the compiler's targets in its table, with the compiler's fallback
pub proof fn mir_switch(f: FnCtxt, bb: RsBasicBlockData)
    requires FnCtxt__translate_terminator_ok(f, bb), RsBasicBlockData__terminator(bb).kind is SwitchInt
    ensures ({
        let k = RsBasicBlockData__terminator(bb).kind;
        let ts = k->SwitchInt_targets;
        let r = FnCtxt__translate_terminator(f, bb).1.terminator;
        &&& r is Switch
        &&& f.bb_name_map.m.contains_key(RsSwitchTargets__otherwise(ts))
        &&& r->Switch_fallback == f.bb_name_map.m[RsSwitchTargets__otherwise(ts)]
        &&& exists|y: Type, e: ValueExpr| tr_ty(f, RsOperand__ty(k->SwitchInt_discr, f.body, f.cx.tcx), y) && tr_rop(f, k->SwitchInt_discr, e) && #[trigger] switch_on(f, y, e, RsSwitchTargets__iter(ts).s, r)
    })
{
    reveal(FnCtxt__translate_terminator); reveal(FnCtxt__translate_terminator_ok);
    let k = RsBasicBlockData__terminator(bb).kind;
    let sp = RsBasicBlockData__terminator(bb).source_info.span;
    let (cx, y) = Ctxt__translate_ty(f.cx, RsOperand__ty(k->SwitchInt_discr, f.body, f.cx.tcx), sp);
    let f1 = FnCtxt { cx, ..f };
    let (f2, e) = FnCtxt__translate_operand_smir(f1, RsOperand__smir_stable(k->SwitchInt_discr), sp);
    assert(same_fn(f, f1));
    let r = FnCtxt__translate_terminator(f, bb).1.terminator;
    let t = switch_int(y);
    let l = List__map(RsSwitchTargets__iter(k->SwitchInt_targets), |a: (int, int)| { let (v, b) = a; (mini__int_from_bits(v, t), Map__index_at::<int, BbName>(f2.bb_name_map, b)) });
    assert(l.s =~= switch_table(f, t, RsSwitchTargets__iter(k->SwitchInt_targets).s));
    assert(switch_on(f, y, e, RsSwitchTargets__iter(k->SwitchInt_targets).s, r));
}
/// the integer type a switch on a value of type y compares in
pub open spec fn switch_int(y: Type) -> IntType { if y is Int { y->Int_0 } else { IntType { signed: Signedness::Unsigned, size: Size { raw: 1 } } } }
pub open spec fn switch_table(f: FnCtxt, t: IntType, s: Seq<(int, int)>) -> Seq<(int, BbName)> {
    Seq::new(s.len(), |i: int| (mini__int_from_bits(s[i].0, t), f.bb_name_map.m[s[i].1]))
}
pub open spec fn switch_on(f: FnCtxt, y: Type, e: ValueExpr, s: Seq<(int, int)>, r: Terminator) -> bool {
    &&& (y is Int || y is Bool)
    &&& r->Switch_cases.m == map_from(switch_table(f, switch_int(y), s))
    &&& (y is Int ==> r->Switch_value == e)
    &&& (y is Bool ==> r->Switch_value is UnOp && *r->Switch_value->UnOp_operand == e && r->Switch_value->UnOp_operator == UnOp::Cast(CastOp::Transmute(Type::Int(switch_int(y)))))
}
/// out is what the statement becomes in this function
pub open spec fn tr_stmt(f: FnCtxt, s: RsStatement, out: Statement) -> bool {
    exists|st: FnCtxt| same_fn(f, st) && #[trigger] FnCtxt__translate_stmt(st, s).1 == StatementResult::Statement(out)
}
/// statements that do not need a block of their own
pub open spec fn plain_stmt(s: RsStatement) -> bool {
    match s.kind {
        RsStatementKind::Assign(a) => !(a.1 is Cast && (a.1->Cast_0 is PointerExposeProvenance || a.1->Cast_0 is PointerWithExposedProvenance)),
        RsStatementKind::Intrinsic(_) => false,
        _ => true,
    }
}
pub proof fn plain_becomes_statement(f: FnCtxt, s: RsStatement)
    requires FnCtxt__translate_stmt_ok(f, s), plain_stmt(s)
    ensures FnCtxt__translate_stmt(f, s).1 is Statement
{ reveal(FnCtxt__translate_stmt); reveal(FnCtxt__translate_stmt_ok); }
pub proof fn mir_block_loop(f: FnCtxt, l: List<RsStatement>, i: int, k: BbKind, g: FnCtxt, name: BbName, acc: List<Statement>)
    requires FnCtxt__translate_bb__loop1_ok(l, i, k, g, name, acc), same_fn(f, g), 0 <= i <= l.s.len(), acc.s.len() == i,
        forall|j: int| 0 <= j < l.s.len() ==> plain_stmt(#[trigger] l.s[j]), forall|j: int| 0 <= j < i ==> #[trigger] tr_stmt(f, l.s[j], acc.s[j]),
    ensures ({
        let (h, n, out) = FnCtxt__translate_bb__loop1(l, i, k, g, name, acc);
        &&& n == name && same_fn(f, h) && out.s.len() == l.s.len()
        &&& forall|j: int| 0 <= j < l.s.len() ==> #[trigger] tr_stmt(f, l.s[j], out.s[j])
    })
    decreases l.s.len() - i
{
    reveal(FnCtxt__translate_bb__loop1); reveal(FnCtxt__translate_bb__loop1_ok);
    if i < l.s.len() {
        let (h, r) = FnCtxt__translate_stmt(g, l.s[i]);
        plain_becomes_statement(g, l.s[i]);
        let acc2 = List { s: acc.s.push(r->Statement_0) };
        assert forall|j: int| 0 <= j < i + 1 implies #[trigger] tr_stmt(f, l.s[j], acc2.s[j]) by { if j < i { assert(acc2.s[j] == acc.s[j]); } }
        mir_block_loop(f, l, i + 1, k, h, name, acc2);
    }
}
pub proof fn mir_extra_loop(l: List<Statement>, i: int, acc: List<Statement>)
    requires 0 <= i <= l.s.len()
    ensures FnCtxt__translate_bb__loop2(l, i, acc).s == acc.s + l.s.subrange(i, l.s.len() as int)
    decreases l.s.len() - i
{
    reveal(FnCtxt__translate_bb__loop2); reveal(FnCtxt__translate_bb__loop2_ok);
    if i < l.s.len() { mir_extra_loop(l, i + 1, List { s: acc.s.push(l.s[i]) }); }
    assert(FnCtxt__translate_bb__loop2(l, i, acc).s =~= acc.s + l.s.subrange(i, l.s.len() as int));
}
/// a basic block keeps its statements, in order and each once, then what its terminator needs, then its terminator; and stays a cleanup block if it is one
pub proof fn mir_block(f: FnCtxt, name: BbName, bb: RsBasicBlockData)
    requires FnCtxt__translate_bb_ok(f, name, bb), forall|j: int| 0 <= j < bb.statements.s.len() ==> plain_stmt(#[trigger] bb.statements.s[j])
    ensures ({
        let g = FnCtxt__translate_bb(f, name, bb);
        let b = g.blocks.m[name];
        &&& same_fn(f, g) && g.blocks.m.contains_key(name)
        &&& b.kind == if bb.is_cleanup { BbKind::Cleanup } else { BbKind::Regular }
        &&& b.statements.s.len() >= bb.statements.s.len()
        &&& forall|j: int| 0 <= j < bb.statements.s.len() ==> #[trigger] tr_stmt(f, bb.statements.s[j], b.statements.s[j])
        &&& exists|st: FnCtxt| same_fn(f, st) && ({
            let t = (#[trigger] FnCtxt__translate_terminator(st, bb)).1;
            b.terminator == t.terminator && b.statements.s.subrange(bb.statements.s.len() as int, b.statements.s.len() as int) == t.stmts.s
        })
    })
{
    reveal(FnCtxt__translate_bb); reveal(FnCtxt__translate_bb_ok);
    let k = if bb.is_cleanup { BbKind::Cleanup } else { BbKind::Regular };
    mir_block_loop(f, bb.statements, 0, k, f, name, List__new::<Statement>());
    let (h, n, out) = FnCtxt__translate_bb__loop1(bb.statements, 0, k, f, name, List__new::<Statement>());
    let t = FnCtxt__translate_terminator(h, bb).1;
    mir_extra_loop(t.stmts, 0, out);
    let b = FnCtxt__translate_bb(f, name, bb).blocks.m[name];
    assert(b.statements.s == out.s + t.stmts.s) by { assert(t.stmts.s.subrange(0, t.stmts.s.len() as int) =~= t.stmts.s); }
    assert(b.statements.s.subrange(bb.statements.s.len() as int, b.statements.s.len() as int) =~= t.stmts.s);
}
/// a statement that needs a block of its own ends the block so far and continues in a new one
pub proof fn mir_block_splits(f: FnCtxt, l: List<RsStatement>, i: int, k: BbKind, name: BbName, acc: List<Statement>)
    requires FnCtxt__translate_bb__loop1_ok(l, i, k, f, name, acc), 0 <= i < l.s.len(), FnCtxt__translate_stmt(f, l.s[i]).1 is Intrinsic
    ensures ({
        let (g, r) = FnCtxt__translate_stmt(f, l.s[i]);
        exists|h: FnCtxt, n: BbName| {
            &&& FnCtxt__translate_bb__loop1(l, i, k, f, name, acc) == #[trigger] FnCtxt__translate_bb__loop1(l, i + 1, k, h, n, List { s: Seq::empty() })
            &&& same_fn(f, h)
            &&& h.blocks.m.contains_key(name) && h.blocks.m[name] == BasicBlock { statements: acc, kind: k, terminator:
                Terminator::Intrinsic { intrinsic: r->intrinsic, arguments: r->arguments, ret: r->destination, next_block: Some(n) } }
            &&& forall|o: BbName| o != name ==> g.blocks.m.contains_key(o) == #[trigger] h.blocks.m.contains_key(o)
        }
    })
{
    reveal(FnCtxt__translate_bb__loop1); reveal(FnCtxt__translate_bb__loop1_ok);
    let (g, r) = FnCtxt__translate_stmt(f, l.s[i]);
    let (g2, n) = FnCtxt__fresh_bb_name(g);
    let b = BasicBlock { statements: acc, kind: k, terminator: Terminator::Intrinsic { intrinsic: r->intrinsic, arguments: r->arguments, ret: r->destination, next_block: Some(n) } };
    let h = FnCtxt { blocks: Map { m: g2.blocks.m.insert(name, b) }, ..g2 };
    let e = List::<Statement> { s: Seq::empty() };
    assert(List__new::<Statement>() == e);
    assert(FnCtxt__translate_bb__loop1(l, i, k, f, name, acc) == FnCtxt__translate_bb__loop1(l, i + 1, k, h, n, e));
}
/// an assertion panics exactly if its condition is not the expected one (and does nothing if it is about overflow and overflow checks are off)
pub proof fn mir_assert(f: FnCtxt, bb: RsBasicBlockData)
    requires FnCtxt__translate_terminator_ok(f, bb), RsBasicBlockData__terminator(bb).kind is Assert
    ensures ({
        let k = RsBasicBlockData__terminator(bb).kind;
        let (g, r) = FnCtxt__translate_terminator(f, bb);
        let t = r.terminator;
        let next = f.bb_name_map.m[k->Assert_target];
        if !RsSession__overflow_checks(f.cx.tcx.sess) && RsAssertMessage__is_optional_overflow_check(k->Assert_msg) { t == Terminator::Goto(next) }
        else { exists|e: ValueExpr| #[trigger] tr_rop(f, k->Assert_cond, e) && asserts(f, g, t, if k->Assert_expected { e } else { build__not(e) }, next, k->Assert_unwind, bb) }
    })
{
    reveal(FnCtxt__translate_terminator); reveal(FnCtxt__translate_terminator_ok);
    let k = RsBasicBlockData__terminator(bb).kind;
    let sp = RsBasicBlockData__terminator(bb).source_info.span;
    let (f1, e) = FnCtxt__translate_operand_smir(f, RsOperand__smir_stable(k->Assert_cond), sp);
    assert(tr_rop(f, k->Assert_cond, e)) by { assert(same_fn(f, f)); }
    let (g, r) = FnCtxt__translate_terminator(f, bb);
    let l = seq![(1int, f.bb_name_map.m[k->Assert_target])];
    reveal_with_fuel(map_from, 3);
    assert(l.drop_last() =~= Seq::empty());
    assert(map_from(l) =~= vstd::map::Map::empty().insert(1int, f.bb_name_map.m[k->Assert_target]));
    assert(List__push::<(int, BbName)>(List__new::<(int, BbName)>(), (1int, f.bb_name_map.m[k->Assert_target])).s =~= l);
    if !(!RsSession__overflow_checks(f.cx.tcx.sess) && RsAssertMessage__is_optional_overflow_check(k->Assert_msg)) {
        let c = if k->Assert_expected { e } else { build__not(e) };
        let u = IntType { signed: Signedness::Unsigned, size: Size { raw: 1 } };
        assert(as_int(c, u, r.terminator->Switch_value));
        assert(same_fn(f, f1));
        let (f2, t) = FnCtxt__translate_panic(f1, k->Assert_unwind, bb);
        assert(only_block(g, r.terminator->Switch_fallback, t));
        assert(asserts(f, g, r.terminator, c, f.bb_name_map.m[k->Assert_target], k->Assert_unwind, bb));
    }
}
/// t goes to next if the boolean c holds, and otherwise to a block that starts the panic
pub open spec fn asserts(f: FnCtxt, g: FnCtxt, t: Terminator, c: ValueExpr, next: BbName, unwind: RsUnwindAction, bb: RsBasicBlockData) -> bool {
    &&& t is Switch && t->Switch_cases.m == vstd::map::Map::empty().insert(1int, next)
    &&& exists|u: IntType| #[trigger] as_int(c, u, t->Switch_value) && 8 * u.size.raw == 8
    &&& exists|st: FnCtxt| same_fn(f, st) && only_block(g, t->Switch_fallback, (#[trigger] FnCtxt__translate_panic(st, unwind, bb)).1)
    &&& g.blocks.m[t->Switch_fallback].kind == if bb.is_cleanup { BbKind::Cleanup } else { BbKind::Regular }
}
pub open spec fn as_int(c: ValueExpr, u: IntType, v: ValueExpr) -> bool { v is UnOp && v->UnOp_operator == UnOp::Cast(CastOp::Transmute(Type::Int(u))) && *v->UnOp_operand == c }

// ---------------------------------------------------------------- no translated block is lost or overwritten
/// all names of blocks and locals in use have been handed out
pub open spec fn names_used(f: FnCtxt) -> bool {
    &&& forall|b: BbName| #[trigger] f.blocks.m.contains_key(b) ==> b.0.id < f.next_bb
    &&& forall|l: LocalName| #[trigger] f.locals.m.contains_key(l) ==> l.0.id < f.next_local
}
/// g has f's blocks and locals, unchanged, and beyond those only ones with names handed out since (or the block n)
pub open spec fn grows_at(f: FnCtxt, g: FnCtxt, n: Option<BbName>) -> bool {
    &&& f.next_bb <= g.next_bb && f.next_local <= g.next_local
    &&& forall|b: BbName| #[trigger] f.blocks.m.contains_key(b) ==> g.blocks.m.contains_key(b) && g.blocks.m[b] == f.blocks.m[b]
    &&& forall|b: BbName| #[trigger] g.blocks.m.contains_key(b) ==> f.blocks.m.contains_key(b) || n == Some(b) || f.next_bb <= b.0.id < g.next_bb
    &&& forall|l: LocalName| #[trigger] f.locals.m.contains_key(l) ==> g.locals.m.contains_key(l) && g.locals.m[l] == f.locals.m[l]
    &&& forall|l: LocalName| #[trigger] g.locals.m.contains_key(l) ==> f.locals.m.contains_key(l) || f.next_local <= l.0.id < g.next_local
}
pub open spec fn grows(f: FnCtxt, g: FnCtxt) -> bool { grows_at(f, g, None) }
pub proof fn grow_unwind(f: FnCtxt, u: RsUnwindAction, bb: RsBasicBlockData)
    requires FnCtxt__translate_unwind_action_ok(f, u, bb), names_used(f)
    ensures grows(f, FnCtxt__translate_unwind_action(f, u, bb).0)
{ reveal(FnCtxt__translate_unwind_action); reveal(FnCtxt__translate_unwind_action_ok); }
pub proof fn grow_panic(f: FnCtxt, u: RsUnwindAction, bb: RsBasicBlockData)
    requires FnCtxt__translate_panic_ok(f, u, bb), names_used(f)
    ensures grows(f, FnCtxt__translate_panic(f, u, bb).0)
{
    reveal(FnCtxt__translate_panic); reveal(FnCtxt__translate_panic_ok);
    if RsSession__panic_strategy(f.cx.tcx.sess) is Unwind { grow_unwind(f, u, bb); }
}
pub proof fn grow_catch(f: FnCtxt, args: List<ValueExpr>, dest: PlaceExpr, target: BbName)
    requires FnCtxt__translate_catch_unwind_ok(f, args, dest, target), names_used(f)
    ensures grows(f, FnCtxt__translate_catch_unwind(f, args, dest, target).0)
{ reveal(FnCtxt__translate_catch_unwind); reveal(FnCtxt__translate_catch_unwind_ok); }
/// g is f but for what is known about the program as a whole
pub open spec fn same_blocks(f: FnCtxt, g: FnCtxt) -> bool { f.blocks == g.blocks && f.locals == g.locals && f.next_bb == g.next_bb && f.next_local == g.next_local }
pub proof fn grow_intrinsic(f: FnCtxt, i: RsInstance, args: List<RsSpanned<RsOperand>>, dest: RsPlace, target: Option<int>, sp: RsSpan)
    requires FnCtxt__translate_rs_intrinsic_ok(f, i, args, dest, target, sp), names_used(f)
    ensures grows(f, FnCtxt__translate_rs_intrinsic(f, i, args, dest, target, sp).0)
{
    reveal(FnCtxt__translate_rs_intrinsic); reveal(FnCtxt__translate_rs_intrinsic_ok);
    let g = FnCtxt__translate_rs_intrinsic(f, i, args, dest, target, sp).0;
    assert forall|h: FnCtxt, a: List<ValueExpr>, d: PlaceExpr, t: BbName| FnCtxt__translate_catch_unwind_ok(h, a, d, t) && same_blocks(f, h) implies grows(f, (#[trigger] FnCtxt__translate_catch_unwind(h, a, d, t)).0) by { grow_catch(h, a, d, t); }
}
pub proof fn grow_call(f: FnCtxt, func: RsOperand, args: List<RsSpanned<RsOperand>>, dest: RsPlace, target: Option<int>, sp: RsSpan, u: RsUnwindAction, bb: RsBasicBlockData)
    requires FnCtxt__translate_call_ok(f, func, args, dest, target, sp, u, bb), names_used(f)
    ensures grows(f, FnCtxt__translate_call(f, func, args, dest, target, sp, u, bb).0)
{
    reveal(FnCtxt__translate_call); reveal(FnCtxt__translate_call_ok);
    assert forall|h: FnCtxt, w: RsUnwindAction, b: RsBasicBlockData| FnCtxt__translate_unwind_action_ok(h, w, b) && same_blocks(f, h) implies grows(f, (#[trigger] FnCtxt__translate_unwind_action(h, w, b)).0) by { grow_unwind(h, w, b); }
    assert forall|h: FnCtxt, w: RsUnwindAction, b: RsBasicBlockData| FnCtxt__translate_panic_ok(h, w, b) && same_blocks(f, h) implies grows(f, (#[trigger] FnCtxt__translate_panic(h, w, b)).0) by { grow_panic(h, w, b); }
    assert forall|h: FnCtxt, i: RsInstance, a: List<RsSpanned<RsOperand>>, d: RsPlace, t: Option<int>, s: RsSpan| FnCtxt__translate_rs_intrinsic_ok(h, i, a, d, t, s) && same_blocks(f, h) implies grows(f, (#[trigger] FnCtxt__translate_rs_intrinsic(h, i, a, d, t, s)).0) by { grow_intrinsic(h, i, a, d, t, s); }
}
pub proof fn grow_terminator(f: FnCtxt, bb: RsBasicBlockData)
    requires FnCtxt__translate_terminator_ok(f, bb), names_used(f)
    ensures grows(f, FnCtxt__translate_terminator(f, bb).0)
{
    reveal(FnCtxt__translate_terminator); reveal(FnCtxt__translate_terminator_ok);
    assert forall|h: FnCtxt, w: RsUnwindAction, b: RsBasicBlockData| FnCtxt__translate_unwind_action_ok(h, w, b) && same_blocks(f, h) implies grows(f, (#[trigger] FnCtxt__translate_unwind_action(h, w, b)).0) by { grow_unwind(h, w, b); }
    assert forall|h: FnCtxt, w: RsUnwindAction, b: RsBasicBlockData| FnCtxt__translate_panic_ok(h, w, b) && same_blocks(f, h) implies grows(f, (#[trigger] FnCtxt__translate_panic(h, w, b)).0) by { grow_panic(h, w, b); }
    let k = RsBasicBlockData__terminator(bb);
    if k.kind is Call { grow_call(f, k.kind->Call_func, k.kind->Call_args, k.kind->Call_destination, k.kind->Call_target, k.source_info.span, k.kind->Call_unwind, bb); }
}
/// the statements of a block: what is finished so far is kept, the current block is still to come
pub proof fn grow_stmts(f: FnCtxt, l: List<RsStatement>, i: int, k: BbKind, cur: BbName, acc: List<Statement>)
    requires FnCtxt__translate_bb__loop1_ok(l, i, k, f, cur, acc), names_used(f), 0 <= i <= l.s.len(), cur.0.id < f.next_bb, !f.blocks.m.contains_key(cur)
    ensures ({
        let (g, n, out) = FnCtxt__translate_bb__loop1(l, i, k, f, cur, acc);
        &&& grows_at(f, g, Some(cur)) && names_used(g) && same_fn(f, g) && !g.blocks.m.contains_key(n) && (n == cur || (g.blocks.m.contains_key(cur) && f.next_bb <= n.0.id)) && n.0.id < g.next_bb
    })
    decreases l.s.len() - i
{
    reveal(FnCtxt__translate_bb__loop1); reveal(FnCtxt__translate_bb__loop1_ok);
    let r = FnCtxt__translate_bb__loop1(l, i, k, f, cur, acc);
    if i < l.s.len() {
        let (f1, s) = FnCtxt__translate_stmt(f, l.s[i]);
        assert(same_blocks(f, f1) && same_fn(f, f1));
        if s is Statement {
            let acc2 = List { s: acc.s.push(s->Statement_0) };
            assert(r == FnCtxt__translate_bb__loop1(l, i + 1, k, f1, cur, acc2));
            grow_stmts(f1, l, i + 1, k, cur, acc2);
        } else {
            let (f2, n) = FnCtxt__fresh_bb_name(f1);
            let b = BasicBlock { statements: acc, kind: k, terminator: Terminator::Intrinsic { intrinsic: s->intrinsic, arguments: s->arguments, ret: s->destination, next_block: Some(n) } };
            let f3 = FnCtxt { blocks: Map { m: f2.blocks.m.insert(cur, b) }, ..f2 };
            let e = List__new::<Statement>();
            assert(r == FnCtxt__translate_bb__loop1(l, i + 1, k, f3, n, e));
            assert(grows_at(f, f3, Some(cur)));
            grow_stmts(f3, l, i + 1, k, n, e);
            assert(f3.blocks.m.contains_key(cur)); assert(r.0.blocks.m.contains_key(cur));
        }
    }
}
/// translating a block adds that block, and otherwise only new ones
pub proof fn grow_block(f: FnCtxt, name: BbName, bb: RsBasicBlockData)
    requires FnCtxt__translate_bb_ok(f, name, bb), names_used(f), name.0.id < f.next_bb, !f.blocks.m.contains_key(name)
    ensures ({ let g = FnCtxt__translate_bb(f, name, bb); grows_at(f, g, Some(name)) && g.blocks.m.contains_key(name) && names_used(g) && same_fn(f, g) })
{
    reveal(FnCtxt__translate_bb); reveal(FnCtxt__translate_bb_ok);
    let k = if bb.is_cleanup { BbKind::Cleanup } else { BbKind::Regular };
    let e = List__new::<Statement>();
    grow_stmts(f, bb.statements, 0, k, name, e);
    let (f1, n, out) = FnCtxt__translate_bb__loop1(bb.statements, 0, k, f, name, e);
    grow_terminator(f1, bb);
    let (f2, t) = FnCtxt__translate_terminator(f1, bb);
    assert(grows(f1, f2));
    let g = FnCtxt__translate_bb(f, name, bb);
    assert(g.blocks.m.contains_key(n));
    assert(!f.blocks.m.contains_key(n));
    assert(n == name || f.next_bb <= n.0.id < g.next_bb);
}
/// block b of the MIR has its translation in m
pub open spec fn block_done(f: FnCtxt, m: vstd::map::Map<BbName, BasicBlock>, name: BbName, bb: RsBasicBlockData) -> bool {
    exists|st: FnCtxt| same_fn(f, st) && m.contains_key(name) && m[name] == (#[trigger] FnCtxt__translate_bb(st, name, bb)).blocks.m[name] && FnCtxt__translate_bb_ok(st, name, bb)
}
pub open spec fn all_done(f: FnCtxt, g: FnCtxt, l: Seq<(int, BbName)>, n: int) -> bool {
    forall|j: int| 0 <= j < n ==> #[trigger] block_done(f, g.blocks.m, l[j].1, f.body.basic_blocks.s[l[j].0])
}
pub open spec fn to_come(f: FnCtxt, l: Seq<(int, BbName)>, i: int) -> bool { forall|j: int| i <= j < l.len() ==> !f.blocks.m.contains_key((#[trigger] l[j]).1) }
pub proof fn mir_blocks(f: FnCtxt, l: List<(int, BbName)>, i: int, g: FnCtxt)
    requires FnCtxt__translate__loop6_ok(l, i, g), 0 <= i <= l.s.len(), same_fn(f, g), names_used(g), all_done(f, g, l.s, i), to_come(g, l.s, i),
        forall|j: int| 0 <= j < l.s.len() ==> (#[trigger] l.s[j]).1.0.id < g.next_bb, forall|a: int, b: int| 0 <= a < b < l.s.len() ==> (#[trigger] l.s[a]).1 != (#[trigger] l.s[b]).1,
    ensures ({
        let h = FnCtxt__translate__loop6(l, i, g);
        &&& same_fn(f, h) && all_done(f, h, l.s, l.s.len() as int)
        &&& forall|b: BbName| #[trigger] g.blocks.m.contains_key(b) ==> h.blocks.m.contains_key(b) && h.blocks.m[b] == g.blocks.m[b]
        &&& forall|o: LocalName| #[trigger] g.locals.m.contains_key(o) ==> h.locals.m.contains_key(o) && h.locals.m[o] == g.locals.m[o]
    })
    decreases l.s.len() - i
{
    reveal(FnCtxt__translate__loop6); reveal(FnCtxt__translate__loop6_ok);
    if i < l.s.len() {
        let (k, name) = l.s[i];
        let bb = g.body.basic_blocks.s[k];
        grow_block(g, name, bb);
        let g2 = FnCtxt__translate_bb(g, name, bb);
        assert(FnCtxt__translate__loop6(l, i, g) == FnCtxt__translate__loop6(l, i + 1, g2));
        assert forall|j: int| 0 <= j < i + 1 implies #[trigger] block_done(f, g2.blocks.m, l.s[j].1, f.body.basic_blocks.s[l.s[j].0]) by {
            if j < i { assert(block_done(f, g.blocks.m, l.s[j].1, f.body.basic_blocks.s[l.s[j].0])); }
        }
        mir_blocks(f, l, i + 1, g2);
    }
}
/// block i of the body gets the name i
pub proof fn mir_block_names(l: List<int>, i: int, f: FnCtxt)
    requires 0 <= i <= l.s.len(), forall|j: int| 0 <= j < l.s.len() ==> #[trigger] l.s[j] == j, f.next_bb == i,
        forall|j: int| #[trigger] f.bb_name_map.m.contains_key(j) <==> 0 <= j < i, forall|j: int| 0 <= j < i ==> #[trigger] f.bb_name_map.m[j] == BbName(Name { id: j })
    ensures ({
        let g = FnCtxt__translate__loop1(l, i, f);
        &&& g.next_bb == l.s.len()
        &&& forall|j: int| #[trigger] g.bb_name_map.m.contains_key(j) <==> 0 <= j < l.s.len()
        &&& forall|j: int| 0 <= j < l.s.len() ==> #[trigger] g.bb_name_map.m[j] == BbName(Name { id: j })
    })
    decreases l.s.len() - i
{
    reveal(FnCtxt__translate__loop1); reveal(FnCtxt__translate__loop1_ok);
    if i < l.s.len() {
        let (f1, n) = FnCtxt__fresh_bb_name(f);
        let g = FnCtxt { bb_name_map: Map { m: f1.bb_name_map.m.insert(l.s[i], n) }, ..f1 };
        mir_block_names(l, i + 1, g);
        assert(FnCtxt__translate__loop1(l, i, f) == FnCtxt__translate__loop1(l, i + 1, g));
    }
}
/// a fresh context for a body
pub open spec fn untouched(f: FnCtxt) -> bool {
    f.next_local == 0 && f.next_bb == 0 && f.blocks.m == vstd::map::Map::<BbName, BasicBlock>::empty() && f.locals.m == vstd::map::Map::<LocalName, Type>::empty()
        && f.bb_name_map.m == vstd::map::Map::<int, BbName>::empty() && f.local_name_map.m == vstd::map::Map::<int, LocalName>::empty()
}
/// local i of the body gets the name i
pub proof fn mir_local_names(l: List<int>, i: int, f: FnCtxt)
    requires 0 <= i <= l.s.len(), forall|j: int| 0 <= j < l.s.len() ==> #[trigger] l.s[j] == j, f.next_local == i,
        forall|j: int| #[trigger] f.local_name_map.m.contains_key(j) <==> 0 <= j < i, forall|j: int| 0 <= j < i ==> #[trigger] f.local_name_map.m[j] == LocalName(Name { id: j })
    ensures ({
        let g = FnCtxt__translate__loop2(l, i, f);
        &&& g.next_local == l.s.len()
        &&& forall|j: int| #[trigger] g.local_name_map.m.contains_key(j) <==> 0 <= j < l.s.len()
        &&& forall|j: int| 0 <= j < l.s.len() ==> #[trigger] g.local_name_map.m[j] == LocalName(Name { id: j })
    })
    decreases l.s.len() - i
{
    reveal(FnCtxt__translate__loop2); reveal(FnCtxt__translate__loop2_ok);
    if i < l.s.len() {
        let (f1, n) = FnCtxt__fresh_local_name(f);
        let g = FnCtxt { local_name_map: Map { m: f1.local_name_map.m.insert(l.s[i], n) }, ..f1 };
        mir_local_names(l, i + 1, g);
        assert(FnCtxt__translate__loop2(l, i, f) == FnCtxt__translate__loop2(l, i + 1, g));
    }
}
/// local n has the translation of its MIR type
pub open spec fn local_done(f: FnCtxt, m: vstd::map::Map<LocalName, Type>, n: LocalName, d: RsLocalDecl) -> bool { m.contains_key(n) && tr_ty(f, d.ty, m[n]) }
pub open spec fn locals_done(f: FnCtxt, g: FnCtxt, l: Seq<(int, LocalName)>, n: int) -> bool {
    forall|j: int| 0 <= j < n ==> #[trigger] local_done(f, g.locals.m, l[j].1, f.body.local_decls.s[l[j].0])
}
pub proof fn mir_local_types(f: FnCtxt, l: List<(int, LocalName)>, i: int, g: FnCtxt)
    requires FnCtxt__translate__loop3_ok(l, i, g), 0 <= i <= l.s.len(), same_fn(f, g), names_used(g), locals_done(f, g, l.s, i),
        forall|j: int| 0 <= j < l.s.len() ==> (#[trigger] l.s[j]).1.0.id < g.next_local, forall|a: int, b: int| 0 <= a < b < l.s.len() ==> (#[trigger] l.s[a]).1 != (#[trigger] l.s[b]).1,
    ensures ({ let h = FnCtxt__translate__loop3(l, i, g); same_fn(f, h) && names_used(h) && locals_done(f, h, l.s, l.s.len() as int) && h.blocks == g.blocks && h.next_bb == g.next_bb && h.next_local == g.next_local })
    decreases l.s.len() - i
{
    reveal(FnCtxt__translate__loop3); reveal(FnCtxt__translate__loop3_ok);
    if i < l.s.len() {
        let (k, n) = l.s[i];
        let d = g.body.local_decls.s[k];
        let (cx, y) = Ctxt__translate_ty(g.cx, d.ty, d.source_info.span);
        let g2 = FnCtxt { cx, locals: Map { m: g.locals.m.insert(n, y) }, ..g };
        assert(FnCtxt__translate__loop3(l, i, g) == FnCtxt__translate__loop3(l, i + 1, g2));
        assert forall|j: int| 0 <= j < i + 1 implies #[trigger] local_done(f, g2.locals.m, l.s[j].1, f.body.local_decls.s[l.s[j].0]) by {
            if j < i { assert(local_done(f, g.locals.m, l.s[j].1, f.body.local_decls.s[l.s[j].0])); }
        }
        mir_local_types(f, l, i + 1, g2);
    }
}
pub proof fn grow_spread(l: List<(int, RsTy)>, i: int, s: LocalName, sp: RsSpan, f: FnCtxt, args: List<LocalName>, init: List<Statement>)
    requires FnCtxt__translate__loop5_ok(l, i, s, sp, f, args, init), names_used(f), 0 <= i
    ensures ({ let g = FnCtxt__translate__loop5(l, i, s, sp, f, args, init).0; grows(f, g) && same_fn(f, g) && names_used(g) && f.blocks == g.blocks && f.next_bb == g.next_bb })
    decreases l.s.len() - i
{
    reveal(FnCtxt__translate__loop5); reveal(FnCtxt__translate__loop5_ok);
    if i < l.s.len() {
        let (f1, t) = FnCtxt__fresh_local_name(f);
        let (cx, y) = Ctxt__translate_ty(f1.cx, l.s[i].1, sp);
        let f2 = FnCtxt { cx, locals: Map { m: f1.locals.m.insert(t, y) }, ..f1 };
        let args2 = List { s: args.s.push(t) };
        let init2 = List { s: init.s.push(Statement::Assign { destination: PlaceExpr::Field { root: Box::new(PlaceExpr::Local(s)), field: l.s[i].0 }, source: ValueExpr::Load { source: Box::new(PlaceExpr::Local(t)) } }) };
        assert(grows(f, f2));
        grow_spread(l, i + 1, s, sp, f2, args2, init2);
        assert(FnCtxt__translate__loop5(l, i, s, sp, f, args, init) == FnCtxt__translate__loop5(l, i + 1, s, sp, f2, args2, init2));
    }
}
/// setting up the parameters adds locals only
pub proof fn grow_params(end: int, i: int, k: Option<int>, f: FnCtxt, args: List<LocalName>, init: List<Statement>)
    requires FnCtxt__translate__loop4_ok(end, i, k, f, args, init), names_used(f)
    ensures ({ let r = FnCtxt__translate__loop4(end, i, k, f, args, init); let g = (r->Cont_0).0; r is Cont && grows(f, g) && same_fn(f, g) && names_used(g) && f.blocks == g.blocks && f.next_bb == g.next_bb })
    decreases end - i
{
    reveal(FnCtxt__translate__loop4); reveal(FnCtxt__translate__loop4_ok);
    if i < end {
        if Some(i) == k {
            let x = f.body.spread_arg->0;
            let s = f.local_name_map.m[x];
            let d = f.body.local_decls.s[x];
            let l = List__enumerate::<RsTy>(List__iter::<RsTy>(RsTy__kind(d.ty)->Tuple_0));
            let init1 = List__push::<Statement>(init, Statement::StorageLive(s));
            grow_spread(l, 0, s, d.source_info.span, f, args, init1);
            let (g, args2, init2) = FnCtxt__translate__loop5(l, 0, s, d.source_info.span, f, args, init1);
            grow_params(end, i + 1, k, g, args2, init2);
        } else {
            grow_params(end, i + 1, k, f, List__push::<LocalName>(args, LocalName(Name__from_internal(i))), init);
        }
    }
}
/// block b of the body is translated to block b
pub open spec fn body_block(f: FnCtxt, m: vstd::map::Map<BbName, BasicBlock>, j: int) -> bool { block_done(f, m, BbName(Name { id: j }), f.body.basic_blocks.s[j]) }
pub open spec fn body_local(f: FnCtxt, m: vstd::map::Map<LocalName, Type>, j: int) -> bool { local_done(f, m, LocalName(Name { id: j }), f.body.local_decls.s[j]) }
/// f with its blocks and locals named: block i and local i have the name i
pub open spec fn body_names(f: FnCtxt, g: FnCtxt) -> bool {
    &&& g.body == f.body && g.cx.tcx == f.cx.tcx && g.abi == f.abi && g.locals_smir == f.locals_smir
    &&& forall|j: int| #[trigger] g.bb_name_map.m.contains_key(j) <==> 0 <= j < f.body.basic_blocks.s.len()
    &&& forall|j: int| 0 <= j < f.body.basic_blocks.s.len() ==> #[trigger] g.bb_name_map.m[j] == BbName(Name { id: j })
    &&& forall|j: int| #[trigger] g.local_name_map.m.contains_key(j) <==> 0 <= j < f.body.local_decls.s.len()
    &&& forall|j: int| 0 <= j < f.body.local_decls.s.len() ==> #[trigger] g.local_name_map.m[j] == LocalName(Name { id: j })
}
/// the pairs of a map from numbers to names cover all its keys, each once, with different names
pub open spec fn in_iter<K>(m: Map<int, K>, j: int) -> bool { exists|i: int| 0 <= i < Map__iter(m).s.len() && #[trigger] Map__iter(m).s[i] == (j, m.m[j]) }
pub proof fn names_of<K>(m: Map<int, K>, n: int)
    requires forall|j: int| #[trigger] m.m.contains_key(j) <==> 0 <= j < n, forall|a: int, b: int| 0 <= a < n && 0 <= b < n && #[trigger] m.m[a] == #[trigger] m.m[b] ==> a == b
    ensures forall|j: int| 0 <= j < n ==> #[trigger] in_iter(m, j),
        forall|i: int| 0 <= i < Map__iter(m).s.len() ==> 0 <= (#[trigger] Map__iter(m).s[i]).0 < n && Map__iter(m).s[i].1 == m.m[Map__iter(m).s[i].0],
        forall|a: int, b: int| 0 <= a < b < Map__iter(m).s.len() ==> (#[trigger] Map__iter(m).s[a]).1 != (#[trigger] Map__iter(m).s[b]).1,
{
    let k = Map__keys(m).s;
    assert forall|j: int| 0 <= j < n implies #[trigger] in_iter(m, j) by {
        assert(m.m.contains_key(j));
        assert(k.contains(j));
        let i = choose|i: int| 0 <= i < k.len() && k[i] == j;
        assert(Map__iter(m).s[i] == (j, m.m[j]));
    }
    assert forall|i: int| 0 <= i < Map__iter(m).s.len() implies 0 <= (#[trigger] Map__iter(m).s[i]).0 < n && Map__iter(m).s[i].1 == m.m[Map__iter(m).s[i].0] by {
        assert(k.contains(k[i])); assert(m.m.contains_key(k[i]));
    }
    assert forall|a: int, b: int| 0 <= a < b < Map__iter(m).s.len() implies (#[trigger] Map__iter(m).s[a]).1 != (#[trigger] Map__iter(m).s[b]).1 by {
        assert(k.contains(k[a]) && k.contains(k[b])); assert(m.m.contains_key(k[a]) && m.m.contains_key(k[b]));
        assert(k[a] != k[b]);
    }
}
/// control enters a function in a block that goes to the first block of the body; every block and every local of the body is there under its name
pub proof fn mir_function(f: FnCtxt)
    requires FnCtxt__translate_ok(f), untouched(f), f.body.basic_blocks.s.len() > 0, 0 <= RsSTART_BLOCK() < f.body.basic_blocks.s.len()
    ensures ({
        let r = FnCtxt__translate(f);
        exists|g: FnCtxt| #[trigger] body_names(f, g) && ({
            &&& r.blocks.m.contains_key(r.start) && r.blocks.m[r.start].terminator == Terminator::Goto(BbName(Name { id: RsSTART_BLOCK() })) && r.blocks.m[r.start].kind is Regular
            &&& forall|j: int| 0 <= j < f.body.basic_blocks.s.len() ==> #[trigger] body_block(g, r.blocks.m, j)
            &&& forall|j: int| 0 <= j < f.body.local_decls.s.len() ==> #[trigger] body_local(g, r.locals.m, j)
        })
    })
{
    reveal(FnCtxt__translate); reveal(FnCtxt__translate_ok);
    let bl = List__indices::<RsBasicBlockData>(f.body.basic_blocks);
    mir_block_names(bl, 0, f);
    let f1 = FnCtxt__translate__loop1(bl, 0, f);
    let l = List__indices::<RsLocalDecl>(f1.body.local_decls);
    mir_local_names(l, 0, f1);
    let g = FnCtxt__translate__loop2(l, 0, f1);
    assert(body_names(f, g));
    assert(names_used(g));
    let ls = Map__iter(g.local_name_map);
    names_of(g.local_name_map, f.body.local_decls.s.len() as int);
    mir_local_types(g, ls, 0, g);
    let f3 = FnCtxt__translate__loop3(ls, 0, g);
    let k = match f.body.spread_arg { Some(x) => Some(int__as_usize(x)), None => None };
    let (args, init) = (List__default::<LocalName>(), List__new::<Statement>());
    grow_params(f.body.arg_count + 1, 1, k, f3, args, init);
    let (f4, args4, init4) = FnCtxt__translate__loop4(f.body.arg_count + 1, 1, k, f3, args, init)->Cont_0;
    let (f5, start) = FnCtxt__fresh_bb_name(f4);
    let r = FnCtxt__translate(f);
    assert(r.start == start);
    let bs = Map__iter(f5.bb_name_map);
    names_of(g.bb_name_map, f.body.basic_blocks.s.len() as int);
    assert(exists|h: FnCtxt| goes_on(f5, start, bs, h, #[trigger] FnCtxt__translate__loop6(bs, 0, h), r));
    let h = choose|h: FnCtxt| goes_on(f5, start, bs, h, #[trigger] FnCtxt__translate__loop6(bs, 0, h), r);
    assert(h.blocks.m.contains_key(start));
    mir_blocks(g, bs, 0, h);
    assert(finished(g, h, bs.s, start, FnCtxt__translate__loop6(bs, 0, h)));
    assert(r.blocks.m[start] == h.blocks.m[start]);
    assert forall|j: int| 0 <= j < f.body.basic_blocks.s.len() implies #[trigger] body_block(g, r.blocks.m, j) by {
        assert(in_iter(g.bb_name_map, j));
        let i = choose|i: int| 0 <= i < bs.s.len() && #[trigger] bs.s[i] == (j, g.bb_name_map.m[j]);
        assert(block_done(g, r.blocks.m, bs.s[i].1, g.body.basic_blocks.s[bs.s[i].0]));
    }
    assert forall|j: int| 0 <= j < f.body.local_decls.s.len() implies #[trigger] body_local(g, r.locals.m, j) by {
        assert(in_iter(g.local_name_map, j));
        let i = choose|i: int| 0 <= i < ls.s.len() && #[trigger] ls.s[i] == (j, g.local_name_map.m[j]);
        let n = ls.s[i].1;
        assert(local_done(g, f3.locals.m, n, g.body.local_decls.s[ls.s[i].0]));
        assert(f3.locals.m.contains_key(n));
        assert(f4.locals.m.contains_key(n) && f4.locals.m[n] == f3.locals.m[n]);
        assert(r.locals.m.contains_key(n) && r.locals.m[n] == f3.locals.m[n]);
    }
}
/// r has the blocks and locals one gets by translating the blocks after h
pub open spec fn goes_on(f: FnCtxt, n: BbName, l: List<(int, BbName)>, h: FnCtxt, e: FnCtxt, r: Function) -> bool {
    started(f, n, h) && FnCtxt__translate__loop6_ok(l, 0, h) && r.blocks == e.blocks && r.locals == e.locals && h.blocks.m[n].terminator == Terminator::Goto(f.bb_name_map.m[RsSTART_BLOCK()]) && h.blocks.m[n].kind is Regular
}
/// h is f with one more block
pub open spec fn started(f: FnCtxt, n: BbName, h: FnCtxt) -> bool {
    &&& same_fn(f, h) && h.next_bb == f.next_bb && h.next_local == f.next_local && h.locals == f.locals
    &&& forall|b: BbName| #[trigger] h.blocks.m.contains_key(b) <==> f.blocks.m.contains_key(b) || b == n
}
pub open spec fn finished(g: FnCtxt, h: FnCtxt, l: Seq<(int, BbName)>, n: BbName, r: FnCtxt) -> bool {
    &&& same_fn(g, r) && all_done(g, r, l, l.len() as int) && r.blocks.m.contains_key(n) && r.blocks.m[n] == h.blocks.m[n]
    &&& forall|o: LocalName| #[trigger] h.locals.m.contains_key(o) ==> r.locals.m.contains_key(o) && r.locals.m[o] == h.locals.m[o]
}

/// an assignment assigns the translated value to the translated place; other plain statements keep their meaning
pub proof fn mir_assign(f: FnCtxt, s: RsStatement)
    requires FnCtxt__translate_stmt_ok(f, s)
    ensures ({
        let r = FnCtxt__translate_stmt(f, s).1;
        match s.kind {
            RsStatementKind::Assign(a) => plain_stmt(s) ==> r is Statement && r->Statement_0 is Assign && tr_rplace(f, a.0, r->Statement_0->Assign_destination)
                && tr_rval(f, RsRvalue__smir_stable(a.1), r->Statement_0->Assign_source),
            RsStatementKind::PlaceMention(p) => r is Statement && r->Statement_0 is PlaceMention && tr_rplace(f, p, r->Statement_0->PlaceMention_0),
            RsStatementKind::Intrinsic(i) => i is Assume && r is Intrinsic && r->intrinsic is Assume && r->arguments.s.len() == 1 && tr_rop(f, i->Assume_0, r->arguments.s[0]),
            _ => true,
        }
    })
{
    reveal(FnCtxt__translate_stmt); reveal(FnCtxt__translate_stmt_ok);
    let sp = s.source_info.span;
    match s.kind {
        RsStatementKind::Assign(a) => {
            let (f1, p) = FnCtxt__translate_place(f, a.0, sp);
            if plain_stmt(s) { assert(tr_rval(f, RsRvalue__smir_stable(a.1), FnCtxt__translate_rvalue(f1, a.1, sp).1)); }
        }
        RsStatementKind::PlaceMention(p) => { assert(tr_rplace(f, p, FnCtxt__translate_place(f, p, sp).1)); }
        RsStatementKind::Intrinsic(i) => { if i is Assume { assert(tr_rop(f, i->Assume_0, FnCtxt__translate_operand(f, i->Assume_0, sp).1)); } }
        _ => { }
    }
}

// ---------------------------------------------------------------- marks and ends the compiler asks for by name
pub open spec fn rs_name(f: FnCtxt, i: RsInstance) -> RsSym { RsTyCtxt__item_name(f.cx.tcx, RsInstance__def_id(i)) }
/// goes on to the target
pub open spec fn to_target(f: FnCtxt, t: Terminator, target: Option<int>) -> bool { target is Some && f.bb_name_map.m.contains_key(target->0) && t == Terminator::Goto(f.bb_name_map.m[target->0]) }
/// a mark does nothing; abort aborts
pub proof fn mir_marks(f: FnCtxt, i: RsInstance, args: List<RsSpanned<RsOperand>>, dest: RsPlace, target: Option<int>, sp: RsSpan)
    requires FnCtxt__translate_rs_intrinsic_ok(f, i, args, dest, target, sp), rs_name(f, i) is cold_path || rs_name(f, i) is abort
    ensures ({ let r = FnCtxt__translate_rs_intrinsic(f, i, args, dest, target, sp).1; r.stmts.s.len() == 0 && (rs_name(f, i) is cold_path ==> to_target(f, r.terminator, target)) && (rs_name(f, i) is abort ==> abort_t(r.terminator)) })
{ reveal(FnCtxt__translate_rs_intrinsic); reveal(FnCtxt__translate_rs_intrinsic_ok); }
