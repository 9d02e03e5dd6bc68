// C22: unwinding leaves frames one by one, through each frame's own unwind block.

/// the active thread exists and has a frame
pub open spec fn running(m: Machine) -> bool { 0 <= m.active_thread < m.threads.s.len() && m.threads.s[m.active_thread].stack.s.len() > 0 }
pub open spec fn active(m: Machine) -> Thread { m.threads.s[m.active_thread] }
pub open spec fn top(m: Machine) -> StackFrame { active(m).stack.s.last() }
/// m with another active thread state, and with another top frame: nothing else changes
pub open spec fn with_thread(m: Machine, t: Thread) -> Machine { Machine { threads: List { s: m.threads.s.update(m.active_thread, t) }, ..m } }
pub open spec fn with_stack(m: Machine, st: Seq<StackFrame>) -> Machine { with_thread(m, Thread { stack: List { s: st }, ..active(m) }) }
pub open spec fn with_top(m: Machine, f: StackFrame) -> Machine { with_stack(m, active(m).stack.s.update(active(m).stack.s.len() - 1, f)) }
/// control of the active thread is at the first statement of block b
pub open spec fn at_block(f: StackFrame, b: BbName) -> StackFrame { StackFrame { next_block: b, next_stmt: 0, ..f } }
/// r is e's error, or success
pub open spec fn same_result<A, B>(r: Result<A, TerminationInfo>, e: Result<B, TerminationInfo>) -> bool {
    match e { Ok(_) => r is Ok, Err(x) => r is Err && r->Err_0 == x }
}
pub proof fn jump(m: Machine, b: BbName)
    requires running(m)
    ensures Machine__jump_to_block_ok(m, b), Machine__jump_to_block(m, b).1 is Ok, Machine__jump_to_block(m, b).0 == with_top(m, at_block(top(m), b)),
{
    let n = Machine__jump_to_block(m, b).0;
    assert(n.threads.s =~= with_top(m, at_block(top(m), b)).threads.s);
}
/// starting to unwind pushes the payload on the thread's stack of payloads and continues at the unwind block
pub proof fn start(m: Machine, e: ValueExpr, b: BbName)
    requires running(Machine__eval_value(m, e).0), Machine__eval_value(m, e).1 is Ok ==> ({
        let v = Machine__eval_value(m, e).1->Ok_0;
        v.0 is Ptr && v.1 == Type::Ptr(PtrType::Raw { meta_kind: PointerMetaKind::None }) })
    ensures ({
        let (n, r) = Machine__eval_terminator(m, Terminator::StartUnwind { unwind_payload: e, unwind_block: b });
        let (m1, v) = Machine__eval_value(m, e);
        &&& (v is Err ==> n == m1 && same_result(r, v))
        &&& (v is Ok ==> r is Ok && ({
            let m2 = with_thread(m1, Thread { unwind_payloads: List { s: active(m1).unwind_payloads.s.push((v->Ok_0).0->Ptr_0.thin_pointer) }, ..active(m1) });
            n == with_top(m2, at_block(top(m2), b))
        }))
    })
{
    let (m1, v) = Machine__eval_value(m, e);
    if v is Ok {
        let m2 = with_thread(m1, Thread { unwind_payloads: List { s: active(m1).unwind_payloads.s.push((v->Ok_0).0->Ptr_0.thin_pointer) }, ..active(m1) });
        jump(m2, b);
    }
}
/// ending to unwind removes the last payload; without one it is undefined behaviour
pub proof fn stop(m: Machine, b: BbName)
    requires running(m)
    ensures ({
        let (n, r) = Machine__eval_terminator(m, Terminator::StopUnwind(b));
        let p = active(m).unwind_payloads.s;
        &&& (p.len() == 0 ==> is_ub(r))
        &&& (p.len() > 0 ==> r is Ok && ({
            let m2 = with_thread(m, Thread { unwind_payloads: List { s: p.drop_last() }, ..active(m) });
            n == with_top(m2, at_block(top(m2), b))
        }))
    })
{
    let p = active(m).unwind_payloads.s;
    if p.len() > 0 {
        let m2 = with_thread(m, Thread { unwind_payloads: List { s: p.drop_last() }, ..active(m) });
        jump(m2, b);
    }
}
/// the payload a handler sees is the last one pushed
pub proof fn payload(m: Machine, args: List<(Value, Type)>, ret: Type)
    requires running(m)
    ensures ({
        let (n, r) = Machine__eval_intrinsic(m, IntrinsicOp::GetUnwindPayload, args, ret);
        let p = active(m).unwind_payloads.s;
        &&& n == m
        &&& (r is Ok ==> args.s.len() == 0 && p.len() > 0 && r->Ok_0 == Value::Ptr(Pointer { thin_pointer: p.last(), metadata: None }))
        &&& (p.len() == 0 ==> is_ub(r))
        &&& (args.s.len() == 0 && p.len() > 0 && ret == Type::Ptr(PtrType::Raw { meta_kind: PointerMetaKind::None }) ==> r is Ok)
    })
{ }
/// releasing the locals of a frame touches only memory, and ends with none left
pub proof fn free_locals(m: Machine, f: StackFrame)
    requires f.locals.m.dom().finite()
    ensures ({
        let r = Machine__eval_terminator__loop3(m, f);
        &&& (r is Cont ==> (r->Cont_0).1.locals.m.dom() =~= vstd::set::Set::empty() && (r->Cont_0).1 == (StackFrame { locals: (r->Cont_0).1.locals, ..f }) && (r->Cont_0).0 == (Machine { mem: (r->Cont_0).0.mem, ..m }))
        &&& (r is Exit ==> (r->Exit_0).1 is Err && (r->Exit_0).0 == (Machine { mem: (r->Exit_0).0.mem, ..m }))
    })
    decreases f.locals.m.dom().len()
{
    Machine__eval_terminator__loop3__def(m, f);
    let keys = Map__keys(f.locals);
    if keys.s.len() > 0 {
        let local = keys.s[0];
        assert(keys.s.contains(local));
        let (f2, mem, r) = StackFrame__storage_dead(f, m.mem, local);
        assert(f2.locals.m == f.locals.m.remove(local));
        if r is Ok { free_locals(Machine { mem, ..m }, f2); }
    } else {
        assert(f.locals.m.dom().len() == 0);
        assert(f.locals.m.dom() =~= vstd::set::Set::empty());
    }
}
/// resuming leaves the frame - all its storage released - and continues at the block its caller named for unwinding;
/// if there is none, or no caller, it is undefined behaviour
pub proof fn resume(m: Machine)
    requires running(m), top(m).locals.m.dom().finite(), active(m).stack.s.len() > 1
    ensures ({
        let (n, r) = Machine__eval_terminator(m, Terminator::ResumeUnwind);
        let f = top(m);
        let below = with_stack(m, active(m).stack.s.drop_last());
        &&& (r is Ok ==> f.stack_pop_action is BackToCaller && f.stack_pop_action->unwind_block is Some
            && exists|mem: ConcurrentMemory| n == ({ let b = Machine { mem, ..below }; with_top(b, #[trigger] at_block(top(Machine { mem, ..below }), f.stack_pop_action->unwind_block->0)) }))
        &&& (f.stack_pop_action is BottomOfStack || f.stack_pop_action->unwind_block is None ==> r is Err)
    })
{
    let f = top(m);
    let below = with_stack(m, active(m).stack.s.drop_last());
    free_locals(below, f);
    let l = Machine__eval_terminator__loop3(below, f);
    if l is Cont {
        let (m2, f2) = l->Cont_0;
        let (mem, e) = ConcurrentMemory__end_call(m2.mem, f2.extra);
        if f.stack_pop_action is BackToCaller && f.stack_pop_action->unwind_block is Some {
            jump(Machine { mem, ..m2 }, f.stack_pop_action->unwind_block->0);
        }
        assert(Machine { mem, ..m2 } == Machine { mem, ..below });
    }
}

// ---------------------------------------------------------------- from MIR to MiniRust
/// where an unwinding call goes: on (out of the function), to the compiler's cleanup block, nowhere (undefined behaviour), or to an abort
pub proof fn mir_unwind_action(f: FnCtxt, u: RsUnwindAction, bb: RsBasicBlockData)
    requires FnCtxt__translate_unwind_action_ok(f, u, bb)
    ensures ({
        let (g, b) = FnCtxt__translate_unwind_action(f, u, bb);
        &&& (u is Cleanup ==> g == f && f.bb_name_map.m.contains_key(u->Cleanup_0) && b == f.bb_name_map.m[u->Cleanup_0])
        &&& (u is Continue ==> only_block(g, b, Terminator::ResumeUnwind) && g.blocks.m[b].kind is Cleanup)
        &&& (u is Unreachable ==> only_block(g, b, Terminator::Unreachable))
        &&& (u is Terminate ==> g.blocks.m.contains_key(b) && g.blocks.m[b].statements.s.len() == 0 && abort_t(g.blocks.m[b].terminator))
        &&& (u is Unreachable || u is Terminate ==> g.blocks.m[b].kind == if bb.is_cleanup { BbKind::Terminate } else { BbKind::Cleanup })
        &&& forall|o: BbName| o != b ==> (f.blocks.m.contains_key(o) == #[trigger] g.blocks.m.contains_key(o) && f.blocks.m[o] == g.blocks.m[o])
    })
{ reveal(FnCtxt__translate_unwind_action); reveal(FnCtxt__translate_unwind_action_ok); }
/// a panic starts unwinding, towards where the call says; with panic = abort it ends the program
pub proof fn mir_panic(f: FnCtxt, u: RsUnwindAction, bb: RsBasicBlockData)
    requires FnCtxt__translate_panic_ok(f, u, bb)
    ensures ({
        let (g, t) = FnCtxt__translate_panic(f, u, bb);
        match RsSession__panic_strategy(f.cx.tcx.sess) {
            RsPanicStrategy::Unwind => t is StartUnwind && (g, t->StartUnwind_unwind_block) == FnCtxt__translate_unwind_action(f, u, bb),
            _ => abort_t(t),
        }
    })
{ reveal(FnCtxt__translate_panic); reveal(FnCtxt__translate_panic_ok); }
/// b is the block the unwind action becomes in this function
pub open spec fn tr_unwind(f: FnCtxt, u: RsUnwindAction, bb: RsBasicBlockData, b: BbName) -> bool {
    exists|st: FnCtxt| same_fn(f, st) && (#[trigger] FnCtxt__translate_unwind_action(st, u, bb)).1 == b
}
/// dropping a place calls the drop code for its type on it, once, and an unwinding drop goes where the compiler says
pub proof fn mir_drop(f: FnCtxt, bb: RsBasicBlockData)
    requires FnCtxt__translate_terminator_ok(f, bb), RsBasicBlockData__terminator(bb).kind is Drop
    ensures ({
        let k = RsBasicBlockData__terminator(bb).kind;
        let t = FnCtxt__translate_terminator(f, bb).1.terminator;
        let ty = RsPlace__ty(k->Drop_place, f.body, f.cx.tcx).ty;
        &&& t is Call && t->Call_next_block == Some(f.bb_name_map.m[k->Drop_target])
        &&& t->Call_unwind_block is Some && tr_unwind(f, k->Drop_unwind, bb, t->Call_unwind_block->0)
        &&& t->Call_arguments.s.len() == 1 && t->Call_arguments.s[0] is ByValue
        &&& t->calling_convention is Rust
        &&& exists|p: PlaceExpr| #[trigger] tr_rplace(f, k->Drop_place, p) && drop_call(f, ty, p, t->callee, t->Call_arguments.s[0]->ByValue_0)
    })
{
    reveal(FnCtxt__translate_terminator); reveal(FnCtxt__translate_terminator_ok);
    let k = RsBasicBlockData__terminator(bb).kind;
    let (f1, p) = FnCtxt__translate_place_smir(f, RsPlace__smir_stable(k->Drop_place), RsBasicBlockData__terminator(bb).source_info.span);
    assert(same_fn(f, f));
    assert(tr_rplace(f, k->Drop_place, p));
    let t = FnCtxt__translate_terminator(f, bb).1.terminator;
    let ty = RsPlace__ty(k->Drop_place, f.body, f.cx.tcx).ty;
    assert(t is Call && t->Call_next_block == Some(f.bb_name_map.m[k->Drop_target]));
    assert(tr_unwind(f, k->Drop_unwind, bb, t->Call_unwind_block->0));
    if RsTy__kind(ty) is Dynamic {
        let w = *(*t->callee->UnOp_operand)->UnOp_operand;
        assert(wide_addr(p, w));
    } else {
        let i = RsInstance__resolve_drop_in_place(f.cx.tcx, ty);
        assert(t->callee->Constant_0 == Constant::FnPointer(Ctxt__get_fn_name(f1.cx, i).1));
    }
    assert(drop_call(f, ty, p, t->callee, t->Call_arguments.s[0]->ByValue_0));
}
/// the call of the drop code: of the type's own, on the place's address; for a trait object, of the code its vtable has under the name for it
pub open spec fn drop_call(f: FnCtxt, ty: RsTy, p: PlaceExpr, callee: ValueExpr, arg: ValueExpr) -> bool {
    if RsTy__kind(ty) is Dynamic {
        exists|w: ValueExpr| #[trigger] wide_addr(p, w) && callee == ValueExpr::UnOp { operator: UnOp::VTableMethodLookup(TraitMethodName(Name { id: RsCOMMON_VTABLE_ENTRIES_DROPINPLACE() })), operand: Box::new(ValueExpr::UnOp { operator: UnOp::GetMetadata, operand: Box::new(w) }) }
            && arg == ValueExpr::UnOp { operator: UnOp::GetThinPointer, operand: Box::new(w) }
    } else {
        arg is AddrOf && *arg->AddrOf_target == p && arg->AddrOf_ptr_ty is Raw
        && exists|cx: Ctxt| cx.tcx == f.cx.tcx && callee is Constant && callee->Constant_0 == Constant::FnPointer((#[trigger] Ctxt__get_fn_name(cx, RsInstance__resolve_drop_in_place(f.cx.tcx, ty))).1)
    }
}
pub open spec fn wide_addr(p: PlaceExpr, w: ValueExpr) -> bool { w is AddrOf && *w->AddrOf_target == p && w->AddrOf_ptr_ty is Raw && w->AddrOf_ptr_ty->Raw_meta_kind is VTablePointer }
/// a call that is not an intrinsic of the compiler or a panic unwinds to where the compiler says and returns to the compiler's target
pub proof fn mir_call(f: FnCtxt, func: RsOperand, args: List<RsSpanned<RsOperand>>, dest: RsPlace, target: Option<int>, sp: RsSpan, u: RsUnwindAction, bb: RsBasicBlockData)
    requires FnCtxt__translate_call_ok(f, func, args, dest, target, sp, u, bb)
    ensures ({
        let t = FnCtxt__translate_call(f, func, args, dest, target, sp, u, bb).1.terminator;
        let k = RsTy__kind(RsOperand__ty(func, f.body, f.cx.tcx));
        let i = RsInstance__expect_resolve(f.cx.tcx, Ctxt__typing_env(f.cx), k->FnDef_0, k->FnDef_1, sp);
        (k is FnDef ==> !(i.def is Intrinsic)) ==> {
            &&& (t is Call ==> t->Call_unwind_block is Some && tr_unwind(f, u, bb, t->Call_unwind_block->0))
            &&& (t is Call || (t is Intrinsic && !abort_t(t)) ==> (target is None ==> next_of(t) is None)
                && (target is Some ==> f.bb_name_map.m.contains_key(target->0) && next_of(t) == Some(f.bb_name_map.m[target->0])))
            &&& (t is Call || t is Intrinsic || exists|st: FnCtxt| same_fn(f, st) && t == (#[trigger] FnCtxt__translate_panic(st, u, bb)).1)
        }
    })
{
    reveal(FnCtxt__translate_call); reveal(FnCtxt__translate_call_ok);
    reveal(FnCtxt__translate_panic);
    assert(same_fn(f, f));
}
pub open spec fn next_of(t: Terminator) -> Option<BbName> { match t { Terminator::Call { next_block, .. } => next_block, Terminator::Intrinsic { next_block, .. } => next_block, _ => None } }

/// the block assigns v to p
pub open spec fn assigns(b: BasicBlock, p: PlaceExpr, v: ValueExpr) -> bool { exists|i: int| 0 <= i < b.statements.s.len() && #[trigger] b.statements.s[i] == (Statement::Assign { destination: p, source: v }) }
pub open spec fn loc(l: LocalName) -> PlaceExpr { PlaceExpr::Local(l) }
pub open spec fn load(p: PlaceExpr) -> ValueExpr { ValueExpr::Load { source: Box::new(p) } }
pub open spec fn i32_at(p: PlaceExpr) -> PlaceExpr { PlaceExpr::Deref { operand: Box::new(load(p)), ty: Type::Int(IntType { signed: Signedness::Signed, size: Size { raw: 4 } }) } }
pub open spec fn i32_const(n: int) -> ValueExpr { ValueExpr::Constant(Constant::Int(n), Type::Int(IntType { signed: Signedness::Signed, size: Size { raw: 4 } })) }
/// what catch_unwind(try_fn, data, catch_fn) becomes: call try_fn(data); if it returns, write 0 to the destination and go on; if it
/// unwinds, take the payload, write 1, call catch_fn(data, payload), and end the unwinding before going on
pub open spec fn catches(g: FnCtxt, t: BbName, args: Seq<ValueExpr>, dest: PlaceExpr, target: BbName, ret: LocalName, tf: LocalName, data: LocalName, cf: LocalName, pay: LocalName) -> bool {
    let b = g.blocks.m;
    let call = b[t].terminator;
    let back = b[call->Call_next_block->0];
    let got = b[call->Call_unwind_block->0];
    let caught = b[got.terminator->Intrinsic_next_block->0];
    let stop = b[caught.terminator->Call_next_block->0];
    &&& b.contains_key(t) && call is Call && call->Call_next_block is Some && call->Call_unwind_block is Some
    &&& assigns(b[t], loc(tf), args[0]) && assigns(b[t], loc(data), args[1]) && assigns(b[t], loc(cf), args[2])
    &&& assigns(b[t], loc(ret), ValueExpr::AddrOf { target: Box::new(dest), ptr_ty: PtrType::Raw { meta_kind: PointerMetaKind::None } })
    &&& call->callee == load(loc(tf)) && call->calling_convention is Rust && call->Call_arguments.s =~= seq![ArgumentExpr::ByValue(load(loc(data)))]
    &&& b.contains_key(call->Call_next_block->0) && assigns(back, i32_at(loc(ret)), i32_const(0)) && back.terminator == Terminator::Goto(target)
    &&& b.contains_key(call->Call_unwind_block->0) && got.kind is Catch && got.terminator is Intrinsic && got.terminator->intrinsic is GetUnwindPayload && got.terminator->Intrinsic_ret == loc(pay)
        && got.terminator->Intrinsic_next_block is Some
    &&& b.contains_key(got.terminator->Intrinsic_next_block->0) && caught.kind is Catch && assigns(caught, i32_at(loc(ret)), i32_const(1))
        && caught.terminator is Call && caught.terminator->callee == load(loc(cf)) && caught.terminator->Call_next_block is Some
        && caught.terminator->Call_arguments.s =~= seq![ArgumentExpr::ByValue(load(loc(data))), ArgumentExpr::ByValue(load(loc(pay)))]
    &&& b.contains_key(caught.terminator->Call_next_block->0) && stop.kind is Catch && stop.terminator == Terminator::StopUnwind(target)
    &&& ret != tf && ret != data && ret != cf && ret != pay && tf != data && tf != cf && tf != pay && data != cf && data != pay && cf != pay
}
pub proof fn mir_catch_unwind(f: FnCtxt, args: List<ValueExpr>, dest: PlaceExpr, target: BbName)
    requires FnCtxt__translate_catch_unwind_ok(f, args, dest, target)
    ensures ({
        let (g, t) = FnCtxt__translate_catch_unwind(f, args, dest, target);
        &&& t is Goto
        &&& exists|ret: LocalName, tf: LocalName, data: LocalName, cf: LocalName, pay: LocalName| #[trigger] catches(g, t->Goto_0, args.s, dest, target, ret, tf, data, cf, pay)
    })
{
    reveal(FnCtxt__translate_catch_unwind); reveal(FnCtxt__translate_catch_unwind_ok);
    let (g, t) = FnCtxt__translate_catch_unwind(f, args, dest, target);
    let n = f.next_local;
    let l = |i: int| LocalName(Name { id: n + i });
    let b = g.blocks.m[t->Goto_0];
    assert(b.statements.s[4] is Assign && b.statements.s[5] is Assign && b.statements.s[6] is Assign && b.statements.s[7] is Assign);
    let back = g.blocks.m[b.terminator->Call_next_block->0];
    assert(back.statements.s[0] is Assign);
    let got = g.blocks.m[b.terminator->Call_unwind_block->0];
    let caught = g.blocks.m[got.terminator->Intrinsic_next_block->0];
    assert(caught.statements.s[0] is Assign);
    assert(catches(g, t->Goto_0, args.s, dest, target, l(0), l(1), l(2), l(3), l(4)));
}
/// the program starts in a function without parameters that calls the entry point once, exits when it returns, and aborts when it unwinds
pub proof fn mir_start(entry: int)
    requires mini__mk_start_fn_ok(entry)
    ensures ({
        let s = mini__mk_start_fn(entry);
        let b = s.blocks.m;
        let call = b[s.start].terminator;
        &&& s.args.s.len() == 0 && s.locals.m.contains_key(s.ret) && b.contains_key(s.start) && b[s.start].statements.s.len() == 0 && b[s.start].kind is Regular
        &&& call is Call && call->callee is Constant && call->callee->Constant_0 == Constant::FnPointer(FnName(Name { id: entry })) && call->Call_arguments.s.len() == 0 && call->calling_convention is Rust
        &&& call->Call_next_block is Some && b.contains_key(call->Call_next_block->0)
        &&& ({ let e = b[call->Call_next_block->0]; e.statements.s.len() == 0 && e.terminator is Intrinsic && e.terminator->intrinsic is Exit && e.terminator->Intrinsic_arguments.s.len() == 0 && e.kind is Regular })
        &&& call->Call_unwind_block is Some && b.contains_key(call->Call_unwind_block->0)
        &&& ({ let e = b[call->Call_unwind_block->0]; e.statements.s.len() == 0 && abort_t(e.terminator) && e.kind is Catch })
    })
{ reveal(mini__mk_start_fn); reveal(mini__mk_start_fn_ok); }

// ---------------------------------------------------------------- catching from Rust
pub open spec fn rs_name(f: FnCtxt, i: RsInstance) -> RsSym { RsTyCtxt__item_name(f.cx.tcx, RsInstance__def_id(i)) }
/// goes on to the target
pub open spec fn to_target(f: FnCtxt, t: Terminator, target: Option<int>) -> bool { target is Some && f.bb_name_map.m.contains_key(target->0) && t == Terminator::Goto(f.bb_name_map.m[target->0]) }
pub open spec fn tr_sargs(f: FnCtxt, l: Seq<RsSpanned<RsOperand>>, out: Seq<ValueExpr>, n: int) -> bool { out.len() >= n && forall|i: int| 0 <= i < n ==> tr_rop(f, l[i].node, #[trigger] out[i]) }
pub proof fn mir_rs_args(f: FnCtxt, l: List<RsSpanned<RsOperand>>, i: int, g: FnCtxt, acc: List<ValueExpr>)
    requires FnCtxt__translate_rs_intrinsic__loop2_ok(l, i, g, acc), 0 <= i <= l.s.len(), acc.s.len() == i, same_fn(f, g), tr_sargs(f, l.s, acc.s, i)
    ensures ({ let (h, out) = FnCtxt__translate_rs_intrinsic__loop2(l, i, g, acc); same_fn(f, h) && out.s.len() == l.s.len() && tr_sargs(f, l.s, out.s, l.s.len() as int) })
    decreases l.s.len() - i
{
    reveal_with_fuel(FnCtxt__translate_rs_intrinsic__loop2, 2); reveal_with_fuel(FnCtxt__translate_rs_intrinsic__loop2_ok, 2);
    if i < l.s.len() {
        let a = FnCtxt__translate_operand(g, l.s[i].node, l.s[i].span);
        let acc2 = List { s: acc.s.push(a.1) };
        assert forall|j: int| 0 <= j < i + 1 implies tr_rop(f, l.s[j].node, #[trigger] acc2.s[j]) by { if j < i { assert(acc2.s[j] == acc.s[j]); } }
        mir_rs_args(f, l, i + 1, a.0, acc2);
    }
}
/// catch_unwind catches: with the operands in order, into the destination, going on to the target
pub proof fn mir_rs_catch(f: FnCtxt, i: RsInstance, args: List<RsSpanned<RsOperand>>, dest: RsPlace, target: Option<int>, sp: RsSpan)
    requires FnCtxt__translate_rs_intrinsic_ok(f, i, args, dest, target, sp), rs_name(f, i) is catch_unwind
    ensures ({
        let r = FnCtxt__translate_rs_intrinsic(f, i, args, dest, target, sp).1;
        &&& r.stmts.s.len() == 0 && target is Some && f.bb_name_map.m.contains_key(target->0)
        &&& exists|st: FnCtxt, a: List<ValueExpr>, d: PlaceExpr| same_fn(f, st) && a.s.len() == args.s.len() && tr_sargs(f, args.s, a.s, args.s.len() as int) && tr_rplace(f, dest, d)
            && r.terminator == (#[trigger] FnCtxt__translate_catch_unwind(st, a, d, f.bb_name_map.m[target->0])).1
    })
{
    reveal(FnCtxt__translate_rs_intrinsic); reveal(FnCtxt__translate_rs_intrinsic_ok);
    assert(same_fn(f, f));
    mir_rs_args(f, args, 0, f, List__new::<ValueExpr>());
    let (g, a) = FnCtxt__translate_rs_intrinsic__loop2(args, 0, f, List__new::<ValueExpr>());
    let (h, d) = FnCtxt__translate_place(g, dest, sp);
    assert(same_fn(f, h));
}
