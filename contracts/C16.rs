// C16: calls bind arguments in order, deliver results, and reject mismatched signatures.

/// the active thread exists and has a frame
pub open spec fn running(m: Machine) -> bool { 0 <= m.active_thread < m.threads.s.len() && m.threads.s[m.active_thread].stack.s.len() > 0 }
pub open spec fn active(m: Machine) -> Thread { m.threads.s[m.active_thread] }
pub open spec fn top(m: Machine) -> StackFrame { active(m).stack.s.last() }
/// m with another active thread state, and with another top frame: nothing else changes
pub open spec fn with_thread(m: Machine, t: Thread) -> Machine { Machine { threads: List { s: m.threads.s.update(m.active_thread, t) }, ..m } }
pub open spec fn with_stack(m: Machine, st: Seq<StackFrame>) -> Machine { with_thread(m, Thread { stack: List { s: st }, ..active(m) }) }
pub open spec fn with_top(m: Machine, f: StackFrame) -> Machine { with_stack(m, active(m).stack.s.update(active(m).stack.s.len() - 1, f)) }
/// control of the active thread is at the first statement of block b
pub open spec fn at_block(f: StackFrame, b: BbName) -> StackFrame { StackFrame { next_block: b, next_stmt: 0, ..f } }
/// r is e's error, or success
pub open spec fn same_result<A, B>(r: Result<A, TerminationInfo>, e: Result<B, TerminationInfo>) -> bool {
    match e { Ok(_) => r is Ok, Err(x) => r is Err && r->Err_0 == x }
}
pub proof fn jump(m: Machine, b: BbName)
    requires running(m)
    ensures Machine__jump_to_block_ok(m, b), Machine__jump_to_block(m, b).1 is Ok, Machine__jump_to_block(m, b).0 == with_top(m, at_block(top(m), b)),
{
    let n = Machine__jump_to_block(m, b).0;
    assert(n.threads.s =~= with_top(m, at_block(top(m), b)).threads.s);
}
pub open spec fn only_mem(m: Machine, n: Machine) -> bool { n == (Machine { mem: n.mem, ..m }) }
pub open spec fn align_of(t: Type) -> Align { LayoutStrategy__expect_align(Type__layout(t), Str) }

// ---------------------------------------------------------------- which types can be passed as which
/// integers only as the same integer type, booleans as booleans, pointers as pointers with the same kind of metadata; nothing as a type of another kind
pub proof fn abi_scalars(a: Type, b: Type)
    ensures
        a is Int && b is Int ==> check_abi_compatibility(a, b) == (a == b),
        a is Bool && b is Bool ==> check_abi_compatibility(a, b),
        a is Ptr && b is Ptr ==> check_abi_compatibility(a, b) == (PtrType__meta_kind(a->Ptr_0) == PtrType__meta_kind(b->Ptr_0)),
        (a is Int) != (b is Int) || (a is Bool) != (b is Bool) || (a is Ptr) != (b is Ptr) || (a is Tuple) != (b is Tuple) || (a is Array) != (b is Array) || (a is Union) != (b is Union) || (a is Enum) != (b is Enum) ==> !check_abi_compatibility(a, b),
{ check_abi_compatibility__def(a, b); }
/// arrays: same length and compatible elements
pub proof fn abi_arrays(a: Type, b: Type, n: int, k: int)
    ensures check_abi_compatibility(Type::Array { elem: Box::new(a), count: n }, Type::Array { elem: Box::new(b), count: k }) == (n == k && check_abi_compatibility(a, b)),
{ check_abi_compatibility__def(Type::Array { elem: Box::new(a), count: n }, Type::Array { elem: Box::new(b), count: k }); }
pub open spec fn fields_ok(a: Seq<(Size, Type)>, b: Seq<(Size, Type)>, i: int) -> bool {
    forall|j: int| i <= j < a.len() ==> (#[trigger] a[j]).0 == b[j].0 && check_abi_compatibility(a[j].1, b[j].1)
}
pub proof fn tuple_loop(a: List<(Size, Type)>, b: List<(Size, Type)>, i: int)
    requires a.s.len() == b.s.len(), 0 <= i <= a.s.len()
    ensures check_abi_compatibility__loop1(List__zip(a, b), i, true) == fields_ok(a.s, b.s, i), check_abi_compatibility__loop2(List__zip(a, b), i, true) == fields_ok(a.s, b.s, i),
    decreases a.s.len() - i
{
    let z = List__zip(a, b);
    check_abi_compatibility__loop1__def(z, i, true);
    check_abi_compatibility__loop2__def(z, i, true);
    if i < a.s.len() {
        assert(z.s[i] == (a.s[i], b.s[i]));
        tuple_loop(a, b, i + 1);
        let good = a.s[i].0 == b.s[i].0 && check_abi_compatibility(a.s[i].1, b.s[i].1);
        if good && fields_ok(a.s, b.s, i + 1) { assert forall|j: int| i <= j < a.s.len() implies (#[trigger] a.s[j]).0 == b.s[j].0 && check_abi_compatibility(a.s[j].1, b.s[j].1) by { if j > i { } } }
    }
}
pub open spec fn head(h: TupleHeadLayout) -> (Size, Align) { TupleHeadLayout__head_size_and_align(h) }
/// tuples and structs: same size and alignment, same number of fields, at the same offsets, of compatible types
pub proof fn abi_tuples(a: List<(Size, Type)>, ha: TupleHeadLayout, b: List<(Size, Type)>, hb: TupleHeadLayout)
    ensures check_abi_compatibility(Type::Tuple { sized_fields: a, sized_head_layout: ha, unsized_field: Box::new(None) }, Type::Tuple { sized_fields: b, sized_head_layout: hb, unsized_field: Box::new(None) })
        == (a.s.len() == b.s.len() && fields_ok(a.s, b.s, 0) && head(ha) == head(hb)),
{
    let x = Type::Tuple { sized_fields: a, sized_head_layout: ha, unsized_field: Box::new(None) };
    let y = Type::Tuple { sized_fields: b, sized_head_layout: hb, unsized_field: Box::new(None) };
    check_abi_compatibility__def(x, y);
    if a.s.len() == b.s.len() { tuple_loop(a, b, 0); }
}
/// unions: additionally the same chunks
pub proof fn abi_unions(a: List<(Size, Type)>, ca: List<(Size, Size)>, sa: Size, aa: Align, b: List<(Size, Type)>, cb: List<(Size, Size)>, sb: Size, ab: Align)
    ensures check_abi_compatibility(Type::Union { fields: a, chunks: ca, size: sa, align: aa }, Type::Union { fields: b, chunks: cb, size: sb, align: ab })
        == (a.s.len() == b.s.len() && fields_ok(a.s, b.s, 0) && ca == cb && sa == sb && aa == ab),
{
    check_abi_compatibility__def(Type::Union { fields: a, chunks: ca, size: sa, align: aa }, Type::Union { fields: b, chunks: cb, size: sb, align: ab });
    if a.s.len() == b.s.len() { tuple_loop(a, b, 0); }
}
/// every integer, boolean, pointer type and array of such is compatible with itself
pub proof fn abi_reflexive(t: Type)
    requires t is Int || t is Bool || t is Ptr
    ensures check_abi_compatibility(t, t)
{ abi_scalars(t, t); }

// ---------------------------------------------------------------- arguments
/// the i-th argument is stored, at its own type, in the i-th parameter; an incompatible one is undefined behaviour
pub open spec fn args_ok(l: Seq<(LocalName, (Value, Type))>, i: int, func: Function) -> bool {
    forall|j: int| i <= j < l.len() ==> check_abi_compatibility((#[trigger] l[j]).1.1, func.locals.m[l[j].0])
}
pub open spec fn store_args(l: Seq<(LocalName, (Value, Type))>, i: int, f: StackFrame, m: Machine) -> Machine
    decreases l.len() - i
{
    if i < 0 || i >= l.len() { m } else {
        let (p, (v, t)) = l[i];
        store_args(l, i + 1, f, Machine__typed_store(m, f.locals.m[p], v, t, align_of(t), Atomicity::None).0)
    }
}
pub proof fn arg_loop(l: List<(LocalName, (Value, Type))>, i: int, func: Function, f: StackFrame, m: Machine)
    requires 0 <= i <= l.s.len()
    ensures ({
        let r = Machine__create_frame__loop2(l, i, func, f, m);
        if args_ok(l.s, i, func) { r is Cont && r->Cont_0 == store_args(l.s, i, f, m) } else { r is Exit && is_ub((r->Exit_0).1) }
    })
    decreases l.s.len() - i
{
    if i < l.s.len() {
        let (p, (v, t)) = l.s[i];
        let n = Machine__typed_store(m, f.locals.m[p], v, t, align_of(t), Atomicity::None).0;
        arg_loop(l, i + 1, func, f, n);
        let good = check_abi_compatibility(t, func.locals.m[p]);
        if good && args_ok(l.s, i + 1, func) { assert forall|j: int| i <= j < l.s.len() implies check_abi_compatibility((#[trigger] l.s[j]).1.1, func.locals.m[l.s[j].0]) by { if j > i { } } }
    }
}
/// storage for the return place and the parameters; Err if memory is exhausted
pub open spec fn storage(m: Machine, func: Function, act: StackPopAction) -> (Machine, Result<StackFrame, TerminationInfo>) {
    let f0 = StackFrame { func, locals: Map__new::<LocalName, ThinPointer<Prov>>(), stack_pop_action: act, next_block: func.start, next_stmt: 0int, extra: MemM__new_call() };
    let (f1, mem, r1) = StackFrame__storage_live(f0, m.mem, func.ret);
    match r1 { Err(e) => (Machine { mem, ..m }, Err(e)), Ok(_) => match Machine__create_frame__loop1(func.args, 0, Machine { mem, ..m }, f1) { Flow::Exit(x) => x, Flow::Cont((n, f)) => (n, Ok(f)) } }
}
pub open spec fn signature_ok(func: Function, conv: CallingConvention, ret: Type, args: List<(Value, Type)>) -> bool {
    &&& conv == func.calling_convention
    &&& check_abi_compatibility(ret, func.locals.m[func.ret])
    &&& func.args.s.len() == args.s.len()
    &&& args_ok(List__zip::<LocalName, (Value, Type)>(func.args, args).s, 0, func)
}
/// with enough memory, a call is undefined behaviour exactly if the calling convention, the number of arguments, or the type of one of them or of the result does not match;
/// otherwise the arguments are in the parameters, in order
pub proof fn create_frame(m: Machine, func: Function, act: StackPopAction, conv: CallingConvention, ret: Type, args: List<(Value, Type)>)
    ensures ({
        let (n, r) = Machine__create_frame(m, func, act, conv, ret, args);
        let (m1, s) = storage(m, func, act);
        &&& (s is Ok && signature_ok(func, conv, ret, args) ==> r is Ok && r->Ok_0 == s->Ok_0 && n == store_args(List__zip::<LocalName, (Value, Type)>(func.args, args).s, 0, s->Ok_0, m1))
        &&& (s is Ok && !signature_ok(func, conv, ret, args) ==> is_ub(r))
        &&& (s is Err ==> n == m1 && same_result(r, s))
    })
{
    let (m1, s) = storage(m, func, act);
    let f0 = StackFrame { func, locals: Map__new::<LocalName, ThinPointer<Prov>>(), stack_pop_action: act, next_block: func.start, next_stmt: 0int, extra: MemM__new_call() };
    let (f1, mem, r1) = StackFrame__storage_live(f0, m.mem, func.ret);
    live_loop(func.args, 0, Machine { mem, ..m }, f1);
    if s is Ok { arg_loop(List__zip::<LocalName, (Value, Type)>(func.args, args), 0, func, s->Ok_0, m1); }
}
/// the callee's frame is put on top, remembering where the result goes and where to continue; the caller's frames do not change
pub proof fn call(m: Machine, func: Function, conv: CallingConvention, args: List<(Value, Type)>, ret: (Place, Type), next: Option<BbName>, unwind: Option<BbName>)
    requires running(m), only_mem(m, Machine__create_frame(m, func, StackPopAction::BackToCaller { next_block: next, unwind_block: unwind, ret_val_ptr: ret.0.ptr.thin_pointer }, conv, ret.1, args).0)
    ensures ({
        let (n, r) = Machine__eval_call(m, func, conv, args, ret, next, unwind);
        let (m1, f) = Machine__create_frame(m, func, StackPopAction::BackToCaller { next_block: next, unwind_block: unwind, ret_val_ptr: ret.0.ptr.thin_pointer }, conv, ret.1, args);
        &&& same_result(r, f)
        &&& (f is Ok ==> n == with_stack(m1, active(m).stack.s.push(f->Ok_0)))
        &&& (f is Err ==> n == m1)
    })
{ }
/// (which holds: setting up a frame touches memory only)
pub proof fn frame_only_mem(m: Machine, func: Function, act: StackPopAction, conv: CallingConvention, ret: Type, args: List<(Value, Type)>)
    ensures only_mem(m, Machine__create_frame(m, func, act, conv, ret, args).0)
{
    let f0 = StackFrame { func, locals: Map__new::<LocalName, ThinPointer<Prov>>(), stack_pop_action: act, next_block: func.start, next_stmt: 0int, extra: MemM__new_call() };
    let (f1, mem, r1) = StackFrame__storage_live(f0, m.mem, func.ret);
    let m1 = Machine { mem, ..m };
    live_loop(func.args, 0, m1, f1);
    match Machine__create_frame__loop1(func.args, 0, m1, f1) {
        Flow::Cont((m2, f2)) => { store_loop(List__zip::<LocalName, (Value, Type)>(func.args, args), 0, func, f2, m2); }
        _ => { }
    }
}
pub proof fn live_loop(l: List<LocalName>, i: int, m: Machine, f: StackFrame)
    ensures ({ let r = Machine__create_frame__loop1(l, i, m, f); (r is Cont ==> only_mem(m, (r->Cont_0).0)) && (r is Exit ==> only_mem(m, (r->Exit_0).0) && (r->Exit_0).1 is Err) })
    decreases l.s.len() - i
{
    if 0 <= i && i < l.s.len() {
        let (f2, mem, r) = StackFrame__storage_live(f, m.mem, l.s[i]);
        if r is Ok { live_loop(l, i + 1, Machine { mem, ..m }, f2); }
    }
}
pub proof fn store_loop(l: List<(LocalName, (Value, Type))>, i: int, func: Function, f: StackFrame, m: Machine)
    ensures ({ let r = Machine__create_frame__loop2(l, i, func, f, m); (r is Cont ==> only_mem(m, r->Cont_0)) && (r is Exit ==> only_mem(m, (r->Exit_0).0) && is_ub((r->Exit_0).1)) })
    decreases l.s.len() - i
{
    if 0 <= i && i < l.s.len() {
        let (p, (v, t)) = l.s[i];
        store_loop(l, i + 1, func, f, Machine__typed_store(m, f.locals.m[p], v, t, align_of(t), Atomicity::None).0);
    }
}
/// the arguments of a call are evaluated in order, each once, before the callee starts
pub proof fn arguments_in_order(l: List<ArgumentExpr>, i: int, m: Machine, acc: List<(Value, Type)>)
    requires 0 <= i <= l.s.len()
    ensures ({
        let r = Machine__eval_terminator__loop1(l, i, m, acc);
        &&& (r is Exit ==> (r->Exit_0).1 is Err)
        &&& (r is Cont ==> (r->Cont_0).1.s.len() == acc.s.len() + (l.s.len() - i) && forall|j: int| 0 <= j < acc.s.len() ==> (r->Cont_0).1.s[j] == #[trigger] acc.s[j])
        &&& (r is Cont && i < l.s.len() ==> ({ let (m1, v) = Machine__eval_argument(m, l.s[i]); v is Ok && (r->Cont_0).1.s[acc.s.len() as int] == v->Ok_0 && Machine__eval_terminator__loop1(l, i + 1, m1, List { s: acc.s.push(v->Ok_0) }) == r }))
    })
    decreases l.s.len() - i
{
    if i < l.s.len() {
        let (m1, v) = Machine__eval_argument(m, l.s[i]);
        if v is Ok {
            let acc2 = List { s: acc.s.push(v->Ok_0) };
            arguments_in_order(l, i + 1, m1, acc2);
            let r = Machine__eval_terminator__loop1(l, i + 1, m1, acc2);
            if r is Cont {
                assert forall|j: int| 0 <= j < acc.s.len() implies (r->Cont_0).1.s[j] == #[trigger] acc.s[j] by { assert(acc2.s[j] == acc.s[j]); }
                assert((r->Cont_0).1.s[acc.s.len() as int] == acc2.s[acc.s.len() as int]);
            }
        }
    }
}
/// an argument passed by value is the value of the expression; one passed in place is read from the place, which becomes uninitialised
pub proof fn argument(m: Machine, e: ValueExpr, p: PlaceExpr)
    ensures ({ let (n, r) = Machine__eval_argument(m, ArgumentExpr::ByValue(e)); let (n2, r2) = Machine__eval_value(m, e); n == n2 && same_result(r, r2) && (r is Ok ==> r->Ok_0 == r2->Ok_0) }),
        ({
            let (n, r) = Machine__eval_argument(m, ArgumentExpr::InPlace(p));
            let (m1, q) = Machine__eval_place(m, p);
            r is Ok ==> q is Ok && ({
                let (m2, v) = Machine__place_load(m1, (q->Ok_0).0, (q->Ok_0).1);
                let (m3, e) = Machine__prepare_for_inplace_passing(m2, (q->Ok_0).0, (q->Ok_0).1);
                v is Ok && e is Ok && n == m3 && r->Ok_0 == (v->Ok_0, (q->Ok_0).1)
            })
        })
{ }

// ---------------------------------------------------------------- results
/// returning to a caller stores the value of the return place, at the callee's type, where the caller asked for it, and continues at the caller's next block; a call that must not return is undefined behaviour if it does
pub proof fn returns(m: Machine)
    requires running(m), active(m).stack.s.len() > 1, top(m).stack_pop_action is BackToCaller, top(m).locals.m.dom().finite()
    ensures ({
        let (n, r) = Machine__eval_terminator(m, Terminator::Return);
        let f = top(m);
        let below = with_stack(m, active(m).stack.s.drop_last());
        let t = f.func.locals.m[f.func.ret];
        let (m1, v) = Machine__typed_load(below, f.locals.m[f.func.ret], t, align_of(t), Atomicity::None);
        &&& (f.stack_pop_action->next_block is None ==> r is Err)
        &&& (r is Ok ==> v is Ok && exists|mem: ConcurrentMemory| ({
            let (m2, e) = #[trigger] Machine__typed_store(Machine { mem, ..below }, f.stack_pop_action->ret_val_ptr, v->Ok_0, t, align_of(t), Atomicity::None);
            e is Ok && n == with_top(m2, at_block(top(m2), f.stack_pop_action->next_block->0))
        }))
    })
{
    let f = top(m);
    let below = with_stack(m, active(m).stack.s.drop_last());
    let t = f.func.locals.m[f.func.ret];
    let (m1, v) = Machine__typed_load(below, f.locals.m[f.func.ret], t, align_of(t), Atomicity::None);
    free_locals(m1, f);
    let l = Machine__eval_terminator__loop2(m1, f);
    if l is Cont {
        let (m2, f2) = l->Cont_0;
        let (mem, e) = ConcurrentMemory__end_call(m2.mem, f2.extra);
        let m3 = Machine { mem, ..m2 };
        assert(m3 == Machine { mem, ..below });
        if v is Ok {
            let m4 = Machine__typed_store(m3, f.stack_pop_action->ret_val_ptr, v->Ok_0, t, align_of(t), Atomicity::None).0;
            if f.stack_pop_action->next_block is Some { jump(m4, f.stack_pop_action->next_block->0); }
        }
    }
}
pub proof fn free_locals(m: Machine, f: StackFrame)
    requires f.locals.m.dom().finite()
    ensures ({
        let r = Machine__eval_terminator__loop2(m, f);
        &&& (r is Cont ==> (r->Cont_0).1 == (StackFrame { locals: (r->Cont_0).1.locals, ..f }) && only_mem(m, (r->Cont_0).0))
        &&& (r is Exit ==> (r->Exit_0).1 is Err)
    })
    decreases f.locals.m.dom().len()
{
    Machine__eval_terminator__loop2__def(m, f);
    let keys = Map__keys(f.locals);
    if keys.s.len() > 0 {
        let local = keys.s[0];
        assert(keys.s.contains(local));
        let (f2, mem, r) = StackFrame__storage_dead(f, m.mem, local);
        assert(f2.locals.m == f.locals.m.remove(local));
        if r is Ok { free_locals(Machine { mem, ..m }, f2); }
    }
}
/// only a pointer without metadata to an existing function can be called
pub proof fn callee_exists(m: Machine, v: Value)
    ensures !(v is Ptr) || v->Ptr_0.metadata is Some || (m.fn_ptrs.m.dom().finite() && forall|f: FnName| m.fn_ptrs.m.contains_key(f) ==> #[trigger] m.fn_ptrs.m[f] != v->Ptr_0.thin_pointer) ==> is_ub(Machine__fn_from_ptr(m, v))
{
    if v is Ptr && v->Ptr_0.metadata is None && m.fn_ptrs.m.dom().finite() && forall|f: FnName| m.fn_ptrs.m.contains_key(f) ==> #[trigger] m.fn_ptrs.m[f] != v->Ptr_0.thin_pointer {
        let p = v->Ptr_0.thin_pointer;
        let l = Map__iter::<FnName, ThinPointer<Prov>>(m.fn_ptrs);
        let g = |a: (FnName, ThinPointer<Prov>)| { let (_, fn_ptr) = a; (fn_ptr == p) };
        find_is(l.s, 0, g);
        let k = find_from(l.s, 0, g);
        if k >= 0 {
            assert(l.s[k] == (Map__keys(m.fn_ptrs).s[k], m.fn_ptrs.m[Map__keys(m.fn_ptrs).s[k]]));
            assert(Map__keys(m.fn_ptrs).s.contains(Map__keys(m.fn_ptrs).s[k]));
        }
    }
}
pub proof fn find_is<A>(s: Seq<A>, i: int, f: spec_fn(A) -> bool)
    requires 0 <= i
    ensures ({ let k = find_from(s, i, f); (k >= 0 ==> i <= k < s.len() && f(s[k])) && (k < 0 ==> forall|j: int| i <= j < s.len() ==> !f(#[trigger] s[j])) })
    decreases s.len() - i
{ if i < s.len() { find_is(s, i + 1, f); } }

// ---------------------------------------------------------------- the MIR translation of calls
/// only the Rust convention and the C convention exist, and they stay apart
pub proof fn mir_convention(c: RsCanonAbi)
    requires mini__translate_calling_convention_ok(c)
    ensures c is C ==> mini__translate_calling_convention(c) is C, c is Rust ==> mini__translate_calling_convention(c) is Rust, c is C || c is Rust
{ reveal(mini__translate_calling_convention); reveal(mini__translate_calling_convention_ok); }
/// what an argument becomes: a moved place is passed in place, everything else by value
pub open spec fn tr_arg(f: FnCtxt, op: RsOperand, e: ArgumentExpr) -> bool {
    match op {
        RsOperand::Move(p) => e is InPlace && tr_rplace(f, p, e->InPlace_0),
        _ => e is ByValue && tr_rop(f, op, e->ByValue_0),
    }
}
pub proof fn one_arg(f: FnCtxt, st: FnCtxt, op: RsOperand, sp: RsSpan)
    requires same_fn(f, st)
    ensures tr_rop(f, op, FnCtxt__translate_operand(st, op, sp).1), op is Move ==> tr_rplace(f, op->Move_0, FnCtxt__translate_place(st, op->Move_0, sp).1),
        same_fn(f, FnCtxt__translate_operand(st, op, sp).0) || !FnCtxt__translate_operand_ok(st, op, sp),
        op is Move ==> (same_fn(f, FnCtxt__translate_place(st, op->Move_0, sp).0) || !FnCtxt__translate_place_ok(st, op->Move_0, sp)),
{ }
pub open spec fn tr_args(f: FnCtxt, l: Seq<RsSpanned<RsOperand>>, out: Seq<ArgumentExpr>, n: int) -> bool {
    out.len() >= n && forall|j: int| 0 <= j < n ==> #[trigger] tr_arg(f, l[j].node, out[j])
}
/// arguments of a call through a pointer: each translated, in order
pub proof fn mir_args_ptr(f: FnCtxt, l: List<RsSpanned<RsOperand>>, i: int, g: FnCtxt, acc: List<ArgumentExpr>)
    requires FnCtxt__translate_call__loop1_ok(l, i, g, acc), same_fn(f, g), 0 <= i <= l.s.len(), acc.s.len() == i, tr_args(f, l.s, acc.s, i)
    ensures ({ let (h, out) = FnCtxt__translate_call__loop1(l, i, g, acc); same_fn(f, h) && out.s.len() == l.s.len() && tr_args(f, l.s, out.s, l.s.len() as int) })
    decreases l.s.len() - i
{
    reveal(FnCtxt__translate_call__loop1); reveal(FnCtxt__translate_call__loop1_ok);
    if i < l.s.len() {
        let x = l.s[i];
        one_arg(f, g, x.node, x.span);
        let (h, e) = match x.node {
            RsOperand::Move(p) => { let r = FnCtxt__translate_place(g, p, x.span); (r.0, ArgumentExpr::InPlace(r.1)) }
            op => { let r = FnCtxt__translate_operand(g, op, x.span); (r.0, ArgumentExpr::ByValue(r.1)) }
        };
        let acc2 = List { s: acc.s.push(e) };
        assert forall|j: int| 0 <= j < i + 1 implies #[trigger] tr_arg(f, l.s[j].node, acc2.s[j]) by { if j < i { assert(tr_arg(f, l.s[j].node, acc.s[j])); assert(acc2.s[j] == acc.s[j]); } }
        mir_args_ptr(f, l, i + 1, h, acc2);
    }
}
/// the arguments before the spread one, and the arguments of a call without one: each translated, in order
pub proof fn mir_args_front(f: FnCtxt, l: List<RsSpanned<RsOperand>>, i: int, g: FnCtxt, acc: List<ArgumentExpr>)
    requires FnCtxt__translate_call__loop4_ok(l, i, g, acc), same_fn(f, g), 0 <= i <= l.s.len(), acc.s.len() == i, tr_args(f, l.s, acc.s, i)
    ensures ({ let (h, out) = FnCtxt__translate_call__loop4(l, i, g, acc); same_fn(f, h) && out.s.len() == l.s.len() && tr_args(f, l.s, out.s, l.s.len() as int) })
    decreases l.s.len() - i
{
    reveal(FnCtxt__translate_call__loop4); reveal(FnCtxt__translate_call__loop4_ok);
    if i < l.s.len() {
        let x = l.s[i];
        one_arg(f, g, x.node, x.span);
        let (h, e) = match x.node {
            RsOperand::Move(p) => { let r = FnCtxt__translate_place(g, p, x.span); (r.0, ArgumentExpr::InPlace(r.1)) }
            op => { let r = FnCtxt__translate_operand(g, op, x.span); (r.0, ArgumentExpr::ByValue(r.1)) }
        };
        let acc2 = List { s: acc.s.push(e) };
        assert forall|j: int| 0 <= j < i + 1 implies #[trigger] tr_arg(f, l.s[j].node, acc2.s[j]) by { if j < i { assert(tr_arg(f, l.s[j].node, acc.s[j])); assert(acc2.s[j] == acc.s[j]); } }
        mir_args_front(f, l, i + 1, h, acc2);
    }
}
pub proof fn mir_args_all(f: FnCtxt, l: List<RsSpanned<RsOperand>>, i: int, g: FnCtxt, acc: List<ArgumentExpr>)
    requires FnCtxt__translate_call__loop5_ok(l, i, g, acc), same_fn(f, g), 0 <= i <= l.s.len(), acc.s.len() == i, tr_args(f, l.s, acc.s, i)
    ensures ({ let (h, out) = FnCtxt__translate_call__loop5(l, i, g, acc); same_fn(f, h) && out.s.len() == l.s.len() && tr_args(f, l.s, out.s, l.s.len() as int) })
    decreases l.s.len() - i
{
    reveal(FnCtxt__translate_call__loop5); reveal(FnCtxt__translate_call__loop5_ok);
    if i < l.s.len() {
        let x = l.s[i];
        one_arg(f, g, x.node, x.span);
        let (h, e) = match x.node {
            RsOperand::Move(p) => { let r = FnCtxt__translate_place(g, p, x.span); (r.0, ArgumentExpr::InPlace(r.1)) }
            op => { let r = FnCtxt__translate_operand(g, op, x.span); (r.0, ArgumentExpr::ByValue(r.1)) }
        };
        let acc2 = List { s: acc.s.push(e) };
        assert forall|j: int| 0 <= j < i + 1 implies #[trigger] tr_arg(f, l.s[j].node, acc2.s[j]) by { if j < i { assert(tr_arg(f, l.s[j].node, acc.s[j])); assert(acc2.s[j] == acc.s[j]); } }
        mir_args_all(f, l, i + 1, h, acc2);
    }
}
/// the place of field k of a tuple
pub open spec fn tuple_field(f: FnCtxt, p: RsPlace, k: int, t: RsTy) -> RsPlace { RsPlace__project_deeper(p, List { s: seq![RsPlaceElem::Field(k, t)] }, f.cx.tcx) }
/// a field of a moved tuple is passed in place, a field of a copied tuple by value (the tuple keeps its value)
pub open spec fn tr_field_arg(f: FnCtxt, op: RsOperand, p: RsPlace, e: ArgumentExpr) -> bool {
    match op {
        RsOperand::Move(_) => e is InPlace && tr_rplace(f, p, e->InPlace_0),
        _ => e is ByValue && e->ByValue_0 is Load && tr_rplace(f, p, *e->ByValue_0->Load_source),
    }
}
pub open spec fn spreads(f: FnCtxt, op: RsOperand, p: RsPlace, l: Seq<(int, RsTy)>, out: Seq<ArgumentExpr>, n: int) -> bool {
    out.len() >= n && forall|j: int| 0 <= j < n ==> tr_field_arg(f, op, tuple_field(f, p, l[j].0, l[j].1), #[trigger] out[j])
}
/// the last argument of a call through the closure traits is spread: field after field
pub proof fn mir_args_spread(f: FnCtxt, l: List<(int, RsTy)>, i: int, a: RsSpanned<RsOperand>, p: RsPlace, g: FnCtxt, acc: List<ArgumentExpr>)
    requires FnCtxt__translate_call__loop3_ok(l, i, a, p, g, acc), same_fn(f, g), 0 <= i <= l.s.len(), acc.s.len() == i, spreads(f, a.node, p, l.s, acc.s, i)
    ensures ({ let (h, out) = FnCtxt__translate_call__loop3(l, i, a, p, g, acc); same_fn(f, h) && out.s.len() == l.s.len() && spreads(f, a.node, p, l.s, out.s, l.s.len() as int) })
    decreases l.s.len() - i
{
    reveal(FnCtxt__translate_call__loop3); reveal(FnCtxt__translate_call__loop3_ok);
    if i < l.s.len() {
        let pl = tuple_field(f, p, l.s[i].0, l.s[i].1);
        assert(List__push::<RsPlaceElem>(List__new::<RsPlaceElem>(), RsPlaceElem::Field(int__from_usize(l.s[i].0), l.s[i].1)).s =~= seq![RsPlaceElem::Field(l.s[i].0, l.s[i].1)]);
        let r = FnCtxt__translate_place(g, pl, a.span);
        let acc2 = List { s: acc.s.push(match a.node { RsOperand::Move(_) => ArgumentExpr::InPlace(r.1), _ => build__by_value(build__load(r.1)) }) };
        assert forall|j: int| 0 <= j < i + 1 implies tr_field_arg(f, a.node, tuple_field(f, p, l.s[j].0, l.s[j].1), #[trigger] acc2.s[j]) by { if j < i { assert(acc2.s[j] == acc.s[j]); } }
        mir_args_spread(f, l, i + 1, a, p, r.0, acc2);
    }
}
/// a call through a function pointer: the pointer, the convention of its signature, the arguments in order, the destination
pub proof fn mir_call_ptr(f: FnCtxt, func: RsOperand, args: List<RsSpanned<RsOperand>>, dest: RsPlace, target: Option<int>, sp: RsSpan, u: RsUnwindAction, bb: RsBasicBlockData)
    requires FnCtxt__translate_call_ok(f, func, args, dest, target, sp, u, bb), RsTy__kind(RsOperand__ty(func, f.body, f.cx.tcx)) is FnPtr
    ensures ({
        let t = FnCtxt__translate_call(f, func, args, dest, target, sp, u, bb).1.terminator;
        let k = RsTy__kind(RsOperand__ty(func, f.body, f.cx.tcx));
        &&& t is Call && tr_rop(f, func, t->callee) && tr_rplace(f, dest, t->Call_ret)
        &&& t->Call_arguments.s.len() == args.s.len() && tr_args(f, args.s, t->Call_arguments.s, args.s.len() as int)
        &&& exists|st: FnCtxt| same_fn(f, st) && t->calling_convention == mini__translate_calling_convention((#[trigger] FnCtxt__fn_abi_of_fn_ptr(st, RsFnSigTys__with(k->FnPtr_0, k->FnPtr_1), RsList__empty())).conv)
    })
{
    reveal(FnCtxt__translate_call); reveal(FnCtxt__translate_call_ok);
    one_arg(f, f, func, sp);
    let f1 = FnCtxt__translate_operand(f, func, sp).0;
    mir_args_ptr(f, args, 0, f1, List__new::<ArgumentExpr>());
}
/// the call is one of a translated function: not a compiler intrinsic, not a MiniRust intrinsic, not a panic entry point
pub open spec fn plain_call(f: FnCtxt, func: RsOperand, i: RsInstance) -> bool {
    let k = RsTy__kind(RsOperand__ty(func, f.body, f.cx.tcx));
    &&& k is FnDef && !(i.def is Intrinsic)
    &&& RsSym__as_str(RsTyCtxt__crate_name(f.cx.tcx, k->FnDef_0.krate)) != txt__intrinsics()
    &&& !mini__is_panic_nounwind_fn(RsInstance__to_string(i)) && !mini__is_panic_fn(RsInstance__to_string(i))
}
pub open spec fn callee_of(f: FnCtxt, func: RsOperand, sp: RsSpan) -> RsInstance {
    let k = RsTy__kind(RsOperand__ty(func, f.body, f.cx.tcx));
    RsInstance__expect_resolve(f.cx.tcx, Ctxt__typing_env(f.cx), k->FnDef_0, k->FnDef_1, sp)
}
/// the call spreads its last argument
pub open spec fn rust_call(f: FnCtxt, func: RsOperand, args: List<RsSpanned<RsOperand>>) -> bool {
    RsPolyFnSig__abi(RsTy__fn_sig(RsOperand__ty(func, f.body, f.cx.tcx), f.cx.tcx)) == RsExternAbi::RustCall && args.s.len() > 0
}
pub open spec fn place_in(op: RsOperand) -> RsPlace { match op { RsOperand::Move(p) => p, RsOperand::Copy(p) => p, _ => arbitrary() } }
/// the arguments of a call: one for each operand, or, for the spread kind, one for each operand but the last and one for each field of the last
pub open spec fn all_args(f: FnCtxt, func: RsOperand, args: List<RsSpanned<RsOperand>>, out: Seq<ArgumentExpr>) -> bool {
    if rust_call(f, func, args) {
        let n = args.s.len() - 1;
        let last = args.s.last().node;
        let tys = RsTy__kind(RsOperand__ty(last, f.body, f.cx.tcx))->Tuple_0.s;
        &&& (last is Move || last is Copy) && out.len() == n + tys.len() && tr_args(f, args.s, out, n as int)
        &&& forall|j: int| n <= j < out.len() ==> tr_field_arg(f, last, tuple_field(f, place_in(last), j - n, tys[j - n]), #[trigger] out[j])
    } else { out.len() == args.s.len() && tr_args(f, args.s, out, args.s.len() as int) }
}
pub open spec fn all_but_first(f: FnCtxt, func: RsOperand, args: List<RsSpanned<RsOperand>>, out: Seq<ArgumentExpr>) -> bool {
    exists|o: Seq<ArgumentExpr>| #[trigger] all_args(f, func, args, o) && out.len() == o.len() && forall|j: int| 0 < j < o.len() ==> #[trigger] out[j] == o[j]
}
/// t calls the function named n
pub open spec fn calls(t: Terminator, n: FnName) -> bool { t->callee is Constant && t->callee->Constant_0 == Constant::FnPointer(n) }
/// a direct call: the name of the resolved instance, the convention of its ABI, every argument at its position, the destination;
/// a virtual call: the method of the vtable in the receiver's metadata, and the thin part of the receiver instead of the receiver
pub proof fn mir_call_fn(f: FnCtxt, func: RsOperand, args: List<RsSpanned<RsOperand>>, dest: RsPlace, target: Option<int>, sp: RsSpan, u: RsUnwindAction, bb: RsBasicBlockData)
    requires FnCtxt__translate_call_ok(f, func, args, dest, target, sp, u, bb), plain_call(f, func, callee_of(f, func, sp))
    ensures ({
        let t = FnCtxt__translate_call(f, func, args, dest, target, sp, u, bb).1.terminator;
        let i = callee_of(f, func, sp);
        let abi = Option__unwrap(RsTyCtxt__fn_abi_of_instance(f.cx.tcx, RsTypingEnv__as_query_input::<(RsInstance, RsList), RsQueryInputInst>(Ctxt__typing_env(f.cx), (i, RsList__empty()))));
        &&& t is Call && tr_rplace(f, dest, t->Call_ret) && t->calling_convention == mini__translate_calling_convention(abi.conv)
        &&& (if i.def is Virtual {
            &&& all_but_first(f, func, args, t->Call_arguments.s)
            &&& exists|r: ValueExpr, m: int| #[trigger] tr_rop(f, args.s[0].node, r) && t->Call_arguments.s[0] == ArgumentExpr::ByValue(build__get_thin_pointer(r))
                && t->callee == #[trigger] build__vtable_method_lookup(build__get_metadata(r), TraitMethodName(Name { id: m })) && (0 <= i.def->Virtual_1 < 0x1_0000_0000 ==> m == i.def->Virtual_1)
        } else {
            &&& all_args(f, func, args, t->Call_arguments.s)
            &&& exists|st: FnCtxt| same_fn(f, st) && calls(t, (#[trigger] Ctxt__get_fn_name(st.cx, i)).1)
        })
    })
{
    reveal(FnCtxt__translate_call); reveal(FnCtxt__translate_call_ok);
    let i = callee_of(f, func, sp);
    let e = List__new::<ArgumentExpr>();
    let (g, out) = if rust_call(f, func, args) {
        let last = args.s.last();
        let front = List { s: args.s.drop_last() };
        let p = place_in(last.node);
        let tys = RsTy__kind(RsOperand__ty(last.node, f.body, f.cx.tcx))->Tuple_0;
        let en = List__enumerate::<RsTy>(List__iter::<RsTy>(tys));
        mir_args_spread(f, en, 0, last, p, f, e);
        let (f1, o1) = FnCtxt__translate_call__loop3(en, 0, last, p, f, e);
        mir_args_front(f, front, 0, f1, e);
        let (f2, o2) = FnCtxt__translate_call__loop4(front, 0, f1, e);
        let out = List { s: o2.s + o1.s };
        let n = args.s.len() - 1;
        assert forall|j: int| 0 <= j < n implies #[trigger] tr_arg(f, args.s[j].node, out.s[j]) by { assert(tr_arg(f, front.s[j].node, o2.s[j])); }
        assert forall|j: int| n <= j < out.s.len() implies tr_field_arg(f, last.node, tuple_field(f, p, j - n, tys.s[j - n]), #[trigger] out.s[j]) by {
            assert(out.s[j] == o1.s[j - n]); assert(en.s[j - n] == (j - n, tys.s[j - n]));
        }
        (f2, out)
    } else {
        mir_args_all(f, args, 0, f, e);
        FnCtxt__translate_call__loop5(args, 0, f, e)
    };
    assert(all_args(f, func, args, out.s));
    let g2 = FnCtxt__translate_unwind_action(g, u, bb).0;
    assert(same_fn(f, g2));
    let t = FnCtxt__translate_call(f, func, args, dest, target, sp, u, bb).1.terminator;
    let abi = Option__unwrap(RsTyCtxt__fn_abi_of_instance(f.cx.tcx, RsTypingEnv__as_query_input::<(RsInstance, RsList), RsQueryInputInst>(Ctxt__typing_env(f.cx), (i, RsList__empty()))));
    assert(t is Call);
    assert(t->calling_convention == mini__translate_calling_convention(abi.conv));
    if i.def is Virtual {
        let r = FnCtxt__translate_operand(g2, args.s[0].node, args.s[0].span);
        assert(tr_rop(f, args.s[0].node, r.1));
        let m = int_as(i.def->Virtual_1, false, 32);
        assert(t is Call && t->Call_arguments.s == out.s.update(0, build__by_value(build__get_thin_pointer(r.1))));
        assert(t->callee == build__vtable_method_lookup(build__get_metadata(r.1), TraitMethodName(Name__from_internal(m))));
        assert(Name__from_internal(m) == Name { id: m });
        assert(t->callee == build__vtable_method_lookup(build__get_metadata(r.1), TraitMethodName(Name { id: m })));
        if 0 <= i.def->Virtual_1 < 0x1_0000_0000 { as_u32(i.def->Virtual_1); }
        assert(all_but_first(f, func, args, t->Call_arguments.s));
        assert(tr_rplace(f, dest, t->Call_ret));
        assert(tr_rplace(f, dest, FnCtxt__translate_place(r.0, dest, sp).1));
    } else {
        let n = Ctxt__get_fn_name(g2.cx, i);
        let g3 = FnCtxt { cx: n.0, ..g2 };
        assert(tr_rplace(f, dest, FnCtxt__translate_place(g3, dest, sp).1));
        assert(calls(t, Ctxt__get_fn_name(g2.cx, i).1));
    }
}
/// names are given out once: every instance has its own
pub open spec fn names_apart(m: vstd::map::Map<RsInstance, FnName>) -> bool {
    &&& m.dom().finite()
    &&& forall|a: RsInstance| #[trigger] m.contains_key(a) ==> 0 <= m[a].0.id < m.dom().len()
    &&& forall|a: RsInstance, b: RsInstance| #[trigger] m.contains_key(a) && #[trigger] m.contains_key(b) && m[a] == m[b] ==> a == b
}
/// an instance keeps the name it was given, a new one gets a name no other instance has
pub proof fn mir_fn_name(c: Ctxt, i: RsInstance)
    requires Ctxt__get_fn_name_ok(c, i), names_apart(c.fn_name_map.m)
    ensures ({
        let (d, n) = Ctxt__get_fn_name(c, i);
        &&& names_apart(d.fn_name_map.m) && d.fn_name_map.m.contains_key(i) && n == d.fn_name_map.m[i]
        &&& forall|a: RsInstance| #[trigger] c.fn_name_map.m.contains_key(a) ==> d.fn_name_map.m.contains_key(a) && d.fn_name_map.m[a] == c.fn_name_map.m[a]
        &&& forall|a: RsInstance| #[trigger] d.fn_name_map.m.contains_key(a) ==> a == i || c.fn_name_map.m.contains_key(a)
    })
{ reveal(Ctxt__get_fn_name); reveal(Ctxt__get_fn_name_ok); }

// ---------------------------------------------------------------- the MIR translation of function signatures
/// local i of the body gets the name i
pub proof fn mir_local_names(l: List<int>, i: int, f: FnCtxt)
    requires 0 <= i <= l.s.len(), forall|j: int| 0 <= j < l.s.len() ==> #[trigger] l.s[j] == j, f.next_local == i,
        forall|j: int| #[trigger] f.local_name_map.m.contains_key(j) <==> 0 <= j < i, forall|j: int| 0 <= j < i ==> #[trigger] f.local_name_map.m[j] == LocalName(Name { id: j })
    ensures ({
        let g = FnCtxt__translate__loop2(l, i, f);
        &&& g.next_local == l.s.len()
        &&& forall|j: int| #[trigger] g.local_name_map.m.contains_key(j) <==> 0 <= j < l.s.len()
        &&& forall|j: int| 0 <= j < l.s.len() ==> #[trigger] g.local_name_map.m[j] == LocalName(Name { id: j })
    })
    decreases l.s.len() - i
{
    reveal(FnCtxt__translate__loop2); reveal(FnCtxt__translate__loop2_ok);
    if i < l.s.len() {
        let (f1, n) = FnCtxt__fresh_local_name(f);
        let g = FnCtxt { local_name_map: Map { m: f1.local_name_map.m.insert(l.s[i], n) }, ..f1 };
        mir_local_names(l, i + 1, g);
        assert(FnCtxt__translate__loop2(l, i, f) == FnCtxt__translate__loop2(l, i + 1, g));
    }
}
/// a spread argument becomes one fresh local per field, each copied into its field
pub open spec fn spread_stmt(s: LocalName, field: int, t: int) -> Statement {
    Statement::Assign { destination: PlaceExpr::Field { root: Box::new(PlaceExpr::Local(s)), field }, source: ValueExpr::Load { source: Box::new(PlaceExpr::Local(LocalName(Name { id: t }))) } }
}
pub open spec fn upto(a: int, b: int) -> Seq<LocalName> { Seq::new((b - a) as nat, |j: int| LocalName(Name { id: a + j })) }
pub open spec fn spread_stmts(s: LocalName, l: Seq<(int, RsTy)>, base: int) -> Seq<Statement> { Seq::new(l.len(), |j: int| spread_stmt(s, l[j].0, base + j)) }
pub open spec fn spread_types(f: FnCtxt, g: FnCtxt, l: Seq<(int, RsTy)>, base: int) -> bool {
    forall|j: int| 0 <= j < l.len() ==> #[trigger] spread_type(f, g, l, base, j)
}
pub open spec fn spread_type(f: FnCtxt, g: FnCtxt, l: Seq<(int, RsTy)>, base: int, j: int) -> bool {
    g.locals.m.contains_key(LocalName(Name { id: base + j })) && tr_ty(f, l[j].1, g.locals.m[LocalName(Name { id: base + j })])
}
/// nothing is known or changed about the locals before number n
pub open spec fn old_locals(f: FnCtxt, g: FnCtxt, n: int) -> bool {
    forall|o: LocalName| o.0.id < n ==> (#[trigger] f.locals.m.contains_key(o) <==> g.locals.m.contains_key(o)) && f.locals.m[o] == g.locals.m[o]
}
pub proof fn mir_spread_locals(l: List<(int, RsTy)>, i: int, s: LocalName, sp: RsSpan, f: FnCtxt, args: List<LocalName>, init: List<Statement>)
    requires FnCtxt__translate__loop5_ok(l, i, s, sp, f, args, init), 0 <= i <= l.s.len()
    ensures ({
        let (g, a, st) = FnCtxt__translate__loop5(l, i, s, sp, f, args, init);
        let r = l.s.subrange(i, l.s.len() as int);
        &&& g.next_local == f.next_local + r.len() && same_fn(f, g)
        &&& a.s == args.s + upto(f.next_local, f.next_local + r.len())
        &&& st.s == init.s + spread_stmts(s, r, f.next_local)
        &&& spread_types(f, g, r, f.next_local) && old_locals(f, g, f.next_local)
    })
    decreases l.s.len() - i
{
    reveal(FnCtxt__translate__loop5); reveal(FnCtxt__translate__loop5_ok);
    let (g, a, st) = FnCtxt__translate__loop5(l, i, s, sp, f, args, init);
    let r = l.s.subrange(i, l.s.len() as int);
    let base = f.next_local;
    if i < l.s.len() {
        let (f1, t) = FnCtxt__fresh_local_name(f);
        let (cx, y) = Ctxt__translate_ty(f1.cx, l.s[i].1, sp);
        let f2 = FnCtxt { cx, locals: Map { m: f1.locals.m.insert(t, y) }, ..f1 };
        let args2 = List { s: args.s.push(t) };
        let init2 = List { s: init.s.push(spread_stmt(s, l.s[i].0, base)) };
        let r2 = l.s.subrange(i + 1, l.s.len() as int);
        mir_spread_locals(l, i + 1, s, sp, f2, args2, init2);
        assert(FnCtxt__translate__loop5(l, i, s, sp, f, args, init) == FnCtxt__translate__loop5(l, i + 1, s, sp, f2, args2, init2));
        assert forall|j: int| 0 <= j < r.len() implies #[trigger] spread_type(f, g, r, base, j) by {
            if j == 0 { assert(f2.locals.m.contains_key(t)); assert(t.0.id < f2.next_local); }
            else { assert(spread_type(f2, g, r2, f2.next_local, j - 1)); }
        }
        assert(spread_types(f, g, r, base));
        assert forall|o: LocalName| o.0.id < base implies (#[trigger] f.locals.m.contains_key(o) <==> g.locals.m.contains_key(o)) && f.locals.m[o] == g.locals.m[o] by {
            assert(f2.locals.m.contains_key(o) == f.locals.m.contains_key(o));
        }
        assert(args.s + upto(base, base + r.len()) =~= args2.s + upto(f2.next_local, f2.next_local + r2.len()));
        assert(init.s + spread_stmts(s, r, base) =~= init2.s + spread_stmts(s, r2, f2.next_local));
    } else {
        assert(args.s + upto(base, base + r.len()) =~= args.s);
        assert(init.s + spread_stmts(s, r, base) =~= init.s);
    }
}
/// the parameters that are not spread are the locals after the return place, in order
pub proof fn mir_params(end: int, i: int, k: Option<int>, f: FnCtxt, args: List<LocalName>, init: List<Statement>)
    requires FnCtxt__translate__loop4_ok(end, i, k, f, args, init), i <= end, k is Some ==> k->0 < i || k->0 >= end
    ensures FnCtxt__translate__loop4(end, i, k, f, args, init) == Flow::<Function, (FnCtxt, List<LocalName>, List<Statement>)>::Cont((f, List { s: args.s + upto(i, end) }, init))
    decreases end - i
{
    reveal(FnCtxt__translate__loop4); reveal(FnCtxt__translate__loop4_ok);
    if i < end {
        let args2 = List { s: args.s.push(LocalName(Name { id: i })) };
        mir_params(end, i + 1, k, f, args2, init);
        assert(FnCtxt__translate__loop4(end, i, k, f, args, init) == FnCtxt__translate__loop4(end, i + 1, k, f, args2, init));
        assert(args2.s + upto(i + 1, end) =~= args.s + upto(i, end));
    } else { assert(args.s + upto(i, end) =~= args.s); assert(List { s: args.s + upto(i, end) } == args); }
}
/// the fields of the spread parameter k
pub open spec fn spread_fields(f: FnCtxt, k: int) -> Seq<(int, RsTy)> { List__enumerate(RsTy__kind(f.body.local_decls.s[k].ty)->Tuple_0).s }
/// with a spread parameter k: one fresh local for each of its fields takes its place, and the fields are filled from those at the start
pub open spec fn spread_params(f: FnCtxt, k: int, i: int, end: int, g: FnCtxt, args: Seq<LocalName>, init: Seq<Statement>) -> bool {
    let s = f.local_name_map.m[k];
    let r = spread_fields(f, k);
    &&& args == upto(i, k) + upto(f.next_local, f.next_local + r.len()) + upto(k + 1, end)
    &&& init == seq![Statement::StorageLive(s)] + spread_stmts(s, r, f.next_local)
    &&& spread_types(f, g, r, f.next_local) && old_locals(f, g, f.next_local) && same_fn(f, g) && g.next_local == f.next_local + r.len()
}
pub proof fn mir_params_spread(end: int, i: int, k: int, f: FnCtxt, args: List<LocalName>)
    requires FnCtxt__translate__loop4_ok(end, i, Some(k), f, args, List { s: Seq::empty() }), 0 < i <= k < end, f.body.spread_arg == Some(k)
    ensures ({
        let r = FnCtxt__translate__loop4(end, i, Some(k), f, args, List { s: Seq::empty() });
        r is Cont && exists|a: Seq<LocalName>| (r->Cont_0).1.s == args.s + a && #[trigger] spread_params(f, k, i, end, (r->Cont_0).0, a, (r->Cont_0).2.s)
    })
    decreases end - i
{
    reveal(FnCtxt__translate__loop4); reveal(FnCtxt__translate__loop4_ok);
    let none = List { s: Seq::<Statement>::empty() };
    let r = FnCtxt__translate__loop4(end, i, Some(k), f, args, none);
    if i < k {
        let args2 = List { s: args.s.push(LocalName(Name { id: i })) };
        mir_params_spread(end, i + 1, k, f, args2);
        assert(r == FnCtxt__translate__loop4(end, i + 1, Some(k), f, args2, none));
        let a2 = choose|a: Seq<LocalName>| (r->Cont_0).1.s == args2.s + a && #[trigger] spread_params(f, k, i + 1, end, (r->Cont_0).0, a, (r->Cont_0).2.s);
        let a = seq![LocalName(Name { id: i })] + a2;
        assert(args.s + a =~= args2.s + a2);
        let n = spread_fields(f, k).len() as int;
        assert(a =~= upto(i, k) + upto(f.next_local, f.next_local + n) + upto(k + 1, end));
        assert(spread_params(f, k, i, end, (r->Cont_0).0, a, (r->Cont_0).2.s));
    } else {
        let s = f.local_name_map.m[k];
        let l = List__enumerate(RsTy__kind(f.body.local_decls.s[k].ty)->Tuple_0);
        let init = List { s: none.s.push(Statement::StorageLive(s)) };
        let sp = f.body.local_decls.s[k].source_info.span;
        mir_spread_locals(l, 0, s, sp, f, args, init);
        let (g, args2, init2) = FnCtxt__translate__loop5(l, 0, s, sp, f, args, init);
        assert(l.s.subrange(0, l.s.len() as int) =~= l.s);
        mir_params(end, k + 1, Some(k), g, args2, init2);
        let n = l.s.len() as int;
        let a = upto(f.next_local, f.next_local + n) + upto(k + 1, end);
        assert(upto(i, k) + upto(f.next_local, f.next_local + n) + upto(k + 1, end) =~= a);
        assert(args2.s + upto(k + 1, end) =~= args.s + a);
        assert(init2.s =~= seq![Statement::StorageLive(s)] + spread_stmts(s, l.s, f.next_local));
        assert(r == FnCtxt__translate__loop4(end, k + 1, Some(k), g, args2, init2));
        assert(spread_params(f, k, i, end, (r->Cont_0).0, a, (r->Cont_0).2.s));
    }
}
/// a function's parameters are its body's parameters in order, its return place is local 0, and its calling convention is that of its ABI
pub proof fn mir_signature(f: FnCtxt)
    requires FnCtxt__translate_ok(f), f.next_local == 0, f.local_name_map.m == vstd::map::Map::<int, LocalName>::empty(), 0 <= f.body.arg_count < f.body.local_decls.s.len(),
        f.body.spread_arg is Some ==> 1 <= f.body.spread_arg->0 <= f.body.arg_count
    ensures ({
        let r = FnCtxt__translate(f);
        let n = f.body.local_decls.s.len() as int;
        let end = f.body.arg_count + 1;
        &&& r.ret == LocalName(Name { id: 0 }) && r.calling_convention == mini__translate_calling_convention(f.abi.conv)
        &&& match f.body.spread_arg {
            None => r.args.s == upto(1, end),
            Some(k) => r.args.s == upto(1, k) + upto(n, n + spread_fields(f, k).len()) + upto(k + 1, end),
        }
    })
{
    reveal(FnCtxt__translate); reveal(FnCtxt__translate_ok);
    let f1 = FnCtxt__translate__loop1(List__indices::<RsBasicBlockData>(f.body.basic_blocks), 0, f);
    let l = List__indices::<RsLocalDecl>(f1.body.local_decls);
    mir_local_names(l, 0, f1);
    let f2 = FnCtxt__translate__loop2(l, 0, f1);
    let f3 = FnCtxt__translate__loop3(Map__iter(f2.local_name_map), 0, f2);
    let end = f.body.arg_count + 1;
    let (args, init) = (List__default::<LocalName>(), List__new::<Statement>());
    assert(args.s =~= Seq::empty() && init == List { s: Seq::<Statement>::empty() });
    if f.body.spread_arg is Some {
        let k = f.body.spread_arg->0;
        mir_params_spread(end, 1, k, f3, args);
        let p = FnCtxt__translate__loop4(end, 1, Some(k), f3, args, init)->Cont_0;
        let a = choose|a: Seq<LocalName>| p.1.s == args.s + a && #[trigger] spread_params(f3, k, 1, end, p.0, a, p.2.s);
        assert(p.1.s =~= a);
        assert(same_fn(f3, p.0));
    } else {
        mir_params(end, 1, None, f3, args, init);
        let p = FnCtxt__translate__loop4(end, 1, None, f3, args, init)->Cont_0;
        assert(p.1.s =~= upto(1, end));
    }
}
/// a function made a pointer is the pointer to the function that instance becomes
pub proof fn mir_reify(f: FnCtxt, s: int, c: SmConstOperand, t: SmTy, sp: RsSpan, d: SmFnDef, g: SmGenericArgs)
    requires FnCtxt__translate_rvalue_smir_ok(f, SmRvalue::Cast(SmCastKind::PointerCoercion(SmPointerCoercion::ReifyFnPointer(s)), SmOperand::Constant(c), t), sp), SmTy__kind(SmConstOperand__ty(c)) == SmTyKind::RigidTy(SmRigidTy::FnDef(d, g))
    ensures ({
        let e = FnCtxt__translate_rvalue_smir(f, SmRvalue::Cast(SmCastKind::PointerCoercion(SmPointerCoercion::ReifyFnPointer(s)), SmOperand::Constant(c), t), sp).1;
        SmInstance__resolve(d, g) is Some && e == build__fn_ptr(Ctxt__get_fn_name_smir(f.cx, SmInstance__resolve(d, g)->0).1)
    })
{
    reveal(FnCtxt__translate_rvalue_smir); reveal(FnCtxt__translate_rvalue_smir_ok);
}
