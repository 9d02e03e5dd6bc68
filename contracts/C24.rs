// C24: a local has its own fresh storage exactly while it is live.

/// the active thread exists and has a frame
pub open spec fn running(m: Machine) -> bool { 0 <= m.active_thread < m.threads.s.len() && m.threads.s[m.active_thread].stack.s.len() > 0 }
pub open spec fn active(m: Machine) -> Thread { m.threads.s[m.active_thread] }
pub open spec fn top(m: Machine) -> StackFrame { active(m).stack.s.last() }
/// m with another active thread state, and with another top frame: nothing else changes
pub open spec fn with_thread(m: Machine, t: Thread) -> Machine { Machine { threads: List { s: m.threads.s.update(m.active_thread, t) }, ..m } }
pub open spec fn with_stack(m: Machine, st: Seq<StackFrame>) -> Machine { with_thread(m, Thread { stack: List { s: st }, ..active(m) }) }
pub open spec fn with_top(m: Machine, f: StackFrame) -> Machine { with_stack(m, active(m).stack.s.update(active(m).stack.s.len() - 1, f)) }
/// r is e's error, or success
pub open spec fn same_result<A, B>(r: Result<A, TerminationInfo>, e: Result<B, TerminationInfo>) -> bool {
    match e { Ok(_) => r is Ok, Err(x) => r is Err && r->Err_0 == x }
}
pub open spec fn ty_of(f: StackFrame, l: LocalName) -> Type { f.func.locals.m[l] }
pub open spec fn size_of(f: StackFrame, l: LocalName) -> Size { LayoutStrategy__expect_size(Type__layout(ty_of(f, l)), Str) }
pub open spec fn align_of(f: StackFrame, l: LocalName) -> Align { LayoutStrategy__expect_align(Type__layout(ty_of(f, l)), Str) }
pub open spec fn live(f: StackFrame, l: LocalName) -> bool { f.locals.m.contains_key(l) }
/// f with the storage of l gone
pub open spec fn without(f: StackFrame, l: LocalName) -> StackFrame { StackFrame { locals: Map { m: f.locals.m.remove(l) }, ..f } }
pub open spec fn with_local(f: StackFrame, l: LocalName, p: ThinPointer<Prov>) -> StackFrame { StackFrame { locals: Map { m: f.locals.m.insert(l, p) }, ..f } }

/// ending the storage of a live local releases exactly its own memory with its own size and alignment; of a dead one, it has no effect; no other local changes
pub proof fn dead(f: StackFrame, mem: ConcurrentMemory, l: LocalName)
    ensures ({
        let (g, n, r) = StackFrame__storage_dead(f, mem, l);
        &&& g == without(f, l)
        &&& (!live(f, l) ==> r is Ok && n == mem)
        &&& (live(f, l) ==> ({
            let (n2, e) = ConcurrentMemory__deallocate(mem, f.locals.m[l], AllocationKind::Stack, size_of(f, l), align_of(f, l));
            n == n2 && same_result(r, e)
        }))
    })
{ }
/// starting the storage of a local ends the one it had, and gives it new memory of its size and alignment
pub proof fn live_fresh(f: StackFrame, mem: ConcurrentMemory, l: LocalName)
    ensures ({
        let (g, n, r) = StackFrame__storage_live(f, mem, l);
        let (f1, mem1, r1) = StackFrame__storage_dead(f, mem, l);
        let (mem2, p) = ConcurrentMemory__allocate(mem1, AllocationKind::Stack, size_of(f, l), align_of(f, l));
        if r1 is Err { n == mem1 && same_result(r, r1) && g == without(f, l) }
        else { n == mem2 && same_result(r, p) && (p is Ok ==> g == with_local(f, l, p->Ok_0)) && (p is Err ==> g == without(f, l)) }
    })
{
    let (f1, mem1, r1) = StackFrame__storage_dead(f, mem, l);
    let (mem2, p) = ConcurrentMemory__allocate(mem1, AllocationKind::Stack, size_of(f, l), align_of(f, l));
    if p is Ok { assert(f.locals.m.remove(l).insert(l, p->Ok_0) =~= f.locals.m.insert(l, p->Ok_0)); }
}
/// the memory a local gets is the memory's newest allocation of kind stack: new, uninitialised, and nobody else's (C06)
pub proof fn live_allocates(f: StackFrame, mem: ConcurrentMemory, l: LocalName)
    ensures ({
        let (g, n, r) = StackFrame__storage_live(f, mem, l);
        r is Ok ==> exists|m1: MemM| live(g, l) && #[trigger] MemM__allocate(m1, AllocationKind::Stack, size_of(f, l), align_of(f, l)) == (n.memory, Ok::<ThinPointer<Prov>, TerminationInfo>(g.locals.m[l]))
    })
{
    let (f1, mem1, r1) = StackFrame__storage_dead(f, mem, l);
    let x = MemM__allocate(mem1.memory, AllocationKind::Stack, size_of(f, l), align_of(f, l));
}
/// the statements act on the active frame only
pub proof fn statements(m: Machine, l: LocalName)
    requires running(m)
    ensures ({
        let (n, r) = Machine__eval_statement(m, Statement::StorageLive(l));
        let (g, mem, e) = StackFrame__storage_live(top(m), m.mem, l);
        same_result(r, e) && n == with_top(Machine { mem, ..m }, g)
    }), ({
        let (n, r) = Machine__eval_statement(m, Statement::StorageDead(l));
        let (g, mem, e) = StackFrame__storage_dead(top(m), m.mem, l);
        same_result(r, e) && n == with_top(Machine { mem, ..m }, g)
    })
{
    let (g, mem, e) = StackFrame__storage_live(top(m), m.mem, l);
    assert(Machine__eval_statement(m, Statement::StorageLive(l)).0.threads.s =~= with_top(Machine { mem, ..m }, g).threads.s);
    let (g, mem, e) = StackFrame__storage_dead(top(m), m.mem, l);
    assert(Machine__eval_statement(m, Statement::StorageDead(l)).0.threads.s =~= with_top(Machine { mem, ..m }, g).threads.s);
}

// ---------------------------------------------------------------- entering a function
pub proof fn args_live(l: List<LocalName>, i: int, m: Machine, f: StackFrame)
    requires 0 <= i <= l.s.len()
    ensures ({
        let r = Machine__create_frame__loop1(l, i, m, f);
        &&& (r is Cont ==> ({
            let (n, g) = r->Cont_0;
            &&& n == (Machine { mem: n.mem, ..m }) && g == (StackFrame { locals: g.locals, ..f })
            &&& forall|k: LocalName| #[trigger] live(g, k) <==> live(f, k) || exists|j: int| i <= j < l.s.len() && l.s[j] == k
        }))
        &&& (r is Exit ==> (r->Exit_0).1 is Err)
    })
    decreases l.s.len() - i
{
    if i < l.s.len() {
        let (g, mem, r) = StackFrame__storage_live(f, m.mem, l.s[i]);
        live_fresh(f, m.mem, l.s[i]);
        if r is Ok {
            args_live(l, i + 1, Machine { mem, ..m }, g);
            let x = Machine__create_frame__loop1(l, i, m, f);
            if x is Cont {
                let h = (x->Cont_0).1;
                assert forall|k: LocalName| #[trigger] live(h, k) <==> live(f, k) || exists|j: int| i <= j < l.s.len() && l.s[j] == k by {
                    assert(live(g, k) <==> live(f, k) || k == l.s[i]);
                    if exists|j: int| i <= j < l.s.len() && l.s[j] == k {
                        let j = choose|j: int| i <= j < l.s.len() && l.s[j] == k;
                        if j == i { } else { assert(i + 1 <= j); }
                    }
                }
            }
        }
    }
}
/// from entry on, exactly the return place and the arguments are live
pub proof fn entry(m: Machine, func: Function, act: StackPopAction, conv: CallingConvention, ret: Type, args: List<(Value, Type)>)
    ensures ({
        let (n, r) = Machine__create_frame(m, func, act, conv, ret, args);
        r is Ok ==> forall|k: LocalName| #[trigger] live(r->Ok_0, k) <==> k == func.ret || exists|j: int| 0 <= j < func.args.s.len() && func.args.s[j] == k
    })
{
    let f0 = StackFrame { func, locals: Map__new::<LocalName, ThinPointer<Prov>>(), stack_pop_action: act, next_block: func.start, next_stmt: 0int, extra: MemM__new_call() };
    let (f1, mem, r1) = StackFrame__storage_live(f0, m.mem, func.ret);
    live_fresh(f0, m.mem, func.ret);
    let m1 = Machine { mem, ..m };
    args_live(func.args, 0, m1, f1);
    match Machine__create_frame__loop1(func.args, 0, m1, f1) {
        Flow::Cont((m2, f2)) => { args_store(List__zip::<LocalName, (Value, Type)>(func.args, args), 0, func, f2, m2);
            let (n, r) = Machine__create_frame(m, func, act, conv, ret, args);
            if r is Ok { assert(r->Ok_0 == f2); assert forall|k: LocalName| #[trigger] live(f1, k) <==> k == func.ret by { } }
        }
        _ => { }
    }
}
/// (storing the arguments never ends the call other than by an error)
pub proof fn args_store(l: List<(LocalName, (Value, Type))>, i: int, func: Function, f: StackFrame, m: Machine)
    ensures ({ let r = Machine__create_frame__loop2(l, i, func, f, m); r is Exit ==> (r->Exit_0).1 is Err })
    decreases l.s.len() - i
{
    if 0 <= i && i < l.s.len() {
        let (local, (v, t)) = l.s[i];
        args_store(l, i + 1, func, f, Machine__typed_store(m, Map__index_at::<LocalName, ThinPointer<Prov>>(f.locals, local), v, t, LayoutStrategy__expect_align(Type__layout(t), Str), Atomicity::None).0);
    }
}

// ---------------------------------------------------------------- leaving a function
/// releasing the storage of a frame goes on until no local has any left
pub proof fn leave_loop(m: Machine, f: StackFrame)
    requires f.locals.m.dom().finite()
    ensures ({
        let r = Machine__eval_terminator__loop2(m, f);
        &&& (r is Cont ==> (forall|k: LocalName| !#[trigger] live((r->Cont_0).1, k)) && (r->Cont_0).1 == (StackFrame { locals: (r->Cont_0).1.locals, ..f }) && (r->Cont_0).0 == (Machine { mem: (r->Cont_0).0.mem, ..m }))
        &&& (r is Exit ==> (r->Exit_0).1 is Err)
    })
    decreases f.locals.m.dom().len()
{
    Machine__eval_terminator__loop2__def(m, f);
    let keys = Map__keys(f.locals);
    if keys.s.len() > 0 {
        let local = keys.s[0];
        assert(keys.s.contains(local));
        let (f2, mem, r) = StackFrame__storage_dead(f, m.mem, local);
        assert(f2.locals.m == f.locals.m.remove(local));
        if r is Ok { leave_loop(Machine { mem, ..m }, f2); }
    } else {
        assert(f.locals.m.dom().len() == 0);
        assert(f.locals.m.dom() =~= vstd::set::Set::empty());
    }
}
/// returning removes the frame, and succeeds only if the storage of all its locals was released
pub proof fn leave(m: Machine)
    requires running(m), top(m).locals.m.dom().finite()
    ensures ({
        let r = Machine__eval_terminator(m, Terminator::Return).1;
        let f = top(m);
        let below = with_stack(m, active(m).stack.s.drop_last());
        let t = ty_of(f, f.func.ret);
        let (m1, v) = Machine__typed_load(below, f.locals.m[f.func.ret], t, LayoutStrategy__expect_align(Type__layout(t), Str), Atomicity::None);
        r is Ok ==> v is Ok && ({ let l = Machine__eval_terminator__loop2(m1, f); l is Cont && (forall|k: LocalName| !#[trigger] live((l->Cont_0).1, k)) })
    })
{
    let f = top(m);
    let below = with_stack(m, active(m).stack.s.drop_last());
    let t = ty_of(f, f.func.ret);
    let (m1, v) = Machine__typed_load(below, f.locals.m[f.func.ret], t, LayoutStrategy__expect_align(Type__layout(t), Str), Atomicity::None);
    leave_loop(m1, f);
}

// ---------------------------------------------------------------- the MIR translation of storage
/// storage statements start and end the storage of the local they name
pub proof fn mir_storage(f: FnCtxt, s: RsStatement)
    requires FnCtxt__translate_stmt_ok(f, s)
    ensures ({
        let r = FnCtxt__translate_stmt(f, s).1;
        match s.kind {
            RsStatementKind::StorageLive(l) => f.local_name_map.m.contains_key(l) && r == StatementResult::Statement(Statement::StorageLive(f.local_name_map.m[l])),
            RsStatementKind::StorageDead(l) => f.local_name_map.m.contains_key(l) && r == StatementResult::Statement(Statement::StorageDead(f.local_name_map.m[l])),
            _ => true,
        }
    })
{ reveal(FnCtxt__translate_stmt); reveal(FnCtxt__translate_stmt_ok); }
/// the locals whose storage is live all the time, as the compiler sees it, that are neither the return place nor a parameter
pub open spec fn always_live(f: FnCtxt, l: LocalName) -> bool {
    exists|i: int| 0 <= i < Rsalways_storage_live_locals(f.body).s.len() && #[trigger] f.local_name_map.m[Rsalways_storage_live_locals(f.body).s[i]] == l && int_as(l.0.id, false, 64) >= f.body.arg_count + 1
}
/// the statements start the storage of exactly the locals that are always live, besides what is there before
pub open spec fn starts_live(f: FnCtxt, base: Seq<Statement>, s: Seq<Statement>) -> bool {
    &&& s.len() >= base.len() && s.subrange(0, base.len() as int) == base
    &&& forall|l: LocalName| #[trigger] always_live(f, l) ==> s.contains(Statement::StorageLive(l))
    &&& forall|i: int| base.len() <= i < s.len() ==> (#[trigger] s[i]) is StorageLive && always_live(f, s[i]->StorageLive_0)
}
pub proof fn kept_from(s: Seq<LocalName>, p: spec_fn(LocalName) -> bool, x: LocalName)
    requires s.filter(p).contains(x)
    ensures s.contains(x)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let r = s.drop_last().filter(p);
        if r.contains(x) {
            kept_from(s.drop_last(), p, x);
            let j = choose|j: int| 0 <= j < s.len() - 1 && s.drop_last()[j] == x;
            assert(s[j] == x);
        } else { assert(s.last() == x); assert(s[s.len() - 1] == x); }
    }
}
/// naming, selecting and starting, for any list of locals
pub proof fn start_list(base: List<Statement>, al: List<int>, nf: spec_fn(int) -> LocalName, p: spec_fn(LocalName) -> bool, sf: spec_fn(LocalName) -> Statement)
    ensures ({
        let s = List__extend(base, List__map(List__filter(List__map(al, nf), p), sf)).s;
        &&& s.len() >= base.s.len() && s.subrange(0, base.s.len() as int) == base.s
        &&& forall|i: int| 0 <= i < al.s.len() && p(nf(#[trigger] al.s[i])) ==> s.contains(sf(nf(al.s[i])))
        &&& forall|i: int| base.s.len() <= i < s.len() ==> #[trigger] from_list(al, nf, p, sf, s[i])
    })
{
    let names = List__map(al, nf).s;
    let kept = names.filter(p);
    let s = List__extend(base, List__map(List__filter(List__map(al, nf), p), sf)).s;
    names.filter_lemma(p);
    assert(s.subrange(0, base.s.len() as int) =~= base.s);
    assert forall|i: int| 0 <= i < al.s.len() && p(nf(#[trigger] al.s[i])) implies s.contains(sf(nf(al.s[i]))) by {
        assert(names[i] == nf(al.s[i])); assert(kept.contains(names[i]));
        let j = choose|j: int| 0 <= j < kept.len() && kept[j] == names[i];
        assert(s[base.s.len() + j] == sf(kept[j]));
    }
    assert forall|i: int| base.s.len() <= i < s.len() implies #[trigger] from_list(al, nf, p, sf, s[i]) by {
        let l = kept[i - base.s.len()];
        assert(kept.contains(l)); assert(s[i] == sf(l)); kept_from(names, p, l); assert(p(l) && names.contains(l));
        let j = choose|j: int| 0 <= j < names.len() && names[j] == l;
        assert(nf(al.s[j]) == l);
    }
}
pub open spec fn from_list(al: List<int>, nf: spec_fn(int) -> LocalName, p: spec_fn(LocalName) -> bool, sf: spec_fn(LocalName) -> Statement, t: Statement) -> bool {
    exists|j: int| 0 <= j < al.s.len() && p(nf(#[trigger] al.s[j])) && t == sf(nf(al.s[j]))
}
/// setting up the parameters goes through, and adds no statements if none is spread
pub proof fn params_done(end: int, i: int, k: Option<int>, f: FnCtxt, args: List<LocalName>, init: List<Statement>)
    requires FnCtxt__translate__loop4_ok(end, i, k, f, args, init)
    ensures ({ let r = FnCtxt__translate__loop4(end, i, k, f, args, init); r is Cont && same_fn(f, (r->Cont_0).0) && (k is None ==> (r->Cont_0).2 == init) })
    decreases end - i
{
    reveal(FnCtxt__translate__loop4); reveal(FnCtxt__translate__loop4_ok);
    if i < end {
        if Some(i) == k {
            let x = f.body.spread_arg->0;
            let s = f.local_name_map.m[x];
            let d = f.body.local_decls.s[x];
            let (g, args2, init2) = FnCtxt__translate__loop5(List__enumerate::<RsTy>(List__iter::<RsTy>(RsTy__kind(d.ty)->Tuple_0)), 0, s, d.source_info.span, f, args, List__push::<Statement>(init, Statement::StorageLive(s)));
            params_done(end, i + 1, k, g, args2, init2);
        } else { params_done(end, i + 1, k, f, List__push::<LocalName>(args, LocalName(Name__from_internal(i))), init); }
    }
}
/// the block a function starts in starts the storage of the locals that are always live, right after it has filled a spread parameter
/// (that no later block replaces this one is part of C27)
pub proof fn mir_entry_storage(f: FnCtxt)
    requires FnCtxt__translate_ok(f)
    ensures ({
        let r = FnCtxt__translate(f);
        exists|g: FnCtxt, base: List<Statement>, h: FnCtxt, l: List<(int, BbName)>| #[trigger] starts_in(f, g, base, h, r.start) && r.blocks == (#[trigger] FnCtxt__translate__loop6(l, 0, h)).blocks
    })
{
    reveal(FnCtxt__translate); reveal(FnCtxt__translate_ok);
    let f1 = FnCtxt__translate__loop1(List__indices::<RsBasicBlockData>(f.body.basic_blocks), 0, f);
    let f2 = FnCtxt__translate__loop2(List__indices::<RsLocalDecl>(f1.body.local_decls), 0, f1);
    let f3 = FnCtxt__translate__loop3(Map__iter(f2.local_name_map), 0, f2);
    let k = match f.body.spread_arg { Some(x) => Some(int__as_usize(x)), None => None };
    let r = FnCtxt__translate(f);
    params_done(f.body.arg_count + 1, 1, k, f3, List__default::<LocalName>(), List__new::<Statement>());
    let (g, args, base) = FnCtxt__translate__loop4(f.body.arg_count + 1, 1, k, f3, List__default::<LocalName>(), List__new::<Statement>())->Cont_0;
    let g5 = FnCtxt__fresh_bb_name(g).0;
    let l = Map__iter(g5.bb_name_map);
    let al = Rsalways_storage_live_locals(g5.body);
    assert forall|nf: spec_fn(int) -> LocalName, p: spec_fn(LocalName) -> bool, sf: spec_fn(LocalName) -> Statement|
        (forall|x: int| nf(x) == #[trigger] g5.local_name_map.m[x]) && (forall|x: LocalName| #[trigger] p(x) == (int_as(x.0.id, false, 64) >= f.body.arg_count + 1)) && (forall|x: LocalName| #[trigger] sf(x) == Statement::StorageLive(x))
        implies starts_live(g, base.s, (#[trigger] List__extend(base, List__map(List__filter(List__map(al, nf), p), sf))).s) by {
        start_list(base, al, nf, p, sf);
        let s = List__extend(base, List__map(List__filter(List__map(al, nf), p), sf)).s;
        assert forall|x: LocalName| #[trigger] always_live(g, x) implies s.contains(Statement::StorageLive(x)) by {
            let i = choose|i: int| 0 <= i < al.s.len() && #[trigger] g.local_name_map.m[al.s[i]] == x && int_as(x.0.id, false, 64) >= g.body.arg_count + 1;
            assert(nf(al.s[i]) == x); assert(p(x)); assert(sf(x) == Statement::StorageLive(x));
        }
        assert forall|i: int| base.s.len() <= i < s.len() implies (#[trigger] s[i]) is StorageLive && always_live(g, s[i]->StorageLive_0) by {
            assert(from_list(al, nf, p, sf, s[i]));
            let j = choose|j: int| 0 <= j < al.s.len() && p(nf(#[trigger] al.s[j])) && s[i] == sf(nf(al.s[j]));
            assert(g5.local_name_map.m[al.s[j]] == nf(al.s[j]));
            assert(p(nf(al.s[j])));
        }
    }
    assert(exists|h: FnCtxt| starts_in(f, g, base, h, r.start) && r.blocks == (#[trigger] FnCtxt__translate__loop6(l, 0, h)).blocks);
}
/// in h, block n begins by starting the storage of the always-live locals, after the statements base
pub open spec fn starts_in(f: FnCtxt, g: FnCtxt, base: List<Statement>, h: FnCtxt, n: BbName) -> bool {
    &&& g.body == f.body && same_fn(g, h) && h.blocks.m.contains_key(n) && starts_live(g, base.s, h.blocks.m[n].statements.s)
    &&& f.body.spread_arg is None ==> base.s.len() == 0
}
