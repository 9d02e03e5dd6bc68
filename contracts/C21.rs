// C21: atomic operations are indivisible, recorded as atomic, and compute exactly the specified value.

pub open spec fn size_of(t: Type) -> Size { LayoutStrategy__expect_size(Type__layout(t), Str) }
pub open spec fn is_rec(m: Machine, n: Machine, ty: AccessType, p: ThinPointer<Prov>, len: int, at: Atomicity) -> bool {
    n.mem.accesses.s == m.mem.accesses.s.push(Access { ty, atomicity: at, addr: p.addr, len: Size { raw: len } })
}
/// a typed load is one access of the size of the type; it yields what the bytes decode to, and is undefined behaviour if they do not
pub proof fn typed_load(m: Machine, p: ThinPointer<Prov>, t: Type, al: Align, at: Atomicity)
    ensures ({
        let (n, r) = Machine__typed_load(m, p, t, al, at);
        let (mem, b) = MemM__load(m.mem.memory, p, size_of(t), al);
        &&& is_rec(m, n, AccessType::Load, p, size_of(t).raw, at) && n.mem.memory == mem
        &&& n == (Machine { mem: n.mem, ..m })
        &&& (r is Ok ==> b is Ok && Type__decode(t, b->Ok_0) == Some(r->Ok_0) && Machine__check_value(n, r->Ok_0, t) is Ok)
        &&& (b is Err ==> r is Err && r->Err_0 == b->Err_0)
        &&& (b is Ok && Type__decode(t, b->Ok_0) is None ==> is_ub(r))
    })
{ }
/// a typed store is one access of as many bytes as the value encodes to
pub proof fn typed_store(m: Machine, p: ThinPointer<Prov>, v: Value, t: Type, al: Align, at: Atomicity)
    ensures ({
        let (n, r) = Machine__typed_store(m, p, v, t, al, at);
        let (mem, b) = MemM__store(m.mem.memory, p, Type__encode(t, v), al);
        &&& is_rec(m, n, AccessType::Store, p, Type__encode(t, v).s.len() as int, at) && n.mem.memory == mem
        &&& (b is Ok ==> r is Ok) && (b is Err ==> r is Err && r->Err_0 == b->Err_0)
        &&& n == (Machine { mem: n.mem, ..m })
    })
{ }
/// operands of the intrinsics
pub open spec fn thin(v: Value) -> Option<ThinPointer<Prov>> { match v { Value::Ptr(p) => if p.metadata is None { Some(p.thin_pointer) } else { None }, _ => None } }
pub open spec fn target(args: List<(Value, Type)>) -> Option<ThinPointer<Prov>> { thin(args.s[0].0) }
/// a size atomic operations support: a power of two up to the target's maximum
pub open spec fn atomic_size(s: Size) -> bool { is_p2(s.raw) && s.raw <= T__MAX_ATOMIC_SIZE().raw }
pub open spec fn as_align(s: Size) -> Align { Align { raw: s.raw } }
/// r is e's error, or v
pub open spec fn result_is(r: Result<Value, TerminationInfo>, e: Result<(), TerminationInfo>, v: Value) -> bool {
    match e { Ok(_) => r == Ok::<Value, TerminationInfo>(v), Err(x) => r is Err && r->Err_0 == x }
}
/// an atomic store is a single atomic access, aligned to its size
pub proof fn store(m: Machine, args: List<(Value, Type)>, ret: Type)
    ensures ({
        let (n, r) = Machine__eval_intrinsic(m, IntrinsicOp::AtomicStore, args, ret);
        let (v, t) = args.s[1];
        let lay = Type__layout(t);
        if args.s.len() == 2 && target(args) is Some && lay is Sized && atomic_size(lay->Sized_0) && ret == unit_type() {
            let (n2, e) = Machine__typed_store(m, target(args)->0, v, t, as_align(lay->Sized_0), Atomicity::Atomic);
            n == n2 && result_is(r, e, unit_value())
        } else { is_ub(r) && n == m }
    })
{ }
pub proof fn load(m: Machine, args: List<(Value, Type)>, ret: Type)
    ensures ({
        let (n, r) = Machine__eval_intrinsic(m, IntrinsicOp::AtomicLoad, args, ret);
        if args.s.len() == 1 && target(args) is Some && atomic_size(size_of(ret)) {
            Machine__typed_load(m, target(args)->0, ret, as_align(size_of(ret)), Atomicity::Atomic) == (n, r)
        } else { is_ub(r) && n == m }
    })
{ }
/// compare-exchange reads atomically, writes atomically exactly if the value read is the expected one, and returns the value read
pub proof fn compare_exchange(m: Machine, args: List<(Value, Type)>, ret: Type)
    requires ret is Int ==> is_p2(size_of(ret).raw)
    ensures ({
        let (n, r) = Machine__eval_intrinsic(m, IntrinsicOp::AtomicCompareExchange, args, ret);
        let (cur, ct) = args.s[1];
        let (next, nt) = args.s[2];
        if args.s.len() == 3 && target(args) is Some && ct == ret && nt == ret && ret is Int && atomic_size(size_of(ret)) {
            let p = target(args)->0; let al = as_align(size_of(ret));
            let (m1, before) = Machine__typed_load(m, p, ret, al, Atomicity::Atomic);
            if before is Err { n == m1 && r is Err && r->Err_0 == before->Err_0 }
            else if before->Ok_0 != cur { n == m1 && r == before }
            else {
                let (m2, e) = Machine__typed_store(m1, p, next, ret, al, Atomicity::Atomic);
                n == m2 && result_is(r, e, before->Ok_0)
            }
        } else { is_ub(r) && n == m }
    })
{ }
/// fetch-and-op reads atomically, writes the operator's result atomically, and returns the value read
pub proof fn fetch_and_op(m: Machine, op: IntBinOp, args: List<(Value, Type)>, ret: Type)
    requires ret is Int ==> is_p2(size_of(ret).raw), args.s.len() == 2 && args.s[1].1 is Int ==> args.s[1].0 is Int,
        forall|n: Machine, p: ThinPointer<Prov>, al: Align| ret is Int && (#[trigger] Machine__typed_load(n, p, ret, al, Atomicity::Atomic)).1 is Ok ==> Machine__typed_load(n, p, ret, al, Atomicity::Atomic).1->Ok_0 is Int,
    ensures ({
        let (n, r) = Machine__eval_intrinsic(m, IntrinsicOp::AtomicFetchAndOp(op), args, ret);
        let (other, ot) = args.s[1];
        if args.s.len() == 2 && target(args) is Some && ot == ret && ret is Int && atomic_size(size_of(ret)) {
            let p = target(args)->0; let al = as_align(size_of(ret));
            let (m1, before) = Machine__typed_load(m, p, ret, al, Atomicity::Atomic);
            if before is Err { n == m1 && r is Err && r->Err_0 == before->Err_0 }
            else {
                match Machine__eval_int_bin_op(op, before->Ok_0->Int_0, other->Int_0, ret->Int_0) {
                    Err(x) => n == m1 && r is Err && r->Err_0 == x,
                    Ok(v) => {
                        let (m2, e) = Machine__typed_store(m1, p, Value::Int(v), ret, al, Atomicity::Atomic);
                        n == m2 && result_is(r, e, before->Ok_0)
                    }
                }
            }
        } else { is_ub(r) && n == m }
    })
{ }
/// an integer type has the size it names, and what is loaded at it is an integer
pub proof fn ints(t: IntType, b: List<AbstractByte<Prov>>)
    requires b.s.len() == t.size.raw
    ensures Type__layout(Type::Int(t)) is Sized, size_of(Type::Int(t)) == t.size, ({ let v = Type__decode(Type::Int(t), b); v is Some ==> v->0 is Int })
{ Type__decode__def(Type::Int(t), b); }
/// a successful atomic operation makes only atomic accesses, all of exactly the operand's range
pub open spec fn only_atomic(m: Machine, n: Machine, p: ThinPointer<Prov>, len: int) -> bool {
    &&& m.mem.accesses.s.len() <= n.mem.accesses.s.len()
    &&& forall|i: int| 0 <= i < m.mem.accesses.s.len() ==> #[trigger] n.mem.accesses.s[i] == m.mem.accesses.s[i]
    &&& forall|i: int| m.mem.accesses.s.len() <= i < n.mem.accesses.s.len() ==> (#[trigger] n.mem.accesses.s[i]).atomicity == Atomicity::Atomic && n.mem.accesses.s[i].addr == p.addr
}
pub proof fn recorded_atomic(m: Machine, op: IntBinOp, args: List<(Value, Type)>, ret: Type)
    requires args.s.len() >= 1, target(args) is Some, ret is Int ==> is_p2(size_of(ret).raw)
    ensures
        args.s.len() == 2 ==> only_atomic(m, Machine__eval_intrinsic(m, IntrinsicOp::AtomicStore, args, ret).0, target(args)->0, 0),
        args.s.len() == 1 ==> only_atomic(m, Machine__eval_intrinsic(m, IntrinsicOp::AtomicLoad, args, ret).0, target(args)->0, 0),
        args.s.len() == 3 ==> only_atomic(m, Machine__eval_intrinsic(m, IntrinsicOp::AtomicCompareExchange, args, ret).0, target(args)->0, 0),
{
    store(m, args, ret); load(m, args, ret); compare_exchange(m, args, ret);
}

// ---------------------------------------------------------------- atomic operations from Rust
pub open spec fn tr_sargs(f: FnCtxt, l: Seq<RsSpanned<RsOperand>>, out: Seq<ValueExpr>, n: int) -> bool { out.len() >= n && forall|i: int| 0 <= i < n ==> tr_rop(f, l[i].node, #[trigger] out[i]) }
pub proof fn mir_intrinsic_args(f: FnCtxt, l: List<RsSpanned<RsOperand>>, i: int, g: FnCtxt, acc: List<ValueExpr>)
    requires FnCtxt__translate_call__loop2_ok(l, i, g, acc), 0 <= i <= l.s.len(), acc.s.len() == i, same_fn(f, g), tr_sargs(f, l.s, acc.s, i)
    ensures ({ let (h, out) = FnCtxt__translate_call__loop2(l, i, g, acc); same_fn(f, h) && out.s.len() == l.s.len() && tr_sargs(f, l.s, out.s, l.s.len() as int) })
    decreases l.s.len() - i
{
    reveal_with_fuel(FnCtxt__translate_call__loop2, 2); reveal_with_fuel(FnCtxt__translate_call__loop2_ok, 2);
    if i < l.s.len() {
        let a = FnCtxt__translate_operand(g, l.s[i].node, l.s[i].span);
        let acc2 = List { s: acc.s.push(a.1) };
        assert forall|j: int| 0 <= j < i + 1 implies tr_rop(f, l.s[j].node, #[trigger] acc2.s[j]) by { if j < i { assert(acc2.s[j] == acc.s[j]); } }
        mir_intrinsic_args(f, l, i + 1, a.0, acc2);
    }
}
/// the function called is one of the machine's own
pub open spec fn own_fn(f: FnCtxt, func: RsOperand, sp: RsSpan, name: Txt) -> bool {
    let k = RsTy__kind(RsOperand__ty(func, f.body, f.cx.tcx));
    k is FnDef && !(RsInstance__expect_resolve(f.cx.tcx, Ctxt__typing_env(f.cx), k->FnDef_0, k->FnDef_1, sp).def is Intrinsic)
    && RsSym__as_str(RsTyCtxt__crate_name(f.cx.tcx, k->FnDef_0.krate)) == txt__intrinsics() && RsSym__as_str(RsTyCtxt__item_name(f.cx.tcx, k->FnDef_0)) == name
}
/// the atomic functions become the machine operations they name, with every argument at its position
pub proof fn mir_intrinsic(f: FnCtxt, func: RsOperand, args: List<RsSpanned<RsOperand>>, dest: RsPlace, target: Option<int>, sp: RsSpan, u: RsUnwindAction, bb: RsBasicBlockData, name: Txt)
    requires FnCtxt__translate_call_ok(f, func, args, dest, target, sp, u, bb), own_fn(f, func, sp, name), name == txt__atomic_store() || name == txt__atomic_load() || name == txt__compare_exchange() || name == txt__atomic_fetch_add() || name == txt__atomic_fetch_sub()
    ensures ({
        let r = FnCtxt__translate_call(f, func, args, dest, target, sp, u, bb).1; let t = r.terminator; let op = t->Intrinsic_intrinsic;
        &&& t is Intrinsic && r.stmts.s.len() == 0
        &&& (name == txt__atomic_store() ==> op is AtomicStore)
        &&& (name == txt__atomic_load() ==> op is AtomicLoad)
        &&& (name == txt__compare_exchange() ==> op is AtomicCompareExchange)
        &&& (name == txt__atomic_fetch_add() ==> op is AtomicFetchAndOp && op->AtomicFetchAndOp_0 is Add)
        &&& (name == txt__atomic_fetch_sub() ==> op is AtomicFetchAndOp && op->AtomicFetchAndOp_0 is Sub)
        &&& t->Intrinsic_arguments.s.len() == args.s.len() && tr_sargs(f, args.s, t->Intrinsic_arguments.s, args.s.len() as int)
        &&& tr_rplace(f, dest, t->Intrinsic_ret)
        &&& (target is None ==> t->Intrinsic_next_block is None) && (target is Some ==> f.bb_name_map.m.contains_key(target->0) && t->Intrinsic_next_block == Some(f.bb_name_map.m[target->0]))
    })
{
    reveal(FnCtxt__translate_call); reveal(FnCtxt__translate_call_ok);
    assert(same_fn(f, f));
    let z = List__new::<ValueExpr>();
    mir_intrinsic_args(f, args, 0, f, z);
}
