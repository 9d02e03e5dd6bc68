// Well-formedness: what an accepted program may refer to, and what becomes of the others.

/// a block is a legal target from a block of kind `k` exactly if it exists and has the same kind
pub proof fn next_block_wf(f: Function, k: BbKind, b: BbName)
    ensures Function__check_next_block(f, k, b) is Ok <==> (f.blocks.m.contains_key(b) && f.blocks.m[b].kind == k),
        Function__check_next_block(f, k, b) is Err ==> Function__check_next_block(f, k, b) == Err::<(), TerminationInfo>(TerminationInfo::IllFormed(Str))
{
}
/// an unwind target exists; from regular code it is a cleanup or catch block, from cleanup and terminate code a terminate block, and catch code has none
pub proof fn unwind_block_wf(f: Function, k: BbKind, b: BbName)
    ensures Function__check_unwind_block(f, k, b) is Ok <==> (f.blocks.m.contains_key(b) && match k {
            BbKind::Regular => f.blocks.m[b].kind == BbKind::Cleanup || f.blocks.m[b].kind == BbKind::Catch,
            BbKind::Cleanup | BbKind::Terminate => f.blocks.m[b].kind == BbKind::Terminate,
            BbKind::Catch => false })
{
    if f.blocks.m.contains_key(b) {
        let t = f.blocks.m[b].kind;
        let l = List__push::<BbKind>(List__push::<BbKind>(List__new::<BbKind>(), BbKind::Cleanup), BbKind::Catch);
        let m = List__push::<BbKind>(List__new::<BbKind>(), BbKind::Terminate);
        assert(l.s[0] == BbKind::Cleanup && l.s[1] == BbKind::Catch && l.s.len() == 2);
        assert(m.s[0] == BbKind::Terminate && m.s.len() == 1);
        assert(t == BbKind::Cleanup ==> l.s[0] == t);
        assert(t == BbKind::Catch ==> l.s[1] == t);
        assert(t == BbKind::Terminate ==> m.s[0] == t);
    }
}
pub proof fn cases_wf(l: List<(int, BbName)>, i: int, k: BbKind, f: Function, t: IntType)
    requires 0 <= i <= l.s.len()
    ensures Terminator__check_wf__loop1(l, i, k, f, t) is Exit ==> Terminator__check_wf__loop1(l, i, k, f, t)->Exit_0 is Err,
        Terminator__check_wf__loop1(l, i, k, f, t) is Cont ==> (forall|j: int| i <= j < l.s.len() ==> f.blocks.m.contains_key((#[trigger] l.s[j]).1) && f.blocks.m[l.s[j].1].kind == k && IntType__can_represent(t, l.s[j].0))
    decreases l.s.len() - i
{
    if i < l.s.len() {
        next_block_wf(f, k, l.s[i].1);
        cases_wf(l, i + 1, k, f, t);
    }
}
/// every jump of an accepted terminator goes to an existing block of the right kind
pub proof fn targets_wf(t: Terminator, k: BbKind, f: Function, p: Program)
    requires Terminator__check_wf(t, k, f, p) is Ok
    ensures t is Goto ==> f.blocks.m.contains_key(t->Goto_0) && f.blocks.m[t->Goto_0].kind == k,
        t is StopUnwind ==> k == BbKind::Catch && f.blocks.m.contains_key(t->StopUnwind_0) && f.blocks.m[t->StopUnwind_0].kind == BbKind::Regular,
        t is Return ==> k == BbKind::Regular,
        t is ResumeUnwind ==> k == BbKind::Cleanup,
        t is StartUnwind ==> k == BbKind::Regular && f.blocks.m.contains_key(t->StartUnwind_unwind_block) && (f.blocks.m[t->StartUnwind_unwind_block].kind == BbKind::Cleanup || f.blocks.m[t->StartUnwind_unwind_block].kind == BbKind::Catch)
{
    match t {
        Terminator::Goto(b) => { next_block_wf(f, k, b); }
        Terminator::StopUnwind(b) => { next_block_wf(f, BbKind::Regular, b); }
        Terminator::StartUnwind { unwind_block, .. } => { unwind_block_wf(f, k, unwind_block); }
        _ => {}
    }
}
pub proof fn mach_args_wf(l: List<ValueExpr>, i: int, f: Function, p: Program)
    requires 0 <= i <= l.s.len()
    ensures Terminator__check_wf__loop2(l, i, f, p) is Exit ==> Terminator__check_wf__loop2(l, i, f, p)->Exit_0 is Err,
        Terminator__check_wf__loop2(l, i, f, p) is Cont ==> (forall|j: int| i <= j < l.s.len() ==> ValueExpr__check_wf(#[trigger] l.s[j], f.locals, p) is Ok && LayoutStrategy__is_sized(Type__layout(ValueExpr__check_wf(l.s[j], f.locals, p)->Ok_0)))
    decreases l.s.len() - i
{
    if i < l.s.len() { mach_args_wf(l, i + 1, f, p); }
}
pub proof fn call_args_wf(l: List<ArgumentExpr>, i: int, f: Function, p: Program)
    requires 0 <= i <= l.s.len()
    ensures Terminator__check_wf__loop3(l, i, f, p) is Exit ==> Terminator__check_wf__loop3(l, i, f, p)->Exit_0 is Err,
        Terminator__check_wf__loop3(l, i, f, p) is Cont ==> (forall|j: int| i <= j < l.s.len() ==> ArgumentExpr__check_wf(#[trigger] l.s[j], f.locals, p) is Ok && LayoutStrategy__is_sized(Type__layout(ArgumentExpr__check_wf(l.s[j], f.locals, p)->Ok_0)))
    decreases l.s.len() - i
{
    if i < l.s.len() { call_args_wf(l, i + 1, f, p); }
}
/// the same for calls, machine operations and switches
pub proof fn calls_wf(t: Terminator, k: BbKind, f: Function, p: Program)
    requires Terminator__check_wf(t, k, f, p) is Ok
    ensures match t {
            Terminator::Intrinsic { next_block, .. } => next_block is Some ==> f.blocks.m.contains_key(next_block->0) && f.blocks.m[next_block->0].kind == k,
            Terminator::Call { next_block, unwind_block, .. } => (next_block is Some ==> f.blocks.m.contains_key(next_block->0) && f.blocks.m[next_block->0].kind == k)
                && (unwind_block is Some ==> f.blocks.m.contains_key(unwind_block->0) && k != BbKind::Catch
                    && (k == BbKind::Regular ==> f.blocks.m[unwind_block->0].kind == BbKind::Cleanup || f.blocks.m[unwind_block->0].kind == BbKind::Catch)
                    && (k != BbKind::Regular ==> f.blocks.m[unwind_block->0].kind == BbKind::Terminate)),
            Terminator::Switch { value, cases, fallback } => f.blocks.m.contains_key(fallback) && f.blocks.m[fallback].kind == k
                && ValueExpr__check_wf(value, f.locals, p) is Ok && ValueExpr__check_wf(value, f.locals, p)->Ok_0 is Int,
            _ => true }
{
    match t {
        Terminator::Intrinsic { next_block, arguments, .. } => {
            mach_args_wf(arguments, 0, f, p);
            if next_block is Some { next_block_wf(f, k, next_block->0); }
        }
        Terminator::Call { next_block, unwind_block, arguments, .. } => {
            call_args_wf(arguments, 0, f, p);
            if next_block is Some { next_block_wf(f, k, next_block->0); }
            if unwind_block is Some { unwind_block_wf(f, k, unwind_block->0); }
        }
        Terminator::Switch { value, cases, fallback } => {
            if ValueExpr__check_wf(value, f.locals, p) is Ok && ValueExpr__check_wf(value, f.locals, p)->Ok_0 is Int {
                cases_wf(Map__iter::<int, BbName>(cases), 0, k, f, ValueExpr__check_wf(value, f.locals, p)->Ok_0->Int_0);
            }
            next_block_wf(f, k, fallback);
        }
        _ => {}
    }
}
/// every case of an accepted switch is a value of the switch type and leads to an existing block of the same kind
pub proof fn switch_wf(value: ValueExpr, cases: Map<int, BbName>, fallback: BbName, k: BbKind, f: Function, p: Program, c: int)
    requires ({ let t = Terminator::Switch { value: value, cases: cases, fallback: fallback };
        Terminator__check_wf(t, k, f, p) is Ok }), cases.m.dom().finite(), cases.m.contains_key(c)
    ensures f.blocks.m.contains_key(cases.m[c]), f.blocks.m[cases.m[c]].kind == k, IntType__can_represent(ValueExpr__check_wf(value, f.locals, p)->Ok_0->Int_0, c)
{
    let l = Map__iter::<int, BbName>(cases);
    axiom_map_keys(cases);
    assert(Map__keys(cases).s.contains(c));
    let j = choose|j: int| 0 <= j < Map__keys(cases).s.len() && Map__keys(cases).s[j] == c;
    cases_wf(l, 0, k, f, ValueExpr__check_wf(value, f.locals, p)->Ok_0->Int_0);
    assert(l.s[j] == (c, cases.m[c]));
}
/// the operands of an accepted terminator are accepted and have the types they need
pub proof fn operands_wf(t: Terminator, k: BbKind, f: Function, p: Program)
    requires Terminator__check_wf(t, k, f, p) is Ok
    ensures match t {
            Terminator::Intrinsic { ret, .. } => PlaceExpr__check_wf(ret, f.locals, p) is Ok,
            Terminator::Call { callee, ret, .. } => PlaceExpr__check_wf(ret, f.locals, p) is Ok && ValueExpr__check_wf(callee, f.locals, p) == Ok::<Type, TerminationInfo>(Type::Ptr(PtrType::FnPtr)),
            Terminator::StartUnwind { unwind_payload, .. } => ValueExpr__check_wf(unwind_payload, f.locals, p) == Ok::<Type, TerminationInfo>(Type::Ptr(PtrType::Raw { meta_kind: PointerMetaKind::None })),
            _ => true }
{
}
/// all arguments of an accepted call or machine operation are accepted and sized
pub proof fn args_wf(t: Terminator, k: BbKind, f: Function, p: Program)
    requires Terminator__check_wf(t, k, f, p) is Ok
    ensures t is Intrinsic ==> forall|j: int| 0 <= j < t->Intrinsic_arguments.s.len() ==> ValueExpr__check_wf(#[trigger] t->Intrinsic_arguments.s[j], f.locals, p) is Ok,
        t is Call ==> forall|j: int| 0 <= j < t->Call_arguments.s.len() ==> ArgumentExpr__check_wf(#[trigger] t->Call_arguments.s[j], f.locals, p) is Ok
{
    match t {
        Terminator::Intrinsic { arguments, .. } => { mach_args_wf(arguments, 0, f, p); }
        Terminator::Call { arguments, .. } => { call_args_wf(arguments, 0, f, p); }
        _ => {}
    }
}
/// an accepted statement names declared locals only, assigns values of the place's own type, and never ends the life of an argument or the return place
pub proof fn statement_wf(s: Statement, f: Function, p: Program)
    requires Statement__check_wf(s, f, p) is Ok
    ensures match s {
            Statement::Assign { destination, source } => PlaceExpr__check_wf(destination, f.locals, p) is Ok && ValueExpr__check_wf(source, f.locals, p) == PlaceExpr__check_wf(destination, f.locals, p),
            Statement::PlaceMention(place) => PlaceExpr__check_wf(place, f.locals, p) is Ok,
            Statement::SetDiscriminant { destination, value } => PlaceExpr__check_wf(destination, f.locals, p) is Ok && PlaceExpr__check_wf(destination, f.locals, p)->Ok_0 is Enum
                && PlaceExpr__check_wf(destination, f.locals, p)->Ok_0->Enum_variants.m.contains_key(value),
            Statement::Validate { place, .. } => PlaceExpr__check_wf(place, f.locals, p) is Ok,
            Statement::Deinit { place } => PlaceExpr__check_wf(place, f.locals, p) is Ok,
            Statement::StorageLive(x) => f.locals.m.contains_key(x),
            Statement::StorageDead(x) => f.locals.m.contains_key(x) && x != f.ret && forall|j: int| 0 <= j < f.args.s.len() ==> #[trigger] f.args.s[j] != x }
{
}
/// a place names a declared local; a dereference follows an accepted pointer
pub proof fn place_wf(e: PlaceExpr, l: Map<LocalName, Type>, p: Program)
    requires PlaceExpr__check_wf(e, l, p) is Ok
    ensures match e {
            PlaceExpr::Local(x) => l.m.contains_key(x) && PlaceExpr__check_wf(e, l, p)->Ok_0 == l.m[x],
            PlaceExpr::Deref { operand, ty } => Type__check_wf(ty, p) is Ok && ValueExpr__check_wf(*operand, l, p) is Ok && ValueExpr__check_wf(*operand, l, p)->Ok_0 is Ptr
                && PtrType__meta_kind(ValueExpr__check_wf(*operand, l, p)->Ok_0->Ptr_0) == Type__meta_kind(ty) && PlaceExpr__check_wf(e, l, p)->Ok_0 == ty,
            _ => true }
{
    PlaceExpr__check_wf__def(e, l, p);
}
/// a projection is one the type of its root has: a field of a tuple or union, an element of an array or slice, a variant of an enum
pub proof fn projection_wf(e: PlaceExpr, l: Map<LocalName, Type>, p: Program)
    requires PlaceExpr__check_wf(e, l, p) is Ok
    ensures match e {
            PlaceExpr::Field { root, field } => PlaceExpr__check_wf(*root, l, p) is Ok && match PlaceExpr__check_wf(*root, l, p)->Ok_0 {
                Type::Tuple { sized_fields, unsized_field, .. } => 0 <= field < sized_fields.s.len() + (if *unsized_field is Some { 1int } else { 0int })
                    && (field < sized_fields.s.len() ==> PlaceExpr__check_wf(e, l, p)->Ok_0 == sized_fields.s[field].1),
                Type::Union { fields, .. } => 0 <= field < fields.s.len() && PlaceExpr__check_wf(e, l, p)->Ok_0 == fields.s[field].1,
                _ => false },
            PlaceExpr::Index { root, index } => PlaceExpr__check_wf(*root, l, p) is Ok && ValueExpr__check_wf(*index, l, p) is Ok && ValueExpr__check_wf(*index, l, p)->Ok_0 is Int
                && match PlaceExpr__check_wf(*root, l, p)->Ok_0 {
                    Type::Array { elem, .. } | Type::Slice { elem } => PlaceExpr__check_wf(e, l, p)->Ok_0 == *elem,
                    _ => false },
            PlaceExpr::Downcast { root, discriminant } => PlaceExpr__check_wf(*root, l, p) is Ok && match PlaceExpr__check_wf(*root, l, p)->Ok_0 {
                    Type::Enum { variants, .. } => variants.m.contains_key(discriminant) && PlaceExpr__check_wf(e, l, p)->Ok_0 == variants.m[discriminant].ty,
                    _ => false },
            _ => true }
{
    PlaceExpr__check_wf__def(e, l, p);
}
/// an accepted constant fits its type, and everything it points to is declared
pub proof fn constant_wf(c: Constant, t: Type, p: Program)
    requires Constant__check_wf(c, t, p) is Ok
    ensures match c {
            Constant::Int(i) => t is Int && IntType__can_represent(t->Int_0, i),
            Constant::Bool(_) => t is Bool,
            Constant::GlobalPointer(r) => t is Ptr && p.globals.m.contains_key(r.name) && r.offset.raw <= p.globals.m[r.name].bytes.s.len(),
            Constant::FnPointer(f) => t == Type::Ptr(PtrType::FnPtr) && p.functions.m.contains_key(f),
            Constant::VTablePointer(v) => p.vtables.m.contains_key(v) && t == Type::Ptr(PtrType::VTablePtr(p.vtables.m[v].trait_name)),
            Constant::PointerWithoutProvenance(_) => t is Ptr }
{
}
/// tuples, arrays, unions, variants: the parts have the types the whole declares
pub proof fn tuple_parts_wf(es: List<(ValueExpr, (Size, Type))>, i: int, l: Map<LocalName, Type>, p: Program, n: nat)
    requires 0 <= i <= es.s.len(), n == es.s.len() - i
    ensures ValueExpr__check_wf__loop1(es, i, l, p) is Exit ==> ValueExpr__check_wf__loop1(es, i, l, p)->Exit_0 is Err,
        ValueExpr__check_wf__loop1(es, i, l, p) is Cont ==> (forall|j: int| i <= j < es.s.len() ==> ValueExpr__check_wf((#[trigger] es.s[j]).0, l, p) == Ok::<Type, TerminationInfo>(es.s[j].1.1))
    decreases n
{
    ValueExpr__check_wf__loop1__def(es, i, l, p);
    if i < es.s.len() { tuple_parts_wf(es, i + 1, l, p, (n - 1) as nat); }
}
pub proof fn array_parts_wf(es: List<ValueExpr>, i: int, l: Map<LocalName, Type>, p: Program, t: Type, n: nat)
    requires 0 <= i <= es.s.len(), n == es.s.len() - i
    ensures ValueExpr__check_wf__loop2(es, i, l, p, t) is Exit ==> ValueExpr__check_wf__loop2(es, i, l, p, t)->Exit_0 is Err,
        ValueExpr__check_wf__loop2(es, i, l, p, t) is Cont ==> (forall|j: int| i <= j < es.s.len() ==> ValueExpr__check_wf(#[trigger] es.s[j], l, p) == Ok::<Type, TerminationInfo>(t))
    decreases n
{
    ValueExpr__check_wf__loop2__def(es, i, l, p, t);
    if i < es.s.len() { array_parts_wf(es, i + 1, l, p, t, (n - 1) as nat); }
}
pub proof fn aggregate_wf(es: List<ValueExpr>, t: Type, l: Map<LocalName, Type>, p: Program)
    requires ValueExpr__check_wf(ValueExpr::Tuple(es, t), l, p) is Ok
    ensures match t {
            Type::Tuple { sized_fields, unsized_field, .. } => *unsized_field is None && es.s.len() == sized_fields.s.len()
                && forall|j: int| 0 <= j < es.s.len() ==> ValueExpr__check_wf(#[trigger] es.s[j], l, p) == Ok::<Type, TerminationInfo>(sized_fields.s[j].1),
            Type::Array { elem, count } => es.s.len() == count && forall|j: int| 0 <= j < es.s.len() ==> ValueExpr__check_wf(#[trigger] es.s[j], l, p) == Ok::<Type, TerminationInfo>(*elem),
            _ => false }
{
    ValueExpr__check_wf__def(ValueExpr::Tuple(es, t), l, p);
    match t {
        Type::Tuple { sized_fields, .. } => {
            let z = List__zip::<ValueExpr, (Size, Type)>(es, sized_fields);
            tuple_parts_wf(z, 0, l, p, z.s.len());
            assert forall|j: int| 0 <= j < es.s.len() implies ValueExpr__check_wf(#[trigger] es.s[j], l, p) == Ok::<Type, TerminationInfo>(sized_fields.s[j].1) by {
                assert(z.s[j] == (es.s[j], sized_fields.s[j]));
            }
        }
        Type::Array { elem, .. } => { array_parts_wf(es, 0, l, p, *elem, es.s.len()); }
        _ => {}
    }
}
pub proof fn parts_wf(e: ValueExpr, l: Map<LocalName, Type>, p: Program)
    requires ValueExpr__check_wf(e, l, p) is Ok
    ensures match e {
            ValueExpr::Constant(c, t) => Type__check_wf(t, p) is Ok && Constant__check_wf(c, t, p) is Ok && ValueExpr__check_wf(e, l, p)->Ok_0 == t,
            ValueExpr::Union { field, expr, union_ty } => union_ty is Union && field < union_ty->Union_fields.s.len()
                && (field >= 0 ==> ValueExpr__check_wf(*expr, l, p) == Ok::<Type, TerminationInfo>(union_ty->Union_fields.s[field].1)),
            ValueExpr::Variant { discriminant, data, enum_ty } => enum_ty is Enum && enum_ty->Enum_variants.m.contains_key(discriminant)
                && ValueExpr__check_wf(*data, l, p) == Ok::<Type, TerminationInfo>(enum_ty->Enum_variants.m[discriminant].ty),
            ValueExpr::GetDiscriminant { place } => PlaceExpr__check_wf(*place, l, p) is Ok && PlaceExpr__check_wf(*place, l, p)->Ok_0 is Enum,
            ValueExpr::Load { source } => PlaceExpr__check_wf(*source, l, p) is Ok && ValueExpr__check_wf(e, l, p) == PlaceExpr__check_wf(*source, l, p),
            ValueExpr::AddrOf { target, ptr_ty } => PlaceExpr__check_wf(*target, l, p) is Ok && ValueExpr__check_wf(e, l, p)->Ok_0 == Type::Ptr(ptr_ty)
                && Type__meta_kind(PlaceExpr__check_wf(*target, l, p)->Ok_0) == PtrType__meta_kind(ptr_ty),
            _ => true }
{
    ValueExpr__check_wf__def(e, l, p);
}
pub proof fn locals_wf(l: List<Type>, i: int, p: Program)
    requires 0 <= i <= l.s.len()
    ensures Function__check_wf__loop1(l, i, p) is Exit ==> Function__check_wf__loop1(l, i, p)->Exit_0 is Err,
        Function__check_wf__loop1(l, i, p) is Cont ==> (forall|j: int| i <= j < l.s.len() ==> Type__check_wf(#[trigger] l.s[j], p) is Ok && LayoutStrategy__is_sized(Type__layout(l.s[j])))
    decreases l.s.len() - i
{
    if i < l.s.len() { locals_wf(l, i + 1, p); }
}
pub proof fn formal_wf(l: List<LocalName>, i: int, f: Function, s: Set<LocalName>)
    requires 0 <= i <= l.s.len()
    ensures Function__check_wf__loop2(l, i, f, s) is Exit ==> Function__check_wf__loop2(l, i, f, s)->Exit_0 is Err,
        Function__check_wf__loop2(l, i, f, s) is Cont ==> (({ let e = Function__check_wf__loop2(l, i, f, s)->Cont_0;
        &&& forall|j: int| i <= j < l.s.len() ==> f.locals.m.contains_key(#[trigger] l.s[j]) && !s.s.contains(l.s[j]) && e.s.contains(l.s[j])
        &&& forall|x: LocalName| s.s.contains(x) ==> #[trigger] e.s.contains(x)
        &&& forall|j: int, m: int| i <= j < m < l.s.len() ==> #[trigger] l.s[j] != #[trigger] l.s[m] }))
    decreases l.s.len() - i
{
    if i < l.s.len() {
        let (s2, r) = Set__try_insert::<LocalName>(s, l.s[i]);
        formal_wf(l, i + 1, f, s2);
        if !s.s.contains(l.s[i]) { assert(s2.s.contains(l.s[i])); }
    }
}
pub proof fn body_wf(l: List<Statement>, i: int, f: Function, p: Program)
    requires 0 <= i <= l.s.len()
    ensures Function__check_wf__loop4(l, i, f, p) is Exit ==> Function__check_wf__loop4(l, i, f, p)->Exit_0 is Err,
        Function__check_wf__loop4(l, i, f, p) is Cont ==> (forall|j: int| i <= j < l.s.len() ==> Statement__check_wf(#[trigger] l.s[j], f, p) is Ok)
    decreases l.s.len() - i
{
    if i < l.s.len() { body_wf(l, i + 1, f, p); }
}
pub open spec fn block_wf(b: BasicBlock, f: Function, p: Program) -> bool {
    &&& Terminator__check_wf(b.terminator, b.kind, f, p) is Ok
    &&& forall|j: int| 0 <= j < b.statements.s.len() ==> Statement__check_wf(#[trigger] b.statements.s[j], f, p) is Ok
}
pub proof fn blocks_wf(l: List<BasicBlock>, i: int, f: Function, p: Program)
    requires 0 <= i <= l.s.len()
    ensures Function__check_wf__loop3(l, i, f, p) is Exit ==> Function__check_wf__loop3(l, i, f, p)->Exit_0 is Err,
        Function__check_wf__loop3(l, i, f, p) is Cont ==> (forall|j: int| i <= j < l.s.len() ==> block_wf(#[trigger] l.s[j], f, p))
    decreases l.s.len() - i
{
    if i < l.s.len() {
        body_wf(l.s[i].statements, 0, f, p);
        blocks_wf(l, i + 1, f, p);
    }
}
/// in an accepted function every local has an accepted sized type, the arguments and the return place are distinct declared locals, and every block is accepted
pub proof fn function_wf(f: Function, p: Program)
    requires Function__check_wf(f, p) is Ok, f.locals.m.dom().finite(), f.blocks.m.dom().finite()
    ensures forall|x: LocalName| #[trigger] f.locals.m.contains_key(x) ==> Type__check_wf(f.locals.m[x], p) is Ok && LayoutStrategy__is_sized(Type__layout(f.locals.m[x])),
        f.locals.m.contains_key(f.ret),
        forall|j: int| 0 <= j < f.args.s.len() ==> f.locals.m.contains_key(#[trigger] f.args.s[j]) && f.args.s[j] != f.ret,
        forall|j: int, m: int| 0 <= j < m < f.args.s.len() ==> #[trigger] f.args.s[j] != #[trigger] f.args.s[m],
        forall|b: BbName| #[trigger] f.blocks.m.contains_key(b) ==> block_wf(f.blocks.m[b], f, p)
{
    let lv = Map__values::<LocalName, Type>(f.locals);
    let bv = Map__values::<BbName, BasicBlock>(f.blocks);
    axiom_map_keys(f.locals);
    axiom_map_keys(f.blocks);
    locals_wf(lv, 0, p);
    formal_wf(f.args, 0, f, Set__new::<LocalName>());
    blocks_wf(bv, 0, f, p);
    assert forall|x: LocalName| #[trigger] f.locals.m.contains_key(x) implies Type__check_wf(f.locals.m[x], p) is Ok && LayoutStrategy__is_sized(Type__layout(f.locals.m[x])) by {
        assert(Map__keys(f.locals).s.contains(x));
        let j = choose|j: int| 0 <= j < Map__keys(f.locals).s.len() && Map__keys(f.locals).s[j] == x;
        assert(lv.s[j] == f.locals.m[x]);
    }
    assert forall|b: BbName| #[trigger] f.blocks.m.contains_key(b) implies block_wf(f.blocks.m[b], f, p) by {
        assert(Map__keys(f.blocks).s.contains(b));
        let j = choose|j: int| 0 <= j < Map__keys(f.blocks).s.len() && Map__keys(f.blocks).s[j] == b;
        assert(bv.s[j] == f.blocks.m[b]);
    }
}
pub open spec fn vtable_wf(v: VTable, p: Program) -> bool {
    &&& int_rem(Size__bytes(v.size), Align__bytes(v.align)) == 0
    &&& UnsafeCellStrategy__check_cells(v.cells, v.size) is Ok
    &&& p.traits.m.contains_key(v.trait_name)
    &&& Set__from_list(Map__keys::<TraitMethodName, FnName>(v.methods)) == p.traits.m[v.trait_name]
}
pub proof fn vtables_wf(l: List<(VTableName, VTable)>, i: int, p: Program)
    requires 0 <= i <= l.s.len()
    ensures Program__check_wf__loop1(l, i, p) is Exit ==> Program__check_wf__loop1(l, i, p)->Exit_0 is Err,
        Program__check_wf__loop1(l, i, p) is Cont ==> (forall|j: int| i <= j < l.s.len() ==> vtable_wf((#[trigger] l.s[j]).1, p))
    decreases l.s.len() - i
{
    if i < l.s.len() { vtables_wf(l, i + 1, p); }
}
pub proof fn functions_wf(l: List<Function>, i: int, p: Program)
    requires 0 <= i <= l.s.len()
    ensures Program__check_wf__loop2(l, i, p) is Exit ==> Program__check_wf__loop2(l, i, p)->Exit_0 is Err,
        Program__check_wf__loop2(l, i, p) is Cont ==> (forall|j: int| i <= j < l.s.len() ==> Function__check_wf(#[trigger] l.s[j], p) is Ok)
    decreases l.s.len() - i
{
    if i < l.s.len() { functions_wf(l, i + 1, p); }
}
pub open spec fn reloc_wf(o: Size, r: Relocation, size: Size, p: Program) -> bool {
    &&& o.raw + T__PTR_SIZE().raw <= size.raw
    &&& p.globals.m.contains_key(r.name)
    &&& r.offset.raw <= p.globals.m[r.name].bytes.s.len()
}
pub proof fn relocs_wf(l: List<(Size, Relocation)>, i: int, p: Program, size: Size)
    requires 0 <= i <= l.s.len()
    ensures Program__check_wf__loop4(l, i, p, size) is Exit ==> Program__check_wf__loop4(l, i, p, size)->Exit_0 is Err,
        Program__check_wf__loop4(l, i, p, size) is Cont ==> (forall|j: int| i <= j < l.s.len() ==> reloc_wf((#[trigger] l.s[j]).0, l.s[j].1, size, p))
    decreases l.s.len() - i
{
    if i < l.s.len() { relocs_wf(l, i + 1, p, size); }
}
pub open spec fn global_wf(g: Global, p: Program) -> bool {
    forall|j: int| 0 <= j < g.relocations.s.len() ==> reloc_wf((#[trigger] g.relocations.s[j]).0, g.relocations.s[j].1, Size { raw: g.bytes.s.len() as int }, p)
}
pub proof fn globals_wf(l: List<(GlobalName, Global)>, i: int, p: Program)
    requires 0 <= i <= l.s.len()
    ensures Program__check_wf__loop3(l, i, p) is Exit ==> Program__check_wf__loop3(l, i, p)->Exit_0 is Err,
        Program__check_wf__loop3(l, i, p) is Cont ==> (forall|j: int| i <= j < l.s.len() ==> global_wf((#[trigger] l.s[j]).1, p))
    decreases l.s.len() - i
{
    if i < l.s.len() {
        relocs_wf(l.s[i].1.relocations, 0, p, Size { raw: l.s[i].1.bytes.s.len() as int });
        globals_wf(l, i + 1, p);
    }
}
/// an accepted program has a start function without arguments and with the C convention, and every function, vtable and global in it is accepted
pub proof fn program_wf(p: Program)
    requires Program__check_wf(p) is Ok, p.functions.m.dom().finite(), p.vtables.m.dom().finite(), p.globals.m.dom().finite()
    ensures p.functions.m.contains_key(p.start), p.functions.m[p.start].calling_convention == CallingConvention::C, p.functions.m[p.start].args.s.len() == 0,
        forall|f: FnName| #[trigger] p.functions.m.contains_key(f) ==> Function__check_wf(p.functions.m[f], p) is Ok,
        forall|v: VTableName| #[trigger] p.vtables.m.contains_key(v) ==> vtable_wf(p.vtables.m[v], p),
        forall|g: GlobalName| #[trigger] p.globals.m.contains_key(g) ==> global_wf(p.globals.m[g], p)
{
    axiom_map_keys(p.functions);
    axiom_map_keys(p.vtables);
    axiom_map_keys(p.globals);
    vtables_wf(Map__iter(p.vtables), 0, p);
    functions_wf(Map__values::<FnName, Function>(p.functions), 0, p);
    globals_wf(Map__iter(p.globals), 0, p);
    assert forall|f: FnName| #[trigger] p.functions.m.contains_key(f) implies Function__check_wf(p.functions.m[f], p) is Ok by {
        assert(Map__keys(p.functions).s.contains(f));
        let j = choose|j: int| 0 <= j < Map__keys(p.functions).s.len() && Map__keys(p.functions).s[j] == f;
        assert(Map__values::<FnName, Function>(p.functions).s[j] == p.functions.m[f]);
    }
    assert forall|v: VTableName| #[trigger] p.vtables.m.contains_key(v) implies vtable_wf(p.vtables.m[v], p) by {
        assert(Map__keys(p.vtables).s.contains(v));
        let j = choose|j: int| 0 <= j < Map__keys(p.vtables).s.len() && Map__keys(p.vtables).s[j] == v;
        assert(Map__iter(p.vtables).s[j] == (v, p.vtables.m[v]));
    }
    assert forall|g: GlobalName| #[trigger] p.globals.m.contains_key(g) implies global_wf(p.globals.m[g], p) by {
        assert(Map__keys(p.globals).s.contains(g));
        let j = choose|j: int| 0 <= j < Map__keys(p.globals).s.len() && Map__keys(p.globals).s[j] == g;
        assert(Map__iter(p.globals).s[j] == (g, p.globals.m[g]));
    }
}
/// a program that is not accepted never becomes a machine: the complaint is the whole result
pub proof fn refused(p: Program, o: DynWrite, e: DynWrite)
    requires Program__check_wf(p) is Err
    ensures Machine__new(p, o, e) is Err, Machine__new(p, o, e)->Err_0 == Program__check_wf(p)->Err_0
{
}
/// and one whose machine exists has been accepted
pub proof fn accepted(p: Program, o: DynWrite, e: DynWrite)
    requires Machine__new(p, o, e) is Ok
    ensures Program__check_wf(p) is Ok
{
}
pub open spec fn fits(o: Size, t: Type, size: Size) -> bool {
    LayoutStrategy__is_sized(Type__layout(t)) && o.raw + LayoutStrategy__expect_size(Type__layout(t), Str).raw <= size.raw
}
pub proof fn union_fields_wf(l: List<(Size, Type)>, i: int, p: Program, size: Size, n: nat)
    requires 0 <= i <= l.s.len(), n == l.s.len() - i
    ensures Type__check_wf__loop2(l, i, p, size) is Exit ==> Type__check_wf__loop2(l, i, p, size)->Exit_0 is Err,
        Type__check_wf__loop2(l, i, p, size) is Cont ==> forall|j: int| i <= j < l.s.len() ==> Type__check_wf((#[trigger] l.s[j]).1, p) is Ok && fits(l.s[j].0, l.s[j].1, size)
    decreases n
{
    Type__check_wf__loop2__def(l, i, p, size);
    if i < l.s.len() { union_fields_wf(l, i + 1, p, size, (n - 1) as nat); }
}
pub proof fn union_chunks_wf(l: List<(Size, Size)>, i: int, e: Size, n: nat)
    requires 0 <= i <= l.s.len(), n == l.s.len() - i, forall|j: int| 0 <= j < l.s.len() ==> (#[trigger] l.s[j]).1.raw >= 0
    ensures Type__check_wf__loop3(l, i, e) is Exit ==> Type__check_wf__loop3(l, i, e)->Exit_0 is Err,
        Type__check_wf__loop3(l, i, e) is Cont ==> Type__check_wf__loop3(l, i, e)->Cont_0.raw >= e.raw
            && (forall|j: int| i <= j < l.s.len() ==> e.raw <= (#[trigger] l.s[j]).0.raw && l.s[j].0.raw + l.s[j].1.raw <= Type__check_wf__loop3(l, i, e)->Cont_0.raw)
            && (forall|j: int, m: int| i <= j < m < l.s.len() ==> (#[trigger] l.s[j]).0.raw + l.s[j].1.raw <= (#[trigger] l.s[m]).0.raw)
    decreases n
{
    Type__check_wf__loop3__def(l, i, e);
    if i < l.s.len() { union_chunks_wf(l, i + 1, size_add(l.s[i].0, l.s[i].1), (n - 1) as nat); }
}
/// an accepted union: every field fits into it, and its chunks are separate ascending runs of bytes inside it
pub proof fn union_wf(fields: List<(Size, Type)>, size: Size, chunks: List<(Size, Size)>, align: Align, p: Program)
    requires Type__check_wf(Type::Union { fields: fields, size: size, chunks: chunks, align: align }, p) is Ok, forall|j: int| 0 <= j < chunks.s.len() ==> (#[trigger] chunks.s[j]).1.raw >= 0
    ensures forall|j: int| 0 <= j < fields.s.len() ==> Type__check_wf((#[trigger] fields.s[j]).1, p) is Ok && fits(fields.s[j].0, fields.s[j].1, size),
        forall|j: int| 0 <= j < chunks.s.len() ==> (#[trigger] chunks.s[j]).0.raw + chunks.s[j].1.raw <= size.raw,
        forall|j: int, m: int| 0 <= j < m < chunks.s.len() ==> (#[trigger] chunks.s[j]).0.raw + chunks.s[j].1.raw <= (#[trigger] chunks.s[m]).0.raw
{
    Type__check_wf__def(Type::Union { fields: fields, size: size, chunks: chunks, align: align }, p);
    union_fields_wf(fields, 0, p, size, fields.s.len());
    union_chunks_wf(chunks, 0, Size__ZERO(), chunks.s.len());
}
pub proof fn tuple_fields_wf(l: List<(Size, Type)>, i: int, p: Program, e: Size, n: nat)
    requires 0 <= i <= l.s.len(), n == l.s.len() - i, forall|j: int| 0 <= j < l.s.len() ==> LayoutStrategy__expect_size(Type__layout((#[trigger] l.s[j]).1), Str).raw >= 0
    ensures Type__check_wf__loop1(l, i, p, e) is Exit ==> Type__check_wf__loop1(l, i, p, e)->Exit_0 is Err,
        Type__check_wf__loop1(l, i, p, e) is Cont ==> Type__check_wf__loop1(l, i, p, e)->Cont_0.raw >= e.raw
            && (forall|j: int| i <= j < l.s.len() ==> e.raw <= (#[trigger] l.s[j]).0.raw && Type__check_wf(l.s[j].1, p) is Ok && fits(l.s[j].0, l.s[j].1, Type__check_wf__loop1(l, i, p, e)->Cont_0))
            && (forall|j: int, m: int| i <= j < m < l.s.len() ==> fits((#[trigger] l.s[j]).0, l.s[j].1, (#[trigger] l.s[m]).0))
    decreases n
{
    Type__check_wf__loop1__def(l, i, p, e);
    if i < l.s.len() { tuple_fields_wf(l, i + 1, p, size_add(l.s[i].0, LayoutStrategy__expect_size(Type__layout(l.s[i].1), Str)), (n - 1) as nat); }
}
/// an accepted tuple: in the order of their offsets no two fields overlap, and all lie within the head
pub proof fn tuple_wf(fields: List<(Size, Type)>, tail: Type, head: TupleHeadLayout, p: Program, l: List<(Size, Type)>)
    requires ({ let t = Type::Tuple { sized_fields: fields, unsized_field: Box::new(None), sized_head_layout: head }; Type__check_wf(t, p) is Ok }),
        l == List__sort_by_key::<(Size, Type), Size>(fields, |a: (Size, Type)| { let (offset, _ty) = a; offset }),
        forall|j: int| 0 <= j < l.s.len() ==> LayoutStrategy__expect_size(Type__layout((#[trigger] l.s[j]).1), Str).raw >= 0
    ensures forall|j: int, m: int| 0 <= j < m < l.s.len() ==> fits((#[trigger] l.s[j]).0, l.s[j].1, (#[trigger] l.s[m]).0),
        forall|j: int| 0 <= j < l.s.len() ==> Type__check_wf((#[trigger] l.s[j]).1, p) is Ok && fits(l.s[j].0, l.s[j].1, head.end)
{
    let t = Type::Tuple { sized_fields: fields, unsized_field: Box::new(None), sized_head_layout: head };
    Type__check_wf__def(t, p);
    tuple_fields_wf(l, 0, p, Size__ZERO(), l.s.len());
}
pub proof fn taggers_wf(l: List<(Size, (IntType, int))>, i: int, size: Size, n: nat)
    requires 0 <= i <= l.s.len(), n == l.s.len() - i
    ensures Type__check_wf__loop5(l, i, size) is Exit ==> Type__check_wf__loop5(l, i, size)->Exit_0 is Err,
        Type__check_wf__loop5(l, i, size) is Cont ==> forall|j: int| i <= j < l.s.len() ==> IntType__can_represent((#[trigger] l.s[j]).1.0, l.s[j].1.1) && l.s[j].0.raw + l.s[j].1.0.size.raw <= size.raw
    decreases n
{
    Type__check_wf__loop5__def(l, i, size);
    if i < l.s.len() { taggers_wf(l, i + 1, size, (n - 1) as nat); }
}
pub open spec fn variant_wf(d: int, v: Variant, p: Program, size: Size, align: Align, t: IntType) -> bool {
    &&& IntType__can_represent(t, d)
    &&& Type__check_wf(v.ty, p) is Ok
    &&& Type__layout(v.ty) is Sized && Type__layout(v.ty)->Sized_0 == size && Type__layout(v.ty)->Sized_1.raw <= align.raw
    &&& forall|j: int| 0 <= j < Map__iter(v.tagger).s.len() ==> IntType__can_represent((#[trigger] Map__iter(v.tagger).s[j]).1.0, Map__iter(v.tagger).s[j].1.1)
            && Map__iter(v.tagger).s[j].0.raw + Map__iter(v.tagger).s[j].1.0.size.raw <= size.raw
}
pub proof fn variants_wf(l: List<(int, Variant)>, i: int, p: Program, size: Size, align: Align, t: IntType, n: nat)
    requires 0 <= i <= l.s.len(), n == l.s.len() - i
    ensures Type__check_wf__loop4(l, i, p, size, align, t) is Exit ==> Type__check_wf__loop4(l, i, p, size, align, t)->Exit_0 is Err,
        Type__check_wf__loop4(l, i, p, size, align, t) is Cont ==> forall|j: int| i <= j < l.s.len() ==> variant_wf((#[trigger] l.s[j]).0, l.s[j].1, p, size, align, t)
    decreases n
{
    Type__check_wf__loop4__def(l, i, p, size, align, t);
    if i < l.s.len() {
        taggers_wf(Map__iter(l.s[i].1.tagger), 0, size, Map__iter(l.s[i].1.tagger).s.len());
        variants_wf(l, i + 1, p, size, align, t, (n - 1) as nat);
    }
}
/// an accepted enum: every variant is as large as the enum and no more aligned, its discriminant and its tag values are representable, and the discriminator is accepted
pub proof fn enum_wf(variants: Map<int, Variant>, size: Size, align: Align, d: Discriminator, t: IntType, p: Program)
    requires Type__check_wf(Type::Enum { variants: variants, size: size, align: align, discriminator: d, discriminant_ty: t }, p) is Ok, variants.m.dom().finite()
    ensures forall|v: int| #[trigger] variants.m.contains_key(v) ==> variant_wf(v, variants.m[v], p, size, align, t),
        Discriminator__check_wf(d, size, variants) is Ok
{
    Type__check_wf__def(Type::Enum { variants: variants, size: size, align: align, discriminator: d, discriminant_ty: t }, p);
    let l = Map__iter(variants);
    variants_wf(l, 0, p, size, align, t, l.s.len());
    axiom_map_keys(variants);
    assert forall|v: int| #[trigger] variants.m.contains_key(v) implies variant_wf(v, variants.m[v], p, size, align, t) by {
        assert(Map__keys(variants).s.contains(v));
        let j = choose|j: int| 0 <= j < Map__keys(variants).s.len() && Map__keys(variants).s[j] == v;
        assert(l.s[j] == (v, variants.m[v]));
    }
}
/// a discriminator decides only for variants the enum has, and reads only inside the enum
pub proof fn discriminator_wf(d: Discriminator, size: Size, variants: Map<int, Variant>)
    requires Discriminator__check_wf(d, size, variants) is Ok
    ensures d is Known ==> variants.m.contains_key(d->Known_0),
        d is Branch ==> d->offset.raw + d->value_type.size.raw <= size.raw && Discriminator__check_wf(*d->fallback, size, variants) is Ok
{
    Discriminator__check_wf__def(d, size, variants);
}
/// element types of arrays and slices are accepted and sized; trait objects are of declared traits
pub proof fn simple_types_wf(t: Type, p: Program)
    requires Type__check_wf(t, p) is Ok
    ensures match t {
            Type::Array { elem, count } => count >= 0 && Type__check_wf(*elem, p) is Ok && LayoutStrategy__is_sized(Type__layout(*elem)),
            Type::Slice { elem } => Type__check_wf(*elem, p) is Ok && LayoutStrategy__is_sized(Type__layout(*elem)),
            Type::TraitObject(n) => p.traits.m.contains_key(n),
            Type::Int(i) => IntType__check_wf(i) is Ok,
            Type::Ptr(q) => PtrType__check_wf(q, p) is Ok,
            _ => true },
        !(t is Tuple || t is Union || t is Enum) ==> LayoutStrategy__check_wf(Type__layout(t), p) is Ok && LayoutStrategy__check_aligned(Type__layout(t)) is Ok
{
    Type__check_wf__def(t, p);
}
