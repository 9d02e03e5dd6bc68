// C01: integer operators compute the mathematically specified value.

/// the type of an integer operand, and two operands of that type
pub open spec fn opnds(t: IntType, a: int, b: int) -> bool { int_wf(t) && in_range(t, a) && in_range(t, b) }
/// the outcome is undefined behaviour
pub open spec fn ub<X>(r: Result<X, TerminationInfo>) -> bool { r is Err && r->Err_0 is Ub }
/// the outcome is the mathematical result x if x is representable, and undefined behaviour otherwise
pub open spec fn exact_or_ub(t: IntType, r: Result<int, TerminationInfo>, x: int) -> bool {
    if in_range(t, x) { r == Ok::<int, TerminationInfo>(x) } else { ub(r) }
}

/// IntType::bring_in_bounds is two's complement wrap-around, and total
pub proof fn bring_in_bounds(t: IntType, i: int)
    requires int_wf(t)
    ensures IntType__bring_in_bounds_ok(t, i), is_wrap(t, i, IntType__bring_in_bounds(t, i)),
        in_range(t, i) ==> IntType__bring_in_bounds(t, i) == i
{ lemma_int_ty(t); }

/// IntType::can_represent decides the value range
pub proof fn can_represent(t: IntType, i: int)
    requires int_wf(t)
    ensures IntType__can_represent_ok(t, i), IntType__can_represent(t, i) <==> in_range(t, i)
{ lemma_int_ty(t); }

/// + - * before wrapping; the wrapped operators never raise undefined behaviour
pub proof fn arith_wrapping(t: IntType, a: int, b: int)
    requires opnds(t, a, b)
    ensures
        Machine__eval_int_bin_op(IntBinOp::Add, a, b, t) == Ok::<int, TerminationInfo>(a + b),
        Machine__eval_int_bin_op(IntBinOp::Sub, a, b, t) == Ok::<int, TerminationInfo>(a - b),
        Machine__eval_int_bin_op(IntBinOp::Mul, a, b, t) == Ok::<int, TerminationInfo>(a * b),
        Machine__eval_int_bin_op_ok(IntBinOp::Add, a, b, t),
        Machine__eval_int_bin_op_ok(IntBinOp::Sub, a, b, t),
        Machine__eval_int_bin_op_ok(IntBinOp::Mul, a, b, t),
{ }

/// unchecked + - *: exact result, or undefined behaviour exactly on overflow
pub proof fn arith_unchecked(t: IntType, a: int, b: int)
    requires opnds(t, a, b)
    ensures
        exact_or_ub(t, Machine__eval_int_bin_op(IntBinOp::AddUnchecked, a, b, t), a + b),
        exact_or_ub(t, Machine__eval_int_bin_op(IntBinOp::SubUnchecked, a, b, t), a - b),
        exact_or_ub(t, Machine__eval_int_bin_op(IntBinOp::MulUnchecked, a, b, t), a * b),
        Machine__eval_int_bin_op_ok(IntBinOp::AddUnchecked, a, b, t),
        Machine__eval_int_bin_op_ok(IntBinOp::SubUnchecked, a, b, t),
        Machine__eval_int_bin_op_ok(IntBinOp::MulUnchecked, a, b, t),
{ lemma_int_ty(t); }

/// division and remainder: truncating; undefined behaviour exactly for a zero divisor or an unrepresentable quotient
pub proof fn division(t: IntType, a: int, b: int, q: int, m: int)
    requires opnds(t, a, b), b != 0 ==> is_tdiv(a, b, q, m)
    ensures
        b == 0 ==> ub(Machine__eval_int_bin_op(IntBinOp::Div, a, b, t)) && ub(Machine__eval_int_bin_op(IntBinOp::Rem, a, b, t)) && ub(Machine__eval_int_bin_op(IntBinOp::DivExact, a, b, t)),
        b != 0 ==> exact_or_ub(t, Machine__eval_int_bin_op(IntBinOp::Div, a, b, t), q),
        b != 0 ==> (if in_range(t, q) { Machine__eval_int_bin_op(IntBinOp::Rem, a, b, t) == Ok::<int, TerminationInfo>(m) } else { ub(Machine__eval_int_bin_op(IntBinOp::Rem, a, b, t)) }),
        b != 0 ==> (if in_range(t, q) && m == 0 { Machine__eval_int_bin_op(IntBinOp::DivExact, a, b, t) == Ok::<int, TerminationInfo>(q) } else { ub(Machine__eval_int_bin_op(IntBinOp::DivExact, a, b, t)) }),
        Machine__eval_int_bin_op_ok(IntBinOp::Div, a, b, t),
        Machine__eval_int_bin_op_ok(IntBinOp::Rem, a, b, t),
        Machine__eval_int_bin_op_ok(IntBinOp::DivExact, a, b, t),
{
    lemma_int_ty(t);
    if b != 0 {
        lemma_tdiv(a, b);
        let q2 = int_div(a, b); let m2 = int_rem(a, b);
        assert(q == q2 && m == m2) by {
            assert((q - q2) * b == m2 - m) by (nonlinear_arith) requires a == q * b + m, a == q2 * b + m2;
            if q != q2 {
                assert(int_abs((q - q2) * b) >= int_abs(b)) by (nonlinear_arith) requires q != q2;
            }
        }
    }
}

/// shifts: the masked amount is the Euclidean remainder; unchecked shifts are undefined behaviour exactly for out-of-range amounts;
/// a left shift multiplies, a right shift is floor division (arithmetic shift)
pub proof fn shifts(t: IntType, u: IntType, a: int, b: int)
    requires int_wf(t), int_wf(u), in_range(t, a), in_range(u, b)
    ensures
        Machine__eval_int_bin_op(IntBinOp::Shl, a, b, t) == Ok::<int, TerminationInfo>(a * p2(b % bits_of(t))),
        Machine__eval_int_bin_op(IntBinOp::Shr, a, b, t) == Ok::<int, TerminationInfo>(a / p2(b % bits_of(t))),
        (if 0 <= b < bits_of(t) { Machine__eval_int_bin_op(IntBinOp::ShlUnchecked, a, b, t) == Ok::<int, TerminationInfo>(a * p2(b)) } else { ub(Machine__eval_int_bin_op(IntBinOp::ShlUnchecked, a, b, t)) }),
        (if 0 <= b < bits_of(t) { Machine__eval_int_bin_op(IntBinOp::ShrUnchecked, a, b, t) == Ok::<int, TerminationInfo>(a / p2(b)) } else { ub(Machine__eval_int_bin_op(IntBinOp::ShrUnchecked, a, b, t)) }),
        Machine__eval_int_bin_op_ok(IntBinOp::Shl, a, b, t), Machine__eval_int_bin_op_ok(IntBinOp::Shr, a, b, t),
        Machine__eval_int_bin_op_ok(IntBinOp::ShlUnchecked, a, b, t), Machine__eval_int_bin_op_ok(IntBinOp::ShrUnchecked, a, b, t),
{
    let n = bits_of(t);
    lemma_mod_bound(b, n);
    lemma_shift_small(b % n, n);
    if 0 <= b < n { lemma_shift_small(b, n); }
}

/// & | ^ act bit by bit on the two's complement representation and stay in range
pub proof fn bitwise(t: IntType, a: int, b: int)
    requires opnds(t, a, b)
    ensures
        ({ let r = Machine__eval_int_bin_op(IntBinOp::BitAnd, a, b, t); r is Ok && in_range(t, r->Ok_0) && forall|i: nat| bit(r->Ok_0, i) == (#[trigger] bit(a, i) && bit(b, i)) }),
        ({ let r = Machine__eval_int_bin_op(IntBinOp::BitOr, a, b, t); r is Ok && in_range(t, r->Ok_0) && forall|i: nat| bit(r->Ok_0, i) == (#[trigger] bit(a, i) || bit(b, i)) }),
        ({ let r = Machine__eval_int_bin_op(IntBinOp::BitXor, a, b, t); r is Ok && in_range(t, r->Ok_0) && forall|i: nat| bit(r->Ok_0, i) == (#[trigger] bit(a, i) != bit(b, i)) }),
        Machine__eval_int_bin_op_ok(IntBinOp::BitAnd, a, b, t), Machine__eval_int_bin_op_ok(IntBinOp::BitOr, a, b, t), Machine__eval_int_bin_op_ok(IntBinOp::BitXor, a, b, t),
{
    lemma_bits_all(a, b);
    let n = bits_of(t);
    lemma_p2_half(n);
    if t.signed == Signedness::Signed { lemma_bitop_range(a, b, n - 1); } else { lemma_bitop_range(a, b, n); }
    assert forall|i: nat| bit(int_and(a, b), i) == (#[trigger] bit(a, i) && bit(b, i)) by { lemma_bit_and(a, b, i); }
    assert forall|i: nat| bit(int_or(a, b), i) == (#[trigger] bit(a, i) || bit(b, i)) by { lemma_bit_or(a, b, i); }
    assert forall|i: nat| bit(int_xor(a, b), i) == (#[trigger] bit(a, i) != bit(b, i)) by { lemma_bit_xor(a, b, i); }
}

/// unary operators
pub proof fn unary(t: IntType, a: int)
    requires int_wf(t), in_range(t, a)
    ensures
        ({ let r = Machine__eval_int_un_op(IntUnOp::Neg, a, t); r is Ok && is_wrap(t, -a, r->Ok_0) }),
        ({ let r = Machine__eval_int_un_op(IntUnOp::BitNot, a, t); r is Ok && is_wrap(t, -a - 1, r->Ok_0) }),
        Machine__eval_int_un_op_ok(IntUnOp::Neg, a, t), Machine__eval_int_un_op_ok(IntUnOp::BitNot, a, t),
{ lemma_int_ty(t); }

pub proof fn count_ones_loop(end: int, i: int, acc: int, a: int)
    requires i <= end
    ensures Machine__eval_count_ones__loop1(end, i, acc, a).0 == acc + ones(a, (end - i) as nat),
        Machine__eval_count_ones__loop1_ok(end, i, acc, a)
    decreases end - i
{
    if i < end {
        assert(int_and(a, 1) == a % 2) by { reveal_with_fuel(int_and, 3); assert(1int / 2 == 0); lemma_and_zero(a / 2); }
        assert(pow(2, 1) == 2) by { reveal_with_fuel(pow, 2); }
        lemma_shift_small(1, 2);
        count_ones_loop(end, i + 1, acc + int_and(a, 1), a / 2);
    }
}
pub proof fn lemma_and_zero(a: int)
    ensures int_and(a, 0) == 0
    decreases int_abs(a)
{ reveal_with_fuel(int_and, 2); if a != 0 && a != -1 { lemma_and_zero(a / 2); } }

/// counting ones: the number of set bits among the type's bits (two's complement for negative values)
pub proof fn count_ones(t: IntType, a: int)
    requires int_wf(t), in_range(t, a)
    ensures Machine__eval_count_ones(a, t) == ones(a, bits_of(t) as nat), Machine__eval_count_ones_ok(a, t),
        Machine__eval_int_un_op(IntUnOp::CountOnes, a, t) == Ok::<int, TerminationInfo>(ones(a, bits_of(t) as nat)),
{ count_ones_loop(bits_of(t), 0, 0, a); }

/// binary operators as the machine applies them: the value wrapped into the left operand's type
pub proof fn bin_op_wraps(m: Machine, op: IntBinOp, t: IntType, rt: Type, a: int, b: int)
    requires int_wf(t), in_range(t, a)
    ensures ({
        let inner = Machine__eval_int_bin_op(op, a, b, t);
        let r = Machine__eval_bin_op(m, BinOp::Int(op), (Value::Int(a), Type::Int(t)), (Value::Int(b), rt));
        if inner is Ok { r is Ok && r->Ok_0.1 == Type::Int(t) && r->Ok_0.0 is Int && is_wrap(t, inner->Ok_0, r->Ok_0.0->Int_0) } else { r is Err && (r->Err_0 == inner->Err_0) }
    }),
        Machine__eval_int_bin_op_ok(op, a, b, t) ==> Machine__eval_bin_op_ok(m, BinOp::Int(op), (Value::Int(a), Type::Int(t)), (Value::Int(b), rt)),
{ lemma_int_ty(t); }

/// with-overflow operators: the wrapped value, and the flag set exactly on overflow
pub proof fn with_overflow(m: Machine, op: IntBinOpWithOverflow, t: IntType, rt: Type, a: int, b: int)
    requires opnds(t, a, b)
    ensures ({
        let x = match op { IntBinOpWithOverflow::Add => a + b, IntBinOpWithOverflow::Sub => a - b, IntBinOpWithOverflow::Mul => a * b };
        let r = Machine__eval_bin_op(m, BinOp::IntWithOverflow(op), (Value::Int(a), Type::Int(t)), (Value::Int(b), rt));
        r is Ok && r->Ok_0.0 is Tuple && r->Ok_0.0->Tuple_0.s.len() == 2
        && r->Ok_0.0->Tuple_0.s[0] is Int && is_wrap(t, x, r->Ok_0.0->Tuple_0.s[0]->Int_0)
        && r->Ok_0.0->Tuple_0.s[1] == Value::Bool(!in_range(t, x))
        && r->Ok_0.1 == IntType__with_overflow(t)
    })
{ lemma_int_ty(t); }

/// comparisons of integers and booleans are the mathematical order; the three-way comparison is -1, 0 or 1
pub open spec fn rel_result(op: RelOp, lt: bool, eqq: bool) -> (Value, Type) {
    match op {
        RelOp::Lt => (Value::Bool(lt), Type::Bool), RelOp::Le => (Value::Bool(lt || eqq), Type::Bool),
        RelOp::Gt => (Value::Bool(!lt && !eqq), Type::Bool), RelOp::Ge => (Value::Bool(!lt), Type::Bool),
        RelOp::Eq => (Value::Bool(eqq), Type::Bool), RelOp::Ne => (Value::Bool(!eqq), Type::Bool),
        RelOp::Cmp => (Value::Int(if lt { -1int } else if eqq { 0 } else { 1 }), Type::Int(IntType { signed: Signedness::Signed, size: Size { raw: 1 } })),
    }
}
pub proof fn relational(m: Machine, op: RelOp, t: IntType, a: int, b: int, x: bool, y: bool)
    requires opnds(t, a, b)
    ensures
        Machine__eval_bin_op(m, BinOp::Rel(op), (Value::Int(a), Type::Int(t)), (Value::Int(b), Type::Int(t))) == Ok::<(Value, Type), TerminationInfo>(rel_result(op, a < b, a == b)),
        Machine__eval_bin_op_ok(m, BinOp::Rel(op), (Value::Int(a), Type::Int(t)), (Value::Int(b), Type::Int(t))),
        Machine__eval_bin_op(m, BinOp::Rel(op), (Value::Bool(x), Type::Bool), (Value::Bool(y), Type::Bool)) == Ok::<(Value, Type), TerminationInfo>(rel_result(op, !x && y, x == y)),
        Machine__eval_bin_op_ok(m, BinOp::Rel(op), (Value::Bool(x), Type::Bool), (Value::Bool(y), Type::Bool)),
{ }

/// pointers compare by address first, then by metadata (element count, or vtable address)
pub open spec fn meta_key(x: Option<PointerMeta<Prov>>) -> int {
    match x { None => 0, Some(PointerMeta::ElementCount(n)) => n, Some(PointerMeta::VTablePointer(p)) => p.addr }
}
pub open spec fn same_meta_kind(x: Option<PointerMeta<Prov>>, y: Option<PointerMeta<Prov>>) -> bool {
    (x is None && y is None) || (x is Some && y is Some && (x->0 is ElementCount) == (y->0 is ElementCount))
}
pub proof fn relational_ptr(m: Machine, op: RelOp, pt: PtrType, l: Pointer<Prov>, r: Pointer<Prov>)
    requires same_meta_kind(l.metadata, r.metadata)
    ensures ({
        let (a, b) = (l.thin_pointer.addr, r.thin_pointer.addr);
        let (x, y) = (meta_key(l.metadata), meta_key(r.metadata));
        Machine__eval_bin_op(m, BinOp::Rel(op), (Value::Ptr(l), Type::Ptr(pt)), (Value::Ptr(r), Type::Ptr(pt)))
            == Ok::<(Value, Type), TerminationInfo>(rel_result(op, a < b || (a == b && x < y), a == b && x == y))
    }), Machine__eval_bin_op_ok(m, BinOp::Rel(op), (Value::Ptr(l), Type::Ptr(pt)), (Value::Ptr(r), Type::Ptr(pt))),
{ }

/// integer casts wrap into the target type
pub proof fn int_cast(m: Machine, t: IntType, s: Type, a: int)
    requires int_wf(t)
    ensures ({
        let r = Machine__eval_cast_op(m, CastOp::IntToInt(t), (Value::Int(a), s));
        r is Ok && r->Ok_0.1 == Type::Int(t) && r->Ok_0.0 is Int && is_wrap(t, a, r->Ok_0.0->Int_0)
    }), Machine__eval_cast_op_ok(m, CastOp::IntToInt(t), (Value::Int(a), s)),
        Machine__eval_un_op(m, UnOp::Cast(CastOp::IntToInt(t)), (Value::Int(a), s)) == Machine__eval_cast_op(m, CastOp::IntToInt(t), (Value::Int(a), s)),
{ lemma_int_ty(t); }

/// unary operators as the machine applies them; counting ones yields an unsigned 32-bit integer
pub proof fn un_op_typed(m: Machine, op: IntUnOp, t: IntType, a: int)
    requires int_wf(t), in_range(t, a)
    ensures ({
        let inner = Machine__eval_int_un_op(op, a, t);
        let rt = if op is CountOnes { IntType { signed: Signedness::Unsigned, size: Size { raw: 4 } } } else { t };
        inner is Ok && Machine__eval_un_op(m, UnOp::Int(op), (Value::Int(a), Type::Int(t))) == Ok::<(Value, Type), TerminationInfo>((Value::Int(inner->Ok_0), Type::Int(rt)))
    })
{ }

// ---------------------------------------------------------------- the MIR translation of operators
/// the operator of the language that an operator on integers becomes
pub open spec fn int_op(o: SmBinOp) -> Option<IntBinOp> {
    match o {
        SmBinOp::Add => Some(IntBinOp::Add), SmBinOp::AddUnchecked => Some(IntBinOp::AddUnchecked),
        SmBinOp::Sub => Some(IntBinOp::Sub), SmBinOp::SubUnchecked => Some(IntBinOp::SubUnchecked),
        SmBinOp::Mul => Some(IntBinOp::Mul), SmBinOp::MulUnchecked => Some(IntBinOp::MulUnchecked),
        SmBinOp::Div => Some(IntBinOp::Div), SmBinOp::Rem => Some(IntBinOp::Rem),
        SmBinOp::BitXor => Some(IntBinOp::BitXor), SmBinOp::BitAnd => Some(IntBinOp::BitAnd), SmBinOp::BitOr => Some(IntBinOp::BitOr),
        SmBinOp::Shl => Some(IntBinOp::Shl), SmBinOp::ShlUnchecked => Some(IntBinOp::ShlUnchecked),
        SmBinOp::Shr => Some(IntBinOp::Shr), SmBinOp::ShrUnchecked => Some(IntBinOp::ShrUnchecked),
        _ => None,
    }
}
pub open spec fn rel_of(o: SmBinOp) -> Option<RelOp> {
    match o {
        SmBinOp::Eq => Some(RelOp::Eq), SmBinOp::Ne => Some(RelOp::Ne), SmBinOp::Lt => Some(RelOp::Lt), SmBinOp::Le => Some(RelOp::Le),
        SmBinOp::Gt => Some(RelOp::Gt), SmBinOp::Ge => Some(RelOp::Ge), _ => None,
    }
}
/// the type the compiler gives an operand, translated
pub open spec fn op_ty(f: FnCtxt, op: SmOperand, sp: RsSpan) -> Type { Ctxt__translate_ty_smir(f.cx, SmOperand__ty(op, f.locals_smir)->0, sp).1 }
/// e applies the operator o to the translated operands, in order
pub open spec fn applies(f: FnCtxt, o: BinOp, l: SmOperand, r: SmOperand, e: ValueExpr) -> bool {
    e is BinOp && e->BinOp_operator == o && tr_op(f, l, *e->left) && tr_op(f, r, *e->right)
}
/// the context in which the right operand is translated, and the two operands
pub open spec fn operands(f: FnCtxt, l: SmOperand, r: SmOperand, sp: RsSpan) -> (FnCtxt, ValueExpr, ValueExpr) {
    let f1 = FnCtxt { cx: Ctxt__translate_ty_smir(f.cx, SmOperand__ty(l, f.locals_smir)->0, sp).0, ..f };
    let f2 = FnCtxt { cx: Ctxt__translate_ty_smir(f1.cx, SmOperand__ty(r, f.locals_smir)->0, sp).0, ..f1 };
    let a = FnCtxt__translate_operand_smir(f2, l, sp);
    let b = FnCtxt__translate_operand_smir(a.0, r, sp);
    (b.0, a.1, b.1)
}
/// every operator on integers becomes the operator of the same name: wrapping and unchecked ones kept apart
pub proof fn mir_int_operator(f: FnCtxt, o: SmBinOp, l: SmOperand, r: SmOperand, sp: RsSpan)
    requires FnCtxt__translate_rvalue_smir_ok(f, SmRvalue::BinaryOp(o, l, r), sp), op_ty(f, l, sp) is Int, int_op(o) is Some
    ensures applies(f, BinOp::Int(int_op(o)->0), l, r, FnCtxt__translate_rvalue_smir(f, SmRvalue::BinaryOp(o, l, r), sp).1)
{
    reveal(FnCtxt__translate_rvalue_smir); reveal(FnCtxt__translate_rvalue_smir_ok);
    let (_, a, b) = operands(f, l, r, sp);
}
/// comparisons become the comparison of the same name, at every type
pub proof fn mir_comparison(f: FnCtxt, o: SmBinOp, l: SmOperand, r: SmOperand, sp: RsSpan)
    requires FnCtxt__translate_rvalue_smir_ok(f, SmRvalue::BinaryOp(o, l, r), sp), rel_of(o) is Some
    ensures applies(f, BinOp::Rel(rel_of(o)->0), l, r, FnCtxt__translate_rvalue_smir(f, SmRvalue::BinaryOp(o, l, r), sp).1)
{
    reveal(FnCtxt__translate_rvalue_smir); reveal(FnCtxt__translate_rvalue_smir_ok);
    let (_, a, b) = operands(f, l, r, sp);
}
/// a three-way comparison is the one of the language, read as an Ordering
pub proof fn mir_three_way(f: FnCtxt, l: SmOperand, r: SmOperand, sp: RsSpan)
    requires FnCtxt__translate_rvalue_smir_ok(f, SmRvalue::BinaryOp(SmBinOp::Cmp, l, r), sp)
    ensures ({
        let e = FnCtxt__translate_rvalue_smir(f, SmRvalue::BinaryOp(SmBinOp::Cmp, l, r), sp).1;
        e is UnOp && e->UnOp_operator is Cast && e->UnOp_operator->Cast_0 is Transmute && tr_ty(f, RsTyCtxt__ty_ordering_enum(f.cx.tcx, RsDUMMY_SP()), e->UnOp_operator->Cast_0->Transmute_0)
            && applies(f, BinOp::Rel(RelOp::Cmp), l, r, *e->operand)
    })
{
    reveal(FnCtxt__translate_rvalue_smir); reveal(FnCtxt__translate_rvalue_smir_ok);
    let (g, a, b) = operands(f, l, r, sp);
}
/// the operators on booleans
pub proof fn mir_bool_operator(f: FnCtxt, o: SmBinOp, l: SmOperand, r: SmOperand, sp: RsSpan)
    requires FnCtxt__translate_rvalue_smir_ok(f, SmRvalue::BinaryOp(o, l, r), sp), op_ty(f, l, sp) is Bool, o is BitAnd || o is BitOr || o is BitXor
    ensures exists|a: ValueExpr, b: ValueExpr| #[trigger] tr_op(f, l, a) && #[trigger] tr_op(f, r, b) && FnCtxt__translate_rvalue_smir(f, SmRvalue::BinaryOp(o, l, r), sp).1 ==
        if o is BitAnd { build__bool_and(a, b) } else if o is BitOr { build__bool_or(a, b) } else { build__bool_xor(a, b) }
{
    reveal(FnCtxt__translate_rvalue_smir); reveal(FnCtxt__translate_rvalue_smir_ok);
    let (_, a, b) = operands(f, l, r, sp);
    assert(tr_op(f, l, a)); assert(tr_op(f, r, b));
}
/// the operators that also say whether they overflowed
pub proof fn mir_overflow_operator(f: FnCtxt, o: SmBinOp, l: SmOperand, r: SmOperand, sp: RsSpan)
    requires FnCtxt__translate_rvalue_smir_ok(f, SmRvalue::CheckedBinaryOp(o, l, r), sp)
    ensures ({
        let w = if o is Add { IntBinOpWithOverflow::Add } else if o is Sub { IntBinOpWithOverflow::Sub } else { IntBinOpWithOverflow::Mul };
        (o is Add || o is Sub || o is Mul) && applies(f, BinOp::IntWithOverflow(w), l, r, FnCtxt__translate_rvalue_smir(f, SmRvalue::CheckedBinaryOp(o, l, r), sp).1)
    })
{
    reveal(FnCtxt__translate_rvalue_smir); reveal(FnCtxt__translate_rvalue_smir_ok);
}
/// the operators on one operand
pub proof fn mir_unary(f: FnCtxt, o: SmUnOp, x: SmOperand, sp: RsSpan)
    requires FnCtxt__translate_rvalue_smir_ok(f, SmRvalue::UnaryOp(o, x), sp)
    ensures ({
        let e = FnCtxt__translate_rvalue_smir(f, SmRvalue::UnaryOp(o, x), sp).1;
        exists|a: ValueExpr| #[trigger] tr_op(f, x, a) && match (o, op_ty(f, x, sp)) {
            (SmUnOp::Neg, Type::Int(_)) => e == ValueExpr::UnOp { operator: UnOp::Int(IntUnOp::Neg), operand: Box::new(a) },
            (SmUnOp::Not, Type::Int(_)) => e == ValueExpr::UnOp { operator: UnOp::Int(IntUnOp::BitNot), operand: Box::new(a) },
            (SmUnOp::Not, Type::Bool) => e == build__not(a),
            (SmUnOp::PtrMetadata, Type::Ptr(_)) => e == ValueExpr::UnOp { operator: UnOp::GetMetadata, operand: Box::new(a) },
            _ => false,
        }
    })
{
    reveal(FnCtxt__translate_rvalue_smir); reveal(FnCtxt__translate_rvalue_smir_ok);
    let f1 = FnCtxt { cx: Ctxt__translate_ty_smir(f.cx, SmOperand__ty(x, f.locals_smir)->0, sp).0, ..f };
    assert(tr_op(f, x, FnCtxt__translate_operand_smir(f1, x, sp).1));
}
/// a cast between integers is a cast to the integer type named, from the operand as it is; a boolean is read as u8 first
pub proof fn mir_int_cast(f: FnCtxt, x: SmOperand, t: SmTy, sp: RsSpan)
    requires FnCtxt__translate_rvalue_smir_ok(f, SmRvalue::Cast(SmCastKind::IntToInt, x, t), sp)
    ensures ({
        let e = FnCtxt__translate_rvalue_smir(f, SmRvalue::Cast(SmCastKind::IntToInt, x, t), sp).1;
        let from = op_ty(f, x, sp);
        &&& e is UnOp && e->UnOp_operator is Cast && e->UnOp_operator->Cast_0 is IntToInt && tr_sty(f, t, Type::Int(e->UnOp_operator->Cast_0->IntToInt_0))
        &&& exists|a: ValueExpr| #[trigger] tr_op(f, x, a) && match from {
            Type::Int(_) => *e->operand == a,
            Type::Bool => *e->operand == (ValueExpr::UnOp { operator: UnOp::Cast(CastOp::Transmute(build__tyconv__u8())), operand: Box::new(a) }),
            _ => false,
        }
    })
{
    reveal(FnCtxt__translate_rvalue_smir); reveal(FnCtxt__translate_rvalue_smir_ok);
    let f1 = FnCtxt { cx: Ctxt__translate_ty_smir(f.cx, SmOperand__ty(x, f.locals_smir)->0, sp).0, ..f };
    let a = FnCtxt__translate_operand_smir(f1, x, sp);
    assert(tr_op(f, x, a.1));
    assert(tr_sty(f, t, Ctxt__translate_ty_smir(a.0.cx, t, sp).1));
}

// ---------------------------------------------------------------- arithmetic the compiler asks for by name
pub open spec fn rs_name(f: FnCtxt, i: RsInstance) -> RsSym { RsTyCtxt__item_name(f.cx.tcx, RsInstance__def_id(i)) }
/// goes on to the target
pub open spec fn to_target(f: FnCtxt, t: Terminator, target: Option<int>) -> bool { target is Some && f.bb_name_map.m.contains_key(target->0) && t == Terminator::Goto(f.bb_name_map.m[target->0]) }
/// assigns src to the destination, and goes on
pub open spec fn assigned(f: FnCtxt, r: TerminatorResult, dest: RsPlace, target: Option<int>) -> bool {
    r.stmts.s.len() == 1 && r.stmts.s[0] is Assign && tr_rplace(f, dest, r.stmts.s[0]->Assign_destination) && to_target(f, r.terminator, target)
}
/// counting ones, of the operand
pub proof fn mir_ctpop(f: FnCtxt, i: RsInstance, args: List<RsSpanned<RsOperand>>, dest: RsPlace, target: Option<int>, sp: RsSpan)
    requires FnCtxt__translate_rs_intrinsic_ok(f, i, args, dest, target, sp), rs_name(f, i) is ctpop
    ensures ({ let r = FnCtxt__translate_rs_intrinsic(f, i, args, dest, target, sp).1; let e = r.stmts.s[0]->Assign_source; assigned(f, r, dest, target) && e is UnOp && e->UnOp_operator == UnOp::Int(IntUnOp::CountOnes) && tr_rop(f, args.s[0].node, *e->operand) })
{
    reveal(FnCtxt__translate_rs_intrinsic); reveal(FnCtxt__translate_rs_intrinsic_ok);
    assert(same_fn(f, f));
    let (g1, l) = FnCtxt__translate_operand(f, args.s[0].node, sp);
}
/// exact division, of the first operand by the second
pub proof fn mir_exact_div(f: FnCtxt, i: RsInstance, args: List<RsSpanned<RsOperand>>, dest: RsPlace, target: Option<int>, sp: RsSpan)
    requires FnCtxt__translate_rs_intrinsic_ok(f, i, args, dest, target, sp), rs_name(f, i) is exact_div
    ensures ({
        let r = FnCtxt__translate_rs_intrinsic(f, i, args, dest, target, sp).1; let e = r.stmts.s[0]->Assign_source;
        assigned(f, r, dest, target) && e is BinOp && e->BinOp_operator == BinOp::Int(IntBinOp::DivExact) && tr_rop(f, args.s[0].node, *e->left) && tr_rop(f, args.s[1].node, *e->right)
    })
{
    reveal(FnCtxt__translate_rs_intrinsic); reveal(FnCtxt__translate_rs_intrinsic_ok);
    assert(same_fn(f, f));
    let (g1, l) = FnCtxt__translate_operand(f, args.s[0].node, sp);
    let (g2, r) = FnCtxt__translate_operand(g1, args.s[1].node, sp);
}
/// whether the standard library checks for overflow follows the session's setting for overflow checks, and so for its other two settings
pub proof fn mir_runtime_checks(f: FnCtxt, k: SmRuntimeChecks, sp: RsSpan)
    requires FnCtxt__translate_operand_smir_ok(f, SmOperand::RuntimeChecks(k), sp)
    ensures FnCtxt__translate_operand_smir(f, SmOperand::RuntimeChecks(k), sp).1 == ValueExpr::Constant(Constant::Bool(match k {
        SmRuntimeChecks::OverflowChecks => RsSession__overflow_checks(f.cx.tcx.sess),
        SmRuntimeChecks::UbChecks => RsSession__ub_checks(f.cx.tcx.sess),
        SmRuntimeChecks::ContractChecks => RsSession__contract_checks(f.cx.tcx.sess) }), Type::Bool)
{
    reveal(FnCtxt__translate_operand_smir); reveal(FnCtxt__translate_operand_smir_ok);
}
