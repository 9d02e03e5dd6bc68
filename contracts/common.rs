// Mathematical vocabulary of the contracts, and lemmas about it. No axioms here: everything is proved.

/// 2^n
pub open spec fn p2(n: int) -> int { pow(2, n as nat) }

pub open spec fn bits_of(t: IntType) -> int { 8 * t.size.raw }
/// an integer type the library can handle: 1 .. 2^29-1 bytes
pub open spec fn int_wf(t: IntType) -> bool { 0 < t.size.raw && 8 * t.size.raw < 0x1_0000_0000 }

/// v is a value of the integer type t
pub open spec fn in_range(t: IntType, v: int) -> bool {
    match t.signed {
        Signedness::Unsigned => 0 <= v < p2(bits_of(t)),
        Signedness::Signed => -p2(bits_of(t) - 1) <= v < p2(bits_of(t) - 1),
    }
}
/// r is the two's complement wrap-around of i in type t
pub open spec fn is_wrap(t: IntType, i: int, r: int) -> bool { in_range(t, r) && (r - i) % p2(bits_of(t)) == 0 }

pub broadcast proof fn lemma_pow_pos(n: nat)
    ensures #[trigger] pow(2, n) > 0
{ lemma_pow_positive(2, n); }

pub proof fn lemma_p2_half(n: int)
    requires n > 0
    ensures p2(n) == 2 * p2(n - 1), p2(n) / 2 == p2(n - 1), p2(n - 1) > 0
{ lemma_pow_pos((n - 1) as nat); reveal_with_fuel(pow, 2); }

pub proof fn lemma_mod_diff(i: int, m: int)
    requires m > 0
    ensures (i % m - i) % m == 0, (i % m - m - i) % m == 0
{
    lemma_fundamental_div_mod(i, m);
    let q = i / m;
    assert(i % m - i == m * (-q)) by (nonlinear_arith) requires i == m * q + i % m;
    assert(i % m - m - i == m * (-q - 1)) by (nonlinear_arith) requires i == m * q + i % m;
    lemma_mod_multiples_basic(-q, m);
    lemma_mod_multiples_basic(-q - 1, m);
    assert(m * (-q) == (-q) * m) by (nonlinear_arith);
    assert(m * (-q - 1) == (-q - 1) * m) by (nonlinear_arith);
}
/// the library's wrap-around is two's complement wrap-around
pub proof fn lemma_wrap(t: IntType, i: int)
    requires int_wf(t)
    ensures is_wrap(t, i, int__bring_in_bounds(i, t.signed, t.size))
{
    let n = bits_of(t);
    lemma_p2_half(n);
    lemma_mod_diff(i, p2(n));
    lemma_pow_pos(n as nat);
}
/// it is the only one
pub proof fn lemma_wrap_unique(t: IntType, i: int, r: int, s: int)
    requires int_wf(t), is_wrap(t, i, r), is_wrap(t, i, s)
    ensures r == s
{
    let n = bits_of(t);
    lemma_p2_half(n);
    let m = p2(n);
    lemma_fundamental_div_mod(r - i, m);
    lemma_fundamental_div_mod(s - i, m);
    let a = (r - i) / m; let b = (s - i) / m;
    assert(r - s == m * (a - b)) by (nonlinear_arith) requires r - i == m * a, s - i == m * b;
    if a - b >= 1 { assert(m * (a - b) >= m) by (nonlinear_arith) requires a - b >= 1, m > 0; }
    if a - b <= -1 { assert(m * (a - b) <= -m) by (nonlinear_arith) requires a - b <= -1, m > 0; }
}
/// representable exactly if wrapping changes nothing
pub proof fn lemma_in_range(t: IntType, i: int)
    requires int_wf(t)
    ensures (i == int__bring_in_bounds(i, t.signed, t.size)) <==> in_range(t, i)
{
    lemma_wrap(t, i);
    if in_range(t, i) {
        lemma_pow_pos(bits_of(t) as nat);
        assert((i - i) % p2(bits_of(t)) == 0) by { lemma_small_mod(0, p2(bits_of(t)) as nat); }
        lemma_wrap_unique(t, i, i, int__bring_in_bounds(i, t.signed, t.size));
    }
}
/// all the facts about t's wrap-around in one go
pub proof fn lemma_int_ty(t: IntType)
    requires int_wf(t)
    ensures
        forall|i: int| #![trigger int__bring_in_bounds(i, t.signed, t.size)] is_wrap(t, i, int__bring_in_bounds(i, t.signed, t.size)),
        forall|i: int| #![trigger int__in_bounds(i, t.signed, t.size)] int__in_bounds(i, t.signed, t.size) <==> in_range(t, i),
        forall|i: int| #![trigger int__bring_in_bounds(i, t.signed, t.size)] in_range(t, i) ==> int__bring_in_bounds(i, t.signed, t.size) == i,
{
    assert forall|i: int| #![trigger int__bring_in_bounds(i, t.signed, t.size)] is_wrap(t, i, int__bring_in_bounds(i, t.signed, t.size)) by { lemma_wrap(t, i); }
    assert forall|i: int| #![trigger int__in_bounds(i, t.signed, t.size)] int__in_bounds(i, t.signed, t.size) <==> in_range(t, i) by { lemma_in_range(t, i); }
    assert forall|i: int| #![trigger int__bring_in_bounds(i, t.signed, t.size)] in_range(t, i) implies int__bring_in_bounds(i, t.signed, t.size) == i by { lemma_in_range(t, i); }
}

/// truncating division: characterised, not computed
pub open spec fn is_tdiv(a: int, b: int, q: int, r: int) -> bool {
    a == q * b + r && int_abs(r) < int_abs(b) && (r == 0 || (r > 0) == (a > 0))
}
pub proof fn lemma_tdiv(a: int, b: int)
    requires b != 0
    ensures is_tdiv(a, b, int_div(a, b), int_rem(a, b))
{
    let m = int_abs(b); let x = int_abs(a);
    lemma_fundamental_div_mod(x, m);
    lemma_mod_bound(x, m);
    let q = x / m; let r = x % m;
    assert(x == q * m + r) by (nonlinear_arith) requires x == m * q + r;
    assert(-x == (-q) * m - r) by (nonlinear_arith) requires x == q * m + r;
    assert((-q) * m == q * (-m)) by (nonlinear_arith);
    assert((-q) * (-m) == q * m) by (nonlinear_arith);
    assert(-x == q * (-m) - r);
    assert(x == (-q) * (-m) + r);
    assert(int_rem(a, b) == if a >= 0 { r } else { -r });
}
pub proof fn lemma_shift_small(x: int, n: int)
    requires 0 <= x < n, n < 0x1_0000_0000
    ensures x < pow(2, 128)
{
    assert(pow(2, 128) > 0x1_0000_0000) by {
        lemma_pow_adds(2, 64, 64); lemma_pow_adds(2, 32, 32);
        assert(pow(2, 32) == 0x1_0000_0000) by (compute);
        let p = pow(2, 32); let q = pow(2, 64);
        assert(q == p * p);
        assert(q >= p) by (nonlinear_arith) requires q == p * p, p == 0x1_0000_0000;
        assert(pow(2, 128) == q * q);
        assert(q * q > p) by (nonlinear_arith) requires q >= p, p == 0x1_0000_0000;
    }
}

/// bit i of the infinite two's complement representation of a
pub open spec fn bit(a: int, i: nat) -> bool decreases i { if i == 0 { a % 2 == 1 } else { bit(a / 2, (i - 1) as nat) } }
/// number of ones among the low n bits
pub open spec fn ones(a: int, n: nat) -> int decreases n { if n == 0 { 0 } else { (if a % 2 == 1 { 1int } else { 0 }) + ones(a / 2, (n - 1) as nat) } }

pub proof fn lemma_bit_and(a: int, b: int, i: nat)
    ensures bit(int_and(a, b), i) == (bit(a, i) && bit(b, i))
    decreases i
{
    reveal_with_fuel(int_and, 2); reveal_with_fuel(bit, 2);
    let r = int_and(a, b);
    let x: int = if a % 2 == 1 && b % 2 == 1 { 1 } else { 0 };
    assert(r == 2 * int_and(a / 2, b / 2) + x);
    assert(r / 2 == int_and(a / 2, b / 2) && r % 2 == x);
    if i > 0 { lemma_bit_and(a / 2, b / 2, (i - 1) as nat); }
}
pub proof fn lemma_bit_or(a: int, b: int, i: nat)
    ensures bit(int_or(a, b), i) == (bit(a, i) || bit(b, i))
    decreases i
{
    reveal_with_fuel(int_or, 2); reveal_with_fuel(bit, 2);
    let r = int_or(a, b);
    let x: int = if a % 2 == 1 || b % 2 == 1 { 1 } else { 0 };
    assert(r == 2 * int_or(a / 2, b / 2) + x);
    assert(r / 2 == int_or(a / 2, b / 2) && r % 2 == x);
    if i > 0 { lemma_bit_or(a / 2, b / 2, (i - 1) as nat); }
}
pub proof fn lemma_bit_xor(a: int, b: int, i: nat)
    ensures bit(int_xor(a, b), i) == (bit(a, i) != bit(b, i))
    decreases i
{
    reveal_with_fuel(int_xor, 2); reveal_with_fuel(bit, 2);
    let r = int_xor(a, b);
    let x: int = if (a % 2) != (b % 2) { 1 } else { 0 };
    assert(r == 2 * int_xor(a / 2, b / 2) + x);
    assert(r / 2 == int_xor(a / 2, b / 2) && r % 2 == x);
    if i > 0 { lemma_bit_xor(a / 2, b / 2, (i - 1) as nat); }
}
pub proof fn lemma_bit_not(a: int, i: nat)
    ensures bit(int_not(a), i) == !bit(a, i)
    decreases i
{
    assert((-a - 1) / 2 == -(a / 2) - 1);
    if i > 0 { lemma_bit_not(a / 2, (i - 1) as nat); }
}
pub proof fn lemma_bits_all(a: int, b: int)
    ensures forall|i: nat| #[trigger] bit(int_and(a, b), i) == (bit(a, i) && bit(b, i)),
        forall|i: nat| #[trigger] bit(int_or(a, b), i) == (bit(a, i) || bit(b, i)),
        forall|i: nat| #[trigger] bit(int_xor(a, b), i) == (bit(a, i) != bit(b, i)),
        forall|i: nat| #[trigger] bit(int_not(a), i) == !bit(a, i),
{
    assert forall|i: nat| #[trigger] bit(int_and(a, b), i) == (bit(a, i) && bit(b, i)) by { lemma_bit_and(a, b, i); }
    assert forall|i: nat| #[trigger] bit(int_or(a, b), i) == (bit(a, i) || bit(b, i)) by { lemma_bit_or(a, b, i); }
    assert forall|i: nat| #[trigger] bit(int_xor(a, b), i) == (bit(a, i) != bit(b, i)) by { lemma_bit_xor(a, b, i); }
    assert forall|i: nat| #[trigger] bit(int_not(a), i) == !bit(a, i) by { lemma_bit_not(a, i); }
}
pub proof fn lemma_p2_add(a: int, b: int)
    requires a >= 0, b >= 0
    ensures p2(a + b) == p2(a) * p2(b)
{ lemma_pow_adds(2, a as nat, b as nat); }
/// the range of t is closed under the bit-wise operations: by splitting off the low bits
pub open spec fn fits(v: int, k: int) -> bool { -p2(k) <= v < p2(k) }
pub proof fn lemma_bitop_range(a: int, b: int, k: int)
    requires k >= 0, fits(a, k), fits(b, k)
    ensures fits(int_and(a, b), k), fits(int_or(a, b), k), fits(int_xor(a, b), k),
        (a >= 0 && b >= 0) ==> int_and(a, b) >= 0 && int_or(a, b) >= 0 && int_xor(a, b) >= 0,
    decreases k
{
    reveal_with_fuel(int_and, 2); reveal_with_fuel(int_or, 2); reveal_with_fuel(int_xor, 2);
    if k == 0 {
        assert(p2(0) == 1) by { reveal_with_fuel(pow, 2); }
    } else {
        lemma_p2_half(k);
        lemma_bitop_range(a / 2, b / 2, k - 1);
    }
}

// ---------------------------------------------------------------- memory vocabulary
pub type Alc<P, A> = Allocation<P, A>;
/// what the contracts assume of a target: a usable pointer size, sizes valid exactly if they fit the signed pointer-sized integer
pub open spec fn target_ok() -> bool {
    1 <= T__PTR_SIZE().raw && 8 * T__PTR_SIZE().raw <= 64
    && (forall|s: Size| #[trigger] T__valid_size(s) <==> (-p2(8 * T__PTR_SIZE().raw - 1) <= s.raw < p2(8 * T__PTR_SIZE().raw - 1)))
    && (forall|s: Size| #[trigger] T__valid_size_ok(s))
    && T__PTR_SIZE_ok()
}
pub open spec fn addr_end() -> int { p2(8 * T__PTR_SIZE().raw) }
pub open spec fn alen<P, A>(a: Alc<P, A>) -> int { a.data.s.len() as int }
/// two address ranges share no byte and do not start at the same address
pub open spec fn apart(a: int, n: int, b: int, m: int) -> bool { a != b && (a + n <= b || b + m <= a) }
/// every live allocation is aligned, non-null and inside the address space; live allocations are pairwise apart
pub open spec fn mem_inv<P, A>(m: BasicMemory<P, A>) -> bool {
    let al = m.allocations.s;
    (forall|i: int| 0 <= i < al.len() ==> {
        let a = #[trigger] al[i];
        0 < a.addr && a.addr + alen(a) < addr_end() && a.align.raw > 0 && a.addr % a.align.raw == 0 && alen(a) < addr_end() / 2
    })
    && (forall|i: int, j: int| 0 <= i < j < al.len() && (#[trigger] al[i]).live && (#[trigger] al[j]).live ==> apart(al[i].addr, alen(al[i]), al[j].addr, alen(al[j])))
}
pub open spec fn is_ub<X>(r: Result<X, TerminationInfo>) -> bool { r is Err && r->Err_0 is Ub }
/// the pointer's provenance names an existing allocation (provenance cannot be forged)
pub open spec fn prov_ok<P, A>(m: BasicMemory<P, A>, p: ThinPointer<(AllocId, P)>) -> bool {
    p.provenance is Some ==> 0 <= ((p.provenance->0).0).0 < m.allocations.s.len()
}
pub open spec fn aid<P>(p: ThinPointer<(AllocId, P)>) -> int { ((p.provenance->0).0).0 }
/// bytes [addr, addr+n) may be accessed through p
pub open spec fn deref_ok<P, A>(m: BasicMemory<P, A>, p: ThinPointer<(AllocId, P)>, n: int) -> bool {
    n == 0 || (p.provenance is Some && {
        let a = m.allocations.s[aid(p)];
        a.live && a.addr <= p.addr && p.addr + n <= a.addr + alen(a)
    })
}
/// everything but the data of allocation i and its extra state is the same
pub open spec fn same_shape<P, A>(a: Alc<P, A>, b: Alc<P, A>) -> bool {
    a.addr == b.addr && a.align == b.align && a.kind == b.kind && a.live == b.live && a.data.s.len() == b.data.s.len()
}
pub open spec fn frame_except<P, A>(m: BasicMemory<P, A>, n: BasicMemory<P, A>, i: int) -> bool {
    m.allocations.s.len() == n.allocations.s.len()
    && forall|j: int| 0 <= j < m.allocations.s.len() && j != i ==> m.allocations.s[j] == #[trigger] n.allocations.s[j]
}

/// truncating and Euclidean remainder vanish together
pub proof fn lemma_aligned(al: Align)
    requires al.raw > 0
    ensures forall|a: int| #[trigger] Align__is_aligned(al, a) <==> a % al.raw == 0
{
    assert forall|a: int| #[trigger] Align__is_aligned(al, a) <==> a % al.raw == 0 by {
        let m = al.raw;
        lemma_fundamental_div_mod(a, m);
        lemma_fundamental_div_mod(-a, m);
        let q = a / m; let k = (-a) / m;
        if a % m == 0 {
            assert((-a) == (-q) * m) by (nonlinear_arith) requires a == m * q;
            lemma_mod_multiples_basic(-q, m);
        }
        if (-a) % m == 0 {
            assert(a == (-k) * m) by (nonlinear_arith) requires -a == m * k;
            lemma_mod_multiples_basic(-k, m);
        }
    }
}

/// the distinguished "no behaviour" outcome of a nondeterministic choice is the variant the extraction added for it
pub axiom fn axiom_stuck()
    ensures nd_stuck::<TerminationInfo>() == TerminationInfo::NdStuck;

// ---------------------------------------------------------------- the MIR translation
/// what stays the same while a function is being translated: its body, the names of its locals and blocks, the compiler
pub open spec fn same_fn(a: FnCtxt, b: FnCtxt) -> bool {
    a.body == b.body && a.abi == b.abi && a.locals_smir == b.locals_smir && a.local_name_map == b.local_name_map && a.bb_name_map == b.bb_name_map && a.cx.tcx == b.cx.tcx
}
/// e is what the operand becomes in this function
pub open spec fn tr_op(f: FnCtxt, op: SmOperand, e: ValueExpr) -> bool {
    exists|st: FnCtxt, sp: RsSpan| same_fn(f, st) && e == (#[trigger] FnCtxt__translate_operand_smir(st, op, sp)).1
}
pub open spec fn tr_rop(f: FnCtxt, op: RsOperand, e: ValueExpr) -> bool { tr_op(f, RsOperand__smir_stable(op), e) }
/// e is what the place becomes in this function
pub open spec fn tr_place(f: FnCtxt, p: SmPlace, e: PlaceExpr) -> bool {
    exists|st: FnCtxt, sp: RsSpan| same_fn(f, st) && e == (#[trigger] FnCtxt__translate_place_smir(st, p, sp)).1
}
pub open spec fn tr_rplace(f: FnCtxt, p: RsPlace, e: PlaceExpr) -> bool { tr_place(f, RsPlace__smir_stable(p), e) }
/// y is what the type becomes
pub open spec fn tr_ty(f: FnCtxt, t: RsTy, y: Type) -> bool {
    exists|cx: Ctxt, sp: RsSpan| cx.tcx == f.cx.tcx && y == (#[trigger] Ctxt__translate_ty(cx, t, sp)).1
}
pub open spec fn tr_sty(f: FnCtxt, t: SmTy, y: Type) -> bool { tr_ty(f, SmTy__smir_internal(t), y) }
/// a block does nothing but its terminator
pub open spec fn only_block(f: FnCtxt, b: BbName, t: Terminator) -> bool {
    f.blocks.m.contains_key(b) && f.blocks.m[b].statements.s.len() == 0 && f.blocks.m[b].terminator == t
}
pub open spec fn abort_t(t: Terminator) -> bool { t is Intrinsic && t->Intrinsic_intrinsic is Abort }
/// a number that fits the machine type is converted to it unchanged
pub proof fn as_u32(n: int)
    requires 0 <= n < 0x1_0000_0000
    ensures int_as(n, false, 32) == n
{ vstd::arithmetic::power::lemma_pow0(2); reveal_with_fuel(pow, 34); assert(pow(2, 32) == 0x1_0000_0000); vstd::arithmetic::div_mod::lemma_small_mod(n as nat, 0x1_0000_0000); }
/// e is what the rvalue becomes in this function
pub open spec fn tr_rval(f: FnCtxt, r: SmRvalue, e: ValueExpr) -> bool {
    exists|st: FnCtxt, sp: RsSpan| same_fn(f, st) && e == (#[trigger] FnCtxt__translate_rvalue_smir(st, r, sp)).1
}
/// the type the compiler gives an operand, translated
pub open spec fn ty_of_op(f: FnCtxt, op: SmOperand, sp: RsSpan) -> Type { Ctxt__translate_ty_smir(f.cx, SmOperand__ty(op, f.locals_smir)->0, sp).1 }
/// y is what the compiler's type of a place becomes
pub open spec fn ty_of_place(f: FnCtxt, p: SmPlace, sp: RsSpan) -> Type { Ctxt__translate_ty_smir(f.cx, SmPlace__ty(p, f.locals_smir)->0, sp).1 }
/// what the type says about a place of it
pub open spec fn tr_info(f: FnCtxt, t: SmTy, i: PointeeInfo) -> bool {
    exists|cx: Ctxt, sp: RsSpan| cx.tcx == f.cx.tcx && i == (#[trigger] Ctxt__pointee_info_of_smir(cx, t, sp)).1
}
/// the operands of an aggregate, one after the other
pub open spec fn tr_ops(f: FnCtxt, l: Seq<SmOperand>, out: Seq<ValueExpr>, n: int) -> bool { out.len() >= n && forall|i: int| 0 <= i < n ==> tr_op(f, l[i], #[trigger] out[i]) }
