// Library operations (libspecr and std) used by the translated specification.
// Everything here is *defined* (spec functions over mathematical integers and sequences);
// the few axioms are marked `axiom` and are listed as assumptions in the evidence.
use vstd::prelude::*;
use vstd::arithmetic::power::pow;

verus! {

#[verifier::accept_recursive_types(T)]
pub struct List<T> { pub s: Seq<T> }
pub struct Map<K, V> { pub m: vstd::map::Map<K, V> }
pub struct Set<T> { pub s: vstd::set::Set<T> }
pub struct Size { pub raw: int }
pub struct Align { pub raw: int }
pub struct Str;
pub struct Name { pub id: int }
pub struct NeverT { x__: int }
pub struct DynWrite { x__: int }
pub struct T { x__: int }
pub struct MemM { x__: int }
pub struct Prov { x__: int }
pub struct MemFrameExtra { x__: int }
pub enum Endianness { LittleEndian, BigEndian }
pub enum Signedness { Unsigned, Signed }
pub enum Mutability { Mutable, Immutable }
pub enum Ordering { Less, Equal, Greater }
pub struct IntDistribution { pub start: int, pub end: int, pub divisor: int }
pub enum Flow<X, C> { Exit(X), Cont(C) }

// ------------------------------------------------------------------ integers
pub open spec fn int_abs(a: int) -> int { if a < 0 { -a } else { a } }
/// BigInt division truncates toward zero.
pub open spec fn int_div(a: int, b: int) -> int {
    if b > 0 { if a >= 0 { a / b } else { -((-a) / b) } }
    else if b < 0 { if a >= 0 { -(a / (-b)) } else { (-a) / (-b) } }
    else { arbitrary() }
}
pub open spec fn int_div_ok(a: int, b: int) -> bool { b != 0 }
pub open spec fn int_rem(a: int, b: int) -> int {
    if b == 0 { arbitrary() } else if a >= 0 { a % int_abs(b) } else { -((-a) % int_abs(b)) }
}
pub open spec fn int_rem_ok(a: int, b: int) -> bool { b != 0 }
pub open spec fn int_shl(a: int, b: int) -> int { if b < 0 { arbitrary() } else { a * pow(2, b as nat) } }
/// shift amounts are converted to u128 by the library
pub open spec fn int_shl_ok(a: int, b: int) -> bool { 0 <= b < pow(2, 128) }
pub open spec fn int_shr(a: int, b: int) -> int { if b < 0 { arbitrary() } else { a / pow(2, b as nat) } }
pub open spec fn int_shr_ok(a: int, b: int) -> bool { 0 <= b < pow(2, 128) }
pub open spec fn int_not(a: int) -> int { -a - 1 }
/// bit-wise operations on infinite two's complement
pub open spec fn bit_base(a: int) -> bool { a == 0 || a == -1 }
pub open spec fn int_and(a: int, b: int) -> int decreases int_abs(a) + int_abs(b) {
    if bit_base(a) && bit_base(b) { if a == -1 && b == -1 { -1 } else { 0int } }
    else { 2 * int_and(a / 2, b / 2) + (if a % 2 == 1 && b % 2 == 1 { 1int } else { 0 }) }
}
pub open spec fn int_or(a: int, b: int) -> int decreases int_abs(a) + int_abs(b) {
    if bit_base(a) && bit_base(b) { if a == -1 || b == -1 { -1 } else { 0int } }
    else { 2 * int_or(a / 2, b / 2) + (if a % 2 == 1 || b % 2 == 1 { 1int } else { 0 }) }
}
pub open spec fn int_xor(a: int, b: int) -> int decreases int_abs(a) + int_abs(b) {
    if bit_base(a) && bit_base(b) { if a != b { -1 } else { 0int } }
    else { 2 * int_xor(a / 2, b / 2) + (if (a % 2) != (b % 2) { 1int } else { 0 }) }
}
pub open spec fn int__is_power_of_two(a: int) -> bool decreases a when a >= 0 {
    a == 1 || (a > 1 && a % 2 == 0 && int__is_power_of_two(a / 2))
}
pub open spec fn is_p2(a: int) -> bool { a > 0 && int__is_power_of_two(a) }
pub open spec fn int__trailing_zeros_(a: int) -> int decreases int_abs(a) {
    if a == 0 { 0 } else if a % 2 != 0 { 0 } else { 1 + int__trailing_zeros_(a / 2) }
}
pub open spec fn int__trailing_zeros(a: int) -> Option<int> { if a == 0 { None } else { Some(int__trailing_zeros_(a)) } }
pub open spec fn int__div_ceil(a: int, b: int) -> int { if b == 0 { arbitrary() } else if b > 0 { -((-a) / b) } else { -(a / (-b)) } }
pub open spec fn int__div_ceil_ok(a: int, b: int) -> bool { b != 0 }
pub open spec fn int__next_multiple_of(a: int, b: int) -> int { int__div_ceil(a, b) * b }
pub open spec fn int__next_multiple_of_ok(a: int, b: int) -> bool { b != 0 }
pub open spec fn int__abs(a: int) -> int { int_abs(a) }
pub open spec fn int__checked_div(a: int, b: int) -> Option<int> { if b == 0 { None } else { Some(int_div(a, b)) } }
pub open spec fn int__pow(a: int, e: int) -> int { if e < 0 { arbitrary() } else { pow(a, e as nat) } }
pub open spec fn int__pow_ok(a: int, e: int) -> bool { 0 <= e < 0x1_0000_0000 }
pub open spec fn int__rem_euclid(a: int, b: int) -> int { if b == 0 { arbitrary() } else { a % int_abs(b) } }
pub open spec fn int__rem_euclid_ok(a: int, b: int) -> bool { b != 0 }
pub open spec fn int__div_euclid(a: int, b: int) -> int { if b > 0 { a / b } else if b < 0 { -(a / (-b)) } else { arbitrary() } }
pub open spec fn int__div_euclid_ok(a: int, b: int) -> bool { b != 0 }
pub open spec fn int__bring_in_bounds(a: int, s: Signedness, size: Size) -> int {
    if size.raw <= 0 { arbitrary() } else {
        let m = pow(2, (8 * size.raw) as nat);
        let rem = a % m;
        match s { Signedness::Unsigned => rem, Signedness::Signed => if rem >= m / 2 { rem - m } else { rem } }
    }
}
pub open spec fn int__bring_in_bounds_ok(a: int, s: Signedness, size: Size) -> bool { 0 < 8 * size.raw < 0x1_0000_0000 }
pub open spec fn int__in_bounds(a: int, s: Signedness, size: Size) -> bool { a == int__bring_in_bounds(a, s, size) }
pub open spec fn int__in_bounds_ok(a: int, s: Signedness, size: Size) -> bool { int__bring_in_bounds_ok(a, s, size) }
pub open spec fn int__cmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub open spec fn int__min(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn int__max(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn int__into(a: int) -> int { a }
pub open spec fn int__clone(a: int) -> int { a }
// the compiler's indices are integers here
pub open spec fn int__as_usize(a: int) -> int { a }
pub open spec fn int__as_u32(a: int) -> int { a }
pub open spec fn int__index(a: int) -> int { a }
pub open spec fn int__smir_stable(a: int) -> int { a }
pub open spec fn int__smir_internal(a: int) -> int { a }
/// overflow of the machine integer is not modelled
pub open spec fn int__strict_add(a: int, b: int) -> int { a + b }
/// `x as iN` / `x as uN`
pub open spec fn int_as(x: int, signed: bool, bits: int) -> int { int__bring_in_bounds(x, if signed { Signedness::Signed } else { Signedness::Unsigned }, Size__from_bits_const(bits).unwrap()) }
pub open spec fn int__try_to_usize(a: int) -> Option<int> { if fits_usize(a) { Some(a) } else { None } }
pub open spec fn Name__from_internal(i: int) -> Name { Name { id: i } }
pub open spec fn Name__get_internal(n: Name) -> int { n.id }
pub open spec fn int__signum(a: int) -> int { if a > 0 { 1 } else if a == 0 { 0 } else { -1 } }
pub open spec fn int__try_to_u8(a: int) -> Option<u8> { if 0 <= a < 256 { Some(a as u8) } else { None } }

// ------------------------------------------------------------------ bool, Ordering
pub open spec fn bool__cmp(a: bool, b: bool) -> Ordering { if a == b { Ordering::Equal } else if b { Ordering::Less } else { Ordering::Greater } }
pub open spec fn bool__clone(a: bool) -> bool { a }
pub open spec fn Ordering__is_lt(o: Ordering) -> bool { o == Ordering::Less }
pub open spec fn Ordering__is_le(o: Ordering) -> bool { o != Ordering::Greater }
pub open spec fn Ordering__is_gt(o: Ordering) -> bool { o == Ordering::Greater }
pub open spec fn Ordering__is_ge(o: Ordering) -> bool { o != Ordering::Less }
pub open spec fn Ordering__is_eq(o: Ordering) -> bool { o == Ordering::Equal }
pub open spec fn Ordering__is_ne(o: Ordering) -> bool { o != Ordering::Equal }
pub open spec fn Ordering__then(o: Ordering, p: Ordering) -> Ordering { if o == Ordering::Equal { p } else { o } }
pub open spec fn Ordering__reverse(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }

// ------------------------------------------------------------------ Size, Align
pub open spec fn Size__ZERO() -> Size { Size { raw: 0 } }
pub open spec fn Size__bytes(s: Size) -> int { s.raw }
pub open spec fn Size__bits(s: Size) -> int { s.raw * 8 }
pub open spec fn Size__is_zero(s: Size) -> bool { s.raw == 0 }
pub open spec fn Size__from_bytes(b: int) -> Option<Size> { if b < 0 { None } else { Some(Size { raw: b }) } }
pub open spec fn Size__from_bits(b: int) -> Option<Size> { if b % 8 != 0 || b < 0 { None } else { Some(Size { raw: b / 8 }) } }
pub open spec fn Size__from_bits_const(b: int) -> Option<Size> { Size__from_bits(b) }
pub open spec fn Size__from_bytes_const(b: int) -> Size { Size { raw: b } }
pub open spec fn Size__align_to(s: Size, a: Align) -> Size { Size { raw: int__next_multiple_of(s.raw, a.raw) } }
pub open spec fn Size__cmp(a: Size, b: Size) -> Ordering { int__cmp(a.raw, b.raw) }
pub open spec fn Size__min(a: Size, b: Size) -> Size { if a.raw <= b.raw { a } else { b } }
pub open spec fn Size__max(a: Size, b: Size) -> Size { if a.raw > b.raw { a } else { b } }
pub open spec fn Size__clone(a: Size) -> Size { a }
pub open spec fn size_add(a: Size, b: Size) -> Size { Size { raw: a.raw + b.raw } }
pub open spec fn size_mul(a: Size, b: int) -> Size { if a.raw * b < 0 { arbitrary() } else { Size { raw: a.raw * b } } }
pub open spec fn size_mul_ok(a: Size, b: int) -> bool { a.raw * b >= 0 }
pub open spec fn Align__ONE() -> Align { Align { raw: 1 } }
pub open spec fn Align__bytes(a: Align) -> int { a.raw }
pub open spec fn Align__from_bytes(b: int) -> Option<Align> { if is_p2(b) { Some(Align { raw: b }) } else { None } }
pub open spec fn Align__from_bits(b: int) -> Option<Align> { if b % 8 != 0 { None } else { Align__from_bytes(b / 8) } }
pub open spec fn Align__from_bits_const(b: int) -> Option<Align> { Align__from_bits(b) }
pub open spec fn Align__from_bytes_const(b: int) -> Option<Align> { Align__from_bytes(b) }
pub open spec fn Align__is_aligned(a: Align, addr: int) -> bool { int_rem(addr, a.raw) == 0 }
pub open spec fn Align__max_for_offset(o: Size) -> Option<Align> {
    match int__trailing_zeros(o.raw) { None => None, Some(t) => Some(Align { raw: pow(2, t as nat) }) }
}
pub open spec fn Align__restrict_for_offset(a: Align, o: Size) -> Align {
    match Align__max_for_offset(o) { None => a, Some(b) => Align__min(a, b) }
}
pub open spec fn Align__restrict_for_offset_ok(a: Align, o: Size) -> bool { true }
pub open spec fn Align__cmp(a: Align, b: Align) -> Ordering { int__cmp(a.raw, b.raw) }
pub open spec fn Align__min(a: Align, b: Align) -> Align { if a.raw <= b.raw { a } else { b } }
pub open spec fn Align__max(a: Align, b: Align) -> Align { if a.raw > b.raw { a } else { b } }
pub open spec fn Align__clone(a: Align) -> Align { a }

// ------------------------------------------------------------------ Option, Result
pub open spec fn Option__is_some<A>(o: Option<A>) -> bool { o is Some }
pub open spec fn Option__is_none<A>(o: Option<A>) -> bool { o is None }
pub open spec fn Option__unwrap<A>(o: Option<A>) -> A { o->0 }
pub open spec fn Option__unwrap_ok<A>(o: Option<A>) -> bool { o is Some }
pub open spec fn Option__expect<A>(o: Option<A>, m: Str) -> A { o->0 }
pub open spec fn Option__expect_ok<A>(o: Option<A>, m: Str) -> bool { o is Some }
pub open spec fn Option__unwrap_or<A>(o: Option<A>, d: A) -> A { match o { Some(x) => x, None => d } }
pub open spec fn Option__copied<A>(o: Option<A>) -> Option<A> { o }
pub open spec fn Option__cloned<A>(o: Option<A>) -> Option<A> { o }
pub open spec fn Option__clone<A>(o: Option<A>) -> Option<A> { o }
pub open spec fn Option__take<A>(o: Option<A>) -> (Option<A>, Option<A>) { (None, o) }
pub open spec fn Option__or<A>(o: Option<A>, p: Option<A>) -> Option<A> { match o { Some(x) => o, None => p } }
pub open spec fn Option__ok_or<A, E>(o: Option<A>, e: E) -> Result<A, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub open spec fn Result__is_ok<A, E>(o: Result<A, E>) -> bool { o is Ok }
pub open spec fn Result__is_err<A, E>(o: Result<A, E>) -> bool { o is Err }
pub open spec fn Result__unwrap<A, E>(o: Result<A, E>) -> A { o->Ok_0 }
pub open spec fn Result__unwrap_ok<A, E>(o: Result<A, E>) -> bool { o is Ok }
pub open spec fn Result__expect<A, E>(o: Result<A, E>, m: Str) -> A { o->Ok_0 }
pub open spec fn Result__expect_ok<A, E>(o: Result<A, E>, m: Str) -> bool { o is Ok }
pub open spec fn Result__ok<A, E>(o: Result<A, E>) -> Option<A> { match o { Ok(x) => Some(x), Err(_) => None } }
pub open spec fn Result__get_internal<A, E>(o: Result<A, E>) -> Result<A, E> { o }

// ------------------------------------------------------------------ List
/// indices are converted to usize by the library
pub open spec fn fits_usize(i: int) -> bool { 0 <= i < 0x1_0000_0000_0000_0000 }
pub open spec fn mk<A>(s: Seq<A>) -> List<A> { List { s } }
pub open spec fn List__len<A>(l: List<A>) -> int { l.s.len() as int }
pub open spec fn List__is_empty<A>(l: List<A>) -> bool { l.s.len() == 0 }
pub open spec fn List__new<A>() -> List<A> { List { s: Seq::empty() } }
pub open spec fn list_once<A>(a: A) -> List<A> { List { s: seq![a] } }
pub open spec fn List__first<A>(l: List<A>) -> Option<A> { if l.s.len() == 0 { None } else { Some(l.s[0]) } }
pub open spec fn List__next<A>(l: List<A>) -> Option<A> { if l.s.len() == 0 { None } else { Some(l.s[0]) } }
pub open spec fn List__last<A>(l: List<A>) -> Option<A> { if l.s.len() == 0 { None } else { Some(l.s[l.s.len() - 1]) } }
pub open spec fn List__get<A>(l: List<A>, i: int) -> Option<A> { if 0 <= i < l.s.len() { Some(l.s[i]) } else { None } }
pub open spec fn List__get_ok<A>(l: List<A>, i: int) -> bool { fits_usize(i) }
pub open spec fn List__index_at<A>(l: List<A>, i: int) -> A { l.s[i] }
pub open spec fn List__index_at_ok<A>(l: List<A>, i: int) -> bool { 0 <= i < l.s.len() }
pub open spec fn List__set<A>(l: List<A>, i: int, a: A) -> List<A> { List { s: l.s.update(i, a) } }
pub open spec fn List__set_ok<A>(l: List<A>, i: int, a: A) -> bool { 0 <= i < l.s.len() }
pub open spec fn List__push<A>(l: List<A>, a: A) -> List<A> { List { s: l.s.push(a) } }
pub open spec fn List__pop<A>(l: List<A>) -> (List<A>, Option<A>) { if l.s.len() == 0 { (l, None) } else { (List { s: l.s.drop_last() }, Some(l.s.last())) } }
pub open spec fn List__push_front<A>(l: List<A>, a: A) -> List<A> { List { s: seq![a] + l.s } }
pub open spec fn List__pop_front<A>(l: List<A>) -> (List<A>, Option<A>) { if l.s.len() == 0 { (l, None) } else { (List { s: l.s.drop_first() }, Some(l.s[0])) } }
pub open spec fn List__reverse<A>(l: List<A>) -> List<A> { List { s: l.s.reverse() } }
pub open spec fn List__append<A>(l: List<A>, r: List<A>) -> List<A> { List { s: l.s + r.s } }
pub open spec fn List__chain<A>(l: List<A>, r: List<A>) -> List<A> { List { s: l.s + r.s } }
pub open spec fn List__subslice_with_length<A>(l: List<A>, start: int, len: int) -> List<A> { List { s: l.s.subrange(start, start + len) } }
pub open spec fn List__subslice_with_length_ok<A>(l: List<A>, start: int, len: int) -> bool { 0 <= start && 0 <= len && start + len <= l.s.len() }
pub open spec fn List__write_subslice_at_index<A>(l: List<A>, start: int, src: List<A>) -> List<A> {
    List { s: Seq::new(l.s.len(), |i: int| if start <= i < start + src.s.len() { src.s[i - start] } else { l.s[i] }) }
}
pub open spec fn List__write_subslice_at_index_ok<A>(l: List<A>, start: int, src: List<A>) -> bool { 0 <= start && start + src.s.len() <= l.s.len() }
pub open spec fn List__split_first<A>(l: List<A>) -> Option<(A, List<A>)> { if l.s.len() == 0 { None } else { Some((l.s[0], List { s: l.s.drop_first() })) } }
pub open spec fn List__split_last<A>(l: List<A>) -> Option<(A, List<A>)> { if l.s.len() == 0 { None } else { Some((l.s.last(), List { s: l.s.drop_last() })) } }
pub open spec fn List__zip<A, B>(l: List<A>, r: List<B>) -> List<(A, B)> {
    List { s: Seq::new(if l.s.len() <= r.s.len() { l.s.len() } else { r.s.len() }, |i: int| (l.s[i], r.s[i])) }
}
pub open spec fn List__from_elem<A>(a: A, n: int) -> List<A> { List { s: Seq::new(if n < 0 { 0nat } else { n as nat }, |i: int| a) } }
pub open spec fn List__from_elem_ok<A>(a: A, n: int) -> bool { fits_usize(n) }
pub open spec fn List__range(a: int, b: int) -> List<int> { List { s: Seq::new(if b <= a { 0nat } else { (b - a) as nat }, |i: int| a + i) } }
pub open spec fn List__enumerate<A>(l: List<A>) -> List<(int, A)> { List { s: Seq::new(l.s.len(), |i: int| (i, l.s[i])) } }
pub open spec fn List__default<A>() -> List<A> { List__new() }
pub open spec fn bool__then_some<A>(b: bool, a: A) -> Option<A> { if b { Some(a) } else { None } }
pub open spec fn List__to_vec<A>(l: List<A>) -> List<A> { l }
pub open spec fn int__from_usize(i: int) -> int { i }
pub open spec fn List__indices<A>(l: List<A>) -> List<int> { List__range(0, l.s.len() as int) }
pub open spec fn List__count<A>(l: List<A>) -> int { l.s.len() as int }
pub open spec fn List__iter_enumerated<A>(l: List<A>) -> List<(int, A)> { List__enumerate(l) }
pub open spec fn List__extend<A>(l: List<A>, r: List<A>) -> List<A> { List { s: l.s + r.s } }
pub open spec fn List__iter<A>(l: List<A>) -> List<A> { l }
pub open spec fn List__into_iter<A>(l: List<A>) -> List<A> { l }
pub open spec fn List__clone<A>(l: List<A>) -> List<A> { l }
pub open spec fn List__cloned<A>(l: List<A>) -> List<A> { l }
pub open spec fn List__copied<A>(l: List<A>) -> List<A> { l }
pub open spec fn List__rev<A>(l: List<A>) -> List<A> { List { s: l.s.reverse() } }
pub open spec fn List__skip<A>(l: List<A>, n: int) -> List<A> { List { s: if n >= l.s.len() { Seq::empty() } else { l.s.subrange(n, l.s.len() as int) } } }
pub open spec fn List__take<A>(l: List<A>, n: int) -> List<A> { List { s: if n >= l.s.len() { l.s } else { l.s.subrange(0, n) } } }
pub open spec fn List__contains<A>(l: List<A>, a: A) -> bool { l.s.contains(a) }

pub open spec fn List__any<A>(l: List<A>, f: spec_fn(A) -> bool) -> bool { exists|i: int| 0 <= i < l.s.len() && f(#[trigger] l.s[i]) }
pub open spec fn List__all<A>(l: List<A>, f: spec_fn(A) -> bool) -> bool { forall|i: int| 0 <= i < l.s.len() ==> f(#[trigger] l.s[i]) }
/// (conservative: the closure must not panic on any element)
pub open spec fn List__any_ok<A>(l: List<A>, f: spec_fn(A) -> bool, f_ok: spec_fn(A) -> bool) -> bool {
    forall|i: int| 0 <= i < l.s.len() && (forall|j: int| 0 <= j < i ==> !f(#[trigger] l.s[j])) ==> f_ok(#[trigger] l.s[i])
}
pub open spec fn List__all_ok<A>(l: List<A>, f: spec_fn(A) -> bool, f_ok: spec_fn(A) -> bool) -> bool {
    forall|i: int| 0 <= i < l.s.len() && (forall|j: int| 0 <= j < i ==> f(#[trigger] l.s[j])) ==> f_ok(#[trigger] l.s[i])
}
pub open spec fn List__map<A, B>(l: List<A>, f: spec_fn(A) -> B) -> List<B> { List { s: Seq::new(l.s.len(), |i: int| f(l.s[i])) } }
pub open spec fn List__map_ok<A, B>(l: List<A>, f: spec_fn(A) -> B, f_ok: spec_fn(A) -> bool) -> bool { forall|i: int| 0 <= i < l.s.len() ==> f_ok(#[trigger] l.s[i]) }
pub open spec fn List__map_with_idx<A, B>(l: List<A>, f: spec_fn(int, A) -> B) -> List<B> { List { s: Seq::new(l.s.len(), |i: int| f(i, l.s[i])) } }
pub open spec fn List__map_with_idx_ok<A, B>(l: List<A>, f: spec_fn(int, A) -> B, f_ok: spec_fn(int, A) -> bool) -> bool { forall|i: int| 0 <= i < l.s.len() ==> f_ok(i, #[trigger] l.s[i]) }
pub open spec fn fold_from<A, B>(s: Seq<A>, i: int, b: B, f: spec_fn(B, int, A) -> B) -> B decreases s.len() - i {
    if i < 0 || i >= s.len() { b } else { fold_from(s, i + 1, f(b, i, s[i]), f) }
}
pub open spec fn fold_from_ok<A, B>(s: Seq<A>, i: int, b: B, f: spec_fn(B, int, A) -> B, f_ok: spec_fn(B, int, A) -> bool) -> bool decreases s.len() - i {
    if i < 0 || i >= s.len() { true } else { f_ok(b, i, s[i]) && fold_from_ok(s, i + 1, f(b, i, s[i]), f, f_ok) }
}
pub open spec fn List__fold<A, B>(l: List<A>, b: B, f: spec_fn(B, A) -> B) -> B { fold_from(l.s, 0, b, |b: B, i: int, a: A| f(b, a)) }
pub open spec fn List__fold_ok<A, B>(l: List<A>, b: B, f: spec_fn(B, A) -> B, f_ok: spec_fn(B, A) -> bool) -> bool { fold_from_ok(l.s, 0, b, |b: B, i: int, a: A| f(b, a), |b: B, i: int, a: A| f_ok(b, a)) }
pub open spec fn List__fold_with_idx<A, B>(l: List<A>, b: B, f: spec_fn(B, int, A) -> B) -> B { fold_from(l.s, 0, b, f) }
pub open spec fn List__fold_with_idx_ok<A, B>(l: List<A>, b: B, f: spec_fn(B, int, A) -> B, f_ok: spec_fn(B, int, A) -> bool) -> bool { fold_from_ok(l.s, 0, b, f, f_ok) }
pub open spec fn flat_map_from<A, B>(s: Seq<A>, f: spec_fn(A) -> List<B>) -> Seq<B> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { flat_map_from(s.drop_last(), f) + f(s.last()).s }
}
pub open spec fn List__flat_map<A, B>(l: List<A>, f: spec_fn(A) -> List<B>) -> List<B> { List { s: flat_map_from(l.s, f) } }
pub open spec fn List__flat_map_ok<A, B>(l: List<A>, f: spec_fn(A) -> List<B>, f_ok: spec_fn(A) -> bool) -> bool { forall|i: int| 0 <= i < l.s.len() ==> f_ok(#[trigger] l.s[i]) }
pub open spec fn find_from<A>(s: Seq<A>, i: int, f: spec_fn(A) -> bool) -> int decreases s.len() - i {
    if i < 0 || i >= s.len() { -1 } else if f(s[i]) { i } else { find_from(s, i + 1, f) }
}
pub open spec fn List__find<A>(l: List<A>, f: spec_fn(A) -> bool) -> Option<A> { let k = find_from(l.s, 0, f); if k < 0 { None } else { Some(l.s[k]) } }
pub open spec fn List__find_ok<A>(l: List<A>, f: spec_fn(A) -> bool, f_ok: spec_fn(A) -> bool) -> bool { List__any_ok(l, f, f_ok) }
pub open spec fn List__position<A>(l: List<A>, f: spec_fn(A) -> bool) -> Option<int> { let k = find_from(l.s, 0, f); if k < 0 { None } else { Some(k) } }
pub open spec fn List__position_ok<A>(l: List<A>, f: spec_fn(A) -> bool, f_ok: spec_fn(A) -> bool) -> bool { List__any_ok(l, f, f_ok) }
pub open spec fn List__find_map<A, B>(l: List<A>, f: spec_fn(A) -> Option<B>) -> Option<B> { let k = find_from(l.s, 0, |a: A| f(a) is Some); if k < 0 { None } else { f(l.s[k]) } }
pub open spec fn List__find_map_ok<A, B>(l: List<A>, f: spec_fn(A) -> Option<B>, f_ok: spec_fn(A) -> bool) -> bool { List__any_ok(l, |a: A| f(a) is Some, f_ok) }
pub open spec fn List__filter<A>(l: List<A>, f: spec_fn(A) -> bool) -> List<A> { List { s: l.s.filter(f) } }
pub open spec fn List__filter_ok<A>(l: List<A>, f: spec_fn(A) -> bool, f_ok: spec_fn(A) -> bool) -> bool { forall|i: int| 0 <= i < l.s.len() ==> f_ok(#[trigger] l.s[i]) }
pub open spec fn List__filter_map<A, B>(l: List<A>, f: spec_fn(A) -> Option<B>) -> List<B> { List { s: flat_map_from(l.s, |a: A| match f(a) { Some(b) => list_once(b), None => List__new() }) } }
pub open spec fn List__filter_map_ok<A, B>(l: List<A>, f: spec_fn(A) -> Option<B>, f_ok: spec_fn(A) -> bool) -> bool { forall|i: int| 0 <= i < l.s.len() ==> f_ok(#[trigger] l.s[i]) }
pub open spec fn List__try_map_opt<A, B>(l: List<A>, f: spec_fn(A) -> Option<B>) -> Option<List<B>> {
    if forall|i: int| 0 <= i < l.s.len() ==> f(#[trigger] l.s[i]) is Some { Some(List { s: Seq::new(l.s.len(), |i: int| f(l.s[i])->0) }) } else { None }
}
pub open spec fn List__try_map_opt_ok<A, B>(l: List<A>, f: spec_fn(A) -> Option<B>, f_ok: spec_fn(A) -> bool) -> bool {
    forall|i: int| 0 <= i < l.s.len() && (forall|j: int| 0 <= j < i ==> f(#[trigger] l.s[j]) is Some) ==> f_ok(#[trigger] l.s[i])
}
pub open spec fn List__try_map_res<A, B, E>(l: List<A>, f: spec_fn(A) -> Result<B, E>) -> Result<List<B>, E> {
    let k = find_from(l.s, 0, |a: A| f(a) is Err);
    if k < 0 { Ok(List { s: Seq::new(l.s.len(), |i: int| f(l.s[i])->Ok_0) }) } else { Err(f(l.s[k])->Err_0) }
}
pub open spec fn List__try_map_res_ok<A, B, E>(l: List<A>, f: spec_fn(A) -> Result<B, E>, f_ok: spec_fn(A) -> bool) -> bool {
    forall|i: int| 0 <= i < l.s.len() && (forall|j: int| 0 <= j < i ==> f(#[trigger] l.s[j]) is Ok) ==> f_ok(#[trigger] l.s[i])
}
/// Stable sorting by a key: left abstract.
pub uninterp spec fn List__sort_by_key<A, K>(l: List<A>, f: spec_fn(A) -> K) -> List<A>;
pub broadcast axiom fn axiom_sort_perm<A, K>(l: List<A>, f: spec_fn(A) -> K)
    ensures #[trigger] List__sort_by_key(l, f).s.to_multiset() == l.s.to_multiset(),
        List__sort_by_key(l, f).s.len() == l.s.len();
pub broadcast axiom fn axiom_sort_sorted_size<A>(l: List<A>, f: spec_fn(A) -> Size)
    ensures ({ let r = #[trigger] List__sort_by_key::<A, Size>(l, f); forall|i: int, j: int| 0 <= i <= j < l.s.len() ==> f(#[trigger] r.s[i]).raw <= f(#[trigger] r.s[j]).raw });
pub open spec fn List__sort_by_key_ok<A, K>(l: List<A>, f: spec_fn(A) -> K, f_ok: spec_fn(A) -> bool) -> bool { forall|i: int| 0 <= i < l.s.len() ==> f_ok(#[trigger] l.s[i]) }

// ------------------------------------------------------------------ Map, Set
pub open spec fn Map__new<K, V>() -> Map<K, V> { Map { m: vstd::map::Map::empty() } }
pub open spec fn Map__get<K, V>(m: Map<K, V>, k: K) -> Option<V> { if m.m.contains_key(k) { Some(m.m[k]) } else { None } }
pub open spec fn Map__index_at<K, V>(m: Map<K, V>, k: K) -> V { m.m[k] }
pub open spec fn Map__index_at_ok<K, V>(m: Map<K, V>, k: K) -> bool { m.m.contains_key(k) }
pub open spec fn Map__contains_key<K, V>(m: Map<K, V>, k: K) -> bool { m.m.contains_key(k) }
pub open spec fn Map__insert<K, V>(m: Map<K, V>, k: K, v: V) -> (Map<K, V>, Option<V>) { (Map { m: m.m.insert(k, v) }, Map__get(m, k)) }
pub open spec fn Map__try_insert<K, V>(m: Map<K, V>, k: K, v: V) -> (Map<K, V>, Result<(), ()>) {
    if m.m.contains_key(k) { (m, Err(())) } else { (Map { m: m.m.insert(k, v) }, Ok(())) }
}
pub open spec fn Map__remove<K, V>(m: Map<K, V>, k: K) -> (Map<K, V>, Option<V>) { (Map { m: m.m.remove(k) }, Map__get(m, k)) }
/// Iteration order of a map is unspecified: some duplicate-free enumeration of the keys.
pub uninterp spec fn Map__keys<K, V>(m: Map<K, V>) -> List<K>;
pub broadcast axiom fn axiom_map_keys<K, V>(m: Map<K, V>)
    requires m.m.dom().finite()
    ensures (#[trigger] Map__keys(m)).s.no_duplicates(), Map__keys(m).s.len() == m.m.dom().len(),
        forall|k: K| #[trigger] Map__keys(m).s.contains(k) <==> m.m.contains_key(k);
pub open spec fn Map__values<K, V>(m: Map<K, V>) -> List<V> { List { s: Seq::new(Map__keys(m).s.len(), |i: int| m.m[Map__keys(m).s[i]]) } }
pub open spec fn Map__iter<K, V>(m: Map<K, V>) -> List<(K, V)> { List { s: Seq::new(Map__keys(m).s.len(), |i: int| (Map__keys(m).s[i], m.m[Map__keys(m).s[i]])) } }
pub open spec fn Map__into_iter<K, V>(m: Map<K, V>) -> List<(K, V)> { Map__iter(m) }
pub open spec fn Map__len<K, V>(m: Map<K, V>) -> int { m.m.dom().len() as int }
pub open spec fn Map__is_empty<K, V>(m: Map<K, V>) -> bool { m.m.dom().len() == 0 }
/// insertion in order: a later pair wins
pub open spec fn map_from<K, V>(s: Seq<(K, V)>) -> vstd::map::Map<K, V> decreases s.len() {
    if s.len() == 0 { vstd::map::Map::empty() } else { map_from(s.drop_last()).insert(s.last().0, s.last().1) }
}
pub open spec fn Map__from_list<K, V>(l: List<(K, V)>) -> Map<K, V> { Map { m: map_from(l.s) } }
pub open spec fn Set__from_list<A>(l: List<A>) -> Set<A> { Set { s: l.s.to_set() } }
pub open spec fn Set__new<A>() -> Set<A> { Set { s: vstd::set::Set::empty() } }
pub open spec fn Set__contains<A>(s: Set<A>, a: A) -> bool { s.s.contains(a) }
pub open spec fn Set__insert<A>(s: Set<A>, a: A) -> Set<A> { Set { s: s.s.insert(a) } }
pub open spec fn Set__remove<A>(s: Set<A>, a: A) -> Set<A> { Set { s: s.s.remove(a) } }
pub open spec fn Set__try_insert<A>(s: Set<A>, a: A) -> (Set<A>, Result<(), ()>) { if s.s.contains(a) { (s, Err(())) } else { (Set { s: s.s.insert(a) }, Ok(())) } }
pub open spec fn Set__len<A>(s: Set<A>) -> int { s.s.len() as int }
pub open spec fn Set__is_empty<A>(s: Set<A>) -> bool { s.s.len() == 0 }
pub uninterp spec fn Set__iter<A>(s: Set<A>) -> List<A>;
pub broadcast axiom fn axiom_set_iter<A>(s: Set<A>)
    requires s.s.finite()
    ensures (#[trigger] Set__iter(s)).s.no_duplicates(), Set__iter(s).s.len() == s.s.len(),
        forall|a: A| #[trigger] Set__iter(s).s.contains(a) <==> s.s.contains(a);
pub open spec fn Set__into_iter<A>(s: Set<A>) -> List<A> { Set__iter(s) }

// ------------------------------------------------------------------ Endianness
pub open spec fn be_val(s: Seq<u8>, sg: Signedness) -> int decreases s.len() {
    if s.len() == 0 { 0 }
    else if s.len() == 1 { if sg == Signedness::Signed && s[0] >= 128 { s[0] as int - 256 } else { s[0] as int } }
    else { be_val(s.drop_last(), sg) * 256 + s.last() as int }
}
pub open spec fn Endianness__decode(e: Endianness, sg: Signedness, b: List<u8>) -> int {
    match e { Endianness::BigEndian => be_val(b.s, sg), Endianness::LittleEndian => be_val(b.s.reverse(), sg) }
}
pub open spec fn Endianness__decode_ok(e: Endianness, sg: Signedness, b: List<u8>) -> bool { b.s.len() > 0 }
pub open spec fn be_bytes(i: int, n: nat) -> Seq<u8> decreases n {
    if n == 0 { Seq::empty() } else { be_bytes(i / 256, (n - 1) as nat).push((i % 256) as u8) }
}
pub open spec fn Endianness__encode(e: Endianness, sg: Signedness, size: Size, i: int) -> Option<List<u8>> {
    if !int__in_bounds(i, sg, size) { None }
    else { match e {
        Endianness::BigEndian => Some(List { s: be_bytes(i, size.raw as nat) }),
        Endianness::LittleEndian => Some(List { s: be_bytes(i, size.raw as nat).reverse() }),
    } }
}
pub open spec fn Endianness__encode_ok(e: Endianness, sg: Signedness, size: Size, i: int) -> bool { int__in_bounds_ok(i, sg, size) }

// ------------------------------------------------------------------ nondeterminism
/// A choice the environment makes: only admissible outcomes; which one is unknown.
pub uninterp spec fn nd_pick<E>(d: IntDistribution, f: spec_fn(int) -> bool) -> Result<int, E>;
pub open spec fn distr_ok(d: IntDistribution) -> bool {
    d.start >= 0 && d.divisor > 0 && int__div_ceil(d.start, d.divisor) < int__div_ceil(d.end, d.divisor)
}
pub open spec fn in_distr(d: IntDistribution, x: int) -> bool { d.start <= x < d.end && x % d.divisor == 0 }
pub broadcast axiom fn axiom_pick<E>(d: IntDistribution, f: spec_fn(int) -> bool)
    requires (#[trigger] nd_pick::<E>(d, f)) is Ok, distr_ok(d)
    ensures f(nd_pick::<E>(d, f)->Ok_0), in_distr(d, nd_pick::<E>(d, f)->Ok_0);
/// without an admissible outcome there is no behaviour: a distinguished error value
pub uninterp spec fn nd_stuck<E>() -> E;
pub broadcast axiom fn axiom_pick_stuck<E>(d: IntDistribution, f: spec_fn(int) -> bool)
    requires (#[trigger] nd_pick::<E>(d, f)) is Err
    ensures nd_pick::<E>(d, f)->Err_0 == nd_stuck::<E>();
pub open spec fn nd_pick_ok<E>(d: IntDistribution, f: spec_fn(int) -> bool, f_ok: spec_fn(int) -> bool) -> bool {
    distr_ok(d) && (forall|x: int| in_distr(d, x) ==> #[trigger] f_ok(x))
}
pub uninterp spec fn nd_predict<A, E>(f: spec_fn(A) -> bool) -> Result<A, E>;
pub broadcast axiom fn axiom_predict<A, E>(f: spec_fn(A) -> bool)
    requires (#[trigger] nd_predict::<A, E>(f)) is Ok
    ensures f(nd_predict::<A, E>(f)->Ok_0);
pub open spec fn nd_predict_ok<A, E>(f: spec_fn(A) -> bool, f_ok: spec_fn(A) -> bool) -> bool { true }

pub broadcast group group_shim {
    axiom_sort_perm, axiom_map_keys, axiom_set_iter, axiom_pick, axiom_pick_stuck, axiom_predict,
}

} // verus!
