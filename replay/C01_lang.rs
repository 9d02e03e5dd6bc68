use super::*;
use std::format;
use crate::vhu;
use crate::libspecr::hidden::*;
use crate::libspecr::Name;
#[path = "lang_common.rs"]
mod lc;

type M = BasicMemory<x86_64>;
#[derive(Clone, Debug, PartialEq)]
enum Out { V(Int), Ub, Panic(std::string::String), Other }

fn run_int(op: IntBinOp, a: Int, b: Int, t: IntType) -> Out {
    match vhu::catch(|| Machine::<M>::eval_int_bin_op(op, a, b, t)) {
        Ok(Ok(v)) => Out::V(t.bring_in_bounds(v)),
        Ok(Err(TerminationInfo::Ub(_))) => Out::Ub,
        Ok(Err(_)) => Out::Other,
        Err(p) => Out::Panic(p),
    }
}
fn run_bin(m: &Machine<M>, op: BinOp, a: Value<M>, ta: Type, b: Value<M>, tb: Type) -> std::result::Result<(Value<M>, Type), Out> {
    match vhu::catch(|| m.eval_bin_op(op, (a, ta), (b, tb))) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(TerminationInfo::Ub(_))) => Err(Out::Ub),
        Ok(Err(_)) => Err(Out::Other),
        Err(p) => Err(Out::Panic(p)),
    }
}
fn run_machine(m: &Machine<M>, op: IntBinOp, a: Int, b: Int, t: IntType, tb: IntType) -> Out {
    match run_bin(m, BinOp::Int(op), Value::Int(a), Type::Int(t), Value::Int(b), Type::Int(tb)) {
        Ok((Value::Int(i), Type::Int(rt))) => if rt == t { Out::V(i) } else { Out::Other },
        Ok(_) => Out::Other,
        Err(o) => o,
    }
}

macro_rules! interesting { ($t:ty) => {{
    let mut v: std::vec::Vec<$t> = std::vec![0, 1, 2, 3, 7, 8, 9, 15, 16, 31, 32, 63, 64, 100, <$t>::MAX, <$t>::MAX - 1, <$t>::MIN, <$t>::MIN + 1, (0 as $t).wrapping_sub(1), (0 as $t).wrapping_sub(2), <$t>::MAX / 2, <$t>::MAX / 2 + 1, 10, 127];
    v.push((vhu::next128()) as $t); v.push((vhu::next128()) as $t); v
}} }

macro_rules! one { ($m:expr, $t:ty, $signed:expr, $a:expr, $b:expr) => {{
    let (a, b): ($t, $t) = ($a, $b);
    let bits = <$t>::BITS;
    let ty = IntType { signed: $signed, size: Size::from_bits(bits).unwrap() };
    let (ia, ib) = (Int::from(a), Int::from(b));
    let mut t = |op: IntBinOp, want: Option<$t>| {
        let w = match want { Some(v) => Out::V(Int::from(v)), None => Out::Ub };
        let g = run_machine($m, op, ia, ib, ty, ty);
        vhu::eq(g, w.clone(), || format!("{:?} {} {:?} {}", op, stringify!($t), a, b));
        let g = run_int(op, ia, ib, ty);
        vhu::eq(g, w, || format!("eval_int_bin_op {:?} {} {:?} {}", op, stringify!($t), a, b));
    };
    t(IntBinOp::Add, Some(a.wrapping_add(b)));
    t(IntBinOp::Sub, Some(a.wrapping_sub(b)));
    t(IntBinOp::Mul, Some(a.wrapping_mul(b)));
    t(IntBinOp::AddUnchecked, a.checked_add(b));
    t(IntBinOp::SubUnchecked, a.checked_sub(b));
    t(IntBinOp::MulUnchecked, a.checked_mul(b));
    t(IntBinOp::Div, a.checked_div(b));
    t(IntBinOp::Rem, a.checked_rem(b));
    t(IntBinOp::DivExact, match a.checked_rem(b) { Some(0) => a.checked_div(b), _ => None });
    t(IntBinOp::BitAnd, Some(a & b));
    t(IntBinOp::BitOr, Some(a | b));
    t(IntBinOp::BitXor, Some(a ^ b));
    let amount = { let m = b as i128; m.rem_euclid(bits as i128) as u32 };
    // (u128 shift amounts above i128::MAX: the type's bits divide 2^128, so the cast keeps the residue)
    t(IntBinOp::Shl, Some(a.wrapping_shl(amount)));
    t(IntBinOp::Shr, Some(a.wrapping_shr(amount)));
    let inr = { #[allow(unused_comparisons)] { b >= 0 && (b as u128) < bits as u128 } };
    t(IntBinOp::ShlUnchecked, if inr { Some(a.wrapping_shl(b as u32)) } else { None });
    t(IntBinOp::ShrUnchecked, if inr { Some(a.wrapping_shr(b as u32)) } else { None });
    for (op, (w, o)) in [(IntBinOpWithOverflow::Add, a.overflowing_add(b)), (IntBinOpWithOverflow::Sub, a.overflowing_sub(b)), (IntBinOpWithOverflow::Mul, a.overflowing_mul(b))] {
        let g = run_bin($m, BinOp::IntWithOverflow(op), Value::Int(ia), Type::Int(ty), Value::Int(ib), Type::Int(ty));
        let ok = match &g { Ok((Value::Tuple(l), rt)) => l.len() == Int::from(2) && l.index_at(Int::ZERO) == Value::Int(Int::from(w)) && l.index_at(Int::ONE) == Value::Bool(o) && *rt == ty.with_overflow::<x86_64>(), _ => false };
        vhu::check(ok, || format!("with_overflow {:?} {} {} {}: got {:?} expected ({}, {})", op, stringify!($t), a, b, g, w, o));
    }
    rel($m, Value::Int(ia), Value::Int(ib), Type::Int(ty), a.cmp(&b), &format!("{} {} {}", stringify!($t), a, b));
}} }

fn rel(m: &Machine<M>, a: Value<M>, b: Value<M>, t: Type, o: std::cmp::Ordering, d: &str) {
    for (op, w) in [(RelOp::Lt, o.is_lt()), (RelOp::Le, o.is_le()), (RelOp::Gt, o.is_gt()), (RelOp::Ge, o.is_ge()), (RelOp::Eq, o.is_eq()), (RelOp::Ne, o.is_ne())] {
        let g = run_bin(m, BinOp::Rel(op), a, t, b, t);
        vhu::check(matches!(g, Ok((Value::Bool(x), Type::Bool)) if x == w), || format!("{op:?} {d}: got {g:?} expected {w}"));
    }
    let g = run_bin(m, BinOp::Rel(RelOp::Cmp), a, t, b, t);
    let w = Int::from(o as i8);
    vhu::check(matches!(g, Ok((Value::Int(x), Type::Int(it))) if x == w && it == IntType { signed: Signed, size: Size::from_bytes(1).unwrap() }), || format!("Cmp {d}: got {g:?} expected {w:?}"));
}

macro_rules! unary { ($m:expr, $t:ty, $signed:expr, $a:expr) => {{
    let a: $t = $a;
    let ty = IntType { signed: $signed, size: Size::from_bits(<$t>::BITS).unwrap() };
    for (op, w, rt) in [(IntUnOp::Neg, Int::from(a.wrapping_neg()), ty), (IntUnOp::BitNot, Int::from(!a), ty), (IntUnOp::CountOnes, Int::from(a.count_ones()), IntType { signed: Unsigned, size: Size::from_bytes(4).unwrap() })] {
        let g = vhu::catch(|| $m.eval_un_op(UnOp::Int(op), (Value::Int(Int::from(a)), Type::Int(ty))));
        let ok = matches!(&g, Ok(Ok((Value::Int(x), Type::Int(t)))) if *x == w && *t == rt);
        vhu::check(ok, || format!("{:?} {} {}: got {:?} expected {:?}", op, stringify!($t), a, g, w));
    }
    cast!($m, $t, ty, a, i8, Signed); cast!($m, $t, ty, a, u8, Unsigned); cast!($m, $t, ty, a, i16, Signed); cast!($m, $t, ty, a, u16, Unsigned);
    cast!($m, $t, ty, a, i32, Signed); cast!($m, $t, ty, a, u32, Unsigned); cast!($m, $t, ty, a, i64, Signed); cast!($m, $t, ty, a, u64, Unsigned);
    cast!($m, $t, ty, a, i128, Signed); cast!($m, $t, ty, a, u128, Unsigned);
}} }
macro_rules! cast { ($m:expr, $t:ty, $ty:expr, $a:expr, $to:ty, $s:expr) => {{
    let to = IntType { signed: $s, size: Size::from_bits(<$to>::BITS).unwrap() };
    let w = Int::from($a as $to);
    let g = vhu::catch(|| $m.eval_un_op(UnOp::Cast(CastOp::IntToInt(to)), (Value::Int(Int::from($a)), Type::Int($ty))));
    let ok = matches!(&g, Ok(Ok((Value::Int(x), Type::Int(t)))) if *x == w && *t == to);
    vhu::check(ok, || format!("cast {} {} as {}: got {:?} expected {:?}", stringify!($t), $a, stringify!($to), g, w));
    let fits = Int::from($a) == w;
    vhu::check(to.can_represent(Int::from($a)) == fits && to.bring_in_bounds(Int::from($a)) == w, || format!("bring_in_bounds/can_represent {} in {}", $a, stringify!($to)));
}} }
macro_rules! all { ($m:expr, $t:ty, $signed:expr) => {{
    let v = interesting!($t);
    for &a in &v { for &b in &v { one!($m, $t, $signed, a, b); } unary!($m, $t, $signed, a); }
    for _ in 0..vhu::scale(60) {
        let (a, b) = (vhu::next128() as $t, vhu::next128() as $t);
        let b = if vhu::coin() { b % 100 } else { b };
        one!($m, $t, $signed, a, b); unary!($m, $t, $signed, a);
        // a and b related, so that exact division and small differences occur
        let c = b.wrapping_mul(vhu::below(20) as $t);
        one!($m, $t, $signed, c, b); one!($m, $t, $signed, b, b.wrapping_add(vhu::below(3) as $t).wrapping_sub(1));
    }
}} }

pub fn run() {
    let m = lc::machine::<M>();
    all!(&m, i8, Signed); all!(&m, u8, Unsigned); all!(&m, i16, Signed); all!(&m, u16, Unsigned); all!(&m, i32, Signed); all!(&m, u32, Unsigned);
    all!(&m, i64, Signed); all!(&m, u64, Unsigned); all!(&m, i128, Signed); all!(&m, u128, Unsigned);
    // every pair of 8-bit values for the operators where single pairs matter
    for a in i8::MIN..=i8::MAX { for b in [-128i8, -127, -8, -1, 0, 1, 2, 3, 7, 8, 127] { one!(&m, i8, Signed, a, b); } }
    // mixed shift-amount types
    for _ in 0..vhu::scale(300) {
        let a = vhu::next() as i32; let b = vhu::range(-300, 300);
        let (t, tb) = (IntType { signed: Signed, size: Size::from_bytes(4).unwrap() }, IntType { signed: Signed, size: Size::from_bytes(8).unwrap() });
        let am = b.rem_euclid(32) as u32;
        vhu::eq(run_machine(&m, IntBinOp::Shl, Int::from(a), Int::from(b), t, tb), Out::V(Int::from(a.wrapping_shl(am))), || format!("i32 {a} shl i64 {b}"));
        vhu::eq(run_machine(&m, IntBinOp::Shr, Int::from(a), Int::from(b), t, tb), Out::V(Int::from(a.wrapping_shr(am))), || format!("i32 {a} shr i64 {b}"));
        let inr = (0..32).contains(&b);
        vhu::eq(run_machine(&m, IntBinOp::ShlUnchecked, Int::from(a), Int::from(b), t, tb), if inr { Out::V(Int::from(a << b)) } else { Out::Ub }, || format!("i32 {a} shl_unchecked i64 {b}"));
        vhu::eq(run_machine(&m, IntBinOp::ShrUnchecked, Int::from(a), Int::from(b), t, tb), if inr { Out::V(Int::from(a >> b)) } else { Out::Ub }, || format!("i32 {a} shr_unchecked i64 {b}"));
    }
    for a in [false, true] { for b in [false, true] { rel(&m, Value::Bool(a), Value::Bool(b), Type::Bool, a.cmp(&b), &format!("bool {a} {b}")); } }
    // pointers: address first, then metadata
    for _ in 0..vhu::scale(300) {
        let mk = || { let a = vhu::below(4); (a, ThinPointer { addr: Int::from(a), provenance: None }) };
        let ((a, pa), (b, pb)) = (mk(), mk());
        let (k, x, y) = (vhu::below(3), vhu::below(3), vhu::below(3));
        let meta = |z: u64| match k { 0 => None, 1 => Some(PointerMeta::ElementCount(Int::from(z))), _ => Some(PointerMeta::VTablePointer(ThinPointer { addr: Int::from(z), provenance: None })) };
        let o = if k == 0 { a.cmp(&b) } else { (a, x).cmp(&(b, y)) };
        let t = Type::Ptr(PtrType::Raw { meta_kind: match k { 0 => PointerMetaKind::None, 1 => PointerMetaKind::ElementCount, _ => PointerMetaKind::VTablePointer(TraitName(Name::from_internal(0))) } });
        rel(&m, Value::Ptr(Pointer { thin_pointer: pa, metadata: meta(x) }), Value::Ptr(Pointer { thin_pointer: pb, metadata: meta(y) }), t, o, &format!("ptr kind {k} ({a},{x}) ({b},{y})"));
    }
}
