use super::*;
use std::format;
use crate::vhu;
use crate::libspecr::hidden::*;
use crate::libspecr::Name;
#[path = "lang_common.rs"]
mod lc;
use lc::*;

fn go<M: Memory>(name: &str, bits: u32, rounds: u64) {
    let end = 1i128 << bits;
    for round in 0..vhu::scale(rounds) {
        let mut m = machine::<M>();
        // (pointer, start, size, live)
        let mut al_: std::vec::Vec<(ThinPointer<M::Provenance>, i128, i128, bool)> = std::vec![];
        for _ in 0..vhu::range(1, 4) {
            let s = vhu::pick(&[0i64, 1, 2, 5, 8, 16]);
            if let Ok(Ok(p)) = vhu::catch(|| m.mem.allocate(AllocationKind::Heap, sz(s), al(1)).get_internal()) { al_.push((p, n(p.addr), s as i128, true)); }
        }
        if al_.is_empty() { continue; }
        if vhu::below(4) == 0 { let i = vhu::below(al_.len() as u64) as usize; let a = &mut al_[i]; if m.mem.deallocate(a.0, AllocationKind::Heap, sz(a.2 as i64), al(1)).is_ok() { a.3 = false; } }
        let deref = |id: Option<usize>, from: i128, len: i128| -> bool { len == 0 || match id { None => false, Some(i) => al_[i].3 && from >= al_[i].1 && from + len <= al_[i].1 + al_[i].2 } };
        let gap = |id: Option<usize>, a: i128, d: i128| if d >= 0 { deref(id, a, d) } else { deref(id, a + d, -d) };
        let some_ptr = || -> (ThinPointer<M::Provenance>, Option<usize>, i128) {
            let i = vhu::below(al_.len() as u64) as usize;
            let a = match vhu::below(8) { 0 => 0, 1 => end - 1, 2 => vhu::below(end.min(1 << 60) as u64) as i128, 3 => al_[i].1 + al_[i].2, 4 => al_[i].1, _ => (al_[i].1 + vhu::range(-2, al_[i].2 as i64 + 3) as i128).clamp(0, end - 1) };
            let id = if vhu::below(8) == 0 { None } else { Some(i) };
            (ThinPointer { addr: Int::from(a), provenance: id.and_then(|i| al_[i].0.provenance) }, id, a)
        };
        let pty = Type::Ptr(PtrType::Raw { meta_kind: PointerMetaKind::None });
        let th = |p: ThinPointer<M::Provenance>| Value::<M>::Ptr(p.widen(None));
        let st = format!("{name} round {round} {:?}", al_.iter().map(|a| (a.1, a.2, a.3)).collect::<std::vec::Vec<_>>());
        let isz = IntType { signed: Signed, size: M::T::PTR_SIZE };
        for _ in 0..40 {
            let (p, id, a) = some_ptr();
            let d: i128 = match vhu::below(8) { 0 => 0, 1 => end / 2 - 1, 2 => -(end / 2), 3 => vhu::range(-20, 20) as i128, 4 => -a, _ => vhu::range(-6, 9) as i128 };
            for inbounds in [false, true] {
                let r = vhu::catch(|| m.eval_bin_op(BinOp::PtrOffset { inbounds }, (th(p), pty), (Value::Int(Int::from(d)), Type::Int(isz))));
                let ds = || format!("{st} offset inbounds={inbounds} from {a} (provenance #{id:?}) by {d}");
                let ok = !inbounds || gap(id, a, d);
                vhu::eq(out(&r), if ok { O::Ok } else { O::Ub }, || ds());
                if let Ok(Ok((v, t))) = r {
                    let want = if inbounds { a + d } else { (a + d).rem_euclid(end) };
                    vhu::check(v == th(ThinPointer { addr: Int::from(want), provenance: p.provenance }) && t == pty, || format!("{} result {v:?}", ds()));
                }
            }
            let (q, jd, b) = if vhu::below(3) == 0 { some_ptr() } else { let i = id.unwrap_or(0); let b = (a + vhu::range(-6, 7) as i128).clamp(0, end - 1); (ThinPointer { addr: Int::from(b), provenance: al_[i].0.provenance }, Some(i), b) };
            for inbounds in [false, true] { for nonneg in [false, true] {
                let r = vhu::catch(|| m.eval_bin_op(BinOp::PtrOffsetFrom { inbounds, nonneg }, (th(p), pty), (th(q), pty)));
                let ds = || format!("{st} distance inbounds={inbounds} nonneg={nonneg} from {a} (provenance #{id:?}) to {b} (provenance #{jd:?})");
                let exact = a - b;
                let d = if inbounds { exact } else { let x = exact.rem_euclid(end); if x >= end / 2 { x - end } else { x } };
                let ok = (!inbounds || (gap(id, a, -exact) && gap(jd, b, exact))) && !(nonneg && d < 0);
                vhu::eq(out(&r), if ok { O::Ok } else { O::Ub }, || ds());
                if let Ok(Ok((v, t))) = r { vhu::check(v == Value::Int(Int::from(d)) && t == Type::Int(isz), || format!("{} result {v:?}", ds())); }
            } }
        }
    }
}
pub fn run() {
    go::<BasicMemory<ptr16>>("basic/16-bit", 16, 250);
    go::<TreeBorrowsMemory<ptr16>>("tb/16-bit", 16, 80);
    go::<BasicMemory<x86_64>>("basic/64-bit", 64, 250);
}
