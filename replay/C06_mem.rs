use super::*;
use std::format;
use crate::vhu;
use crate::libspecr::hidden::*;
#[path = "mem_common.rs"]
mod mc;
use mc::*;

fn go<M: Mm>(name: &str, big: i128) {
    for round in 0..vhu::scale(300) {
        let mut m = M::new();
        let mut live: std::vec::Vec<(usize, ThinPointer<M::Provenance>, i128, i64, AllocationKind)> = std::vec![];
        for step in 0..25 {
            if !live.is_empty() && vhu::below(3) == 0 {
                let (_, p, s, a, k) = live.swap_remove(vhu::below(live.len() as u64) as usize);
                let r = m.deallocate(p, k, sz(s), al(a));
                vhu::eq(out(&r), O::Ok, || format!("{name} dealloc of a live allocation"));
                continue;
            }
            let s = match vhu::below(8) { 0 => 0, 1 => 1, 2 => big, 3 => big + 1, 4 => big - 1, _ => vhu::range(0, 20) as i128 };
            let s = if s > 1000 && s < 100_000 && vhu::below(40) != 0 { 3 } else { s };
            let a = 1i64 << vhu::below(5);
            let k = vhu::pick(&kinds());
            if s > 100_000 && !M::TB && s >= max_size::<M>() {
                let r = alloc(&mut m, k, s, a);
                vhu::check(matches!(&r, Some(r) if out(r) == O::Ub), || format!("{name} allocate {s}: a too large request must be undefined behaviour, got {:?}", r.map(|r| out(&r))));
                continue;
            }
            if s > 100_000 || s > 1000 && M::TB { continue; }
            let before: std::vec::Vec<_> = (0..m.cnt()).map(|i| m.al(i)).collect();
            let Some(r) = alloc(&mut m, k, s, a) else { vhu::check(m.cnt() == before.len(), || format!("{name} state changed by a failed allocation")); continue };
            let d = format!("{name} round {round} step {step}: allocate({k:?}, size {s}, align {a}) with {} allocations", before.len());
            if s >= max_size::<M>() { vhu::eq(out(&r), O::Ub, || format!("{d}: too large")); vhu::check(m.cnt() == before.len(), || format!("{d}: state changed")); continue; }
            let p = match r { Ok(p) => p, Err(_) => { vhu::fail(&format!("{d}: got {:?}", out(&r))); continue } };
            let i = before.len();
            vhu::check(m.cnt() == i + 1 && (0..i).all(|j| m.al(j) == before[j]), || format!("{d}: other allocations changed"));
            if m.cnt() != i + 1 { continue; }
            let (ad, le, aa, kk, li) = m.al(i);
            vhu::check(li && kk == k && le == s && aa == a as i128 && ad == n(p.addr), || format!("{d}: recorded as {:?}", m.al(i)));
            vhu::check(p.provenance.map(M::pid) == Some(i), || format!("{d}: provenance does not name the new allocation"));
            vhu::check(ad > 0 && ad % (a as i128) == 0 && ad + (s) < addr_end::<M>(), || format!("{d}: bad address {ad}"));
            for j in 0..i { let (b, l, _, _, lv) = m.al(j); if lv { vhu::check(b != ad && (b + l <= ad || ad + s <= b), || format!("{d}: address {ad} overlaps live allocation at {b} of size {l}")); } }
            for j in if s < 200 { (0..s as usize).collect() } else { std::vec![0, s as usize / 2, s as usize - 1] } { if m.byte(i, j) != AbstractByte::Uninit { vhu::fail(&format!("{d}: byte {j} is initialised")); break; } }
            // readable and writable everywhere, through the pointer returned
            if s >= 200 { live.push((i, p, s, a, k)); continue; }
            let r = m.store(p, (0..s).map(|x| AbstractByte::Init(x as u8, None)).collect(), al(a));
            vhu::eq(out(&r), O::Ok, || format!("{d}: store to all of it"));
            let r = m.load(p, sz(s), al(a));
            vhu::check(matches!(&r, Ok(l) if *l == (0..s).map(|x| AbstractByte::Init(x as u8, None)).collect::<List<_>>()), || format!("{d}: load of all of it"));
            live.push((i, p, s, a, k));
        }
    }
}
pub fn run() {
    go::<BasicMemory<ptr8>>("basic/8-bit", 127);
    go::<TreeBorrowsMemory<ptr8>>("tb/8-bit", 127);
    go::<BasicMemory<ptr16>>("basic/16-bit", 32767);
    go::<BasicMemory<x86_64>>("basic/64-bit", i64::MAX as i128);
    go::<TreeBorrowsMemory<x86_64>>("tb/64-bit", i64::MAX as i128);
}
