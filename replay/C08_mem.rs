use super::*;
use std::format;
use crate::vhu;
use crate::libspecr::hidden::*;
#[path = "mem_common.rs"]
mod mc;
use mc::*;

fn go<M: Mm>(name: &str) {
    for round in 0..vhu::scale(400) {
        let mut m = M::new();
        let mut r: RefM<M::Provenance> = RefM { a: std::vec![] };
        let mut ptrs: std::vec::Vec<ThinPointer<M::Provenance>> = std::vec![];
        let mut log = std::vec::Vec::<std::string::String>::new();
        for _ in 0..vhu::range(6, 16) {
            let st = format!("{name} round {round} [{}]", log.join("; "));
            // the leak check
            let leak = r.a.iter().any(|a| a.live && a.kind == AllocationKind::Heap);
            vhu::eq(out(&m.leak_check()), if leak { O::Leak } else { O::Ok }, || format!("{st} leak check"));
            if ptrs.is_empty() || vhu::below(3) == 0 {
                let (s, a, k) = (vhu::pick(&[0i64, 1, 2, 3, 4, 8]), 1i64 << vhu::below(4), vhu::pick(&kinds()));
                let Some(Ok(p)) = alloc(&mut m, k, s as i128, a) else { continue };
                r.a.push(RefA { addr: n(p.addr), align: a as i128, kind: k, live: true, b: std::vec![AbstractByte::Uninit; s as usize] });
                log.push(format!("#{}: {k:?} size {s} align {a}", ptrs.len()));
                ptrs.push(p);
                continue;
            }
            let i = vhu::below(ptrs.len() as u64) as usize;
            let a = r.a[i].clone();
            let (mut p, mut k, mut s, mut g) = (ptrs[i], a.kind, a.b.len() as i64, a.align as i64);
            let mut valid = a.live;
            let mut what = "with its own parameters";
            match vhu::below(9) {
                0 => { p.addr = p.addr + Int::ONE; valid = false; what = "pointer one past the start"; }
                1 => { p.addr = p.addr - Int::ONE; valid = false; what = "pointer one before the start"; }
                2 => { let k2 = vhu::pick(&kinds()); valid &= k2 == k; k = k2; what = "some kind"; }
                3 => { s += 1; valid = false; what = "size one too large"; }
                4 => { if s > 0 { s -= 1; valid = false; what = "size one too small"; } }
                5 => { g *= 2; valid = false; what = "twice the alignment"; }
                6 => { if g > 1 { g /= 2; valid = false; what = "half the alignment"; } }
                7 if vhu::coin() => { p.provenance = None; valid = false; what = "without provenance"; }
                _ => {}
            }
            let d = format!("release #{i} {what} ({k:?}, {s}, {g})");
            log.push(d.clone());
            match vhu::catch(|| m.deallocate(p, k, sz(s), al(g))) { Ok(o) => vhu::eq(out(&o), if valid { O::Ok } else { O::Ub }, || format!("{st} {d}")), Err(e) => vhu::fail(&format!("{st} {d} panicked: {e}")) }
            if valid { r.a[i].live = false; }
            same(&m, &r, || format!("{st} {d}"));
            // accessible exactly if alive
            if r.a[i].b.len() > 0 {
                let w = if r.a[i].live { O::Ok } else { O::Ub };
                vhu::eq(out(&m.load(ptrs[i], sz(1), al(1))), w, || format!("{st} {d} then load"));
                vhu::eq(out(&m.dereferenceable(ptrs[i], sz(1))), w, || format!("{st} {d} then dereferenceable"));
                let x = r.a[i].b[0];
                vhu::eq(out(&m.store(ptrs[i], list![x], al(1))), w, || format!("{st} {d} then store"));
            }
        }
    }
}
pub fn run() {
    go::<BasicMemory<ptr16>>("basic/16-bit");
    go::<TreeBorrowsMemory<ptr16>>("tb/16-bit");
    go::<BasicMemory<x86_64>>("basic/64-bit");
    go::<TreeBorrowsMemory<x86_64>>("tb/64-bit");
}
