use super::*;
use std::format;
use crate::vhu;
use crate::libspecr::hidden::*;
#[path = "mem_common.rs"]
mod mc;
use mc::*;

fn go<M: Mm>(name: &str) {
    for round in 0..vhu::scale(150) {
        let mut m = M::new();
        let mut r: RefM<M::Provenance> = RefM { a: std::vec![] };
        let mut ptrs: std::vec::Vec<ThinPointer<M::Provenance>> = std::vec![];
        let mut log = std::vec::Vec::<std::string::String>::new();
        for _ in 0..vhu::range(1, 5) {
            let (s, a, k) = (vhu::pick(&[0i64, 1, 2, 3, 4, 7, 8]), 1i64 << vhu::below(4), vhu::pick(&kinds()));
            let Some(Ok(p)) = alloc(&mut m, k, s as i128, a) else { continue };
            r.a.push(RefA { addr: n(p.addr), align: a as i128, kind: k, live: true, b: std::vec![AbstractByte::Uninit; s as usize] });
            log.push(format!("#{} at {} size {s}", ptrs.len(), n(p.addr)));
            ptrs.push(p);
        }
        if ptrs.is_empty() { continue; }
        for _ in 0..25 {
            let i = vhu::below(ptrs.len() as u64) as usize;
            let a = r.a[i].clone();
            if vhu::below(12) == 0 && a.live {
                let o = m.deallocate(ptrs[i], a.kind, sz(a.b.len() as i64), al(a.align as i64));
                vhu::eq(out(&o), O::Ok, || format!("{name} {log:?} release #{i}"));
                r.a[i].live = false; log.push(format!("release #{i}"));
                continue;
            }
            let off = match vhu::below(6) { 0 => -1, 1 => a.b.len() as i64, 2 => vhu::range(-3, a.b.len() as i64 + 4), 3 => 0, _ => vhu::range(0, a.b.len() as i64 + 1) };
            let prov = match vhu::below(8) { 0 => None, 1 => Some(vhu::below(ptrs.len() as u64) as usize), _ => Some(i) };
            let p = ThinPointer { addr: ptrs[i].addr + Int::from(off), provenance: prov.and_then(|j| ptrs[j].provenance) };
            let len = match vhu::below(5) { 0 => 0, 1 => (a.b.len() as i64 - off).max(0), _ => vhu::range(0, 5) };
            let align = 1i64 << vhu::below(3);
            let ok = r.valid(n(p.addr), prov, len as i128, align as i128);
            let want = if ok { O::Ok } else { O::Ub };
            let st = format!("{name} round {round} [{}]", log.join("; "));
            match vhu::below(3) {
                0 => {
                    let b: std::vec::Vec<AbstractByte<M::Provenance>> = (0..len).map(|_| rbyte(&ptrs)).collect();
                    let d = format!("store at #{i}+{off} (provenance #{prov:?}) len {len} align {align}");
                    log.push(d.clone());
                    let o = vhu::catch(|| m.store(p, b.iter().copied().collect(), al(align)));
                    match o { Ok(o) => vhu::eq(out(&o), want, || format!("{st} {d}")), Err(e) => vhu::fail(&format!("{st} {d} panicked: {e}")) }
                    if ok && len > 0 { let id = prov.unwrap(); let o = (n(p.addr) - r.a[id].addr) as usize; for (j, x) in b.iter().enumerate() { r.a[id].b[o + j] = *x; } }
                    same(&m, &r, || format!("{st} {d}"));
                }
                1 => {
                    let d = format!("load at #{i}+{off} (provenance #{prov:?}) len {len} align {align}");
                    let o = vhu::catch(|| m.load(p, sz(len), al(align)));
                    match o {
                        Ok(o) => {
                            vhu::eq(out(&o), want, || format!("{st} {d}"));
                            if let Ok(l) = o { let w: std::vec::Vec<AbstractByte<M::Provenance>> = if len == 0 || !ok { std::vec![] } else { let a = &r.a[prov.unwrap()]; let o = (n(p.addr) - a.addr) as usize; a.b[o..o + len as usize].to_vec() };
                                let g: std::vec::Vec<_> = l.iter().collect(); vhu::eq(g, w, || format!("{st} {d} bytes")); }
                        }
                        Err(e) => vhu::fail(&format!("{st} {d} panicked: {e}")),
                    }
                    same(&m, &r, || format!("{st} {d}"));
                }
                _ => {
                    let d = format!("dereferenceable at #{i}+{off} (provenance #{prov:?}) len {len}");
                    let ok = r.valid(n(p.addr), prov, len as i128, 1);
                    match vhu::catch(|| m.dereferenceable(p, sz(len))) { Ok(o) => vhu::eq(out(&o), if ok { O::Ok } else { O::Ub }, || format!("{st} {d}")), Err(e) => vhu::fail(&format!("{st} {d} panicked: {e}")) }
                    let sl = if vhu::coin() { len } else { -len };
                    let ok = r.valid(if sl < 0 { n(p.addr) + sl as i128 } else { n(p.addr) }, prov, len as i128, 1);
                    match vhu::catch(|| m.signed_dereferenceable(p, Int::from(sl))) { Ok(o) => vhu::eq(out(&o), if ok { O::Ok } else { O::Ub }, || format!("{st} signed {d} signed length {sl}")), Err(e) => vhu::fail(&format!("{st} signed {d} panicked: {e}")) }
                }
            }
        }
    }
}
pub fn run() {
    go::<BasicMemory<ptr8>>("basic/8-bit");
    go::<BasicMemory<ptr16>>("basic/16-bit");
    go::<TreeBorrowsMemory<ptr8>>("tb/8-bit");
    go::<BasicMemory<x86_64>>("basic/64-bit");
    go::<TreeBorrowsMemory<x86_64>>("tb/64-bit");
}
