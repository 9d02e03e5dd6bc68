"""Release of memory and leaks as a program observes them."""
from lib import Case
from gen import *
LEAK = "leaked memory"
def cases(rng, thorough):
    flags = [(), ("--minirust-tree-borrows",)]
    for f in flags:
        def C(name, src, *a, **k): return Case(f"{name} {'tb' if f else ''}", src, *a, flags=f, **k)
        for s, a, s2, a2, m in [(8, 4, 8, 4, "diff"), (8, 4, 4, 4, "ub"), (8, 4, 12, 4, "ub"), (8, 4, 8, 8, "ub"), (8, 4, 8, 2, "ub"), (8, 4, 8, 1, "ub"), (1, 1, 1, 1, "diff"), (1, 1, 0, 1, "ub"), (0, 1, 1, 1, "ub"), (0, 8, 0, 4, "ub"), (16, 16, 16, 16, "diff"), (8, 4, 8, 3, "ub"), (100, 64, 100, 64, "diff")]:
            yield C(f"allocate({s}, {a}), deallocate({s2}, {a2})", main(f"  unsafe {{ let p = allocate(bb({s}), bb({a})); deallocate(p, bb({s2}), bb({a2})); }} print(5);"), m)
        yield C("zero-sized block", main("  unsafe { let p = allocate(0, 4); deallocate(p, 0, 4); } print(5);"), "ok", "5\n")
        yield C("double free", main("  unsafe { let p = allocate(8, 4); deallocate(p, 8, 4); deallocate(p, 8, 4); }"), "ub")
        yield C("double free of a zero-sized block", main("  unsafe { let p = allocate(0, 4); deallocate(p, 0, 4); deallocate(p, 0, 4); }"), "ub")
        for o in (1, 4, 7, 8, -1):
            yield C(f"free at offset {o}", main(f"  unsafe {{ let p = allocate(8, 1); deallocate(p.wrapping_offset(bb({o})), 8, 1); }}"), "ub")
        yield C("free through a derived pointer at the start", main("  unsafe { let p = allocate(8, 1); let q = p.add(5).sub(bb(5)); deallocate(q, 8, 1); } print(1);"))
        yield C("free a local", main("  let mut x = bb(3u32); unsafe { deallocate(&raw mut x as *mut u8, 4, 4); }"), "ub")
        yield C("free a static", main("  unsafe { deallocate(&raw mut S as *mut u8, 4, 4); }", "static mut S: u32 = 1;\n"), "ub")
        yield C("free a function", main("  let f: fn(u8) -> u8 = bb; unsafe { deallocate(f as *mut () as *mut u8, 0, 1); }"), "ub")
        yield C("free null", main("  unsafe { deallocate(std::ptr::null_mut(), 0, 1); }"), "ub")
        yield C("free an integer address", main("  unsafe { let p = allocate(8, 8); deallocate(std::ptr::without_provenance_mut(p.addr()), 8, 8); }"), "ub")
        yield C("free with an enormous size", main("  unsafe { let p = allocate(8, 8); deallocate(p, usize::MAX, 8); }"), "ub")
        for s in (0, 1, 8, 100): yield C(f"leak of {s} bytes", main(f"  unsafe {{ let p = allocate({s}, 8); }} print(4);"), "other", LEAK)
        yield C("leak of one of many", main("  unsafe { let mut i = 0; while i < 20 { let p = allocate(8, 8); if i != bb(13) { deallocate(p, 8, 8); } i += 1 } }"), "other", LEAK)
        yield C("leak at exit()", main("  unsafe { let p = allocate(8, 8); *p = 1; } exit();"), "other", LEAK)
        yield C("leaked block stored in a static is still a leak", main("  unsafe { S = allocate(8, 8); }", "static mut S: *mut u8 = std::ptr::null_mut();\n"), "other", LEAK)
        yield C("no leak: locals, statics and functions are not heap", main("  let x = bb([1u64; 10]); print(x[3]); unsafe { G[1] = 4; print(G[bb(1)]); } fn f(n: u32) -> u32 { let y = bb([n; 4]); if n == 0 { 0 } else { f(n - 1) + y[2] } } print(f(5));", "static mut G: [u32; 3] = [1, 2, 3];\n"))
        yield C("no leak: everything released in another order", main("  unsafe { let mut a = [std::ptr::null_mut(); 10]; let mut i = 0; while i < 10 { a[i] = allocate(i + 1, 4); *a[i] = i as u8; i += 1 } i = 0; while i < 10 { let k = (i * 7 + 3) % 10; print(*a[k]); deallocate(a[k], k + 1, 4); i += 1 } }"))
        yield C("no leak: exit() with locals alive", main("  let x = bb([1u8; 4]); print(x[0]); exit(); print(x[1]);"))
        yield C("abort with live blocks is an abort", main("  unsafe { let p = allocate(8, 8); *p = 1; } core::intrinsics::abort();", "").replace("extern crate", "#![feature(core_intrinsics)]\n#![allow(internal_features)]\nextern crate", 1), "other", "program aborted")
        yield C("deallocation from another function and through a struct", main("  unsafe { let b = mk(12); *b.p.add(11) = 4; print(*b.p.add(bb(11))); fr(b); }", "#[derive(Clone, Copy)] struct B { p: *mut u8, n: usize } unsafe fn mk(n: usize) -> B { B { p: allocate(n, 4), n } } unsafe fn fr(b: B) { deallocate(b.p, b.n, 4) }\n"))
        yield C("drop glue releases", main("  let a = B::new(4); { let b = B::new(8); print(b.1); } let c = bb(a); print(c.1);", "struct B(*mut u8, usize); impl B { fn new(n: usize) -> B { B(unsafe { allocate(n, 8) }, n) } } impl Drop for B { fn drop(&mut self) { print(self.1); unsafe { deallocate(self.0, self.1, 8) } } }\n"))
        yield C("forgotten owner leaks", main("  let a = B::new(4); let b = B::new(8); std::mem::forget(b); print(a.1);", "struct B(*mut u8, usize); impl B { fn new(n: usize) -> B { B(unsafe { allocate(n, 8) }, n) } } impl Drop for B { fn drop(&mut self) { print(self.1); unsafe { deallocate(self.0, self.1, 8) } } }\n"), "other", LEAK)
        yield C("leak of a finished thread", main("  extern \"C\" fn t(_: *const ()) { unsafe { let p = allocate(4, 4); *p = 1; } } join(spawn(t, std::ptr::null()));"), "other", LEAK)
        yield C("released by another thread", main("  extern \"C\" fn t(p: *const ()) { unsafe { print(*(p as *const u8)); deallocate(p as *mut u8, 4, 4) } } unsafe { let p = allocate(4, 4); *p = 6; join(spawn(t, p as *const ())); }"))
