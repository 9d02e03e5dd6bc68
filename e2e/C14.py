"""Locks."""
from lib import Case
from gen import *
T = "static mut L: usize = 0; static mut M: usize = 0; static mut X: u32 = 0; static mut IN: u32 = 0; static mut F: u32 = 0;\n"
def cases(rng, thorough):
    yield Case("lock and unlock repeatedly", main("  let a = create_lock(); let b = create_lock(); print((a != b) as u8); let mut i = 0; while i < 5 { acquire(a); acquire(b); release(a); acquire(a); release(b); release(a); i += 1 } print(i);"))
    for n, it in ((2, 12), (3, 6), (4, 4)):
        yield Case(f"mutual exclusion, {n} threads", main(f"  unsafe {{ L = create_lock(); let mut ts = [0; {n}]; let mut i = 0; while i < {n} {{ ts[i] = spawn(f, std::ptr::null()); i += 1 }} i = 0; while i < {n} {{ join(ts[i]); i += 1 }} print(X) }}", T + f'extern "C" fn f(_: *const ()) {{ unsafe {{ let mut i = 0; while i < {it} {{ acquire(L); if atomic_fetch_add(&raw mut IN, 1) != 0 {{ print(999) }} X += 1; let y = X; bb(y); if X != y {{ print(998) }} atomic_fetch_sub(&raw mut IN, 1); release(L); i += 1 }} }} }}\n'), reps=8 if thorough else 4)
    yield Case("two locks exclude separately", main("  unsafe { L = create_lock(); M = create_lock(); acquire(L); let t = spawn(f, std::ptr::null()); join(t); print(X); release(L); }", T + 'extern "C" fn f(_: *const ()) { unsafe { acquire(M); X = 3; release(M); } }\n'), reps=3)
    yield Case("a lock handed over by release", main("  unsafe { L = create_lock(); acquire(L); let t = spawn(f, std::ptr::null()); let mut i = 0; while i < 20 { i = bb(i + 1) } X = 5; release(L); join(t); print(X); }", T + 'extern "C" fn f(_: *const ()) { unsafe { acquire(L); X += 1; release(L); } }\n'), reps=6)
    yield Case("acquire does not return while another thread holds the lock", main("  unsafe { L = create_lock(); acquire(L); let t = spawn(f, std::ptr::null()); let mut i = 0; while i < 40 { if atomic_load(&raw mut F) != 0 { print(999) } i += 1 } release(L); join(t); print(atomic_load(&raw mut F)); }", T + 'extern "C" fn f(_: *const ()) { unsafe { acquire(L); atomic_store(&raw mut F, 1); release(L); } }\n'), reps=6)
    for nm, b in (("free lock", "let l = create_lock(); release(l);"), ("lock already released", "let l = create_lock(); acquire(l); release(l); release(l);"), ("nonexistent lock", "release(bb(0));"), ("nonexistent lock 7", "let _ = create_lock(); release(bb(7));"), ("lock id usize::MAX", "let _ = create_lock(); release(bb(usize::MAX));")):
        yield Case(f"release of a {nm}", main("  " + b), "ub")
    yield Case("acquire of a nonexistent lock", main("  acquire(bb(0));"), "ub")
    yield Case("acquire of a nonexistent lock 1", main("  let l = create_lock(); acquire(bb(l + 1));"), "ub")
    yield Case("release by a thread that does not hold it", main("  unsafe { L = create_lock(); acquire(L); let t = spawn(f, std::ptr::null()); join(t); }", T + 'extern "C" fn f(_: *const ()) { unsafe { release(L); } }\n'), "ub")
    yield Case("release by main of a lock held by a finished thread", main("  unsafe { L = create_lock(); let t = spawn(f, std::ptr::null()); join(t); release(L); }", T + 'extern "C" fn f(_: *const ()) { unsafe { acquire(L); } }\n'), "ub")
    D = "dead-locked"
    yield Case("acquiring twice", main("  let l = create_lock(); acquire(l); acquire(l); print(1);"), "other", D)
    yield Case("lock of a finished thread is never handed out", main("  unsafe { L = create_lock(); let t = spawn(f, std::ptr::null()); join(t); acquire(L); print(1) }", T + 'extern "C" fn f(_: *const ()) { unsafe { acquire(L); } }\n'), "other", D)
    yield Case("join of a thread waiting for my lock", main("  unsafe { L = create_lock(); acquire(L); let t = spawn(f, std::ptr::null()); join(t); release(L) }", T + 'extern "C" fn f(_: *const ()) { unsafe { acquire(L); release(L) } }\n'), "other", D)
    yield Case("crossed acquisition order", main("  unsafe { L = create_lock(); M = create_lock(); acquire(L); let t = spawn(f, std::ptr::null()); while atomic_load(&raw mut F) == 0 {} acquire(M); release(M); release(L); join(t); }", T + 'extern "C" fn f(_: *const ()) { unsafe { acquire(M); atomic_store(&raw mut F, 1); acquire(L); release(L); release(M); } }\n'), "other", D, reps=3)
    yield Case("a running thread is no deadlock", main("  unsafe { L = create_lock(); acquire(L); let t = spawn(f, std::ptr::null()); let mut i = 0; while i < 100 { i = bb(i + 1) } release(L); join(t); print(2) }", T + 'extern "C" fn f(_: *const ()) { unsafe { acquire(L); release(L) } }\n'), reps=4)
    yield Case("same order never deadlocks", main("  unsafe { L = create_lock(); M = create_lock(); let t = spawn(f, std::ptr::null()); let u = spawn(f, std::ptr::null()); join(t); join(u); print(X) }", T + 'extern "C" fn f(_: *const ()) { unsafe { let mut i = 0; while i < 5 { acquire(L); acquire(M); X += 1; release(M); release(L); i += 1 } } }\n'), reps=6)
    yield Case("many locks", main("  let mut ls = [0usize; 20]; let mut i = 0; while i < 20 { ls[i] = create_lock(); let mut j = 0; while j < i { print((ls[i] != ls[j]) as u8); j += 1 } i += 1 } i = 0; while i < 20 { acquire(ls[(i * 7) % 20]); i += 1 } i = 0; while i < 20 { release(ls[(i * 3) % 20]); i += 1 } print(1);"))
    yield Case("waiters are all served", main("  unsafe { L = create_lock(); acquire(L); let a = spawn(f, std::ptr::null()); let b = spawn(f, std::ptr::null()); let c = spawn(f, std::ptr::null()); let mut i = 0; while i < 60 { i = bb(i + 1) } release(L); join(a); join(b); join(c); print(X) }", T + 'extern "C" fn f(_: *const ()) { unsafe { acquire(L); X += 1; release(L) } }\n'), reps=4)
