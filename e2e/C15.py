"""Threads: spawn, join, scheduling, termination, deadlock."""
from lib import Case
from gen import *
T = "static mut X: u32 = 0; static mut A: [u32; 8] = [0; 8]; static mut F: u32 = 0; static mut TID: usize = 0;\n"
D = "dead-locked"
def cases(rng, thorough):
    yield Case("the argument reaches the thread", main("  let x = bb(41u32); let t = spawn(f, &raw const x as *const ()); join(t); let y = bb([7u32, 8]); let t = spawn(f, (&raw const y as *const u32).wrapping_add(1) as *const ()); join(t);", 'extern "C" fn f(p: *const ()) { print(unsafe { *(p as *const u32) }); }\n'), reps=3)
    yield Case("results through memory", main("  let mut v = bb([1u64, 2, 3, 4]); let mut ts = [0usize; 4]; let mut i = 0; while i < 4 { ts[i] = spawn(f, (&raw mut v as *mut u64).wrapping_add(i) as *const ()); i += 1 } i = 4; while i > 0 { i -= 1; join(ts[i]) } while i < 4 { print(v[i]); i += 1 }", 'extern "C" fn f(p: *const ()) { let p = p as *mut u64; unsafe { let mut k = 0; while k < 5 { *p = *p * 2 + 1; k += 1 } } }\n'), reps=6)
    yield Case("join waits for the thread", main("  unsafe { let t = spawn(f, std::ptr::null()); join(t); print(X); }", T + 'extern "C" fn f(_: *const ()) { unsafe { let mut i = 0; while i < 50 { X += 1; i += 1 } } }\n'), reps=6)
    yield Case("join of a finished thread returns at once", main("  unsafe { let t = spawn(f, std::ptr::null()); while atomic_load(&raw mut F) == 0 {} let mut i = 0; while i < 30 { i = bb(i + 1) } join(t); print(3) }", T + 'extern "C" fn f(_: *const ()) { unsafe { atomic_store(&raw mut F, 1) } }\n'), reps=4)
    yield Case("a thread joined by two threads", main("  unsafe { TID = spawn(f, std::ptr::null()); let u = spawn(g, std::ptr::null()); join(TID); join(u); print(X) }", T + 'extern "C" fn f(_: *const ()) { unsafe { let mut i = 0; while i < 10 { X += 1; i += 1 } } } extern "C" fn g(_: *const ()) { unsafe { join(TID); print(X); } }\n'), "ok", "10\n10\n", reps=4)
    yield Case("joining twice", main("  unsafe { let t = spawn(f, std::ptr::null()); join(t); join(t); print(X) }", T + 'extern "C" fn f(_: *const ()) { unsafe { X = 4 } }\n'), "ok", "4\n", reps=2)
    yield Case("threads spawning threads", main("  unsafe { let t = spawn(f, 3usize as *const ()); join(t); print(X) }".replace("3usize as *const ()", "std::ptr::without_provenance(3)"), T + 'extern "C" fn f(n: *const ()) { unsafe { let n = n.addr(); print(n); if n > 0 { let t = spawn(f, std::ptr::without_provenance(n - 1)); join(t); X += n as u32 } } }\n'), reps=3)
    yield Case("thread identifiers are distinct", main("  unsafe { let a = spawn(f, std::ptr::null()); let b = spawn(f, std::ptr::null()); let c = spawn(f, std::ptr::null()); print((a != b && b != c && a != c) as u8); join(c); join(a); join(b); let d = spawn(f, std::ptr::null()); print((d != a && d != b && d != c) as u8); join(d); }", 'extern "C" fn f(_: *const ()) {}\n'), reps=3)
    yield Case("every interleaving of two counters is allowed and both occur", main("  unsafe { let t = spawn(f, std::ptr::null()); while atomic_load(&raw mut F) < 10 { } join(t); print(1); }", T + 'extern "C" fn f(_: *const ()) { unsafe { while atomic_load(&raw mut F) < 10 { atomic_fetch_add(&raw mut F, 1); } } }\n'), reps=4)
    yield Case("ping-pong makes progress", main("  unsafe { let t = spawn(f, std::ptr::null()); let mut i = 0; while i < 6 { while atomic_load(&raw mut F) != 2 * i {} atomic_store(&raw mut F, 2 * i + 1); i += 1 } join(t); print(atomic_load(&raw mut F)); }", T + 'extern "C" fn f(_: *const ()) { unsafe { let mut i = 0; while i < 6 { while atomic_load(&raw mut F) != 2 * i + 1 {} atomic_store(&raw mut F, 2 * i + 2); i += 1 } } }\n'), reps=4)
    yield Case("main ending stops the program although a thread is blocked", main("  unsafe { X = create_lock() as u32; acquire(X as usize); spawn(f, std::ptr::null()); print(9); }", T + 'extern "C" fn f(_: *const ()) { unsafe { acquire(X as usize); print(8) } }\n'), "ok", "9\n", reps=4)
    yield Case("exit() stops all threads", main("  unsafe { spawn(f, std::ptr::null()); print(9); exit(); print(7); }", T + 'extern "C" fn f(_: *const ()) { loop {} }\n'), "ok", "9\n", reps=3)
    yield Case("exit() in a thread stops the program", main("  unsafe { spawn(f, std::ptr::null()); loop {} }", 'extern "C" fn f(_: *const ()) { print(5); exit(); print(6) }\n'), "ok", "5\n", reps=3)
    yield Case("a panic in a thread aborts the program", main("  unsafe { let t = spawn(f, std::ptr::null()); join(t); print(1) }", 'extern "C" fn f(_: *const ()) { let a = bb([1, 2]); print(a[bb(1)]); panic!() }\n'), "other", "abort", reps=2)
    yield Case("join of oneself", main("  join(bb(0)); print(1);"), "other", D)
    yield Case("two threads joining each other", main("  unsafe { let t = spawn(f, std::ptr::null()); join(t) }", 'extern "C" fn f(_: *const ()) { join(bb(0)) }\n'), "other", D, reps=2)
    yield Case("thread joining itself", main("  unsafe { TID = 1; let t = spawn(f, std::ptr::null()); join(t) }", T + 'extern "C" fn f(_: *const ()) { unsafe { join(TID) } }\n'), "other", D, reps=2)
    yield Case("undefined behaviour in a thread", main("  unsafe { let t = spawn(f, std::ptr::null()); join(t); print(1) }", 'extern "C" fn f(p: *const ()) { print(unsafe { *(p as *const u8) }); }\n'), "ub")
    yield Case("thread entry of the wrong signature", main("  unsafe { let g: extern \"C\" fn(*const ()) = std::mem::transmute(f as extern \"C\" fn(u8, u8)); let t = spawn(g, std::ptr::null()); join(t); }", 'extern "C" fn f(a: u8, _b: u8) { print(a) }\n'), "ub")
    yield Case("thread entry that returns a value", main("  unsafe { let g: extern \"C\" fn(*const ()) = std::mem::transmute(f as extern \"C\" fn(*const ()) -> u8); let t = spawn(g, std::ptr::null()); join(t); }", 'extern "C" fn f(_: *const ()) -> u8 { 1 }\n'), "ub")
    yield Case("thread entry with another calling convention", main("  unsafe { let g: extern \"C\" fn(*const ()) = std::mem::transmute(f as fn(*const ())); let t = spawn(g, std::ptr::null()); join(t); }", 'fn f(_: *const ()) { }\n'), "ub")
    yield Case("locals of threads are separate", main("  unsafe { let t = spawn(f, std::ptr::without_provenance(5)); let u = spawn(f, std::ptr::without_provenance(9)); join(t); join(u); print(A[5]); print(A[9 - 2]); }".replace("(9)", "(7)").replace("A[9 - 2]", "A[7]"), T + 'extern "C" fn f(n: *const ()) { unsafe { let n = n.addr(); let mut s = 0u32; let mut i = 0; while i < n { s += bb(n as u32); i += 1 } A[n] = s } }\n'), reps=5)
    yield Case("many threads", main("  unsafe { let mut ts = [0usize; 6]; let mut i = 0; while i < 6 { ts[i] = spawn(f, std::ptr::null()); i += 1 } i = 0; while i < 6 { join(ts[i]); i += 1 } print(X) }", T + 'extern "C" fn f(_: *const ()) { unsafe { atomic_fetch_add(&raw mut X, 1); } }\n'), reps=3)
    yield Case("a blocked thread resumes with its own state", main("  unsafe { X = create_lock() as u32; acquire(X as usize); let t = spawn(f, std::ptr::null()); let mut i = 0; while i < 30 { i = bb(i + 1) } A[0] = 6; release(X as usize); join(t); print(A[1]) }", T + 'extern "C" fn f(_: *const ()) { unsafe { let k = bb([3u32, 4]); acquire(X as usize); A[1] = A[0] * 10 + k[bb(1)]; release(X as usize); } }\n'), reps=4)
