"""Data races: unsynchronised conflicting accesses are reported, ordered ones never."""
from lib import Case
from gen import *
PRE = "static mut X: u32 = 0; static mut Y: u32 = 0; static mut A: [u32; 4] = [0; 4]; static mut F: u32 = 0; #[allow(dead_code)] static mut Q: [u8; 8] = [0; 8];\n"
def two(a, b, n=100, m="race", name="", setup="", after="", items="", reps=30):
    src = main(f"  unsafe {{ {setup} }} let t = spawn(t1, std::ptr::null()); t2(std::ptr::null()); join(t); unsafe {{ {after} }} print(1);",
        PRE + items + f'extern "C" fn t1(_: *const ()) {{ unsafe {{ let mut i = 0; while i < {n} {{ {a}; i += 1 }} }} }}\nextern "C" fn t2(_: *const ()) {{ unsafe {{ let mut i = 0; while i < {n} {{ {b}; i += 1 }} }} }}\n')
    return Case(name or f"{a} || {b}", src, m, reps=reps)
def cases(rng, thorough):
    flags = [(), ("--minirust-tree-borrows",)]
    R, W = "bb(X)", "X = bb(i)"
    AL, AS, CX = "bb(atomic_load(&raw mut X))", "atomic_store(&raw mut X, i)", "bb(compare_exchange(&raw mut X, i, i + 1))"
    racy = [(W, W), (R, W), (W, R), (W, AL), (AS, R), (AS, W), (R, AS), (AL, W), (R, CX), (CX, W), ("bb(atomic_fetch_add(&raw mut X, 1))", R), (W, "bb(atomic_fetch_sub(&raw mut X, 0))"), ("*(&raw mut X as *mut u8) = 1", R), (R, "*((&raw mut X as *mut u8).add(3)) = 1"),
            ("A[1] = i", "bb(A)"), ("*(&raw mut A as *mut [u32; 2]) = [1, 2]", "bb(A[bb(1)])"), ("A = [i; 4]", "atomic_store((&raw mut A as *mut u32).add(3), 1)"), ("atomic_store(&raw mut X, i)", "*(&raw mut X as *mut u8) = 2")]
    for k, (a, b) in enumerate(racy):
        c = two(a, b); c.flags = list(flags[k % 2]); c.name += " tb" if c.flags else ""; yield c
    fine = [(R, R), (AL, AL), (AS, AL), (AS, AS), (CX, AS), (AL, R), (R, AL), ("bb(atomic_fetch_add(&raw mut X, 1))", AS), ("Y = i", R), ("Y = i", W), ("A[0] = i", "A[1] = i"), ("bb(A[0])", "A[3] = i"), ("*((&raw mut A as *mut u8).add(3)) = 1", "*((&raw mut A as *mut u8).add(4)) = 1"),
            ("*(&raw mut A as *mut [u32; 2]) = [1, 2]", "bb(A[bb(2)])"), ("atomic_store(&raw mut A as *mut u32, 1)", "A[1] = 2"), ("let mut l = 0; l += i; bb(l)", "let mut l = 1; l += i; bb(l)")]
    for k, (a, b) in enumerate(fine):
        c = two(a, b, m="diff", n=25, reps=4); c.flags = list(flags[k % 2]); yield c
    # join, spawn and locks order accesses
    yield two("acquire(F as usize); X += 1; release(F as usize)", "acquire(F as usize); X += 1; release(F as usize)", m="diff", n=15, name="lock-protected counter", setup="F = create_lock() as u32", after="print(X)", reps=6)
    yield two("acquire(F as usize); X += 1; release(F as usize)", "X += 1", name="only one side takes the lock", setup="F = create_lock() as u32", n=40)
    yield two("acquire(F as usize); X += 1; release(F as usize)", "acquire(Y as usize); X += 1; release(Y as usize)", name="different locks", setup="F = create_lock() as u32; Y = create_lock() as u32", n=40)
    yield Case("spawn and join order accesses", main("  unsafe { X = 5; } let t = spawn(f, std::ptr::null()); join(t); unsafe { print(X); X = 7; } let t = spawn(f, std::ptr::null()); join(t); unsafe { print(X) }", PRE + 'extern "C" fn f(_: *const ()) { unsafe { X += 1; Y = X; } }\n'), reps=6)
    yield Case("main races with its child", main("  let t = spawn(f, std::ptr::null()); unsafe { let mut i = 0; while i < 60 { X = i; i += 1 } } join(t);", PRE + 'extern "C" fn f(_: *const ()) { unsafe { let mut i = 0; while i < 60 { bb(X); i += 1 } } }\n'), "race", reps=30)
    yield Case("sibling threads in sequence", main("  unsafe { let mut i = 0; while i < 4 { let t = spawn(f, std::ptr::null()); join(t); i += 1 } print(X); }", PRE + 'extern "C" fn f(_: *const ()) { unsafe { X += 1; } }\n'), reps=3)
    yield Case("a finished thread that was not joined still races", main("  unsafe { let t = spawn(f, std::ptr::null()); let mut i = 0; while i < 100 { bb(X); i += 1 } join(t); }", PRE + 'extern "C" fn f(_: *const ()) { unsafe { let mut i = 0; while i < 90 { X += 1; i += 1 } } }\n'), "race", reps=30)
    yield Case("message through an atomic flag", main("  unsafe { let t = spawn(f, std::ptr::null()); while atomic_load(&raw mut F) == 0 {} print(X); join(t); print(X); }", PRE + 'extern "C" fn f(_: *const ()) { unsafe { X = 42; atomic_store(&raw mut F, 1); } }\n'), reps=8)
    yield Case("race on a heap block", main("  unsafe { let p = allocate(4, 4); *(p as *mut u32) = 0; let t = spawn(f, p as *const ()); f(p as *const ()); join(t); deallocate(p, 4, 4); }", 'extern "C" fn f(p: *const ()) { unsafe { let p = p as *mut u32; let mut i = 0; while i < 60 { *p += 1; i += 1 } } }\n'), "race", reps=30)
    yield Case("threads on different heap blocks", main("  unsafe { let p = allocate(8, 4) as *mut u32; *p = 0; *p.add(1) = 5; let t = spawn(f, p as *const ()); let u = spawn(f, p.add(1) as *const ()); join(t); join(u); print(*p); print(*p.add(1)); deallocate(p as *mut u8, 8, 4); }", 'extern "C" fn f(p: *const ()) { unsafe { let p = p as *mut u32; let mut i = 0; while i < 20 { *p += 1; i += 1 } } }\n'), reps=4)
    yield Case("race on a local of the parent", main("  let mut x = bb(0u32); unsafe { let p = &raw mut x; let t = spawn(f, p as *const ()); let mut i = 0; while i < 60 { *p += 1; i += 1 } join(t); }", 'extern "C" fn f(p: *const ()) { unsafe { let p = p as *mut u32; let mut i = 0; while i < 60 { *p += 1; i += 1 } } }\n'), "race", reps=30)
    for n in (3, 4):
        yield Case(f"{n} threads under one lock", main("  unsafe { L = create_lock(); let mut ts = [0usize; %d]; let mut i = 0; while i < %d { ts[i] = spawn(f, std::ptr::null()); i += 1 } i = 0; while i < %d { join(ts[i]); i += 1 } print(X) }" % (n, n, n), PRE + 'static mut L: usize = 0; extern "C" fn f(_: *const ()) { unsafe { let mut i = 0; while i < 8 { acquire(L); X += 1; A[1] += X; release(L); i += 1 } } }\n'), reps=4)
    yield Case("race between two spawned threads", main("  unsafe { let t = spawn(t1, std::ptr::null()); let u = spawn(t1, std::ptr::null()); join(t); join(u); }", PRE + 'extern "C" fn t1(_: *const ()) { unsafe { let mut i = 0; while i < 60 { X = bb(i); i += 1 } } }\n'), "race", reps=30)
