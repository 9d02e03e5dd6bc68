"""Atomic operations."""
from lib import Case
from gen import *
def cases(rng, thorough):
    vals = interesting("u32", rng, 10)
    flags = [(), ("--minirust-tree-borrows",)]
    body = []
    for k in range(200 if thorough else 60):
        a, b, c = rng.choice(vals), rng.choice(vals), rng.choice(vals)
        if rng.random() < .4: b = a
        o = rng.choice(["store", "load", "cas", "add", "sub"])
        if o == "store": s = f"atomic_store(&raw mut x, bb({a}));"
        elif o == "load": s = "print(atomic_load(&raw mut x));"
        elif o == "cas":
            s = f"print(compare_exchange(&raw mut x, bb({a}), bb({c})));" if rng.random() < .4 else f"{{ let cur = x; print(compare_exchange(&raw mut x, cur, bb({c}))); print(compare_exchange(&raw mut x, cur, bb({b}))); }}"
        elif o == "add": s = f"{{ let d = bb({a}) % (u32::MAX - x).max(1); print(atomic_fetch_add(&raw mut x, d)); }}"
        else: s = f"{{ let d = bb({a}) % x.max(1); print(atomic_fetch_sub(&raw mut x, d)); }}"
        body.append("  unsafe { " + s + " print(x); }")
    for i, f in enumerate(flags):
        for k in range(0, len(body), 30): yield Case(f"atomics sequence {k} {i}", main("  let mut x = bb(7u32);\n" + "\n".join(body[k:k + 30])), flags=f)
    yield Case("compare-exchange succeeds exactly on equality", main("  unsafe { let mut x = 5u32; print(compare_exchange(&raw mut x, 4, 9)); print(x); print(compare_exchange(&raw mut x, 5, 9)); print(x); print(compare_exchange(&raw mut x, 9, 9)); print(compare_exchange(&raw mut x, 0, 1)); print(x); print(compare_exchange(&raw mut x, 9, 0)); print(x) }"))
    yield Case("operands are not swapped", main("  unsafe { let mut x = bb(100u32); print(atomic_fetch_sub(&raw mut x, 1)); print(x); print(atomic_fetch_sub(&raw mut x, 99)); print(x); print(atomic_fetch_add(&raw mut x, 3)); print(x) }"))
    yield Case("fetch_add wraps around", main("  unsafe { let mut x = bb(u32::MAX); print(atomic_fetch_add(&raw mut x, 2)); print(x); }"))
    yield Case("fetch_sub wraps around", main("  unsafe { let mut x = bb(0u32); print(atomic_fetch_sub(&raw mut x, 1)); print(x); }"))
    yield Case("neighbouring bytes are untouched", main("  unsafe { let mut a = bb([1u32, 2, 3]); let p = (&raw mut a as *mut u32).add(1); atomic_store(p, 77); atomic_fetch_add(p, 1); print(compare_exchange(p, 78, 0xffffffff)); print(a[0]); print(a[1]); print(a[2]); }"))
    for o in ("atomic_store(p, 1)", "bb(atomic_load(p))", "bb(compare_exchange(p, 1, 2))", "bb(atomic_fetch_add(p, 1))", "bb(atomic_fetch_sub(p, 1))"):
        for nm, p in (("misaligned", "(&raw mut a as *mut u8).add(bb(2)) as *mut u32"), ("out of bounds", "(&raw mut a as *mut u32).add(bb(3))"), ("null", "std::ptr::null_mut::<u32>()"), ("dangling", "std::ptr::without_provenance_mut::<u32>(bb(64))")):
            yield Case(f"{o} on a {nm} pointer", main(f"  unsafe {{ let mut a = bb([1u32, 2, 3]); let p = bb({p}); {o}; bb(a); }}"), "ub")
        if "store" not in o: yield Case(f"{o} on uninitialised memory", main(f"  unsafe {{ let mut m = std::mem::MaybeUninit::<u32>::uninit(); let p = &raw mut m as *mut u32; {o}; }}"), "ub")
        yield Case(f"{o} on released memory", main(f"  unsafe {{ let p = allocate(4, 4) as *mut u32; *p = 1; deallocate(p as *mut u8, 4, 4); {o}; }}"), "ub")
    yield Case("store to uninitialised memory initialises it", main("  unsafe { let mut m = std::mem::MaybeUninit::<u32>::uninit(); let p = &raw mut m as *mut u32; atomic_store(p, 9); print(*p); print(atomic_load(p)); }"))
    T = "static mut X: u32 = 0; static mut WON: [u32; 4] = [0; 4];\n"
    yield Case("increments are not lost", main("  unsafe { let t = spawn(f, std::ptr::null()); let u = spawn(f, std::ptr::null()); f(std::ptr::null()); join(t); join(u); print(X) }", T + 'extern "C" fn f(_: *const ()) { unsafe { let mut i = 0; while i < 15 { atomic_fetch_add(&raw mut X, 2); atomic_fetch_sub(&raw mut X, 1); i += 1 } } }\n'), reps=5)
    yield Case("increments by compare-exchange are not lost", main("  unsafe { let t = spawn(f, std::ptr::null()); f(std::ptr::null()); join(t); print(X) }", T + 'extern "C" fn f(_: *const ()) { unsafe { let mut i = 0; while i < 6 { loop { let c = atomic_load(&raw mut X); if compare_exchange(&raw mut X, c, c + 1) == c { break } } i += 1 } } }\n'), reps=6)
    yield Case("exactly one thread wins a compare-exchange", main("  unsafe { let t = spawn(f, &raw const WON as *const ()); let u = spawn(f, (&raw const WON as *const u32).add(1) as *const ()); join(t); join(u); print(WON[0] + WON[1]); print(X); }", T + 'extern "C" fn f(p: *const ()) { unsafe { if compare_exchange(&raw mut X, 0, 1) == 0 { *(p as *mut u32) = 1 } } }\n'), reps=8)
