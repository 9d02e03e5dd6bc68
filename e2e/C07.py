"""Loads and stores as a program observes them."""
from lib import Case
from gen import *
from rty import *
KINDS = {  # kind -> (make pointer p: *mut u8 to n writable bytes, cleanup)
 "heap": ("let p = allocate({n}, 16);", "deallocate(p, {n}, 16);"), "local": ("let mut l = MaybeUninit::<AL<{n}>>::uninit(); let p = &raw mut l as *mut u8;", ""),
 "static": ("let p = &raw mut G as *mut u8;", ""), "argument": ("let p = bb(&raw mut arg) as *mut u8;", ""),
}
def cases(rng, thorough):
    flags = [(), ("--minirust-tree-borrows",)]
    W = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "u128"]
    for k in range(60 if thorough else 16):
        kind = rng.choice(list(KINDS)); n = 48
        mk, cl = KINDS[kind]
        body = ""
        for _ in range(45):
            t = rng.choice(W); w = bits(t) // 8; o = rng.randrange((n - w) // w + 1) * w if rng.random() < .9 else 0
            c = rng.random()
            if c < .4: body += f"  *(p.add(bb({o})) as *mut {t}) = bb({lit(rng.choice(interesting(t, rng, 3)), t)});\n"
            elif c < .75: body += f"  print(*(p.add(bb({o})) as *const {t}));\n"
            elif c < .85:
                m = rng.randint(0, n - 8) // 8 * 8; body += f"  *(p.add(bb({m})) as *mut [u8; 8]) = *(p.add({rng.randrange(n - 8)}) as *const [u8; 8]);\n"
            elif c < .95: body += f"  {{ let s = std::slice::from_raw_parts(p.add({o}) as *const {t}, 1); print(s[0]); }}\n"
            else: body += f"  {{ let r = &mut *(p.add({o}) as *mut {t}); *r = r.wrapping_add(3); print(*r); }}\n"
        src = main(f"  unsafe {{ let mut l0 = bb(AL([3u8; {n}])); t(l0); }}", f"use std::mem::MaybeUninit;\n#[repr(C, align(16))] #[derive(Clone, Copy)] struct AL<const N: usize>([u8; N]);\nstatic mut G: AL<{n}> = AL([0; {n}]);\nunsafe fn t(mut arg: AL<{n}>) {{ {mk.format(n=n)} let mut i = 0; while i < {n} {{ *p.add(i) = i as u8; i += 1 }}\n{body} i = 0; while i < {n} {{ print(*p.add(i)); i += 1 }} {cl.format(n=n)} }}\n")
        yield Case(f"accesses to a {kind} block {k}", src, flags=flags[k % 2])
    for kind, (mk, cl) in KINDS.items():
        for t in ("u8", "u32", "u64", "[u8; 3]"):
            sz, al = {"u8": (1, 1), "u32": (4, 4), "u64": (8, 8), "[u8; 3]": (3, 1)}[t]
            n = 24
            pre = f"use std::mem::MaybeUninit;\n#[repr(C, align(16))] #[derive(Clone, Copy)] struct AL<const N: usize>([u8; N]);\nstatic mut G: AL<{n}> = AL([0; {n}]);\n"
            def src(stmt, base=f"{mk} {{body}} {cl}"): return main(f"  unsafe {{ t(bb(AL([3u8; {n}]))); }}", pre + f"unsafe fn t(mut arg: AL<{n}>) {{ {mk.format(n=n)} let mut i = 0; while i < {n} {{ *p.add(i) = i as u8; i += 1 }} {stmt} {cl.format(n=n)} }}\n")
            size = n if kind == "heap" else 32
            size = n if kind == "heap" else 32  # the structures are padded to 32 bytes
            last = (size - sz) // al * al
            f = flags[rng.randrange(2)]
            if kind == "heap": yield Case(f"last {t} of a {kind} block", src(f"let x = *(p.wrapping_add(bb({last})) as *const {t}); *(p.wrapping_add(bb({last})) as *mut {t}) = x; print(1);"), flags=f)
            for off in (last + al, -al, size, 1 << 40, -(1 << 40)):
                if rng.random() < (1 if thorough else .6): yield Case(f"read of {t} at offset {off} of a {kind} block", src(f"let x = *(p.wrapping_offset(bb({off})) as *const {t}); bb(x);"), "ub", flags=f)
                if rng.random() < (1 if thorough else .6): yield Case(f"write of {t} at offset {off} of a {kind} block", src(f"let x = *(p as *const {t}); *(p.wrapping_offset(bb({off})) as *mut {t}) = x;"), "ub", flags=f)
            if al > 1:
                yield Case(f"misaligned write of {t} in a {kind} block", src(f"let x = *(p as *const {t}); *(p.wrapping_offset(bb({al//2})) as *mut {t}) = x;"), "ub", flags=f)
    Z = ("use std::mem::MaybeUninit;\n")
    for e, m in (("std::ptr::without_provenance::<()>(bb(17))", "diff"), ("std::ptr::without_provenance::<[u32; 0]>(bb(16))", "diff"), ("std::ptr::without_provenance::<[u32; 0]>(bb(18))", "ub"), ("std::ptr::without_provenance::<[u64; 0]>(bb(4))", "ub")):
        yield Case(f"zero-sized access at {e}", main(f"  let p = {e}; let x = unsafe {{ *p }}; print(std::mem::size_of_val(&x));"), m)
        yield Case(f"zero-sized store at {e}", main(f"  let p = {e}; let q = p.cast_mut(); unsafe {{ *q = bb({'()' if '()>' in e else '[]'}); }} print(2);"), m)
    yield Case("null", main("  let p: *const u8 = std::ptr::null(); print(unsafe { *bb(p) });"), "ub")
    yield Case("integer address", main("  let p: *const u8 = std::ptr::without_provenance(bb(4096)); print(unsafe { *p });"), "ub")
    yield Case("address of a live object without its provenance", main("  let x = bb(4u8); let p: *const u8 = std::ptr::without_provenance((&raw const x).addr()); print(unsafe { *p });"), "ub")
    yield Case("code is not data", main("  let f: fn(u8) -> u8 = bb; print(unsafe { *(f as *const () as *const u8) });"), "ub")
    yield Case("code is not writable", main("  let f: fn(u8) -> u8 = bb; unsafe { *(f as *mut () as *mut u8) = 1 } print(f(1));"), "ub")
    for s in ("print(unsafe { *p });", "unsafe { *p = 1 }"):
        yield Case(f"after free: {s}", main("  let p = unsafe { allocate(4, 4) }; unsafe { *p = 3; print(*p); deallocate(p, 4, 4); } " + s), "ub")
        yield Case(f"after the scope: {s}", main("  let p: *mut u8; { let mut x = bb(3u8); p = &raw mut x; unsafe { print(*p) } } " + s), "ub")
        yield Case(f"after return: {s}", main("  fn f() -> *mut u8 { let mut x = bb(3u8); &raw mut x } let p = f(); " + s), "ub")
    yield Case("a pointer to dead memory may be copied and compared", main("  let p: *mut u8; { let mut x = bb(3u8); p = &raw mut x; } let q = bb(p); print((p == q) as u8); print(q.is_null() as u8);"))
    yield Case("block freed through a copy, read through the original", main("  unsafe { let p = allocate(4, 4); *p = 1; let a = bb([p, p]); deallocate(a[0], 4, 4); print(*p); }"), "ub")
    yield Case("overlapping assignment reads before writing", main("  let mut a = bb([1u8, 2, 3, 4, 5, 6]); a = [a[1], a[0], a[3], a[2], a[5], a[4]]; print(a[bb(0)]); print(a[5]); let mut t = bb((1u32, 2u32)); t = (t.1, t.0); print(t.0); print(t.1); let p = &raw mut a as *mut [u8; 3]; unsafe { *p = *(p as *const u8).add(3).cast::<[u8; 3]>(); } print(a[bb(1)]);"))
    yield Case("raw_eq", main("  let a = bb([1u32, 2, 3]); let b = bb([1u32, 2, 3]); let c = bb([1u32, 2, 4]); print((a == b) as u8); print((a == c) as u8); print(([0u8; 0] == bb([])) as u8); print((bb([true, false]) == [true, false]) as u8); print((bb([1u16]) != [2u16]) as u8);"))
    for kind in ("struct", "array", "enum"):
        items = "#[derive(Clone, Copy)] #[repr(C)] struct S { a: u8, b: u32, c: u16 }\n#[derive(Clone, Copy)] #[repr(C, u8)] #[allow(dead_code)] enum E { A(u32), B(u8, u8) }\n"
        b = {"struct": "let mut x = [S { a: 1, b: 2, c: 3 }; 3]; x[bb(1)].b = 77; x[1].c += 1; let p = &raw mut x[1].a; unsafe { *p = 9 } let mut i = 0; while i < 3 { print(x[i].a); print(x[i].b); print(x[i].c); i += 1 }",
             "array": "let mut x = bb([[1u16; 4]; 3]); x[bb(1)][bb(2)] = 5; x[2] = x[1]; let r = &mut x[0]; r[3] = 8; let mut i = 0; while i < 12 { print(x[i / 4][i % 4]); i += 1 }",
             "enum": "let mut x = [E::A(1), E::B(2, 3), E::A(4)]; if let E::B(_, q) = &mut x[bb(1)] { *q = 50 } x[0] = x[1]; let mut i = 0; while i < 3 { match x[i] { E::A(n) => print(n), E::B(m, n) => { print(m); print(n) } } i += 1 }"}[kind]
        yield Case(f"stores change only the addressed part of a {kind}", main("  " + b, items))
