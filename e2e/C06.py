"""Allocations as a program observes them."""
from lib import Case
from gen import *
from rty import *
TR = """
static mut A: [(usize, usize); 64] = [(0, 0); 64]; static mut N: usize = 0;
#[inline(never)] unsafe fn reg(p: *const u8, n: usize, al: usize) {
  let a = p.addr(); print((a != 0) as u8); print((a % al == 0) as u8); print((a.checked_add(n).is_some()) as u8);
  let mut i = 0; while i < N { let (b, m) = A[i]; let apart = a + n <= b || b + m <= a; print(apart as u8); print((a != b || m == 0 || n == 0) as u8); i += 1 } A[N] = (a, n); N += 1; }
"""
def cases(rng, thorough):
    flags = [(), ("--minirust-tree-borrows",)]
    for k in range(60 if thorough else 16):
        body = "  unsafe {\n"; live = []; n = 0
        for _ in range(14):
            if live and rng.random() < .35:
                i, s, a = live.pop(rng.randrange(len(live))); body += f"  {{ let mut i = 0; while i < N {{ if A[i].0 == p{i}.addr() && A[i].1 == {s} {{ A[i] = A[N - 1]; N -= 1; i = N }} i += 1 }} }} deallocate(p{i}, {s}, {a});\n"
            else:
                s, a = rng.choice([0, 1, 2, 3, 8, 24, 40, 100, 7]), rng.choice([1, 1, 2, 4, 8, 16, 64, 1024])
                if s == 0: s = 1
                body += f"  let p{n} = allocate(bb({s}), bb({a})); reg(p{n}, {s}, {a}); let mut i = 0; while i < {s} {{ *p{n}.add(i) = {n}; i += 1 }}\n"; live.append((n, s, a)); n += 1
            if live:
                i, s, a = rng.choice(live); body += f"  print(*p{i}.add(bb({rng.randrange(s)})));\n"
        for i, s, a in live: body += f"  {{ let mut i = 0; while i < {s} {{ print(*p{i}.add(i)); i += 1 }} }} deallocate(p{i}, {s}, {a});\n"
        src = main(body + "  }", TR)
        yield Case(f"heap blocks {k}", src, flags=flags[k % 2])
    yield Case("zero-sized blocks have distinct addresses", main("  unsafe { let a = allocate(0, 8); let b = allocate(0, 8); let c = allocate(4, 8); let d = allocate(0, 1); print((a != b) as u8); print((b != c) as u8); print((a != c) as u8); print((d != a && d != b && d != c) as u8); print((a.addr() % 8) as u8); deallocate(a, 0, 8); deallocate(b, 0, 8); deallocate(c, 4, 8); deallocate(d, 0, 1); }"), "ok", "1\n1\n1\n1\n0\n")
    for t in ("u8", "u64", "[u8; 5]", "(u8, u32)", "[u64; 40]"):
        yield Case(f"locals of {t} are disjoint", main(f"  fn f(d: u32) {{ let x: MaybeUninit<{t}> = MaybeUninit::uninit(); let y: MaybeUninit<{t}> = MaybeUninit::uninit(); unsafe {{ reg(&raw const x as *const u8, std::mem::size_of::<{t}>(), std::mem::align_of::<{t}>()); reg(&raw const y as *const u8, std::mem::size_of::<{t}>(), std::mem::align_of::<{t}>()); }} if d > 0 {{ f(d - 1) }} }} f(bb(4));", TR + "use std::mem::MaybeUninit;\n"))
    yield Case("statics are aligned and disjoint", main("  unsafe { reg(&raw const S1 as *const u8, 1, 1); reg(&raw const S2 as *const u8, 8, 8); reg(&raw const S3 as *const u8, 64, 64); reg(&raw const S4 as *const u8, 12, 4); reg(&raw const S5 as *const u8, 3, 1); let l = bb(3u32); reg(&raw const l as *const u8, 4, 4); let h = allocate(16, 16); reg(h, 16, 16); deallocate(h, 16, 16); }", TR + "static S1: u8 = 1; static mut S2: u64 = 2; #[repr(align(64))] struct A64([u8; 64]); static S3: A64 = A64([1; 64]); static S4: (u8, u32, u16) = (1, 2, 3); static S5: [u8; 3] = [1, 2, 3];"))
    for e in ("allocate(4, 4) as *const u32", "{ let x = std::mem::MaybeUninit::<u32>::uninit(); let p = &raw const x as *const u32; LAST = *p; p }"):
        yield Case(f"fresh memory is uninitialised: {e[:20]}", main(f"  unsafe {{ let p = {e}; print(*p); }}", "static mut LAST: u32 = 0;\n"), "ub")
    yield Case("fresh memory is uninitialised even after reuse", main("  unsafe { let mut i = 0; while i < 50 { let p = allocate(2, 2); if i == 49 { print(*p.add(bb(1))); } *p.add(1) = 7; deallocate(p, 2, 2); i += 1 } }"), "ub")
    yield Case("writing one block leaves the others alone", main("  unsafe { let a = allocate(8, 8); let b = allocate(8, 8); let mut i = 0; while i < 8 { *a.add(i) = 1; *b.add(i) = 2; i += 1 } *(a as *mut u64) = 0; i = 0; while i < 8 { print(*b.add(i)); print(*a.add(i)); i += 1 } deallocate(a, 8, 8); print(*b); deallocate(b, 8, 8); }"))
    for f in flags:
        yield Case(f"size beyond isize::MAX {f}", main("  unsafe { let p = allocate(bb(1usize << 63), 1); print(p.is_null() as u8); }"), "ub")
        yield Case(f"size usize::MAX {f}", main("  unsafe { let p = allocate(bb(usize::MAX), 1); print(p.is_null() as u8); }"), "ub")
        for a in (0, 3, 6, 12, 255): yield Case(f"alignment {a} {f}", main(f"  unsafe {{ let p = allocate(8, bb({a})); print(p.is_null() as u8); }}"), "ub", flags=f)
        for a in (1, 2, 32, 4096, 1 << 16): yield Case(f"alignment {a} {f}", main(f"  unsafe {{ let p = allocate(8, bb({a})); print(p.addr() % {a}); deallocate(p, 8, {a}); }}"), flags=f)
    yield Case("provenance is fresh: the old pointer does not access a new block", main("  unsafe { let mut i = 0; while i < 20 { let p = allocate(4, 4) as *mut u32; *p = 1; deallocate(p as *mut u8, 4, 4); let q = allocate(4, 4) as *mut u32; *q = 2; let r = p.with_addr(q.addr()); print(*r); i += 1 } }"), "ub")
    yield Case("a pointer from one block moved to another by arithmetic", main("  unsafe { let p = allocate(4, 4); let q = allocate(4, 4); *q = 3; let r = p.wrapping_add(q.addr().wrapping_sub(p.addr())); print((r == q) as u8); print(*r); }"), "ub")
    yield Case("big blocks", main("  unsafe { let p = allocate(1000, 8); *p.add(999) = 4; *p = 5; print(*p.add(bb(999))); print(*p); deallocate(p, 1000, 8); }"))
