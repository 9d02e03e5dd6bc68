"""The dump of translated programs: balanced and complete (the numbering of names may differ between translations of one source)."""
import os, re, json
from gen import *
PROGS = [
 ("arithmetic", "  let x = bb(5i64); let y = x.wrapping_mul(3) - (x - bb(2)); print(y); print(!(y & 7) | 1); print((x < y) as u8); print((x as u8) >> 2);", ""),
 ("enums and switches", "  let mut i = 0; while i < 5 { print(match e(i) { E::A => 1, E::B(x) => x as i32, E::C { y, .. } => y, E::D => 8 }); print(match i { 0 => 10, 1 | 4 => 11, _ => 12 }); i += 1; }",
  "#[derive(Clone, Copy)] enum E { A, B(u8), C { x: bool, y: i32 }, D } fn e(i: i32) -> E { match i { 0 => E::A, 1 => E::B(3), 2 => E::C { x: true, y: 7 }, _ => E::D } }"),
 ("traits and vtables", "  let v: [&dyn T; 3] = [&1u8, &S(2, 3), &Z]; let mut i = 0; while i < 3 { print(v[i].a()); print(v[i].b(4)); print(v[i].c()); i += 1 }",
  "trait T { fn a(&self) -> i32; fn b(&self, x: i32) -> i32 { self.a() + x } fn c(&self) -> i32 { self.b(1) } fn d(&self) {} } struct S(i32, u64); struct Z; impl T for u8 { fn a(&self) -> i32 { *self as i32 } } impl T for S { fn a(&self) -> i32 { self.0 } fn c(&self) -> i32 { self.1 as i32 } } impl T for Z { fn a(&self) -> i32 { 9 } }"),
 ("unwinding and destructors", "  let _a = D(1); let b = D(2); if bb(false) { panic!() } drop(b); let z = [D(4), D(5)]; print(3); f(&z);", "struct D(i32); impl Drop for D { fn drop(&mut self) { print(self.0) } } fn f(d: &[D]) { print(d.len()); if bb(false) { panic!() } }"),
 ("unions, statics and memory", "  unsafe { G[1] = 7; print(G[1]); let u = U { a: 5 }; print(u.b[0]); print(*P); let p = allocate(8, 8) as *mut u32; *p = 3; *p.add(1) = *p; print(*p.add(1)); deallocate(p as *mut u8, 8, 8); }", "static mut G: [u16; 4] = [1, 2, 3, 4]; static X: u32 = 77; static P: &u32 = &X; union U { a: u32, b: [u8; 4] }"),
 ("threads and atomics", "  unsafe { L = create_lock(); let t = spawn(f, std::ptr::null()); acquire(L); N += 1; release(L); join(t); print(N); atomic_store(&raw mut C, 3); print(atomic_fetch_add(&raw mut C, 2)); print(atomic_load(&raw mut C)); }", "static mut C: u32 = 4; static mut L: usize = 0; static mut N: u32 = 0; extern \"C\" fn f(_: *const ()) { unsafe { acquire(L); N += 1; release(L); } }"),
]
def cases(rng, thorough): return iter(())
def balanced(s):
    st, pair = [], {")": "(", "]": "[", "}": "{"}
    for c in s:
        if c in "([{": st.append(c)
        elif c in pair and (not st or st.pop() != pair[c]): return False
    return not st
def counts(prog):
    def hd(x): return x if isinstance(x, str) else next(iter(x))
    r = dict(functions=0, blocks=0, statements=0, locals=0, globals=len(prog["globals"]), traits=len(prog["traits"]), vtables=len(prog["vtables"]), cases=0)
    for _, f in prog["functions"]:
        r["functions"] += 1; r["locals"] += len(f["locals"]); r["blocks"] += len(f["blocks"])
        for _, b in f["blocks"]:
            r["statements"] += len(b["statements"])
            if hd(b["terminator"]) == "Switch": r["cases"] += len(b["terminator"]["Switch"]["cases"]) + 1
    return r
def seen(d):
    n = lambda r: len(re.findall(r, d, re.M))
    r = dict(functions=n(r"^(start )?fn f\d+\("), blocks=n(r"^  (start )?bb\d+( \(\w+\))?:$"), locals=n(r"^  let _\d+: "), globals=n(r"^global\(\d+\) \{$"), traits=n(r"^trait\d+ \{"), vtables=n(r"^vtable\d+ \{"), cases=n(r"^      (-?\d+|otherwise): bb\d+,?$"))
    lines = n(r"^    \S") - n(r"^    \];$")
    r["statements"] = lines - r["blocks"]
    return r
def extra(t, rng, thorough):
    from concurrent.futures import ThreadPoolExecutor
    def go(p):
        n, b, i = p
        f = f"{t.work}/d_{re.sub(r'[^a-z0-9]', '_', n)}.rs"; open(f, "w").write(main(b, i))
        out = []
        ds = [t.mini(f, ["--minimize-dump=pretty"], pre=["-Coverflow-checks=on"]) for _ in range(1)]
        out.append((f"{n}: dumping succeeds", all(d[0] == 0 for d in ds), f"status {[d[0] for d in ds]}: {ds[0][2][:200]}"))
        d = ds[0][1]
        out.append((f"{n}: brackets balance", balanced(d), "brackets do not balance"))
        j = t.mini(f, ["--minimize-dump=json"], pre=["-Coverflow-checks=on"])
        if j[0] == 0:
            w, g = counts(json.loads(j[1])), seen(d)
            out.append((f"{n}: everything is shown", w == g, f"the program has {w}, the dump shows {g}"))
        return out
    with ThreadPoolExecutor(8) as ex:
        for o in ex.map(go, PROGS): yield from o
