"""Storage of locals: fresh in every activation, uninitialised at the start, gone at the end."""
from lib import Case
from gen import *
U = "use std::mem::MaybeUninit;\nstatic mut P: *const u32 = std::ptr::null();\nstatic mut Q: [*const u8; 16] = [std::ptr::null(); 16];\n#[repr(align(64))] #[derive(Clone, Copy)] struct A64(u8); #[derive(Clone, Copy)] struct Zs;\n"
OK = [
("recursion keeps its own locals", "  print(f(0, std::ptr::null())); print(g(6));", "fn f(n: u32, up: *const u32) -> u32 { let mut x = n * 10; if n == 5 { return 0 } let r = f(n + 1, &raw const x); if !up.is_null() { print(unsafe { *up }); print((up == &raw const x) as u8) } x += r; print(x); x } fn g(n: u32) -> u32 { let a = [n; 3]; let b = if n == 0 { 0 } else { g(n - 1) + g(n / 2) }; print(a[bb(1)]); a[2] + b }"),
("loop iterations get fresh locals", "  let mut i = 0u32; while i < 4 { let mut x = i; { let p = &mut x; *p += 100; } let y; if i % 2 == 0 { y = x } else { y = 1 } print(x + y); let z = [x, y]; print(z[bb(1)]); i += 1 } let mut k = 0; let v = loop { let t = k * k; k += 1; if t > 10 { break t } let u = t + 1; if u % 2 == 0 { continue } print(u); }; print(v);", ""),
("arguments are the callee's own", "  let x = bb(5u32); let y = [1u8; 4]; print(h(x, y)); print(x); print(y[0]); print(h(x, y)); let t = m(x, m(1, 2)); print(t); let mut s = (1u8, 2u16); s = sw(s, 3); print(s.0); print(s.1);", "fn h(mut a: u32, mut b: [u8; 4]) -> u32 { a += 1; b[bb(2)] = 9; let p = &mut a; *p *= 2; a + b[2] as u32 } fn m(a: u32, mut b: u32) -> u32 { b -= 1; a * 10 + b } fn sw(mut s: (u8, u16), n: u8) -> (u8, u16) { s.0 = s.0 + n; s.1 = s.1 * n as u16; s }"),
("locals in all frames are distinct", "  d(0);", "fn d(n: usize) { let a = n as u8; let b = [a; 3]; unsafe { Q[n] = &raw const a; let mut i = 0; while i < n { print((Q[i] == Q[n]) as u8); print(*Q[i]); i += 1 } print((&raw const b as *const u8 == &raw const a) as u8); } if n < 6 { d(n + 1) } print(a); print(b[bb(2)]); }"),
("sizes and alignments of locals", "  let a = bb(A64(1)); let b = 7u8; let c = A64(2); let d = [A64(3); 2]; let e = Zs; let z: [u64; 0] = []; let q = 4u128; print((&raw const a as usize % 64) as u8); print((&raw const c as usize % 64) as u8); print((&raw const d[bb(1)] as usize % 64) as u8); print(b + a.0 + c.0 + d[1].0); print((&raw const z as usize % 8) as u8); print((&raw const q as usize % 16) as u8); let _ = &e; print(q); f(a, 1, 2, 3);", "fn f(a: A64, b: u8, c: u64, d: u16) { print((&raw const a as usize % 64) as u8); print((&raw const c as usize % 8) as u8); print((&raw const d as usize % 2) as u8); print(a.0 as u64 + b as u64 + c + d as u64) }".replace("usize % ", "usize % ")),
("late initialisation and reassignment", "  let a; let b: [u32; 2]; if bb(true) { a = 3u8 } else { a = 4 } print(a); let mut i = 0; loop { let c; if i == 0 { c = 1u32 } else { c = i * 2 } i += c; if i > 9 { b = [i, c]; break } } print(b[0]); print(b[bb(1)]); let mut m: MaybeUninit<u32> = MaybeUninit::uninit(); m.write(bb(4)); print(unsafe { m.assume_init() }); let t: (u8, u32); t = (1, bb(2)); print(t.1);", ""),
("shadowing and nested scopes", "  let x = bb(1u32); { let x = x + 1; { let x = [x; 2]; print(x[bb(0)]); } print(x); } print(x); let p = { let y = bb(9u32); let q = &raw const y; unsafe { *q } }; print(p); let x = (x, 2u8); print(x.0); let r = { let t = bb([4u32, 5]); let u = &t; u[bb(1)] }; print(r);", ""),
("return values", "  let a = r(3); print(a[bb(7)]); let b = [r(1), r(2)]; print(b[bb(1)][0]); let (x, y) = t(bb(4)); print(x); print(y.1); let mut v = r(5); v[bb(2)] = 77; let w = v; print(w[2]); u(); print({ let z = r(6); z[bb(3)] }); let n: u64 = (0..3u64).map(|i| r(i as u8)[1] as u64).sum(); print(n);", "fn r(n: u8) -> [u8; 8] { let mut a = [n; 8]; a[bb(7)] = n + 1; if n == 5 { return a } let b = a; b } fn t(n: u32) -> (u32, (u8, u64)) { let k = (n as u8, n as u64 * 3); (n + 1, k) } fn u() {}"),
("the address of a local is stable while it lives", "  let mut x = bb(1u32); let p = &raw mut x; let mut i = 0; while i < 5 { let y = [i; 4]; print(y[bb(3)]); unsafe { *p += 1 } f(i); print((&raw mut x == p) as u8); i += 1 } print(x);", "fn f(n: u32) { let a = [n; 8]; print(a[bb(1)]); }"),
("closures capture their own copies", "  let mut fs = [0u32; 3]; let mut i = 0; while i < 3 { let k = i as u32 * 5; let f = move |x: u32| { let mut y = x + k; y += 1; y }; fs[i] = f(f(1)); i += 1 } print(fs[bb(0)]); print(fs[1]); print(fs[2]); let a = bb([1u32, 2]); let g = |n: usize| { let t = a; t[n] }; print(g(1)); print((|| { let z = bb(3); z })()); sp(&|a, (b, c), d| { let mut e = a + b; e += c * d; e });", "fn sp(f: &dyn Fn(u32, (u32, u32), u32) -> u32) { print(f(1, (2, 3), 4)); print(f(5, (6, 7), 8)) }"),
("statements after a diverging branch", "  let mut n = 0u32; while n < 6 { let a = [n; 2]; if n == 1 { n += 2; continue } let b = match n { 0 => a[bb(0)], 3 => { n += 1; continue } 5 => break, k => k + 1 }; print(b); n += 1 } print(n); print(e(3)); print(e(30));", "fn e(n: u32) -> u32 { let a = [n, 1]; if n > 20 { return a[bb(0)] } let b = a; let c = loop { let d = b; if d[bb(1)] == 1 { break d[0] } }; c * 2 }"),
("deep recursion with arrays", "  print(f([1; 6], 12));", "fn f(mut a: [u32; 6], n: usize) -> u32 { let s = a; a[n % 6] += n as u32; if n == 0 { a[0] + a[5] } else { f(a, n - 1) + s[n % 6] } }"),
]
UB = [
("read of an uninitialised local", "  let x: MaybeUninit<u32> = MaybeUninit::uninit(); print(unsafe { *(&raw const x as *const u32) });", ""),
("a local is uninitialised again in the next iteration", "  let mut i = 0; while i < 2 { let mut m = MaybeUninit::<u32>::uninit(); let p = &raw mut m as *mut u32; if i == 0 { unsafe { *p = 4 } } print(unsafe { *p }); i += 1 }", ""),
("a local is uninitialised again in the next call", "  f(true); f(false);", "fn f(b: bool) { let mut m = MaybeUninit::<[u8; 4]>::uninit(); let p = &raw mut m as *mut u8; if b { unsafe { let mut i = 0; while i < 4 { *p.add(i) = 1; i += 1 } } } print(unsafe { *p.add(3) }) }"),
("pointer to a local of an ended scope", "  let p; { let x = bb(3u32); p = &raw const x; print(unsafe { *p }); } print(unsafe { *p });", ""),
("pointer to a local of an ended scope, reused by another local", "  let p; { let x = bb(3u32); p = &raw const x; print(x); } let y = bb(4u32); print(unsafe { *p } + y);", ""),
("pointer to a local of a returned function", "  let p = f(); print(unsafe { *p });", "fn f() -> *const u32 { let x = bb(3u32); &raw const x }"),
("pointer to an argument of a returned function", "  let p = f(7); print(unsafe { *p });", "fn f(x: u32) -> *const u32 { print(x); &raw const x }"),
("write to a local of a returned function", "  let p = f(); unsafe { *p = 3 } print(1);", "fn f() -> *mut u32 { let mut x = bb(3u32); x += 1; &raw mut x }"),
("pointer kept from an earlier iteration", "  let mut p = std::ptr::null(); let mut i = 0u32; while i < 3 { let x = bb(i); if i > 0 { print(unsafe { *p }) } p = &raw const x; i += 1 }", ""),
("pointer kept from an earlier call", "  g(1); g(2);", "fn g(n: u32) { let x = bb(n); unsafe { if n == 2 { print(*P) } P = &raw const x; print(*P) } }"),
("pointer to a temporary", "  let p = &raw const *&bb(5u32); print(1); print(unsafe { *p });".replace("&raw const *&bb(5u32)", "{ let r = &bb(5u32); r as *const u32 }"), ""),
("pointer to a frame unwound by early return", "  let p = f(true); print(unsafe { (*p)[1] });", "fn f(b: bool) -> *const [u8; 2] { let a = bb([1u8, 2]); let p = &raw const a; if b { return p } print(a[0]); p }"),
("pointer to the returned value's old place", "  let x = f(); print(x[0]); print(unsafe { *(P as *const u8) });", "fn f() -> [u8; 8] { let a = bb([3u8; 8]); unsafe { P = &raw const a as *const u32 } let b = a; b }"),
("neighbouring locals are not reachable", "  let a = bb([1u32; 4]); let b = bb([2u32; 4]); let p = &raw const a as *const u32; let d = (&raw const b as usize).wrapping_sub(p as usize); print(a[0] + b[0]); print(unsafe { *(p as *const u8).wrapping_add(d) });", ""),
]
def cases(rng, thorough):
    for n, b, i in OK:
        yield Case(n, main(b, U + i)); yield Case(n + " (tree borrows)", main(b, U + i), flags=["--minirust-tree-borrows"])
    for n, b, i in UB:
        yield Case(n, main(b, U + i), "ub")
        if thorough: yield Case(n + " (tree borrows)", main(b, U + i), "ub", flags=["--minirust-tree-borrows"])
    for a in (1, 2, 4, 8, 16, 32, 128):
        yield Case(f"alignment {a} of locals, arguments and results", main(f"  let x = bb(T([1; {max(a, 3)}])); let p = &raw const x; print(p as usize % {a}); let y = f(x, 3, x); print((&raw const y) as usize % {a}); print(y.0[2]); let z = [x, y]; print(&raw const z[bb(1)] as usize % {a}); let mut i = 0; while i < 3 {{ let w = y; print(&raw const w as usize % {a}); i += 1 }}", f"#[repr(C, align({a}))] #[derive(Clone, Copy)] struct T([u8; {max(a, 3)}]);\nfn f(a: T, n: u8, b: T) -> T {{ print(&raw const a as usize % {a}); print(&raw const b as usize % {a}); let mut c = a; c.0[2] = n + b.0[0]; print(&raw const c as usize % {a}); c }}"))
    # functions with random numbers of arguments and locals: all addresses in a frame are distinct, all values kept
    for k in range(30 if thorough else 10):
        na, nl = rng.randrange(0, 7), rng.randrange(1, 6); ty = lambda: rng.choice(["u8", "u16", "u32", "u64", "[u8; 3]", "(u8, u32)"])
        val = lambda t: {"[u8; 3]": "[{0} as u8, 1, {0} as u8 / 2]", "(u8, u32)": "({0} as u8, {0} as u32 * 3)"}.get(t, "{0} as %s" % t)
        prn = lambda v, t: {"[u8; 3]": f"print({v}[bb(0)]); print({v}[2]);", "(u8, u32)": f"print({v}.0); print({v}.1);"}.get(t, f"print({v});")
        at = [ty() for _ in range(na)]; lt = [ty() for _ in range(nl)]
        names = [(f"a{i}", t) for i, t in enumerate(at)] + [(f"l{i}", t) for i, t in enumerate(lt)]
        s = f"fn f(n: u32{''.join(f', mut a{i}: {t}' for i, t in enumerate(at))}) -> u32 {{ " + " ".join(f"let mut l{i}: {t} = " + val(t).format("(n + %d)" % i) + ";" for i, t in enumerate(lt))
        s += " let ps = [" + ", ".join(f"&raw mut {n} as *const u8" for n, _ in names) + "]; let mut i = 0; while i < ps.len() { let mut j = 0; while j < i { if ps[i] == ps[j] { print(-1) } j += 1 } i += 1 } let r = if n == 0 { 1 } else { f(n - 1" + "".join(f", {n}" for n, t in names[:na]) + ") + n };"
        s += " " + " ".join(prn(n, t) for n, t in names) + " r }\n"
        yield Case(f"random frames {k}", main(f"  print(f(3{''.join(', ' + val(t).format(str(i + 5)) for i, t in enumerate(at))}));", s))
