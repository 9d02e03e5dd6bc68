"""Unwinding and drops. `std::panic::catch_unwind` is outside the supported subset; the catch intrinsic is used directly."""
from lib import Case
from gen import *
CATCH = """struct D(u32); impl Drop for D { fn drop(&mut self) { print(self.0) } }
struct P(u32); impl Drop for P { fn drop(&mut self) { print(self.0); if self.0 == bb(self.0) { panic!() } } }
struct Cd(fn(), u32);
fn call(d: *mut u8) { unsafe { let c = d as *mut Cd; ((*c).0)() } }
fn caught(d: *mut u8, _: *mut u8) { print(unsafe { (*(d as *mut Cd)).1 }) }
fn catch(f: fn()) { let mut x = Cd(f, 4444); unsafe { print(core::intrinsics::catch_unwind(call, &raw mut x as *mut u8, caught)) } print(x.1) }
fn chk(n: u32, k: u32) -> u32 { if n == bb(k) { panic!() } n }
"""
# programs with a panic point K; run with every K so that the panic happens everywhere once and nowhere once
POINTS = [
("locals in nested scopes", 8, "fn f() { let _a = D(10); chk(0, K); let b = D(11); { let _c = D(12); chk(1, K); let _d = (D(13), chk(2, K), D(14)); chk(3, K); } chk(4, K); drop(b); chk(5, K); let _e = [D(15), D(16), D(17 + chk(6, K))]; chk(7, K); print(1); }"),
("temporaries and arguments", 7, "fn g(a: D, b: D) -> D { chk(2, K); drop(a); chk(3, K); b } fn f() { let x = g(D(20), { chk(0, K); D(21 + chk(1, K)) }); print(x.0); chk(4, K); let _ = g(D(22), D(23)); chk(5, K); let _y = g(x, D(24)); chk(6, K); }"),
("moves out of fields", 6, "struct S { a: D, b: D, c: (D, D) } fn f() { let s = S { a: D(30), b: D(31), c: (D(32), D(33)) }; chk(0, K); let a = s.a; chk(1, K); let q = s.c.1; chk(2, K); drop(a); chk(3, K); let _z = (s.b, D(34)); chk(4, K); drop(q); chk(5, K); }"),
("conditional initialisation and moves", 6, "fn f() { let a = D(40); let b; if K % 2 == 0 { b = D(41); chk(0, K); print(b.0) } else { chk(1, K); } chk(2, K); if K == 3 { drop(a); chk(3, K); } else { let _c = a; chk(4, K); } chk(5, K); print(0); }"),
("loops", 8, "fn f() { let mut o = Some(D(50)); let mut i = 0; while i < 4 { let d = D(51 + i); if i == 2 { o = None; chk(4, K); } let e = D(60 + i); chk(i, K); if i == 1 { i += 1; continue } drop(d); chk(i + 4, K); let _x = e; i += 1 } print(o.is_none() as u8) }"),
("enums and options", 6, "enum E { A(D), B { x: D, y: D }, C } fn mk(n: u32) -> E { match n { 0 => E::A(D(70)), 1 => E::B { x: D(71), y: D(72 + chk(0, K)) }, _ => E::C } } fn f() { let mut e = mk(0); chk(1, K); e = mk(1); chk(2, K); if let E::B { x, .. } = e { chk(3, K); print(x.0) } let o = Some(mk(0)); chk(4, K); match o { Some(E::A(d)) => { chk(5, K); print(d.0) } _ => {} } let _c = mk(2); }"),
("structs with their own destructor", 4, "struct W { n: u32, a: D, b: D } impl Drop for W { fn drop(&mut self) { print(self.n + 900); chk(1, K); self.n = 0; let _t = D(80); } } fn f() { let _w = W { n: 1, a: D(81), b: D(82) }; chk(0, K); { let _v = W { n: 2, a: D(83), b: D(84) }; chk(2, K); } print(_w.a.0 + _w.b.0); chk(3, K); }".replace("chk(1, K)", "if self.n == 2 { chk(1, K); }")),
("panicking drops", 4, "fn f() { let _a = D(90); if K == 0 { let _p = P(91); let _q = D(92); } if K == 1 { let _t = (D(93), P(94), D(95)); print(1) } if K == 2 { let _arr = [P(96)]; let _z = D(97); } if K == 3 { let mut x = P(98); print(x.0); std::mem::forget(std::mem::replace(&mut x, P(99))); } print(2); }"),
("closures and generics", 5, "fn ap<R>(f: impl FnOnce(D) -> R) -> R { let _g = D(110); chk(0, K); f(D(111)) } fn f() { let d = D(112); let r = ap(move |x| { chk(1, K); let _k = d; chk(2, K); x }); chk(3, K); print(r.0); let e = D(113); ap(|x| { print(e.0); drop(x); chk(4, K); }); }"),
("trait objects", 4, "trait T { fn m(&self, n: u32); } impl T for D { fn m(&self, n: u32) { let _l = D(120); chk(n, K); print(self.0) } } impl T for (D, D) { fn m(&self, n: u32) { self.1.m(n); chk(2, K); } } fn f() { let a = D(121); let b = (D(122), D(123)); let v: [&dyn T; 2] = [&a, &b]; v[0].m(0); v[1].m(1); chk(3, K); let p = std::mem::ManuallyDrop::new((D(124), D(125))); let q: *const dyn T = &*p as *const (D, D); unsafe { std::ptr::drop_in_place(q as *mut dyn T) } }"),
("arithmetic and bounds panics", 6, "fn f() { let _d = D(130); let a = [1u32, 2, 3]; let k = bb(K as usize); let _e = D(131); print(if K == 0 { a[k + 3] } else { 0 }); let _g = D(132); print(if K == 1 { 1 / (k - 1) } else { 3 }); { let _h = D(133); print(if K == 2 { 255u8 + k as u8 } else { 4 }); } print(if K == 3 { 1u32 << (k + 30) } else { 5 }); print(if K == 4 { k - 5 } else { 6 }); print(1); }"),
("nested catches", 5, "fn inner() { let _i = D(140); chk(0, K); print(1); chk(1, K); } fn f() { let _o = D(141); catch(inner); chk(2, K); let x = D(142); catch(inner2); chk(4, K); drop(x) } fn inner2() { let _j = D(143); chk(3, K); catch(inner) }"),
("calls through pointers", 8, "fn b0(n: u32) -> D { chk(n, K); D(170 + n) } fn b1(d: D) -> D { let _l = D(180); chk(6, K); d } extern \"C\" fn b2(n: u32) -> u32 { n + 1 } fn f() { let _a = D(181); let g: fn(u32) -> D = bb(b0); let x = g(0); let _t = (D(182), g(1), [D(183), g(2)]); let h: fn(D) -> D = bb(b1); { let _s = D(184); let y = h(g(3)); print(y.0); let _z = [h, h][bb(1)](y); chk(4, K); } let q: extern \"C\" fn(u32) -> u32 = bb(b2); print(q(4)); drop(x); let c: &dyn Fn(u32) -> D = &|n| { let _c = D(185); g(n) }; let _w = c(5); let m: &mut dyn FnMut() = &mut || { chk(7, K); }; m(); let _v = h(D(186)); }"),
("recursion", 6, "fn r(n: u32) -> D { let _d = D(150 + n); if n < 5 { let x = r(n + 1); chk(n, K); print(x.0); D(x.0 + 10) } else { chk(5, K); D(1) } } fn f() { let x = r(0); print(x.0) }"),
("reassignment drops the old value", 5, "fn f() { let mut a = D(160); a = D(161 + chk(0, K)); chk(1, K); let mut v = [D(162), D(163)]; v[bb(1)] = D(164); chk(2, K); let mut o = Some(D(165)); o = None; chk(3, K); o = Some(a); chk(4, K); if let Some(ref mut d) = o { *d = D(166) } print(v[0].0); }"),
]
ABORT = [
("panic in a function that must not unwind", 'extern "C" fn f(k: u32) { chk(1, k); print(3) } fn g() { let _e = D(2); f(0); f(1); print(9) }'),
("panic in a drop during unwinding", "fn g() { let _a = D(1); let _p = P(2); let _b = D(3); panic!() }"),
("panic in a nested drop during unwinding", "struct W(D); impl Drop for W { fn drop(&mut self) { let _p = P(5); print(4) } } fn g() { let _w = W(D(6)); let _x = D(7); chk(0, 0); }"),
("panic while dropping a second panicking field", "fn g() { let _t = (P(1), D(2), P(3)); print(0) }"),
("abort does not unwind", "fn g() { let _d = D(1); core::intrinsics::abort() }"),
]
PANIC_FNS = ['core::panicking::panic_nounwind("x")', 'core::panicking::panic_nounwind_fmt(format_args!("x"), false)', 'core::panicking::panic("x")', 'if bb(true) { panic!("x") }', 'if bb(true) { std::unreachable!() }', 'if bb(true) { todo!() }', 'assert!(bb(false), "m")', 'let _ = &bb([1, 2, 3])[bb(2)..bb(1)]',
  'let _ = &bb([1, 2, 3])[bb(4)..]', 'let _ = &bb([1, 2, 3])[..bb(4)]', 'let _ = &bb([1, 2, 3])[..=bb(usize::MAX)]', 'let _ = &"ab\u00e9"[bb(3)..]', 'let _ = None::<u8>.unwrap()']
def cases(rng, thorough):
    for name, n, items in POINTS:
        for k in range(n + 1):
            it = CATCH + "const K: u32 = %d;\n" % k + items
            yield Case(f"{name}, panic at {k}", feat("  catch(f); print(5000);", it))
            if thorough or k in (n, rng.randrange(n)): yield Case(f"{name}, panic at {k}, uncaught", feat("  let _m = D(7000); f(); print(5000);", it))
    for name, items in ABORT:
        for c in ("catch(g); print(5000);", "let _m = D(7000); g(); print(5000);"):
            yield Case(f"{name} {'caught' if c[0] == 'c' else ''}", feat("  " + c, CATCH + items))
    # every way to panic: the local is dropped exactly if the panic unwinds
    for k, b in enumerate(PANIC_FNS):
        for c in ("catch(g); print(5000);", "let _m = D(7000); g(); print(5000);"):
            yield Case(f"panic function {k} {'caught' if c[0] == 'c' else ''}", "#![feature(panic_internals)]\n" + feat("  " + c, "extern crate core;\n" + CATCH + f"fn g() {{ let _d = D(4); print(1); {b}; print(2); }}"))
    yield Case("an uncaught panic is not a success", feat("  let _d = D(3); chk(1, 1);", CATCH))
    # random trees of scopes with droppable values and one panic point
    for k in range(100 if thorough else 30):
        n = [0, 0]
        def blk(d):
            s = ""; live = []
            for _ in range(rng.choice([2, 3, 4])):
                n[0] += 1; i = n[0]; r = rng.random()
                if r < .3: s += f"let mut v{i} = D({i}); "; live.append(i)
                elif r < .4: s += f"let v{i} = (D({i}), D({i + 1000})); "; s += rng.choice(["", f"drop(v{i}.0); ", f"let _w{i} = v{i}.1; "])
                elif r < .5 and live: j = live.pop(rng.randrange(len(live))); s += rng.choice([f"drop(v{j}); ", f"let _m{i} = v{j}; ", f"tk(v{j}, {n[1]}); ", f"if c({i}) {{ drop(v{j}) }} ", f"let _s{i} = Some(v{j}); "]); n[1] += 1
                elif r < .6 and live: s += f"v{rng.choice(live)} = D({i}); "
                elif r < .75 and d: s += rng.choice([f"{{ {blk(d - 1)} }} ", f"if c({i}) {{ {blk(d - 1)} }} else {{ {blk(d - 1)} }} ", f"let mut i{i} = 0; while i{i} < 2 {{ i{i} += 1; {blk(d - 1)} }} ", f"'x{i}: {{ {blk(d - 1)} if c({i}) {{ break 'x{i} }} {blk(d - 1)} }} "])
                else: s += f"chk({n[1]}, K); "; n[1] += 1
            return s
        body = blk(3)
        it = CATCH + f"fn c(n: u32) -> bool {{ bb(n) * 7 % 3 == 1 }} fn tk(d: D, n: u32) {{ let _l = D(2000 + d.0); chk(n, K); }} fn f() {{ {body} }}\n"
        for p in rng.sample(range(n[1] + 1), min(n[1] + 1, 4 if thorough else 2)):
            yield Case(f"random scopes {k}, panic at {p}", feat("  catch(f); print(5000);", it + f"const K: u32 = {p};"))
