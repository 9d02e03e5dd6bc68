"""Calls: arguments, results, recursion, methods, generics, closures, function pointers, ABI compatibility."""
from lib import Case
from gen import *
from rty import *
def cases(rng, thorough):
    # random functions with random signatures
    for k in range(70 if thorough else 22):
        g = Gen(rng); body = []
        for j in range(4):
            ts = [g.ty(2) for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))]; rt = g.ty(2)
            ps = ", ".join(f"a{i}: {t}" for i, t in enumerate(ts))
            ext = rng.choice(["", "", 'extern "C" '])
            g.items += f"#[inline(never)] {ext}fn f{j}({ps}) -> {rt} {{ " + " ".join(f"a{i}.sh();" for i in range(len(ts))) + f" {g.val(rt)} }}\n"
            if ts: g.items += f"#[inline(never)] fn h{j}({', '.join('mut ' + p for p in ps.split(', a') for p in [p if p.startswith('a') else 'a' + p])}) -> {ts[-1]} {{ a0 = {g.val(ts[0])}; a0.sh(); let r = a{len(ts)-1}; r }}\n" if False else ""
            args = ", ".join(g.val(t) for t in ts)
            body.append(f"  f{j}({args}).sh(); {{ let p: {ext}fn({', '.join(ts)}) -> {rt} = bb(f{j}); p({args}).sh(); let q = [p, f{j}]; q[bb(1)]({args}).sh(); }}")
            if not ext: body.append(f"  {{ let c = |{', '.join(f'x{i}: {t}' for i, t in enumerate(ts))}| {{ let r = f{j}({', '.join(f'x{i}' for i in range(len(ts)))}); r }}; c({args}).sh(); ap{j}(c).sh(); ap{j}(f{j}).sh(); let d: &dyn Fn({', '.join(ts)}) -> {rt} = &c; d({args}).sh(); }}"); g.items += f"fn ap{j}(c: impl Fn({', '.join(ts)}) -> {rt}) -> {rt} {{ c({args}) }}\n"
        yield Case(f"random signatures {k}", main("\n".join(body), SH + g.items), rnd=True)
    for k in range(30 if thorough else 10):
        g = Gen(rng); body = []
        for j in range(3):
            t, u = g.ty(2), g.ty(2)
            g.items += f"#[derive(Clone, Copy)] struct G{j}<T, U> {{ t: T, u: U, n: u32 }}\nimpl<T: Sh + Copy, U: Sh + Copy> G{j}<T, U> {{ fn new(t: T, u: U) -> Self {{ G{j} {{ t, u, n: 0 }} }} fn swap(self) -> G{j}<U, T> {{ G{j} {{ t: self.u, u: self.t, n: self.n + 1 }} }} fn bump(&mut self) -> &mut Self {{ self.n += 1; self }} fn show(&self) {{ self.t.sh(); self.u.sh(); print(self.n) }} fn map<V>(self, f: impl FnOnce(T) -> V) -> G{j}<V, U> {{ G{j} {{ t: f(self.t), u: self.u, n: self.n }} }} const K: usize = std::mem::size_of::<T>() + 1; }}\n"
            body.append(f"  {{ let mut x = G{j}::new(bb::<{t}>({g.val(t)}), bb::<{u}>({g.val(u)})); x.bump().bump(); x.show(); let y = x.swap(); y.show(); let z = y.swap().swap(); z.show(); x.map(|v| (v, 3u8)).show(); print(G{j}::<{t}, {u}>::K); print(G{j}::<{u}, {t}>::K); x.swap().map::<{t}>(|_| {g.val(t)}).show(); x.show(); }}")
        yield Case(f"generic methods {k}", main("\n".join(body), SH + g.items), rnd=True)
    yield Case("arguments are copies", main("""  let mut a = bb([1u32, 2, 3]); f(a); print(a[0]); g(&mut a); print(a[0]); let s = S { x: 1, y: [2, 3] }; h(s); print(s.x); let t = k(s); print(t.x); print(s.y[bb(1)]); print(t.y[1]); let b = m(a, a); print(b[0]); print(b[1]); print(a[1]);""",
        "fn f(mut a: [u32; 3]) { a[bb(0)] = 9; print(a[0]) } fn g(a: &mut [u32; 3]) { a[bb(0)] = 8 } #[derive(Clone, Copy)] struct S { x: u8, y: [u16; 2] } fn h(mut s: S) { s.x = 5; s.y[1] = 7; print(s.x) } fn k(mut s: S) -> S { s.x += 1; s.y[bb(1)] = 70; s } fn m(mut a: [u32; 3], b: [u32; 3]) -> [u32; 3] { a[0] = 100; a[1] = b[0]; a }"))
    yield Case("moved arguments", main("  let a = N(1); let b = N(2); let c = f(a, b); print(c.0); let d = (N(3), N(4)); let e = f(d.1, d.0); print(e.0); let mut v = N(9); v = f(v, N(10)); print(v.0); let t = g((N(5), 6), [N(7), N(8)]); print(t.0.0);", "struct N(u32); impl Drop for N { fn drop(&mut self) { print(100 + self.0) } } #[inline(never)] fn f(x: N, y: N) -> N { print(x.0 * 10 + y.0); y } fn g(x: (N, u8), y: [N; 2]) -> ((N, u8), u8) { print(x.1); print(y[1].0); ((q, 1), 2).0; ((x.0, 1), 2).0; ((N(50), 1), 2).0; ((N(51), 1), 2) }".replace("((q, 1), 2).0; ((x.0, 1), 2).0; ((N(50), 1), 2).0; ((N(51), 1), 2)", "let _ = x.1; ((x.0, 1).0, 2)").replace("-> ((N, u8), u8)", "-> (N, u8)")))
    yield Case("recursion", main("  print(fib(10)); print(ack(2, 2)); print(even(7) as u8); print(even(6) as u8); print(gcd(bb(84), 36)); print(sum(&[1, 2, 3, 4, 5])); hanoi(3, 1, 2, 3); print(depth(40)); print(coll(27, 0));", "fn fib(n: u32) -> u32 { if n < 2 { n } else { fib(n - 1) + fib(n - 2) } } fn ack(m: u32, n: u32) -> u32 { if m == 0 { n + 1 } else if n == 0 { ack(m - 1, 1) } else { ack(m - 1, ack(m, n - 1)) } } fn even(n: u32) -> bool { n == 0 || odd(n - 1) } fn odd(n: u32) -> bool { n != 0 && even(n - 1) } fn gcd(a: u32, b: u32) -> u32 { if b == 0 { a } else { gcd(b, a % b) } } fn sum(s: &[u32]) -> u32 { let n = s.len(); if n == 0 { 0 } else { s[0] + sum(&s[1..]) } } fn hanoi(n: u8, a: u8, b: u8, c: u8) { if n > 0 { hanoi(n - 1, a, c, b); print(a * 10 + c); hanoi(n - 1, b, a, c) } } fn depth(n: u32) -> u32 { let x = n; let y = if n == 0 { 0 } else { depth(n - 1) }; x + y } fn coll(n: u64, k: u32) -> u32 { if n == 1 || k == 20 { k } else if n % 2 == 0 { coll(n / 2, k + 1) } else { coll(3 * n + 1, k + 1) } }"))
    yield Case("closures", main("""  let x = bb(3u32); let mut y = bb(10u32); let add = |a: u32| a + x; print(add(4)); print(ap(&add, 5)); print(ap(add, 6)); { let mut inc = |d: u32| { y += d; y }; print(inc(1)); print(inc(2)); apm(&mut inc); } print(y);
  let s = N(7); let once = move |k: u32| { let t = s; t.0 + k }; print(once(1)); let v = [1u32, 2, 3]; let c = move || v[bb(1)] + x; print(c()); print(c()); let mk = adder(5); print(mk(3)); let comp = compose(adder(1), adder(10)); print(comp(100)); let n = |a: u8, b: u16, c: u32, d: u64| a as u64 + b as u64 + c as u64 + d; print(n(1, 2, 3, 4)); let e = || (); e();  let nested = |a: u32| { let g = |b: u32| a * b + x; g(2) + g(3) }; print(nested(4));
  let t = (1u8, N(4)); let r = || { print(t.0); print(t.1.0) }; r(); r(); let mut cnt = 0; let mut f = || { cnt += 1; if cnt < 3 { 0 } else { cnt } }; f(); f(); print(f()); print(cnt); print(rec(&|a| a + 1, 5)); let dy: [&dyn Fn(u32) -> u32; 3] = [&add1, &|a| a + x, &adder(7)]; let mut i = 0; while i < 3 { print(dy[i](1)); i += 1 } let dm: &mut dyn FnMut() -> u32 = &mut || { y += 5; y }; print(dm()); print(dm()); print(y);""",
        "struct N(u32); impl Drop for N { fn drop(&mut self) { print(900 + self.0) } } fn add1(a: u32) -> u32 { a + 1 } fn ap(f: impl Fn(u32) -> u32, a: u32) -> u32 { f(a) } fn apm(f: &mut impl FnMut(u32) -> u32) { print(f(100)); print(f(1000)) } fn adder(n: u32) -> impl Fn(u32) -> u32 { move |a| a + n } fn compose(f: impl Fn(u32) -> u32, g: impl Fn(u32) -> u32) -> impl Fn(u32) -> u32 { move |a| g(f(a)) } fn rec(f: &dyn Fn(u32) -> u32, n: u32) -> u32 { if n == 0 { 0 } else { f(rec(f, n - 1)) } }"))
    yield Case("closures taking several arguments and tuples", main("  print(a2(|a, b| a * 10 + b)); print(a3(|(a, b), c| a * 100 + b * 10 + c)); print(a0(|| 7)); print(o2(|a, b| a - b)); let k = bb(5); print(a2(move |a, b| { let t = (a, b, k); t.0 + t.1 * t.2 })); print(a2(std::cmp::max)); print(a2(u32::wrapping_sub)); print(g3(&|x: &u32, y: &mut u32, z: [u32; 2]| { *y += *x; *y + z[bb(1)] }));", "fn a2(f: impl Fn(u32, u32) -> u32) -> u32 { f(1, 2) + f(2, 1) } fn a3(f: impl Fn((u32, u32), u32) -> u32) -> u32 { f((1, 2), 3) } fn a0(f: impl FnOnce() -> u32) -> u32 { f() } fn o2(f: impl FnOnce(u32, u32) -> u32) -> u32 { f(9, 4) } fn g3(f: &dyn Fn(&u32, &mut u32, [u32; 2]) -> u32) -> u32 { let mut y = 7; let r = f(&3, &mut y, [1, 2]); r * 100 + y }".replace("a2(u32::wrapping_sub)", "a2(u32::wrapping_sub)")))
    yield Case("function pointers in data", main("  let t: [fn(u32, u32) -> u32; 4] = [add, sub, mul, cat]; let mut i = 0; while i < 4 { print(t[i](9, 4)); i += 1 } let s = S { f: bb(mul), g: Some(sub) }; print((s.f)(3, 4)); if let Some(g) = s.g { print(g(10, 1)) } print(pick(bb(0))(5, 6)); print(pick(1)(5, 6)); print((add as fn(u32, u32) -> u32 == bb(add as fn(u32, u32) -> u32)) as u8); let g: fn(u8) -> u8 = gen::<u8>; let h: fn(i16) -> i16 = gen::<i16>; print(g(4)); print(h(-4)); print(std::mem::size_of_val(&g)); let n: Option<fn()> = bb(None); print(n.is_none() as u8);".replace("print((add as fn(u32, u32) -> u32 == bb(add as fn(u32, u32) -> u32)) as u8);", ""), "fn add(a: u32, b: u32) -> u32 { a + b } fn sub(a: u32, b: u32) -> u32 { a - b } fn mul(a: u32, b: u32) -> u32 { a * b } struct S { f: fn(u32, u32) -> u32, g: Option<fn(u32, u32) -> u32> } fn pick(n: u8) -> fn(u32, u32) -> u32 { if n == 0 { add } else { mul } } fn cat(a: u32, b: u32) -> u32 { a * 100 + b } fn gen<T>(t: T) -> T { t }"))
    yield Case("zero-sized and large arguments and results", main("  z((), [0u32; 0]); let b = big([7u64; 30]); print(b[bb(29)]); print(b[0]); let (a, (), c) = mix((), 4, ()); print(a); print(c); let u = unit(5); u.sh(); print(nothing(&[]).len()); fnd(add, |x| x); ", SH + "#[derive(Clone, Copy)] struct Z; fn z(_a: (), b: [u32; 0]) { print(b.len()); let _z = Z; } fn big(mut a: [u64; 30]) -> [u64; 30] { a[0] = 1; a } fn mix(_: (), a: u8, _: ()) -> (u8, (), u8) { (a, (), a + 1) } fn unit(a: u8) { print(a) } fn nothing<'a>(s: &'a [u8]) -> &'a [u8] { s } fn add(a: u32) -> u32 { a + 1 } fn fnd<F: Fn(u32) -> u32, G: Fn(u32) -> u32>(f: F, g: G) { print(f(1)); print(g(2)); print(std::mem::size_of::<F>()) }"))
    # ABI compatibility through transmuted function pointers
    D = "fn f_u32(a: u32) -> u32 { a } fn f_i32(a: i32) -> i32 { a } fn f_u64(a: u64) -> u64 { a } fn f_ref(a: &u32) -> u32 { *a } fn f_two(a: u32, b: u32) -> u32 { a + b } fn f_none() -> u32 { 3 } fn f_unit(a: u32) { print(a) } extern \"C\" fn f_c(a: u32) -> u32 { a } fn f_w(a: W) -> u32 { a.0 } fn f_bool(a: bool) -> u32 { a as u32 } fn f_slice(a: &[u8]) -> u32 { a.len() as u32 } fn f_arr(a: [u32; 1]) -> u32 { a[0] } fn f_opt(a: Option<&u32>) -> u32 { match a { Some(x) => *x, None => 0 } } fn f_never(_a: u32) -> ! { loop {} } #[repr(transparent)] #[derive(Clone, Copy)] struct W(u32); fn f_char(c: char) -> u32 { c as u32 } fn f_usize(a: usize) -> u32 { a as u32 } fn f_fn(f: fn() -> u32) -> u32 { f() } fn f_mut(a: &mut u32) -> u32 { *a += 1; *a } fn f_cp(a: *const u8) -> u32 { a.is_null() as u32 }\n"
    ok = [("f_ref", "fn(&u32) -> u32", "fn(*const u32) -> u32", "&raw const x"), ("f_cp", "fn(*const u8) -> u32", "fn(&u32) -> u32", "&x"), ("f_mut", "fn(&mut u32) -> u32", "fn(*mut u32) -> u32", "&raw mut x"), ("f_slice", "fn(&[u8]) -> u32", "fn(*const [u8]) -> u32", "&raw const *(&[1u8, 2][..])"), ("f_cp", "fn(*const u8) -> u32", "fn(*const u64) -> u32", "std::ptr::null()")]
    bad = [("f_u32", "fn(u32) -> u32", "fn(u64) -> u32", "1"), ("f_u64", "fn(u64) -> u64", "fn(u64) -> u32", "1"), ("f_two", "fn(u32, u32) -> u32", "fn(u32) -> u32", "1"), ("f_none", "fn() -> u32", "fn(u32) -> u32", "1"), ("f_u32", "fn(u32) -> u32", "fn() -> u32", ""), ("f_c", 'extern "C" fn(u32) -> u32', "fn(u32) -> u32", "1"), ("f_u32", "fn(u32) -> u32", 'extern "C" fn(u32) -> u32', "1"),
           ("f_bool", "fn(bool) -> u32", "fn(u32) -> u32", "1"), ("f_arr", "fn([u32; 1]) -> u32", "fn([u32; 2]) -> u32", "[1, 2]"), ("f_slice", "fn(&[u8]) -> u32", "fn(*const u8) -> u32", "std::ptr::null()"), ("f_unit", "fn(u32)", "fn(u32) -> u32", "1"), ("f_usize", "fn(usize) -> u32", "fn(u32) -> u32", "1"), ("f_ref", "fn(&u32) -> u32", "fn(u32) -> u32", "1"), ("f_slice", "fn(&[u8]) -> u32", "fn(&[u8; 2]) -> u32", "&[1, 2]"), ("f_u32", "fn(u32) -> u32", "fn((u32, u32)) -> u32", "(1, 2)")]
    for f, t, u, a in ok: yield Case(f"compatible call: {t} as {u}", main(f"  let mut x = bb(40u32); let g: {u} = unsafe {{ std::mem::transmute::<{t}, {u}>({f}) }}; print(bb(g)({a})); x += 1; print(x);", D))
    for f, t, u, a in bad: yield Case(f"incompatible call: {t} as {u}", main(f"  let g: {u} = unsafe {{ std::mem::transmute::<{t}, {u}>({f}) }}; print(bb(g)({a}));", D), "ub")
    for e in ("std::mem::transmute::<usize, fn() -> u32>(bb(64))", "std::mem::transmute::<*const u32, fn() -> u32>(&raw const x)"): yield Case(f"call of {e}", main(f"  let x = bb(4u32); let g = unsafe {{ {e} }}; print(g()); print(x);"), "ub")
    yield Case("call of an offset function pointer", main("  let g: fn() -> u32 = unsafe { std::mem::transmute((f as fn() -> u32 as *const u8).wrapping_add(bb(1))) }; print(g());", "fn f() -> u32 { 3 }"), "ub")
    yield Case("return into the right place", main("  let mut a = [0u32; 3]; a[bb(1)] = f(&a); print(a[0]); print(a[1]); print(a[2]); let mut s = (1u8, 2u32); s.1 = g(s); print(s.0); print(s.1); let p = &mut a; p[bb(2)] = h(p[1]); print(a[2]); let b = [h(1), h(2), h(3)]; print(b[bb(1)]);", "fn f(a: &[u32; 3]) -> u32 { a[0] + 5 } fn g(s: (u8, u32)) -> u32 { s.0 as u32 + s.1 } fn h(x: u32) -> u32 { x * 2 }"))
    yield Case("evaluation order of arguments", main("  f(t(1), t(2), t(3)); let a = [t(4), t(5)]; let s = S { b: t(6), a: t(7) }; print(s.a); print(a[0]); (t(8), g(t(9), t(10))).1; let mut i = 0; f({ i += 1; i }, { i *= 5; i }, i);".replace("(t(8), g(t(9), t(10))).1;", "let u = (t(8), g(t(9), t(10))); print(u.1);"), "fn t(x: u32) -> u32 { print(x * 100); x } fn f(a: u32, b: u32, c: u32) { print(a); print(b); print(c) } struct S { a: u32, b: u32 } fn g(a: u32, b: u32) -> u32 { a - (b - 2) }"))
    yield Case("the callee of a moved argument owns it", main("  let a = bb([1u8; 8]); let p = &raw const a; let r = f(a, p); print(r);", "#[inline(never)] fn f(mut a: [u8; 8], _p: *const [u8; 8]) -> u8 { a[bb(3)] = 9; a[3] + a[2] }"))
    yield Case("trait methods, operators and conversions as calls", main("  let a = V(1, 2) + V(10, 20); print(a.0); print((-a).1); print((a == V(11, 22)) as u8); let mut b = a; b += V(1, 1); print(b.0); print(b[bb(1)]); b[0] = 99; print(b.0); let w: W = 5u8.into(); print(w.0); print(W::from(7).0); let d: W = Default::default(); print(d.0); print((V(1, 5) < V(2, 0)) as u8); print(a.clone().1); let s: u32 = [1u32, 2, 3].iter().sum(); print(s); let m = [4u32, 9, 2].iter().copied().max(); print(m.unwrap()); let v = (0..5).map(|x| x * x).filter(|x| x % 2 == 0).fold(0, |a, b| a * 10 + b); print(v); for i in (1..4).rev() { print(i) } for (i, x) in [7u8, 8].iter().enumerate() { print(i); print(*x) }", "#[derive(Clone, Copy, PartialEq, PartialOrd)] struct V(i32, i32); use std::ops::*; impl Add for V { type Output = V; fn add(self, o: V) -> V { V(self.0 + o.0, self.1 + o.1) } } impl Neg for V { type Output = V; fn neg(self) -> V { V(-self.0, -self.1) } } impl AddAssign for V { fn add_assign(&mut self, o: V) { *self = *self + o } } impl Index<usize> for V { type Output = i32; fn index(&self, i: usize) -> &i32 { if i == 0 { &self.0 } else { &self.1 } } } impl IndexMut<usize> for V { fn index_mut(&mut self, i: usize) -> &mut i32 { if i == 0 { &mut self.0 } else { &mut self.1 } } } #[derive(Default)] struct W(u32); impl From<u8> for W { fn from(x: u8) -> W { W(x as u32 * 2) } }"), rnd=True)
    # a moved argument's source is given up; a copied one's is not
    M = "struct N([u64; 2]); #[inline(never)] fn f(n: N) -> u64 { n.0[bb(0)] + 1 } fn k(n: N, m: u8) -> u64 { n.0[1] + m as u64 } struct H; impl H { fn m(&self, n: N) -> u64 { n.0[0] } } trait Tr { fn t(&self, n: N) -> u64; } impl Tr for H { fn t(&self, n: N) -> u64 { n.0[1] } }\n"
    for nm, call in (("direct", "f(n)"), ("function pointer", "bb(f as fn(N) -> u64)(n)"), ("two arguments", "k(n, 3)"), ("two arguments through a pointer", "bb(k as fn(N, u8) -> u64)(n, 3)"), ("method", "H.m(n)"), ("trait object", "{ let d: &dyn Tr = &H; d.t(n) }"), ("closure", "{ let c = |n: N| n.0[0]; c(n) }")):
        yield Case(f"moved argument, {nm}", main(f"  let n = N(bb([5, 6])); let p = &raw const n; let r = {call}; print(r); print(p.is_null() as u8);", M))
        yield Case(f"source of a copied argument read afterwards, {nm}", main(f"  let n = N(bb([5, 6])); let p = &raw const n; let r = {call}; print(r); print(unsafe {{ (*p).0[0] }});", M.replace("struct N", "#[derive(Clone, Copy)] struct N")))

    S = "fn call<F: Fn(u32, u32) -> u32>(f: &F, t: (u32, u32)) -> u32 { let a = <F as Fn<(u32, u32)>>::call(f, t); a * 10 + <F as Fn<(u32, u32)>>::call(f, t) + t.0 }\n"
    src = "#![feature(fn_traits, unboxed_closures)]\n" + main("  let k = bb(3u32); print(call(&|a, b| a + b * k, (1, 2))); let d: &dyn Fn(u32) -> u32 = &|a| a + 1; let t = (bb(4),); print(d.call(t)); print(d.call(t)); print(t.0); let e = bb((1u8, [2u16; 3])); let f = |a: u8, b: [u16; 3]| a as u16 + b[bb(1)]; print(f.call(e)); print(f.call(e)); print(e.1[bb(2)]);", S)
    yield Case("an argument tuple used again after the call", src)
    yield Case("an argument tuple used again after the call, optimised", src, flags=["-Zmir-opt-level=2"])
