"""Dynamic dispatch."""
from lib import Case
from gen import *
FIX = [
("receivers", "  let mut a = A(5); let d: &dyn T = &a; print(d.get()); print(d.two(3)); let m: &mut dyn T = &mut a; m.set(9); print(m.get()); let r: &dyn T = m; print(r.get()); print(r.def()); print(a.0); let b = B { x: 1, y: [2, 3] }; let v: [&dyn T; 3] = [&a, &b, &4u8]; let mut i = 0; while i < 3 { print(v[i].get()); print(v[i].def()); print(v[bb(i)].two(10)); print(v[i].name()); i += 1 }",
 "trait T { fn get(&self) -> u32; fn set(&mut self, n: u32); fn two(&self, n: u32) -> u32 { self.get() * n } fn def(&self) -> u32 { 1000 + self.two(2) } fn name(&self) -> u8; } struct A(u32); struct B { x: u32, y: [u16; 2] } impl T for A { fn get(&self) -> u32 { self.0 } fn set(&mut self, n: u32) { self.0 = n } fn name(&self) -> u8 { 1 } } impl T for B { fn get(&self) -> u32 { self.x + self.y[bb(1)] as u32 } fn set(&mut self, n: u32) { self.x = n } fn def(&self) -> u32 { 7 } fn name(&self) -> u8 { 2 } } impl T for u8 { fn get(&self) -> u32 { *self as u32 } fn set(&mut self, n: u32) { *self = n as u8 } fn name(&self) -> u8 { 3 } }"),
("supertraits, in every order", "  let x = X(3); let d: &dyn Sub = &x; print(d.a()); print(d.b()); print(d.c()); print(d.own()); print(d.e()); let v: [&dyn Sub; 2] = [&x, &Y]; let mut i = 0; while i < 2 { print(v[i].a()); print(v[i].b()); print(v[i].c()); print(v[i].own()); i += 1 } let q: &dyn B = &x; print(q.b()); print(q.a()); gen(d); gen(&Y as &dyn Sub); let e: &dyn Diamond = &x; print(e.l()); print(e.r()); print(e.a());",
 "trait A { fn a(&self) -> u32; fn e(&self) -> u32 { 500 } } trait B: A { fn b(&self) -> u32 { self.a() + 1 } } trait C { fn c(&self) -> u32; } trait Sub: B + C { fn own(&self) -> u32 { self.a() * 100 + self.b() * 10 + self.c() } } struct X(u32); struct Y; impl A for X { fn a(&self) -> u32 { self.0 } } impl B for X {} impl C for X { fn c(&self) -> u32 { 8 } } impl Sub for X {} impl A for Y { fn a(&self) -> u32 { 4 } fn e(&self) -> u32 { 6 } } impl B for Y { fn b(&self) -> u32 { 5 } } impl C for Y { fn c(&self) -> u32 { 6 } } impl Sub for Y { fn own(&self) -> u32 { 7 } } fn gen<T: Sub + ?Sized>(t: &T) { print(t.a()); print(t.own()); print(t.c()) } trait L: A { fn l(&self) -> u32 { self.a() + 20 } } trait R: A { fn r(&self) -> u32 { self.a() + 30 } } trait Diamond: L + R {} impl L for X {} impl R for X {} impl Diamond for X {}"),
("equal method names in different traits", "  let s = S; let a: &dyn P = &s; let b: &dyn Q = &s; print(a.m()); print(b.m()); print(s.m()); print(P::m(&s)); print(Q::m(&s)); let c: &dyn R<u8> = &s; let d: &dyn R<u16> = &s; print(c.m()); print(d.m()); let e: &dyn As<O = u8> = &s; print(e.g());", "struct S; impl S { fn m(&self) -> u32 { 0 } } trait P { fn m(&self) -> u32; } trait Q { fn z(&self) -> u32 { 9 } fn m(&self) -> u32; } trait R<T> { fn m(&self) -> u32; } trait As { type O; fn g(&self) -> Self::O; } impl P for S { fn m(&self) -> u32 { 1 } } impl Q for S { fn m(&self) -> u32 { 2 } } impl R<u8> for S { fn m(&self) -> u32 { 3 } } impl R<u16> for S { fn m(&self) -> u32 { 4 } } impl As for S { type O = u8; fn g(&self) -> u8 { 5 } }"),
("methods that are not dispatchable leave the others in place", "  let d: &dyn T = &3u32; print(d.first()); print(d.last()); print(<u32 as T>::make().last()); print(3u32.generic(4u8)); print(d.mid(2));", "trait T { fn first(&self) -> u32; fn make() -> Self where Self: Sized; fn generic<X>(&self, x: X) -> usize where Self: Sized { std::mem::size_of_val(&x) } fn mid(&self, n: u32) -> u32 { n + self.last() } fn by_value(self) -> u32 where Self: Sized; fn last(&self) -> u32; } impl T for u32 { fn first(&self) -> u32 { 1 } fn make() -> u32 { 77 } fn by_value(self) -> u32 { self } fn last(&self) -> u32 { *self + 10 } }"),
("size and alignment of trait objects", "  let v: [&dyn T; 8] = [&1u8, &2u64, &(), &[0u16; 5], &A(1), &(1u8, 2u32), &[A(1); 3], &Some(4u128)]; let mut i = 0; while i < 8 { print(std::mem::size_of_val(v[i])); print(std::mem::align_of_val(v[i])); print(v[i].s()); i += 1 } print(std::mem::size_of::<&dyn T>()); let p: *const dyn T = v[3]; print(unsafe { std::mem::size_of_val(&*p) });", "#[repr(align(32))] #[derive(Clone, Copy)] struct A(u8); trait T { fn s(&self) -> usize; } impl<X> T for X { fn s(&self) -> usize { std::mem::size_of_val(self) * 100 + std::mem::align_of::<X>() } }"),
("destruction through trait objects", "  unsafe { let mut a = std::mem::ManuallyDrop::new(D(1)); let mut b = std::mem::ManuallyDrop::new((D(2), 5u8, D(3))); let mut c = std::mem::ManuallyDrop::new(7u32); let mut e = std::mem::ManuallyDrop::new([D(4), D(5)]); let mut w = std::mem::ManuallyDrop::new(W(D(6))); let ps: [*mut dyn T; 5] = [&mut *a, &mut *b, &mut *c, &mut *e, &mut *w]; let mut i = 0; while i < 5 { print(100 + i); std::ptr::drop_in_place(ps[i]); i += 1 } let mut f = std::mem::ManuallyDrop::new(D(8)); let k: *mut dyn Sub = &mut *f; (*k).m(); std::ptr::drop_in_place(k); }", "struct D(u32); impl Drop for D { fn drop(&mut self) { print(self.0) } } struct W(D); impl Drop for W { fn drop(&mut self) { print(60) } } trait T { fn m(&self) {} } impl<X> T for X {} trait Sub: T { fn n(&self) {} } impl<X> Sub for X {}"),
("destruction through objects of large traits", "  unsafe { let mut a = std::mem::ManuallyDrop::new(D(1)); let mut b = std::mem::ManuallyDrop::new((D(2), 5u8, D(3))); let ps: [*mut dyn L; 2] = [&mut *a, &mut *b]; let mut i = 0; while i < 2 { print((*ps[i]).m9()); std::ptr::drop_in_place(ps[i]); i += 1 } let mut c = std::mem::ManuallyDrop::new(D(4)); let q: *mut dyn LL = &mut *c; print((*q).z()); std::ptr::drop_in_place(q); }", "struct D(u32); impl Drop for D { fn drop(&mut self) { print(self.0) } } trait L { " + " ".join("fn m%d(&self) -> u32 { %d }" % (k, k * 7) for k in range(12)) + " } impl<X> L for X {} trait LL: L { fn z(&self) -> u32 { self.m3() + 1 } fn y(&self) {} } impl LL for D {}"),
("objects of marker traits", "  unsafe { let mut a = std::mem::ManuallyDrop::new(D(1)); let mut b = std::mem::ManuallyDrop::new((D(2), 5u8)); let p: *mut dyn Send = &mut *a; let q: *mut (dyn Send + Sync) = &mut *b; print(std::mem::size_of_val(&*p)); print(std::mem::align_of_val(&*q)); std::ptr::drop_in_place(p); std::ptr::drop_in_place(q); let r: &dyn Send = &4u64; print(std::mem::size_of_val(r)); let s: &(dyn T + Send) = &5u32; print(s.m()); }", "struct D(u32); impl Drop for D { fn drop(&mut self) { print(self.0) } } trait T { fn m(&self) -> u32; } impl T for u32 { fn m(&self) -> u32 { *self } }"),
("objects inside structs and generics", "  let h = H { n: 1, d: &3u32, e: &mut 4u32 }; print(h.run()); print(h.d.f(1)); h.e.g(); print(h.e.f(0)); print(ap(h.d, 5)); print(ap(&6u8, 5)); let o: Option<&dyn T> = Some(h.d); if let Some(d) = o { print(d.f(2)) } let n: Option<&dyn T> = bb(None); print(n.is_none() as u8); let t: (u8, &dyn T) = (1, &7u8); print(t.1.f(1)); let a: [Option<&dyn T>; 2] = [None, Some(t.1)]; print(a[bb(1)].unwrap().f(9)); let c = |d: &dyn T| d.f(40); print(c(h.d)); print(ret(bb(true)).f(1)); print(ret(bb(false)).f(1));", "trait T { fn f(&self, n: u32) -> u32; fn g(&mut self) {} } impl T for u32 { fn f(&self, n: u32) -> u32 { *self + n } fn g(&mut self) { *self *= 2 } } impl T for u8 { fn f(&self, n: u32) -> u32 { *self as u32 * n } } struct H<'a> { n: u8, d: &'a dyn T, e: &'a mut dyn T } impl H<'_> { fn run(&self) -> u32 { self.d.f(self.n as u32) * 100 + self.e.f(0) } } fn ap<X: T + ?Sized>(x: &X, n: u32) -> u32 { x.f(n) + x.f(n + 1) } fn ret(b: bool) -> &'static dyn T { if b { &50u32 } else { &60u8 } }"),
("closures as objects", "  let k = bb(3u32); let f: &dyn Fn(u32) -> u32 = &|a| a + k; print(f(1)); let fs: [&dyn Fn(u32) -> u32; 3] = [&|a| a, &move |a| a * k, &tw]; let mut i = 0; while i < 3 { print(fs[i](10)); i += 1 } let mut n = 0u32; { let g: &mut dyn FnMut(u32) = &mut |a| n += a; g(1); g(2); g(bb(39)); } print(n); print(call(&|| 8)); print(call(&c8)); let z: &dyn Fn(u8, (u16, u32), [u8; 2]) -> u32 = &|a, (b, c), d| a as u32 + b as u32 * 10 + c * 100 + d[1] as u32 * 1000; print(z(1, (2, 3), [4, 5]));", "fn tw(a: u32) -> u32 { a * 2 } fn call(f: &dyn Fn() -> u32) -> u32 { f() + 1 } fn c8() -> u32 { 80 }"),
("two types with equal layout", "  let a = A(1); let b = B(1); let v: [&dyn T; 4] = [&a, &b, &a, &b]; let mut i = 0; while i < 4 { print(v[i].m()); i += 1 } let g: [&dyn T; 2] = [&G::<u8>(5, std::marker::PhantomData), &G::<u16>(5, std::marker::PhantomData)]; print(g[bb(0)].m()); print(g[bb(1)].m());", "struct A(u32); struct B(u32); struct G<X>(u32, std::marker::PhantomData<X>); trait T { fn m(&self) -> u32; } impl T for A { fn m(&self) -> u32 { self.0 + 10 } } impl T for B { fn m(&self) -> u32 { self.0 + 20 } } impl<X> T for G<X> { fn m(&self) -> u32 { self.0 * 100 + std::mem::size_of::<X>() as u32 } }"),
("generic methods through objects of generic traits", "  let d: &dyn Conv<u8> = &300u32; print(d.conv()); let e: &dyn Conv<u16> = &70000u32; print(e.conv()); let f: &dyn Conv<(u8, u32)> = &258u32; print(f.conv().0); print(f.conv().1);", "trait Conv<O> { fn conv(&self) -> O; } impl Conv<u8> for u32 { fn conv(&self) -> u8 { *self as u8 } } impl Conv<u16> for u32 { fn conv(&self) -> u16 { *self as u16 } } impl Conv<(u8, u32)> for u32 { fn conv(&self) -> (u8, u32) { (*self as u8, *self) } }"),
("cells behind trait objects", "  let c = Cell::new(4u32); let d: &dyn T = &c; d.set(5); print(c.get()); c.set(6); print(d.get()); let s = S { a: 1, b: Cell::new(2), c: 3, d: Cell::new(7) }; let e: &dyn T = &s; let f: &dyn T = &s; e.set(9); f.set(10); print(e.get()); print(s.b.get()); s.d.set(1); print(f.get()); print(s.a + s.c); let a = [Cell::new(1u8), Cell::new(2), Cell::new(3)]; let g: &dyn T = &a; g.set(8); a[0].set(1); print(g.get());", "use std::cell::Cell; trait T { fn set(&self, n: u32); fn get(&self) -> u32; } impl T for Cell<u32> { fn set(&self, n: u32) { self.replace(n); } fn get(&self) -> u32 { Cell::get(self) } } struct S { a: u8, b: Cell<u32>, c: u8, d: Cell<u16> } impl T for S { fn set(&self, n: u32) { self.b.set(n); self.d.set(n as u16) } fn get(&self) -> u32 { self.b.get() + self.d.get() as u32 } } impl T for [Cell<u8>; 3] { fn set(&self, n: u32) { self[bb(2)].set(n as u8) } fn get(&self) -> u32 { self[2].get() as u32 * 10 + self[0].get() as u32 } }"),
("many methods", "  let v: [&dyn M; 2] = [&1u8, &2u16]; let mut i = 0; while i < 2 { let d = v[i]; " + " ".join(f"print(d.m{k}());" for k in range(24)) + " i += 1 }", "trait M { " + " ".join(f"fn m{k}(&self) -> u32 " + ("{ %d }" % (k * 3) if k % 3 else ";") for k in range(24)) + " } " + "".join("impl M for %s { %s }\n" % (t, " ".join(f"fn m{k}(&self) -> u32 {{ {b + k} }}" for k in range(24) if k % 3 == 0 or k % 5 == z)) for t, b, z in (("u8", 1000, 1), ("u16", 2000, 2)))),
("panic and unwinding through dynamic calls", "  let v: [&dyn T; 2] = [&1u32, &D(9)]; print(v[0].m(3)); print(v[1].m(0)); print(v[bb(1)].m(1));", "struct D(u32); impl Drop for D { fn drop(&mut self) { print(self.0) } } trait T { fn m(&self, n: u32) -> u32; } impl T for u32 { fn m(&self, n: u32) -> u32 { *self + n } } impl T for D { fn m(&self, n: u32) -> u32 { let _d = D(70); if n == 1 { panic!() } self.0 } }"),
]
UB = [
("vtable of another trait", "  let d: &dyn O = &3u16; print(d.o()); let r: &dyn P = unsafe { std::mem::transmute(d) }; print(r.p());"), ("vtable of a trait with the same methods", "  let d: &dyn O = &3u16; let r: *const dyn Q = unsafe { std::mem::transmute(d as *const dyn O) }; print(unsafe { &*r }.o());"),
("a data pointer as vtable", "  let x = bb(3u64); let r: &dyn O = unsafe { std::mem::transmute((&raw const x, &raw const x)) }; print(r.o());"), ("an integer as vtable", "  let x = bb(3u64); let r: &dyn O = unsafe { std::mem::transmute((&raw const x, bb(64usize))) }; print(r.o());"), ("no vtable", "  let x = bb(3u64); let r: *const dyn O = unsafe { std::mem::transmute((&raw const x, bb(0usize))) }; print(unsafe { &*r }.o());"),
("a vtable pointer that is moved", "  let d: &dyn O = &3u16; let (p, v): (*const u8, *const u8) = unsafe { std::mem::transmute(d) }; let r: &dyn O = unsafe { std::mem::transmute((p, v.wrapping_add(bb(1)))) }; print(r.o());"),
("data of a smaller type than the vtable's", "  let x = bb(3u8); let d: &dyn O = &3u64; let (_, v): (*const u8, *const u8) = unsafe { std::mem::transmute(d) }; let r: &dyn O = unsafe { std::mem::transmute((&raw const x, v)) }; print(r.o());"),
("misaligned data", "  let x = bb([3u64; 2]); let d: &dyn O = &3u64; let (_, v): (*const u8, *const u8) = unsafe { std::mem::transmute(d) }; let r: &dyn O = unsafe { std::mem::transmute(((&raw const x as *const u8).wrapping_add(4), v)) }; print(r.o());"),
("null data", "  let d: &dyn O = &3u64; let (_, v): (*const u8, *const u8) = unsafe { std::mem::transmute(d) }; let r: &dyn O = unsafe { std::mem::transmute((bb(0usize), v)) }; print(r.o());"), ("dead data", "  let r: *const dyn O; { let x = bb(5u64); r = &x; print(unsafe { &*r }.o()); } print(unsafe { &*r }.o());"), ("reading a vtable", "  let d: &dyn O = &3u16; let (_, v): (*const u8, *const u8) = unsafe { std::mem::transmute(d) }; print(unsafe { *v });"),
("a method of uninhabited data", "  let d: &dyn O = &3u16; let p: *const Void = d as *const dyn O as *const Void; let r = unsafe { &*p }; let e: &dyn O = r; print(e.o());"),
]
def cases(rng, thorough):
    # objects of types with cells at several places, in an order that is not the one of the declaration
    for k, (fs, use) in enumerate([("a: Cell<u8>, b: Cell<u64>, c: Cell<u16>", "self.a.set(self.a.get() + 1); self.b.set(self.b.get() + 2); self.c.set(self.c.get() + 3); self.a.get() as u64 * 10000 + self.b.get() * 100 + self.c.get() as u64"),
            ("a: Cell<u8>, x: u32, b: Cell<u64>, y: u8, c: Cell<u16>", "self.a.set(self.a.get() + 1); self.b.set(self.b.get() + 2); self.c.set(self.c.get() + 3); self.x as u64 * 1000000 + self.y as u64 * 100 + self.a.get() as u64 + self.b.get() + self.c.get() as u64"),
            ("a: [Cell<u8>; 3], b: (Cell<u64>, u8), c: Option<Cell<u16>>", "self.a[1].set(self.a[1].get() + 1); self.a[2].set(9); self.b.0.set(self.b.0.get() + 2); let c = match &self.c { Some(c) => { c.set(c.get() + 3); c.get() as u64 } None => 0 }; self.a[1].get() as u64 + self.b.0.get() + self.b.1 as u64 * 100 + c * 1000")]):
        v = ["S { a: Cell::new(1), b: Cell::new(2), c: Cell::new(3) }", "S { a: Cell::new(1), x: 5, b: Cell::new(2), y: 6, c: Cell::new(3) }", "S { a: [Cell::new(1), Cell::new(2), Cell::new(3)], b: (Cell::new(4), 5), c: Some(Cell::new(6)) }"][k]
        for fl in ([], ["--minirust-tree-borrows"]):
            yield Case(f"objects with cells in several places {k}" + (" (tree borrows)" if fl else ""), main(f"  let s = {v}; let d: &dyn T = bb(&s); print(d.s()); print(d.s()); let e: &dyn T = bb(d); print(e.s()); print(std::mem::size_of_val(e)); let p = P(7); let q: &dyn T = bb(&p); print(q.s());", f"use std::cell::Cell; trait T {{ fn s(&self) -> u64; }} struct P(u64); impl T for P {{ fn s(&self) -> u64 {{ self.0 }} }} struct S {{ {fs} }} impl T for S {{ fn s(&self) -> u64 {{ {use} }} }}"), flags=fl)
    for n, b, i in FIX:
        yield Case(n, main(b, i))
        if n in ("receivers", "cells behind trait objects", "closures as objects", "destruction through trait objects", "supertraits, in every order"): yield Case(n + " (tree borrows)", main(b, i), flags=["--minirust-tree-borrows"])
    I = "trait O { fn o(&self) -> u32; } trait P { fn p(&self) -> u32; } trait Q { fn o(&self) -> u32; } impl O for u16 { fn o(&self) -> u32 { *self as u32 } } impl O for u64 { fn o(&self) -> u32 { *self as u32 } } impl P for u16 { fn p(&self) -> u32 { 5 } } impl Q for u16 { fn o(&self) -> u32 { 7 } } #[allow(dead_code)] enum Void {} impl O for Void { fn o(&self) -> u32 { 1 } }\n"
    for n, b in UB: yield Case(n, main(b, I), "ub")
    # random families of traits and types
    for k in range(60 if thorough else 18):
        nt, ns = rng.randrange(1, 4), rng.randrange(1, 4); s = ""; body = ""; meth = []
        sup = {}
        for t in range(nt):
            ps = rng.sample(range(t), min(t, rng.choice([0, 1, 1, 2]))); sup[t] = ps
            ms = [(f"m{t}_{j}", rng.choice(["&self", "&self", "&mut self"]), rng.random() < .4) for j in range(rng.randrange(0, 4))]; meth.append(ms)
            s += f"trait T{t}" + (": " + " + ".join(f"T{p}" for p in ps) if ps else "") + " { " + " ".join(f"fn {m}({r}, n: u32) -> u32" + (f" {{ n * 3 + {t} }}" if d else ";") for m, r, d in ms) + " fn id%d(&self) -> u32; }\n" % t
        def allm(t):
            r = list(meth[t]) + [(f"id{t}", "", False)]
            for p in sup[t]: r += allm(p)
            return list(dict.fromkeys(r))
        for x in range(ns):
            fs = rng.choice(["u32", "u32, [u8; 3]", "u32, u64", "u32, ()", "u32, [u128; 2]"]); v = {"u32": "", "u32, [u8; 3]": ", [1, 2, 3]", "u32, u64": ", 5", "u32, ()": ", ()", "u32, [u128; 2]": ", [1, 2]"}[fs]
            s += f"struct S{x}({fs}); impl Drop for S{x} {{ fn drop(&mut self) {{ print(self.0 + {7000 * (x + 1)}) }} }}\n"
            for t in range(nt): s += f"impl T{t} for S{x} {{ " + " ".join(f"fn {m}({r}, n: u32) -> u32 {{ " + (f"self.0 += {x + 1}; " if "mut" in r else "") + f"self.0 * 10 + n + {rng.randrange(1000)} }}" for m, r, d in meth[t] if not d or rng.random() < .5) + f" fn id{t}(&self) -> u32 {{ {100 * t + x} }} }}\n"
            body += f"  let mut v{x} = S{x}(bb({x + 4}){v});\n"
        for t in range(nt):
            body += f"  {{ let mut a: [&mut dyn T{t}; {ns}] = [" + ", ".join(f"&mut v{x}" for x in range(ns)) + f"]; let mut i = 0; while i < {ns} {{ print(std::mem::size_of_val(&*a[i])); print(std::mem::align_of_val(&*a[i])); " + " ".join((f"print(a[i].{m}());" if m.startswith("id") else f"print(a[i].{m}({rng.randrange(50)}));") for m, r, d in allm(t)) + " i += 1 } }\n"
        yield Case(f"random traits {k}", main(body, s), rnd=True)
