"""Constants, promoted values and statics as a program observes them."""
from lib import Case
from gen import *
from rty import *
OK = [
("every integer width, constant, static and promoted", "".join(f"  {{ const C: [{t}; 5] = [{', '.join(lit(v, t) for v in (lo(t), hi(t), hi(t) // 3, 1, hi(t) // 2 + 7 if not signed(t) else -5))}]; static S: [{t}; 5] = C; let p: &'static [{t}; 5] = &C; let mut i = 0; while i < 5 {{ print(C[i]); print(S[bb(i)]); print(p[i]); i += 1 }} print(K{t.upper()}); }}\n" for t in INTS), "".join(f"const K{t.upper()}: {t} = {t}::MAX / 5;\n" for t in INTS)),
("booleans and characters", "  print(T as u8); print(F as u8); print(C as u32); print(Z as u32); print(M as u32); print(SB[bb(1)] as u8); print(SC[bb(2)] as u32); print(S8.1);", "const T: bool = true; const F: bool = !T; const C: char = 'x'; const Z: char = '\\0'; const M: char = char::MAX; static SB: [bool; 3] = [F, T, F]; static SC: [char; 3] = ['a', 'é', '\\u{1F600}']; static S8: (bool, u8) = (true, 3);"),
("a static shares one allocation", "  unsafe { print(X); set(5); print(X); let p = &raw mut X; *p += 1; print(get()); print((&raw const X == addr()) as u8); print((addr() == addr()) as u8); X = bb(40); print(*p); print(rec(5)); print(X) }", "static mut X: u32 = 3; fn set(n: u32) { unsafe { X = n } } fn get() -> u32 { unsafe { X } } fn addr() -> *const u32 { &raw const X } fn rec(n: u32) -> u32 { unsafe { X += n; if n == 0 { X } else { rec(n - 1) + X } } }"),
("distinct statics have distinct addresses", "  unsafe { A += 1; print(A); print(B); print((&raw const A != &raw const B) as u8); C[2] = 9; print(D[2]); print(C[2]); print((&raw const C != &raw const D) as u8); print(g::<u8>()); }", "static mut A: u32 = 3; static mut B: u32 = 3; static mut C: [u8; 4] = [1; 4]; static mut D: [u8; 4] = [1; 4]; fn g<T>() -> u32 { static mut N: u32 = 0; unsafe { N += std::mem::size_of::<T>() as u32; N } }"),
("function-local statics keep their value over calls", "  let mut i = 0; while i < 4 { print(f()); print(h::<u8>()); print(h::<u16>()); i += 1 } print(k::f()); print(f());", "fn f() -> u32 { static mut N: u32 = 10; unsafe { N += 1; N } } fn h<T>() -> u32 { static mut N: u32 = 0; unsafe { N += 1; N * 10 + std::mem::size_of::<T>() as u32 } } mod k { static mut N: u32 = 70; pub fn f() -> u32 { unsafe { N += 1; N } } }"),
("pointers to other statics and into their middle", "  print(*P); print(*Q); print(R[1]); print(R.len()); print(S.1.0); print(**T); print(*U[bb(2)]); print((U[0] as *const u32 == P) as u8); print((&raw const A[2] == Q) as u8); unsafe { print(*(W.0)); print(*W.0.add(1)); print(*(W.1 as *const u16)); print(*V) }", "static A: [u32; 4] = [10, 20, 30, 40]; static P: &u32 = &A[0]; static Q: &u32 = &A[2]; static R: &[u32] = &A; static S: (u8, &(u32, u8)) = (1, &(55, 2)); static T: &&u32 = &Q; static U: [&u32; 3] = [&A[0], &A[1], &A[3]]; struct Sy<X>(X, X); unsafe impl<X> Sync for Sy<X> {} static W: Sy<*const u32> = Sy(&raw const A[1], &raw const B.2 as *const u32); static B: (u8, u32, u16) = (1, 2, 3); struct Sp(*const u16); unsafe impl Sync for Sp {} static V: &u16 = &B.2;"),
("pointers one past the end", "  unsafe { print(W.0.offset_from(&raw const A[0])); print(*W.0.sub(1)); print(*W.1.wrapping_sub(3)); }", "static A: [u32; 4] = [10, 20, 30, 40]; struct Sy(*const u32, *const u32); unsafe impl Sync for Sy {} static W: Sy = Sy(unsafe { (&raw const A as *const u32).add(4) }, (&raw const A as *const u32).wrapping_add(4));"),
("a static pointer wrapped out of its allocation", "  unsafe { print(*W.0.wrapping_sub(40)); }", "static A: [u32; 4] = [10, 20, 30, 40]; struct Sy(*const u32); unsafe impl Sync for Sy {} static W: Sy = Sy((&raw const A as *const u32).wrapping_add(42));"),
("cyclic statics", "  print(A.v + A.n.v * 10 + A.n.n.v * 100 + A.n.n.n.v * 1000); let mut p = &A; let mut i = 0; while i < 7 { p = p.n; i += 1 } print(p.v); print(std::ptr::eq(p, &B) as u8); print(std::ptr::eq(S.0, &S) as u8); print(S.0.0.1); unsafe { print(*(*(*M.0).0).1) }", "struct N { v: u32, n: &'static N } static A: N = N { v: 1, n: &B }; static B: N = N { v: 2, n: &C }; static C: N = N { v: 3, n: &A }; struct Sf(&'static Sf, u8); static S: Sf = Sf(&S, 9); struct Mp(*const Mp, *const u32); unsafe impl Sync for Mp {} static M: Mp = Mp(&raw const M, &raw const Z); static Z: u32 = 44;"),
("strings and byte strings", "  let b: &[u8] = b\"h\\0i\\xff\"; sh(b); sh(\"abc\\u{e9}\".as_bytes()); sh(S.as_bytes()); sh(E.as_bytes()); let mut i = 0; while i < 3 { sh(L[bb(i)].as_bytes()); i += 1 } let f: &[u8; 3] = b\"xyz\"; print(f[bb(1)]); print(C.len()); sh(c(true)); sh(c(false));", "fn sh(s: &[u8]) { print(s.len()); let mut i = 0; while i < s.len() { print(s[i]); i += 1 } } static S: &str = \"static\"; const E: &str = \"\"; static L: [&str; 3] = [\"a\", \"\", \"long\"]; const C: &[u8; 5] = b\"12345\"; fn c(b: bool) -> &'static [u8] { if b { b\"T\" } else { b\"FF\" } }"),
("slices and slices of slices", "  print(A.len()); print(A[bb(2)]); let mut i = 0; while i < B.len() { let mut j = 0; print(B[i].len()); while j < B[i].len() { print(B[i][j]); j += 1 } i += 1 } print(C.len()); print(D.0.len()); print(D.1[0].1); print(Z.len()); let e: &'static [u16] = &[7, 8, 9]; print(e[bb(1)]); print(e.len()); let (s, t): (&[u8], &[u8]) = (&[1, 2], &[]); print(s.len() * 10 + t.len());", "const A: &[u32] = &[1, 2, 3]; const B: &[&[u8]] = &[&[1], &[], &[2, 3, 4]]; static C: &[u64] = &[]; static D: (&[u8], &[(u8, u32)]) = (&[0; 9], &[(1, 22)]); static Z: &[()] = &[(); 17];"),
("structs, tuples and arrays", "  let s = S0; s.sh(); ST.sh(); let t: &'static S = &S { a: 1, b: (2, 3), c: [[4, 5], [6, 7]] }; t.sh(); AR[bb(1)].sh(); NEST.1.1.sh(); print(A1[2][1][0]); print(EMPTY.len()); let () = UNIT; print(std::mem::size_of_val(&Z));", "#[derive(Clone, Copy)] struct S { a: u8, b: (u16, u64), c: [[i8; 2]; 2] } impl S { fn sh(&self) { print(self.a); print(self.b.0); print(self.b.1); print(self.c[0][1]); print(self.c[1][0]); } } const S0: S = S { a: 200, b: (60000, u64::MAX), c: [[-1, -2], [-128, 127]] }; static ST: S = S0; static AR: [S; 2] = [S0, S { a: 0, ..S0 }]; const NEST: (u8, (u8, S)) = (1, (2, S { a: 99, ..S0 })); static A1: [[[u8; 1]; 2]; 3] = [[[1], [2]], [[3], [4]], [[5], [6]]]; const EMPTY: [u32; 0] = []; const UNIT: () = (); struct Zs; static Z: [Zs; 3] = [Zs, Zs, Zs];"),
("enums and niches", "  let mut i = 0; while i < 5 { sh(&ES[i]); i += 1 } sh(&EC); print(N0.is_none() as u8); print(*N1.unwrap()); print(OB[bb(1)].is_none() as u8); print(OB[0].unwrap() as u8); print(OC.unwrap() as u32); print(OO.is_some() as u8); print(OO.unwrap().is_none() as u8); print(D::C as i64); print(DS[bb(1)] as i64); print(DS[2] as i64); match R { Ok(x) => print(x), Err(()) => print(9) } print(W.is_some() as u8)", "#[derive(Clone, Copy)] enum E { A, B(u8, u32), C { x: i64 }, D(bool), F(&'static u16) } fn sh(e: &E) { match e { E::A => print(0), E::B(a, b) => { print(*a); print(*b) } E::C { x } => print(*x), E::D(b) => print(*b as u8), E::F(r) => print(**r) } } static ES: [E; 5] = [E::D(true), E::A, E::B(1, 2), E::F(&33), E::C { x: i64::MIN }]; const EC: E = E::B(255, u32::MAX); static N0: Option<&u8> = None; static N1: Option<&u8> = Some(&6); static OB: [Option<bool>; 3] = [Some(true), None, Some(false)]; const OC: Option<char> = Some('q'); const OO: Option<Option<bool>> = Some(None); #[derive(Clone, Copy)] #[repr(i64)] enum D { A = i64::MIN, B = -1, C = i64::MAX } static DS: [D; 3] = [D::C, D::B, D::A]; const R: Result<u32, ()> = Ok(77); const W: Option<E> = Some(E::A);"),
("unions inside statics", "  unsafe { print(U0.a); print(U0.b[1]); print(US[bb(1)].b[3]); U1.b[0] = 7; print(U1.a); print(*P.p) }", "#[derive(Clone, Copy)] #[repr(C)] union U { a: u32, b: [u8; 4] } static U0: U = U { a: 0x01020304 }; static US: [U; 2] = [U { a: 1 }, U { b: [9, 8, 7, 6] }]; static mut U1: U = U { a: 0xffff_ff00 }; #[derive(Clone, Copy)] union Pu { p: &'static u16, n: usize } static P: Pu = Pu { p: &515 };"),
("uninitialised and padding bytes stay so while the others are kept", "  unsafe { let p = &raw const S as *const u8; print(*p); print(*(p.add(4) as *const u32)); let m = &raw mut M as *mut u8; *m.add(1) = 4; print(*m.add(1)); print(*(&raw const H.1)); let c: *const std::mem::MaybeUninit<u8> = &raw const M as *const _; let x = *c; bb(x); let y = S; print(y.1); }", "#[derive(Clone, Copy)] #[repr(C)] struct P(u8, u32); static S: P = P(3, 4); static mut M: std::mem::MaybeUninit<[u8; 4]> = std::mem::MaybeUninit::uninit(); static H: (std::mem::MaybeUninit<u32>, u32) = (std::mem::MaybeUninit::uninit(), 8);"),
("interior mutability", "  C.0.set(5); print(C.0.get()); R.0.set(6); print(C.0.get()); let f = &A.0[bb(2)]; f.set(9); print(A.0[2].get()); print(A.0[1].get()); f2(); f2(); print(C.0.get()); const K: &Sy<Cell<u32>> = &C; K.0.set(80); print(C.0.get());", "use std::cell::Cell; struct Sy<T>(T); unsafe impl<T> Sync for Sy<T> {} static C: Sy<Cell<u32>> = Sy(Cell::new(4)); static R: &Sy<Cell<u32>> = &C; static A: Sy<[Cell<u8>; 4]> = Sy([Cell::new(1), Cell::new(2), Cell::new(3), Cell::new(4)]); fn f2() { C.0.set(C.0.get() * 2) }"),
("a constant with interior mutability is a fresh value at every use", "  C.set(5); print(C.get()); let a = C; a.set(9); print(a.get()); print(C.get()); let b = [const { Cell::new(1u8) }; 3]; b[1].set(4); print(b[0].get() + b[2].get()); print(b[1].get());", "use std::cell::Cell; const C: Cell<u32> = Cell::new(4);"),
("constants computed at compile time", "  print(F); print(P[bb(9)]); print(SUM); print(N::<7>::SQ); print(N::<1>::SQ); print(<u16 as Tr>::ID); print(g::<u8, 3>()); print(g::<(), 5>()); print(const { 6 * 7 }); print([0u8; N::<3>::SQ].len()); print(H[255]); print(D.0.1);", "const fn fact(n: u64) -> u64 { if n == 0 { 1 } else { n * fact(n - 1) } } const F: u64 = fact(20); const fn primes() -> [u32; 10] { let mut a = [0; 10]; let mut n = 2; let mut k = 0; while k < 10 { let mut d = 2; let mut p = true; while d * d <= n { if n % d == 0 { p = false } d += 1 } if p { a[k] = n; k += 1 } n += 1 } a } static P: [u32; 10] = primes(); const SUM: u32 = { let mut s = 0; let mut i = 0; while i < 10 { s += primes()[i]; i += 1 } s }; struct N<const K: usize>; impl<const K: usize> N<K> { const SQ: usize = K * K; } trait Tr { const ID: u32; const D: u32 = Self::ID * 2; } impl Tr for u16 { const ID: u32 = 16; } impl Tr for u8 { const ID: u32 = 8; const D: u32 = 1; } impl Tr for () { const ID: u32 = 1; } fn g<T: Tr, const K: u32>() -> u32 { T::ID * 100 + T::D * 10 + K } const H: [u16; 256] = { let mut a = [0; 256]; let mut i = 0; while i < 256 { a[i] = (i * i) as u16; i += 1 } a }; static mut Q: u32 = 4; const D: ((u8, i8), u8) = ((1, -3), 2);"),
("promoted values live as long as the program", "  let a = f(true); let b = f(false); let c = f(bb(true)); print(*a); print(*b); print(*c); print(g()[bb(1)]); print(h().1[0]); let x: &'static Option<u32> = &Some(3); print(x.unwrap()); let y = k(); print(y.0.0); print(*n(3)); print(*n(4));", "fn f(b: bool) -> &'static u32 { if b { &11 } else { &22 } } fn g() -> &'static [u16] { &[1, 2, 3] } fn h() -> &'static (u8, [u8; 2]) { &(1, [2, 3]) } fn k() -> &'static (&'static (u8,), u8) { &(&(7,), 8) } fn n(i: usize) -> &'static u64 { static T: [u64; 6] = [0, 1, 4, 9, 16, 25]; &T[i] }"),
("mutable data behind a static pointer", "  unsafe { *P.0 = 9; print(X[0]); X[1] = 8; print_(P.0); let q = &mut *Q.0; q[2] += 1; print(X2[2]); L.0.0 = 4; print((*LP.0).0.0) } ", "struct Sy<T>(T); unsafe impl<T> Sync for Sy<T> {} static mut X: [u8; 3] = [1, 2, 3]; static P: Sy<*mut u8> = Sy(&raw mut X as *mut u8); fn print_(p: *mut u8) { unsafe { print(*p.add(1)) } } static mut X2: [u32; 3] = [4, 5, 6]; static Q: Sy<*mut [u32; 3]> = Sy(&raw mut X2); static mut L: ((u8, u8), u8) = ((1, 2), 3); static LP: Sy<*mut ((u8, u8), u8)> = Sy(&raw mut L);"),
("statics are shared by all threads", "  unsafe { let t = spawn(f, std::ptr::null()); join(t); print(X); print(N.0.load()); let t = spawn(f, std::ptr::null()); join(t); print(X); print(N.0.load()); print(*P); }", "static mut X: u32 = 1; struct A(std::cell::UnsafeCell<u32>); unsafe impl Sync for A {} impl A { fn load(&self) -> u32 { unsafe { *self.0.get() } } } struct W(A); static N: W = W(A(std::cell::UnsafeCell::new(7))); static P: &u32 = &55; extern \"C\" fn f(_: *const ()) { unsafe { X += 10; *N.0.0.get() += *P; } }"),
("reading constants in loops and calls does not change them", "  let mut i = 0; while i < 3 { let mut a = A; a[bb(1)] += 5; print(a[1]); let b = &A; print(b[1]); let mut c = ST; c.1 += 1; print(c.1); print(ST.1); i += 1 } print(m(A)); print(A[0]);", "const A: [u32; 3] = [1, 2, 3]; static ST: (u8, u16) = (1, 2); fn m(mut a: [u32; 3]) -> u32 { a[0] = 100; a[0] + a[1] }"),
("pointer-typed constants without provenance", "  print(NULL.is_null() as u8); print(D as usize); print(E[bb(1)] as usize); print(N.is_none() as u8); print((&raw const *ZR) as usize % 8); let s: &[u64] = ZS; print(s.len());", "const NULL: *const u8 = std::ptr::null(); const D: *mut u32 = std::ptr::without_provenance_mut(0x1234); const E: [*const u64; 2] = [std::ptr::null(), std::ptr::without_provenance(usize::MAX)]; const N: Option<&u32> = None; const ZR: &[u64; 0] = &[]; const ZS: &[u64] = &[];"),
]
A = "#[repr(C)] #[derive(Clone, Copy)] struct P(u8, u32);\n"
UB = [
("padding of a static", "  unsafe { let p = &raw const S as *const u8; bb(*p.add(1)); }", A + "static S: P = P(3, 4);"),
("padding of a promoted value", "  unsafe { let s: &'static P = &P(3, 4); let p = &raw const *s as *const u8; bb(*p.add(2)); }", A),
("uninitialised static", "  unsafe { let p = &raw const M as *const u8; bb(*p.add(3)); }", "static mut M: std::mem::MaybeUninit<[u8; 4]> = std::mem::MaybeUninit::uninit();"),
("the inactive part of a static enum", "  unsafe { let p = &raw const M as *const u32; bb(*p.add(1)); }", "#[repr(C)] enum E { A(u32), B } static mut M: E = E::B;"),
("past the end of a static", "  unsafe { let p = &raw const X as *const u8; bb(*p.wrapping_add(3)); }", "static X: [u8; 3] = [1, 2, 3]; static Y: [u8; 3] = [4, 5, 6];"),
("before a static", "  unsafe { let p = &raw const Y as *const u8; bb(*p.wrapping_sub(1)); }", "static X: [u8; 3] = [1, 2, 3]; static Y: [u8; 3] = [4, 5, 6];"),
("past the end of a constant slice", "  unsafe { let p = A.as_ptr(); bb(*p.add(3)); }", "const A: &[u8] = &[1, 2, 3];"),
("a pointer constant without provenance", "  unsafe { bb(*P); }", "const P: *const u8 = std::ptr::without_provenance(64);"),
("from one static to another", "  unsafe { let p = &raw const X as *const u8; let d = (&raw const Y as usize).wrapping_sub(p as usize); bb(*p.wrapping_add(d)); }", "static X: [u8; 3] = [1, 2, 3]; static Y: [u8; 3] = [4, 5, 6];"),
("misaligned pointer into a static", "  unsafe { let p = (&raw const X as *const u8).wrapping_add(1) as *const u32; bb(*p); }", "#[repr(align(4))] struct A([u8; 8]); static X: A = A([1; 8]);"),
("a pointer static read as integer bytes", "  unsafe { let p = &raw const S as *const usize; print(*p == 0); }".replace("print(*p == 0)", "bb(*p / 2)"), "static S: (&u8, u8) = (&1, 2);"),
]
def cases(rng, thorough):
    yield Case("long slice constants", main("  print(S.len()); print(bb(S)[69999]); print(T.len()); print(bb(T)[65536]); print(U.len()); print(bb(U).len());",
        "static A: [u8; 70000] = { let mut a = [1; 70000]; a[69999] = 9; a }; const S: &[u8] = &A; const T: &[u16] = &[7; 65537]; const U: &[()] = &[(); 1 << 40];"))
    yield Case("slice constants into the middle of a static", main("  let mut i = 0; while i < M.len() { print(bb(M)[i]); i += 1 } print(bb(L).len()); print(bb(L)[1]); print(bb(E).len()); let t = bb(W); print(t.0[0]); print(t.1.len()); print(bb(STR).len()); print(bb(STR).as_bytes()[0]);",
        "static A: [u16; 6] = [10, 11, 12, 13, 14, 15]; const M: &[u16] = A.split_at(2).1.split_at(3).0; const L: &[u16] = A.split_at(4).1; const E: &[u16] = A.split_at(6).1; const W: (&[u16], &[u16]) = A.split_at(5); const STR: &str = \"abcdef\".split_at(2).1;"))
    yield Case("constants of enums with negative discriminants", main("  print(bb(X) as i8); print(bb(Y) as i64); print(match bb(Z) { F::P(a) => a, F::Q => 1, F::R(_, b) => b as i32 }); print(match bb(V) { F::P(a) => a, F::Q => 1, F::R(_, b) => b as i32 }); let a = bb(ARR); print(a[0] as i8); print(a[1] as i8); print(bb(O).is_none() as u8); print(bb(BIG) as i64);",
        "#[derive(Clone, Copy)] #[repr(i8)] enum N { A = -3, B = 5, C = -128 } #[derive(Clone, Copy)] enum M { A = -1, B = 4 } #[derive(Clone, Copy)] #[repr(i16)] enum F { P(i32) = -300, Q = 2, R(u8, u16) = -1 } #[derive(Clone, Copy)] #[repr(i64)] enum G { A = i64::MIN, B = 3 } const X: N = N::A; const Y: M = M::A; const Z: F = F::R(3, 4); const V: F = F::P(-9); const ARR: [N; 2] = [N::C, N::B]; const O: Option<N> = None; const BIG: G = G::A; #[allow(dead_code)] fn keep() -> (M, G) { (M::B, G::B) }"))
    # constants of enums whose discriminants are at the ends of every representation
    for w in (8, 16, 32, 64, 128):
        for sg in "iu":
            lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sg == "i" else (0, (1 << w) - 1)
            ds = [d for d in dict.fromkeys([lo, lo + 1, -(1 << 63), -(1 << 31) - 1, -1, 0, 1, 1 << 31, (1 << 63) - 1, (1 << 64) + 3, hi - 1, hi]) if lo <= d <= hi]
            T = f"{sg}{w}"
            vs = ", ".join(f"V{k} = {d}" for k, d in enumerate(ds)); fs = ", ".join(f"V{k}(u16, u8) = {d}" if k % 2 else f"V{k} = {d}" for k, d in enumerate(ds))
            b = f"  let mut i = 0; while i < {len(ds)} {{ print(bb(A)[i] as {T}); print(match bb(P)[i] {{ " + ", ".join(f"F::V{k}{'(a, b)' if k % 2 else ''} => " + (f"a as u32 * 1000 + b as u32 + {k}" if k % 2 else str(k)) for k in range(len(ds))) + " }); i += 1 } print(bb(C0) as " + T + "); print(match bb(O) { Some(_) => 1, None => 0 });"
            it = f"#[derive(Clone, Copy)] #[repr({T})] enum E {{ {vs} }} #[derive(Clone, Copy)] #[repr({T})] enum F {{ {fs} }} const A: [E; {len(ds)}] = [{', '.join(f'E::V{k}' for k in range(len(ds)))}]; const P: [F; {len(ds)}] = [{', '.join(f'F::V{k}(7, {k})' if k % 2 else f'F::V{k}' for k in range(len(ds)))}]; const C0: E = E::V0; const O: Option<E> = Some(E::V1);"
            yield Case(f"constants of {T} enums at the ends of the representation", (feat if w == 128 else main)(b, it))
    for n, b, i in OK:
        yield Case(n, main(b, i))
        if thorough or n in ("interior mutability", "pointers to other statics and into their middle", "mutable data behind a static pointer", "cyclic statics", "statics are shared by all threads"): yield Case(n + " (tree borrows)", main(b, i), flags=["--minirust-tree-borrows"])
    for n, b, i in UB:
        if n.startswith("a pointer static read"): continue
        yield Case(n, main(b, i), "ub")
    for a in (1, 2, 4, 8, 16, 64, 256):
        yield Case(f"statics, promoted values and their parts aligned to {a}", main(f"  unsafe {{ print(&raw const S as usize % {a}); print(&raw const M.1 as usize % {a}); print(M.1.0[2]); let p: &'static T = &T([8; 3]); print(&raw const *p as usize % {a}); print(p.0[1]); let mut i = 0; while i < 3 {{ print(&raw const L[i] as usize % {a}); print(&raw const *R[i] as usize % {a}); print(L[i].0[0]); i += 1 }} print(&raw const U as usize % {min(a, 8)}); }}", f"#[repr(C, align({a}))] #[derive(Clone, Copy)] struct T([u8; 3]); static S: T = T([1, 2, 3]); static mut M: (u8, T) = (1, T([4, 5, 6])); static L: [T; 3] = [T([1; 3]), T([2; 3]), T([3; 3])]; static R: [&T; 3] = [&T([4; 3]), &L[1], &S]; static U: u64 = 5;"), reps=2)
    yield Case("long constants", main("""  print(A[bb(299)]); print(A[256]); print(A.len()); print(S.len()); print(S[bb(299)]); print(std::mem::size_of_val(S)); print(P[bb(265)].0.len()); print(P[265].1); print(unsafe { Q.offset_from(&raw const A as *const u16) }); print(unsafe { *Q }); print(T.len()); print(T.as_bytes()[bb(287)]); let l: &[u8] = bb(&[5; 400]); print(l.len()); print(l[bb(399)]); print(Z.len());""", """static A: [u16; 300] = { let mut a = [1; 300]; a[299] = 2; a[256] = 3; a };
static S: &[u16] = &A; const P: [(&str, u8); 266] = { let mut p = [("ab", 1u8); 266]; p[265] = ("abc", 9); p }; struct R(*const u16); unsafe impl Sync for R {} static RQ: R = R(unsafe { (&raw const A as *const u16).add(299) }); const Q: *const u16 = unsafe { (&raw const A as *const u16).add(256) };
static T: &str = "0123456789ab0123456789ab0123456789ab0123456789ab0123456789ab0123456789ab0123456789ab0123456789ab0123456789ab0123456789ab0123456789ab0123456789ab0123456789ab0123456789ab0123456789ab0123456789ab0123456789ab0123456789ab0123456789ab0123456789ab0123456789ab0123456789ab0123456789ab0123456789ab"; static Z: &[()] = &[(); 500];"""))
    # random types: the same value as constant, static, promoted and computed at run time
    for k in range(30 if thorough else 12):
        g = Gen(rng); body = ""; items = ""
        for j in range(6):
            t = g.ty(2); v = g.val(t)
            items += f"const C{j}: {t} = {v};\nstatic S{j}: {t} = C{j};\nstatic mut M{j}: [{t}; 2] = [C{j}, {g.val(t)}];\n"
            body += f"  C{j}.sh(); ({{S{j}}}).sh(); let x: {t} = {v}; x.sh(); unsafe {{ ({{M{j}[bb(1)]}}).sh(); M{j}[0] = x; ({{M{j}[0]}}).sh(); ({{M{j}}}).sh(); }} {{ let r: &'static {t} = &C{j}; ({{*r}}).sh(); }}\n"
        yield Case(f"random constants and statics {k}", main(body, SH + g.items + items), rnd=True)
    # pointers at every offset of an array, kept in statics
    n = 12
    idx = [rng.randrange(n + 1) for _ in range(10)]
    yield Case("pointers at random offsets", main("  unsafe { let mut i = 0; while i < 10 { print(P[i].0.offset_from(&raw const A as *const u16)); if P[i].0 != E.0 { print(*P[i].0) } i += 1 } }", f"struct Sy(*const u16); unsafe impl Sync for Sy {{}} static A: [u16; {n}] = [{', '.join(str(rng.randrange(65536)) for _ in range(n))}]; static P: [Sy; 10] = [{', '.join(f'Sy(unsafe {{ (&raw const A as *const u16).add({i}) }})' for i in idx)}]; static E: Sy = Sy(unsafe {{ (&raw const A as *const u16).add({n}) }});"))
