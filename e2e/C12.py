"""Tree Borrows: programs that respect the rules run, programs that violate them are undefined behaviour."""
from lib import Case
from gen import *
TB = ["--minirust-tree-borrows"]
OK = [
("reborrowing", "  let mut x = bb(1u32); let a = &mut x; { let b = &mut *a; *b += 1; let c = &mut *b; *c += 1; print(*c); *b += 1; print(*b); } *a += 1; print(*a); let r = &*a; print(*r); let s = &*r; print(*s + *r); *a = 9; print(x);", ""),
("shared siblings", "  let mut x = bb([1u32, 2]); let a = &x; let b = &x; let p = &raw const x as *const u32; unsafe { print(a[0] + b[1] + *p + *p.add(1)); } print(a[1] + x[0] + b[0]); x[0] = 5; let q = &mut x; q[1] = 6; print(x[0] + x[1]);", ""),
("raw pointers derived from a live reference", "  let mut x = bb([1u32, 2, 3]); let r = &mut x; let p = r as *mut [u32; 3] as *mut u32; unsafe { *p = 10; *p.add(1) = 20; let q = p.add(2); *q = 30; *p += *q; } print(r[0]); r[1] = 5; unsafe { print(*p.add(1)); } print(x[2]);", ""),
("two-phase borrows", "  let mut a = A { v: 3, w: [1, 2, 3] }; a.add(a.v); print(a.v); a.add(a.get() + a.v); print(a.v); let k = a.w[0]; a.w[k as usize] = a.w[2] + k; print(a.w[1]); a.set(a.w.len() as u32, a.w[0]); print(a.v);", "struct A { v: u32, w: [u32; 3] } impl A { fn add(&mut self, n: u32) { self.v += n } fn get(&self) -> u32 { self.v } fn set(&mut self, a: u32, b: u32) { self.v = a * b } }"),
("a read through the parent in the middle of a two-phase borrow", "  let mut x = bb(5u32); let p = &raw mut x; unsafe { let r = &mut *p; print(*p); *r = 6; print(*p); print(*r); }", ""),
("a mutable reference that was only read tolerates foreign reads", "  let mut x = bb(5u32); let p = &raw mut x; unsafe { let r = &mut *p; print(*r); print(*p); print(*r); *r = 6; print(*r); print(*p); print(*r); }", ""),
("disjoint parts", "  let mut x = bb((1u32, 2u32, [3u8, 4])); let a = &mut x.0; let b = &mut x.1; let c = &mut x.2; *a += 1; *b += 2; c[1] += 3; *a += 1; print(*a + *b + c[1] as u32); let (l, r) = c.split_at_mut(1); l[0] += 1; r[0] += 2; l[0] += 3; print(l[0] + r[0]); print(x.0); let mut y = [1u32, 2, 3, 4]; let p = &raw mut y as *mut u32; unsafe { let a = &mut *p; let b = &mut *p.add(1); *a = 7; *b = 8; *a += 1; print(*a + *b); }", ""),
("arguments", "  let mut x = bb(1u32); inc(&mut x); print(x); let r = &mut x; inc(r); inc(r); print(get(r)); print(two(r, &3)); print(*id(r)); *id(r) = 9; print(x); let mut t = (1u32, 2u32); swap(&mut t.0, &mut t.1); print(t.0); let s = W(&mut t.0, 3); st(s); print(t.0);", "fn inc(x: &mut u32) { *x += 1 } fn get(x: &u32) -> u32 { *x } fn two(x: &mut u32, y: &u32) -> u32 { *x += *y; inc(x); *x + *y } fn id(x: &mut u32) -> &mut u32 { x } fn swap(a: &mut u32, b: &mut u32) { let t = *a; *a = *b; *b = t } struct W<'a>(&'a mut u32, u32); fn st(w: W) { *w.0 += w.1; }"),
("recursion with mutable arguments", "  let mut a = [0u32; 6]; f(&mut a, 5); let mut i = 0; while i < 6 { print(a[i]); i += 1 } print(g(&mut 0, 4));", "fn f(a: &mut [u32], n: usize) { a[n] = n as u32; if n > 0 { let (l, _) = a.split_at_mut(n); f(l, n - 1); a[0] += 1 } } fn g(x: &mut u32, n: u32) -> u32 { if n == 0 { return *x } *x += n; let y = g(x, n - 1); *x += y; *x }"),
("deallocating through a raw pointer argument", "  unsafe { let p = allocate(4, 4) as *mut u32; *p = 3; let r = &mut *p; *r = 4; free(p); let q = allocate(4, 4) as *mut u32; *q = 1; f(&*q, q); deallocate(q as *mut u8, 4, 4) }", "unsafe fn free(p: *mut u32) { print(*p); deallocate(p as *mut u8, 4, 4) } unsafe fn f(x: &u32, p: *mut u32) { print(*x); g(p) } unsafe fn g(_p: *mut u32) { print(7) }"),
("after the protector ends the memory may be written", "  unsafe { let mut x = 1u32; let p = &raw mut x; f(&mut *p); *p = 5; print(*p); g(&*p); *p = 6; print(*p); }", "fn f(x: &mut u32) { *x += 1 } fn g(x: &u32) { print(*x) }"),
("a read-only argument while others read", "  unsafe { let mut x = 1u32; let p = &raw mut x; f(&mut *p, p); print(g(&*p, p)); }", "unsafe fn f(x: &mut u32, p: *mut u32) { print(*x); print(*p); print(*x) } unsafe fn g(x: &u32, p: *const u32) -> u32 { *x + *p + *x }"),
("returned references", "  let mut s = S { a: [1, 2, 3], b: 4 }; *s.at(1) = 9; print(s.a[1]); { let r = s.at(2); *r += 1; *r += 1; } print(s.a[2]); let m = mx(&mut s.a[0], &mut s.b); *m = 0; print(s.b); let (x, y) = pick(&mut s); *x += 1; *y += 1; *x += 1; print(s.a[0] + s.b);", "struct S { a: [u32; 3], b: u32 } impl S { fn at(&mut self, i: usize) -> &mut u32 { &mut self.a[i] } } fn mx<'a>(a: &'a mut u32, b: &'a mut u32) -> &'a mut u32 { if *a > *b { a } else { b } } fn pick(s: &mut S) -> (&mut u32, &mut u32) { (&mut s.a[0], &mut s.b) }"),
("linked structure", "  let mut c = N { v: 3, n: None }; let mut b = N { v: 2, n: Some(&mut c) }; let mut a = N { v: 1, n: Some(&mut b) }; a.add(10); print(a.sum()); a.last().v = 100; print(a.sum());", "struct N<'a> { v: u32, n: Option<&'a mut N<'a>> } impl<'a> N<'a> { fn add(&mut self, k: u32) { self.v += k; if let Some(n) = &mut self.n { n.add(k) } } fn sum(&self) -> u32 { self.v + match &self.n { Some(n) => n.sum(), None => 0 } } fn last(&mut self) -> &mut N<'a> { let mut p: *mut N<'a> = self; unsafe { while let Some(n) = &mut (*p).n { p = &raw mut **n } &mut *p } } }"),
("closures capturing references", "  let mut n = 1u32; { let mut f = |k| { n += k; n }; print(f(1)); print(f(2)); } print(n); let mut a = [1u8, 2]; let g = |i: usize| a[i]; print(g(0)); print(a[1]); print(g(1)); { let mut h = || { let r = &mut a; r[0] += 1; r[0] }; print(h()); print(h()); } ap(&mut |k| n += k); print(n);", "fn ap(f: &mut dyn FnMut(u32)) { f(1); f(2) }"),
("slices", "  let mut a = bb([1u32, 2, 3, 4]); let s = &mut a[1..]; s[0] = 9; let (x, y) = s.split_at_mut(1); x[0] += y[0]; y[1] += 1; x[0] += 1; print(s[0]); s[2] = 7; print(s[0]); print(a[3]); let r = &a[..2]; let q = &a[1..]; print(r[1] + q[0]); sum(&mut a); print(a[0]);", "fn sum(a: &mut [u32]) { let mut i = 1; while i < a.len() { a[0] += a[i]; i += 1 } }"),
("shared references to data without cells may be read while the parent is", "  let mut x = bb([1u32; 4]); let r = &x; let p = &raw const x as *const u32; let mut i = 0; while i < 4 { unsafe { print(r[i] + *p.add(i) + x[i]); } i += 1 } x[0] = 1; print(x[0]);", ""),
("zero-sized references do not conflict", "  let mut x = bb(3u32); let p = &raw mut x; unsafe { let z = &mut *(p as *mut ()); let r = &mut *p; *r = 4; *z = (); bb(&*z); *r = 5; f(&mut *(p as *mut [u32; 0]), p); print(*p); }", "unsafe fn f(z: &mut [u32; 0], p: *mut u32) { *p = 8; bb(&*z); }"),
]
UB = [
("use of a reborrow after a write through the parent", "  let mut x = bb(1u32); let p = &raw mut x; unsafe { let r = &mut *p; *r = 2; *p = 3; print(*r); }", ""),
("use of a shared reference after a write", "  let mut x = bb(1u32); let p = &raw mut x; unsafe { let r = &*p; print(*r); *p = 3; print(*r); }", ""),
("use of a shared reference after a write through a sibling", "  let mut x = bb(1u32); let p = &raw mut x; unsafe { let r = &*p; let m = &mut *p; *m = 3; print(*r); }", ""),
("write through an active reference after a foreign read", "  let mut x = bb(1u32); let p = &raw mut x; unsafe { let r = &mut *p; *r = 2; print(*p); *r = 3; }", ""),
("write through a shared reference", "  let x = bb(1u32); let p = &x as *const u32 as *mut u32; unsafe { *p = 3 }", ""),
("write through a raw pointer derived from a shared reference", "  let mut x = bb([1u32, 2]); let r = &mut x; let s = &r[1]; let p = s as *const u32 as *mut u32; unsafe { *p = 3 }", ""),
("two mutable references used in turn", "  let mut x = bb(1u32); let p = &raw mut x; unsafe { let a = &mut *p; let b = &mut *p; *a = 1; *b = 2; }", ""),
("a child is disabled with its parent", "  let mut x = bb(1u32); let p = &raw mut x; unsafe { let a = &mut *p; let b = &mut *a as *mut u32; *b = 2; *p = 3; print(*b); }", ""),
("reborrow of a disabled reference", "  let mut x = bb(1u32); let p = &raw mut x; unsafe { let a = &mut *p; *a = 2; *p = 3; let b = &*a; bb(b); }", ""),
("local written while mutably borrowed", "  let mut x = bb([1u32, 2]); let p = &mut x as *mut [u32; 2]; unsafe { (*p)[0] = 3; x[0] = 4; print((*p)[0]); }", ""),
("argument invalidated by a write", "  unsafe { let mut x = 1u32; let p = &raw mut x; f(&mut *p, p); }", "unsafe fn f(x: &mut u32, p: *mut u32) { *x = 2; *p = 3; }"),
("argument invalidated by a read", "  unsafe { let mut x = 1u32; let p = &raw mut x; f(&mut *p, p); }", "unsafe fn f(x: &mut u32, p: *mut u32) { *x = 2; print(*p); }"),
("shared argument invalidated by a write", "  unsafe { let mut x = 1u32; let p = &raw mut x; f(&*p, p); }", "unsafe fn f(x: &u32, p: *mut u32) { print(*x); *p = 3; }"),
("unused argument invalidated by a write", "  unsafe { let mut x = 1u32; let p = &raw mut x; f(&*p, p); }", "unsafe fn f(_x: &u32, p: *mut u32) { *p = 3; }"),
("argument written after a foreign read", "  unsafe { let mut x = 1u32; let p = &raw mut x; f(&mut *p, p); }", "unsafe fn f(x: &mut u32, p: *mut u32) { print(*p); *x = 3; }"),
("second argument invalidated", "  unsafe { let mut x = 1u32; let p = &raw mut x; f(3, p, &mut *p); }", "unsafe fn f(_n: u32, p: *mut u32, x: &mut u32) { *x = 1; *p = 3; }"),
("reference inside a struct argument invalidated", "  unsafe { let mut x = 1u32; let p = &raw mut x; f(W(1, &mut *p), p); }", "struct W<'a>(u8, &'a mut u32); unsafe fn f(w: W, p: *mut u32) { *w.1 = 1; *p = 3; }"),
("reference inside an option argument invalidated", "  unsafe { let mut x = 1u32; let p = &raw mut x; f(Some(&*p), p); }", "unsafe fn f(w: Option<&u32>, p: *mut u32) { print(*w.unwrap()); *p = 3; }"),
("method receiver invalidated", "  unsafe { let mut x = S(1); let p = &raw mut x; (*p).f(p); }", "struct S(u32); impl S { unsafe fn f(&mut self, p: *mut S) { self.0 = 1; (*p).0 = 3; } }"),
("closure argument invalidated", "  unsafe { let mut x = 1u32; let p = &raw mut x; let f = move |r: &mut u32| { *r = 2; *p = 3; }; f(&mut *p); }", ""),
("slice argument invalidated", "  unsafe { let mut x = [1u32, 2, 3]; let p = &raw mut x as *mut u32; f(std::slice::from_raw_parts_mut(p, 3), p); }", "unsafe fn f(s: &mut [u32], p: *mut u32) { s[2] = 1; *p.add(2) = 3; }"),
("argument of a calling frame invalidated", "  unsafe { let mut x = 1u32; let p = &raw mut x; f(&mut *p, p); }", "unsafe fn f(x: &mut u32, p: *mut u32) { *x = 2; g(p); } unsafe fn g(p: *mut u32) { *p = 4 }"),
("deallocation of a protected argument", "  unsafe { let p = allocate(4, 4) as *mut u32; *p = 1; f(&mut *p, p); }", "unsafe fn f(x: &mut u32, p: *mut u32) { *x = 2; deallocate(p as *mut u8, 4, 4) }"),
("deallocation of a protected shared argument", "  unsafe { let p = allocate(4, 4) as *mut u32; *p = 1; f(&*p); }", "unsafe fn f(x: &u32) { print(*x); let p = x as *const u32 as *mut u8; g(p) } unsafe fn g(p: *mut u8) { deallocate(p, 4, 4) }"),
("a shared reference received as argument is written through", "  let x = bb(1u32); f(&x);", "fn f(x: &u32) { unsafe { *(x as *const u32 as *mut u32) = 3 } }"),
("write through a reference to the middle of a frozen array", "  let a = bb([1u8; 8]); let s = &a[2..4]; unsafe { *(s.as_ptr() as *mut u8) = 1 }", ""),
("static written through a shared reference", "  unsafe { let r = &raw mut X; let s: &u32 = &*r; *r = 3; print(*s) }", "static mut X: u32 = 1;"),
("reference into a heap block after a write through the block", "  unsafe { let p = allocate(8, 4) as *mut u32; *p = 1; *p.add(1) = 2; let r = &*p.add(1); *p = 5; print(*r); *p.add(1) = 6; print(*r) }", ""),
("mutable slice and raw write", "  unsafe { let mut a = [1u32, 2, 3]; let p = &raw mut a as *mut u32; let s = std::slice::from_raw_parts_mut(p, 2); s[1] = 4; *p.add(1) = 5; print(s[1]) }", ""),
("trait object reference after a write", "  unsafe { let mut a = 3u32; let p = &raw mut a; let d: &dyn T = &*p; d.t(); *p = 4; d.t(); }", "trait T { fn t(&self); } impl T for u32 { fn t(&self) { print(*self) } }"),
("trait object argument invalidated", "  unsafe { let mut a = 3u32; let p = &raw mut a; f(&*p, p); }", "trait T {} impl T for u32 {} unsafe fn f(_d: &dyn T, p: *mut u32) { *p = 4; }"),
("two-phase borrow after a write", "  unsafe { let mut a = 3u32; let p = &raw mut a; let r = &mut *p; *p = 4; *r = 5; }", ""),
]
# ---- types with cells: leaves are (access path from a reference, offset expression is taken from the compiler, is it a cell)
class G:
    def __init__(self, rng): self.r, self.items, self.n = rng, "", 0
    def ty(self, d, cell):
        """-> (type, init, [(path, 'p'|'c', leaf type)]); path is an accessor applied to a place"""
        r = self.r; k = r.random()
        if d == 0 or k < .15:
            t = r.choice(["u8", "u16", "u32", "u64"]); v = str(r.randrange(200))
            if r.random() < cell: return f"Cell<{t}>", f"Cell::new({v})", [("", "c", t)]
            return t, v, [("", "p", t)]
        if k < .35:
            m = [self.ty(d - 1, cell) for _ in range(r.choice([2, 3]))]
            return "(" + ", ".join(x[0] for x in m) + ")", "(" + ", ".join(x[1] for x in m) + ")", [(f".{i}" + q, c, t) for i, x in enumerate(m) for q, c, t in x[2]]
        if k < .6:
            n = r.choice([1, 2, 3, 5]); s = self.r.getstate(); x = self.ty(d - 1, cell)
            return f"[{x[0]}; {n}]", "[" + ", ".join([x[1]] * n) + "]", [(f"[{i}]" + q, c, t) for i in range(n) for q, c, t in x[2]]
        if k < .7:  # the whole enum is a cell if any part of it is
            m = self.ty(0, cell); self.n += 1; n = f"E{self.n}"
            self.items += f"enum {n} {{ #[allow(dead_code)] A({m[0]}), B(u8, {m[0]}) }}\n"
            return n, f"{n}::B(3, {m[1]})", [("", "c" if "Cell" in m[0] else "p", "u8")]
        if k < .78:
            m = self.ty(0, cell); self.n += 1; n = f"U{self.n}"
            self.items += f"#[repr(C)] union {n} {{ a: std::mem::ManuallyDrop<{m[0]}>, #[allow(dead_code)] b: u8 }}\n"
            return n, f"{n} {{ a: std::mem::ManuallyDrop::new({m[1]}) }}", [("", "c" if "Cell" in m[0] else "p", "u8")]
        if k < .83:  # everything inside an UnsafeCell
            m = self.ty(d - 1, 0)
            return f"UnsafeCell<{m[0]}>", f"UnsafeCell::new({m[1]})", [("", "c", "u8")]
        if k < .88: return "&'static Cell<u8>", "&SC.0", [("", "p", "u8")]
        self.n += 1; n = f"S{self.n}"
        m = [self.ty(d - 1, cell) for _ in range(r.choice([1, 2, 3]))]
        rep = r.choice(["", "", "#[repr(C)] ", "#[repr(align(16))] "])
        self.items += f"{rep}#[allow(dead_code)] struct {n} {{ " + ", ".join(f"f{i}: {x[0]}" for i, x in enumerate(m)) + " }\n"
        return n, f"{n} {{ " + ", ".join(f"f{i}: {x[1]}" for i, x in enumerate(m)) + " }", [(f".f{i}" + q, c, t) for i, x in enumerate(m) for q, c, t in x[2]]
H = "use std::cell::{Cell, UnsafeCell}; struct Sy(Cell<u8>); unsafe impl Sync for Sy {} #[allow(dead_code)] static SC: Sy = Sy(Cell::new(1));\n"
def cases(rng, thorough):
    for n, b, i in OK: yield Case(n, main(b, i), flags=TB)
    for n, b, i in UB: yield Case(n, main(b, i), "ub", flags=TB)
    for n in (1, 2, 3, 4, 7): yield Case(f"array of {n} cells", main(f"  let a: [Cell<u8>; {n}] = [const {{ Cell::new(1) }}; {n}]; let r = &a; let p = &raw const a as *mut u8; unsafe {{ *p.add({n - 1}) = 9; }} print(r[{n - 1}].get()); r[{n - 1}].set(8); unsafe {{ print(*p.add({n - 1})); }}", H), flags=TB)
    # several cells and plain data side by side: each plain field is protected, each cell is not
    S = "#[derive(Default)] struct S { #[allow(dead_code)] a: u8, b: Cell<u16>, #[allow(dead_code)] c: u32, d: Cell<u8>, #[allow(dead_code)] e: u8, f: UnsafeCell<[u8; 3]> } #[repr(C)] #[derive(Default)] struct R { #[allow(dead_code)] p: u8, q: S, #[allow(dead_code)] r: u8, s: Cell<u8>, #[allow(dead_code)] t: u16 }\n"
    for ty, pl, ce in (("S", ["a", "c", "e"], ["b", "d", "f"]), ("R", ["p", "r", "t", "q.a", "q.c", "q.e"], ["q.b", "q.d", "q.f", "s"]), ("(u8, Cell<u16>, u8, S)", ["0", "2", "3.a", "3.e"], ["1", "3.b", "3.f"]), ("[(u8, Cell<u8>, Cell<u8>); 3]", ["[2].0", "[0].0"], ["[2].1", "[1].2"])):
        pre = f"  let x: {ty} = Default::default(); let r = &x; let p = r as *const {ty} as *mut u8; "
        acc = lambda l: ("x" + l if l[0] == "[" else "x." + l)
        wr = lambda l: f"unsafe {{ *p.add(&raw const {acc(l)} as usize - &raw const x as usize) = 1; }} "
        yield Case(f"cells of {ty}", main(pre + "".join(map(wr, ce)) + "bb(r);", H + S), flags=TB)
        for l in pl: yield Case(f"plain data of {ty} {l}", main(pre + wr(l) + "bb(r);", H + S), "ub", flags=TB)
    # bytes next to the referent: writable through a shared reference exactly if its type has a cell somewhere
    for j, (ty, v, fr) in enumerate([("u8", "1", 1), ("Cell<u8>", "Cell::new(1)", 0), ("[Cell<u8>; 2]", "[Cell::new(1), Cell::new(2)]", 0), ("(u8, Cell<u8>)", "(1, Cell::new(2))", 0), ("[u8; 2]", "[1, 2]", 1), ("(u8, u16)", "(1, 2)", 1), ("Option<Cell<u8>>", "None", 0), ("[(u8, [Cell<u8>; 1]); 1]", "[(1, [Cell::new(1)])]", 0), ("&'static Cell<u8>", "&SC.0", 1)]):
        for how, b in (("ref", f"let r: &{ty} = &x.a; let p = r as *const {ty} as *mut u8;"), ("closure", f"let a = &x.a; let f = |r: &{ty}| r as *const {ty} as *mut u8; let p = f(a);"), ("dyn", f"let r: &dyn D = &x.a; let p = r as *const dyn D as *mut u8;"), ("slice", f"let r: &[{ty}] = std::slice::from_ref(&x.a); let p = r.as_ptr() as *mut u8;")):
            if how in ("dyn", "slice") and j not in (0, 2, 3, 5): continue
            src = main(f"  let mut x: B = B {{ a: {v}, b: 7 }}; let o = &raw const x.b as usize - &raw const x as usize; let n = (&raw mut x) as *mut u8; bb(n); {b} unsafe {{ *p.add(o) = 9; print(*p.add(o)); }}", H + f"#[repr(C)] #[allow(dead_code)] struct B {{ a: {ty}, b: u8 }} trait D {{}} impl D for {ty} {{}}")
            yield Case(f"bytes next to the referent {ty} {how}", src, "ub" if fr else "diff", flags=TB)
    # cells captured by value
    for how, b in (("ref", "let g = &f; g(1); g(2);"), ("argument", "cl(&f, 1); cl(&f, 2);"), ("object", "let g: &dyn Fn(u32) = &f; g(1); g(2);"), ("generic by value", "let h = &f; let i = move |x| h(x); i(1); cl(&i, 2);")):
        yield Case(f"a cell captured by a closure, {how}", main("  let k = Cell::new(bb(1u32)); let j = bb(3u8); let c = Cell::new(2u16); let f = move |x: u32| { k.replace(k.get() + x); c.set(c.get() + j as u16); print(k.get()); print(c.get()); }; " + b + " f(5);", H + "fn cl<F: Fn(u32)>(f: &F, x: u32) { f(x) }\n"), flags=TB)
    yield Case("plain data captured by a closure is protected", main("  let k = Cell::new(bb(1u32)); let j = bb(3u8); let f = move |x: u32| { k.set(x); (&raw const j as usize, j) }; let g = &f; let o = g(1).0 - g as *const _ as usize; let p = g as *const _ as *mut u8; unsafe { *p.add(o) = 1 }", H), "ub", flags=TB)
    for k in range(90 if thorough else 34):
        g = G(rng)
        t, v, leaves = g.ty(rng.choice([1, 2, 2, 3]), rng.choice([.25, .5, .75]))
        cs = [l for l in leaves if l[1] == "c"]; ps = [l for l in leaves if l[1] == "p"]
        how = rng.choice(["ref", "arg", "slice", "dyn", "field"])
        it = H + g.items + f"trait D {{ fn d(&self) -> *const u8; }} impl D for {t} {{ fn d(&self) -> *const u8 {{ self as *const {t} as *const u8 }} }}\nstruct Big {{ #[allow(dead_code)] a: u8, b: {t}, #[allow(dead_code)] c: u16 }}\n"
        # o(x): the address of leaf l from a place expression
        def prog(writes, second):
            offs = [f"(&raw const x{q} as usize - &raw const x as *const u8 as usize)" for q in writes]
            b = f"  let x: {t} = {v}; let y = 5u8; bb(y);\n"
            b += "  let offs: [usize; %d] = [%s];\n" % (len(offs), ", ".join(offs))
            if how == "ref": b += f"  let r = &x; let s = &x; let p = s as *const {t} as *mut u8; unsafe {{ wr(p, &offs) }} let q = r as *const {t} as *mut u8; unsafe {{ rd(q, &offs) }} bb(&*r); bb(&*s);"
            elif how == "arg": b += f"  unsafe {{ f(&x, &raw const x as *mut u8, &offs); }}"; 
            elif how == "slice": b = f"  let z: [{t}; 3] = [{v}, {v}, {v}]; let x = &z[1]; let x: *const {t} = x; let offs: [usize; {len(offs)}] = unsafe {{ [" + ", ".join(f"(&raw const (*x){q} as usize - x as usize)" for q in writes) + f"] }};\n  let s: &[{t}] = &z; let r: &[{t}] = &z; let i = bb({rng.randrange(3)}usize); unsafe {{ let p = (s.as_ptr() as *mut u8).add(i * std::mem::size_of::<{t}>()); wr(p, &offs); rd((r.as_ptr() as *mut u8).add(i * std::mem::size_of::<{t}>()), &offs); }} bb(&*s);"
            elif how == "dyn": b += f"  let r: &dyn D = &x; let s: &dyn D = &x; let p = s.d() as *mut u8; unsafe {{ wr(p, &offs); rd(r.d() as *mut u8, &offs); }}"
            else: b = b.replace(f"let x: {t} = {v};", f"let z = Big {{ a: 1, b: {v}, c: 2 }}; let x = &z.b;").replace("&raw const x as", f"x as *const {t} as").replace("&raw const x", "&raw const (*x)") + f"  let r = &z; let s = &z; let p = &s.b as *const {t} as *mut u8; unsafe {{ wr(p, &offs); rd(&raw const r.b as *mut u8, &offs); }} bb(&*s);"
            return main(b, it + f"unsafe fn wr(p: *mut u8, o: &[usize]) {{ let mut i = 0; while i < o.len() {{ *p.add(o[i]) = i as u8; i += 1 }} }} unsafe fn rd(p: *mut u8, o: &[usize]) {{ let mut i = 0; while i < o.len() {{ print(*p.add(o[i])); i += 1 }} }} unsafe fn f(x: &{t}, p: *mut u8, o: &[usize]) {{ wr(p, o); rd(x as *const {t} as *mut u8, o) }}")
        if cs: yield Case(f"writes to the cells of a random type {k} ({how})", prog([l[0] for l in cs], 0), flags=TB, rnd=True)
        for l in rng.sample(ps, min(len(ps), 4 if thorough else 2)):
            yield Case(f"write outside the cells of a random type {k} ({how}) {l[0]}", prog([l[0]], 0), "ub", flags=TB, rnd=True)
