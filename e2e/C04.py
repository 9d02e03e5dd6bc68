"""Representation: what a value's bytes are, and that bytes and values survive copies, moves, transmutes and constants."""
from lib import Case
from gen import *
from rty import *

BYTES = """
#[inline(never)] unsafe fn bytes(p: *const u8, n: usize) { let mut i = 0; while i < n { print(*p.add(i)); i += 1 } }
#[inline(never)] fn id<T>(t: T) -> T { let u = t; u }
"""
def padfree(g, rng, d):
    """a type without padding, with a generator of all-bits-valid values"""
    k = rng.random()
    if d == 0 or k < .5: return rng.choice(NUM)
    if k < .8:
        e = padfree(g, rng, d - 1); return f"[{e}; {rng.choice([1, 2, 3])}]"
    g.n += 1; n = f"S{g.n}"; t = rng.choice(["u8", "u16", "i32", "u64", "i16"]); fs = [t] * rng.choice([1, 2, 4])
    g.defs[n] = ("s", fs, "#[repr(C)] ")
    g.items += f"#[repr(C)] #[derive(Clone, Copy)] struct {n} {{ " + ", ".join(f"f{i}: {f}" for i, f in enumerate(fs)) + f" }}\nimpl Sh for {n} {{ fn sh(&self) {{ " + " ".join(f"self.f{i}.sh();" for i in range(len(fs))) + " } }\n"
    return n
def sizeof(g, t):
    if t in NUM: return bits(t) // 8
    if t[0] == "[": k = t[1:-1].rfind("; "); return sizeof(g, t[1:-1][:k]) * int(t[1:-1][k + 2:])
    return sum(sizeof(g, f) for f in g.defs[t][1])

def cases(rng, thorough):
    for k in range(120 if thorough else 30):
        g = Gen(rng); body = []
        for _ in range(6):
            t = padfree(g, rng, 2); n = sizeof(g, t)
            bs = ", ".join(str(rng.choice([0, 1, 127, 128, 255, rng.randrange(256)])) for _ in range(n))
            v = g.val(t)
            body.append(f"""  {{ let v: {t} = bb({v}); unsafe {{ bytes(&raw const v as *const u8, {n}); let a: [u8; {n}] = std::mem::transmute(v); a.sh();
    let w: {t} = std::mem::transmute::<[u8; {n}], {t}>(bb([{bs}])); w.sh(); let x: {t} = std::mem::transmute::<[u8; {n}], {t}>(a); x.sh();
    let mut y = bb(v); *(&raw mut y as *mut [u8; {n}]) = bb([{bs}]); y.sh(); y = id(x); y.sh(); let p = &raw mut y as *mut u8; *p.add({rng.randrange(n)}) = bb({rng.randrange(256)}); y.sh(); }} }}""")
        yield Case(f"bytes of padding-free types {k}", main("\n".join(body), SH + BYTES + g.items), rnd=True)
    for k in range(150 if thorough else 40):
        g = Gen(rng); body = []
        for j in range(4):
            t = g.ty(3)
            g.items += f"static G{j}: {t} = {g.val(t)};\nconst C{j}: {t} = {g.val(t)};\nstatic mut M{j}: [{t}; 2] = [{g.val(t)}, {g.val(t)}];\nstatic R{j}: &[{t}] = &[{g.val(t)}, {g.val(t)}, {g.val(t)}];\nstatic P{j}: (&'static {t}, u8) = (&G{j}, 4);\n"
            body.append(f"""  {{ G{j}.sh(); C{j}.sh(); R{j}.sh(); P{j}.0.sh(); print(P{j}.1); bb(C{j}).sh(); unsafe {{ let m = &mut *(&raw mut M{j}); m[bb(1)].sh(); m[bb(0)] = {g.val(t)}; m[0].sh(); m[1] = m[0]; m[1].sh(); }}
    let v: {t} = bb({g.val(t)}); let w = v; let mut a = bb([v, w, {g.val(t)}]); a[0] = a[bb(2)]; a.sh(); let mut z = id((1u8, v, 2u8)); z.1 = id(w); z.sh(); let x = {{ let y = &mut z.1; *y = {g.val(t)}; *y }}; x.sh(); z.sh();
    let c = move || {{ v.sh(); x }}; let r = c(); r.sh(); R{j}[bb(2)].sh(); }}""")
        yield Case(f"values in constants, statics, copies and moves {k}", main("\n".join(body), SH + BYTES + g.items), rnd=True)
    # unions: everything that is not padding in any field survives a copy
    yield Case("unions", main("""
  let mut u = bb(U { a: 0x11223344 }); unsafe { print(u.a); print(u.b[bb(0)]); print(u.b[3]); u.c = bb(0x0506); print(u.a); let v = bb(u); print(v.a); print(v.d.0); print(v.d.1); let w = U { d: (7, 0x0908) }; let w = bb(w); print(w.d.0); print(w.d.1); print(w.b[0]); }
  let mut f = bb(F { x: (1, 2) }); unsafe { f.y = 3; let f = bb(f); print(f.x.0); print(f.x.1); print(f.y); }
  let p = bb(PP { p: &5 }); let q = bb(p); unsafe { print(*q.p); let r = bb(PP { n: 9 }); print(r.n); }
  let s = bb(SL { s: "abc" }); let s2 = bb(s); unsafe { print(s2.s.len()); print(s2.s.as_bytes()[bb(2)]); }
  let n = bb(Nest { u: U { a: 77 } }); let m = bb(n); unsafe { print(m.u.a); print(m.u.b[0]); } let aa = bb(Arr { a: [(1, 2), (3, 4), (5, 6)] }); let ab = bb(aa); unsafe { print(ab.a[bb(2)].0); print(ab.a[bb(1)].1); print(ab.a[2].1); }
  let e = bb(En { o: Some(0x01020304) }); let e2 = bb(e); unsafe { match e2.o { Some(x) => print(x), None => print(-1) } let e = bb(En { o: None }); let e2 = bb(e); match e2.o { Some(x) => print(x), None => print(-1) } }
  let d = bb(Dy { d: &8u16 }); let d2 = bb(d); unsafe { d2.d.sh(); }""", SH + """
#[derive(Clone, Copy)] #[repr(C)] union U { a: u32, b: [u8; 4], c: u16, d: (u8, u16) }
#[derive(Clone, Copy)] #[repr(C)] union F { x: (u8, u32), y: u8 }
#[derive(Clone, Copy)] union PP { p: &'static u32, n: usize }
#[derive(Clone, Copy)] union SL { s: &'static str, n: u8 }
#[derive(Clone, Copy)] union Dy { d: &'static dyn Sh, n: u8 }
#[derive(Clone, Copy)] union Nest { u: U, n: u8 }
#[derive(Clone, Copy)] union Arr { a: [(u8, u16); 3], n: u8 }
#[derive(Clone, Copy)] union En { o: Option<u32>, n: u8 }
"""), rnd=True)
    yield Case("long arrays", main("""
  let mut a = bb([bb(7u8); 300]); a[bb(299)] = 1; a[bb(256)] = 2; a[bb(255)] = 3; let b = id(a); print(b[bb(299)]); print(b[256]); print(b[255]); print(b[254]); print(b[43]); print(b[0]); print(b.len());
  let c = bb([(bb(1u16), 2u8); 130]); print(c[bb(129)].0); print(c[128].1); print(c[bb(127)].0); let d: [u8; 0] = [bb(1u8); 0]; print(d.len());
  let e = bb([[bb(9u32); 66]; 3]); print(e[bb(2)][bb(65)]); print(e[2][64]); print(e[bb(0)][0]); let f = [3u8; 70]; print(f[bb(69)]);
  let g: &[u8] = &b; print(g.len()); print(g[bb(299)]); let h: [u16; 150] = unsafe { std::mem::transmute(b) }; print(h[bb(149)]); print(h[128]);""", BYTES))
    # padding is lost on copies: reading it afterwards is undefined behaviour
    LOST = [("tuple padding", "#[repr(C)] #[derive(Clone, Copy)] struct T(u8, u32);", "T", 8, 2), ("tail padding", "#[repr(C)] #[derive(Clone, Copy)] struct T(u32, u8);", "T", 8, 6),
            ("inner padding of an array", "#[repr(C)] #[derive(Clone, Copy)] struct I(u16, u8); #[derive(Clone, Copy)] struct T([I; 3]);", "T", 12, 7),
            ("padding of every union field", "#[repr(C)] #[derive(Clone, Copy)] struct I(u8, u32); #[repr(C)] #[derive(Clone, Copy)] union T { a: I, b: u8 }", "T", 8, 3),
            ("union tail", "#[repr(C, align(8))] #[derive(Clone, Copy)] union T { a: u32, b: [u8; 5] }", "T", 8, 6),
            ("array padding inside a union", "#[repr(C)] #[derive(Clone, Copy)] struct I(u16, u8); #[repr(C)] #[derive(Clone, Copy)] union T { a: [I; 3], b: u8 }", "T", 12, 7),
            ("nested union padding", "#[repr(C)] #[derive(Clone, Copy)] struct I(u8, u32); #[repr(C)] #[derive(Clone, Copy)] union N { a: I, b: u8 } #[repr(C)] #[derive(Clone, Copy)] union T { n: N, b: u8 }", "T", 8, 3),
            ("enum variant padding", "#[repr(C, u8)] #[derive(Clone, Copy)] enum T { A(u32) }", "T", 8, 2)]
    for n, items, t, size, off in LOST:
        for o in range(size):
            keep = o != off
        src = f"  let mut b = bb(B([1; {size}])); b.0[{'0' if 'variant' in n else '1'}] = {'0' if 'variant' in n else '1'}; let v: {t} = unsafe {{ *(&raw const b as *const {t}) }}; let w = bb(v); print(unsafe {{ *(&raw const w as *const u8).add({off}) }});"
        yield Case(f"reading {n} after a copy", main(src, items + f"#[repr(C, align(8))] #[derive(Clone, Copy)] struct B([u8; {size}]);"), "ub")
    KEEP = [("union of a byte and a word", "#[repr(C)] #[derive(Clone, Copy)] union T { a: u8, b: u32 }", "T", 4, [0, 1, 2, 3]), ("union of disjoint parts", "#[repr(C)] #[derive(Clone, Copy)] struct I(u8, u32); #[repr(C)] #[derive(Clone, Copy)] union T { a: I, b: [u8; 2] }", "T", 8, [0, 1, 4, 5, 6, 7]),
            ("union of pointer and byte", "#[repr(C)] #[derive(Clone, Copy)] union T { a: *const u8, b: u8 }", "T", 8, list(range(8))), ("union of array and byte", "#[repr(C)] #[derive(Clone, Copy)] struct I(u16, u8); #[repr(C)] #[derive(Clone, Copy)] union T { a: [I; 3], b: u8 }", "T", 12, [0, 1, 2, 4, 5, 6, 8, 9, 10]),
            ("union with bool", "#[repr(C)] #[derive(Clone, Copy)] union T { a: bool, b: (bool, bool), c: [u8; 3] }", "T", 3, [0, 1, 2]), ("union with enum", "#[repr(C)] #[derive(Clone, Copy)] union T { a: Option<u32>, b: u8 }", "T", 8, [0, 4, 5, 6, 7]),
            ("union with wide pointer", "#[repr(C)] #[derive(Clone, Copy)] union T { a: *const [u8], b: u8 }", "T", 16, list(range(16))), ("union with i128", "#[repr(C)] #[derive(Clone, Copy)] union T { a: i128, b: u8 }", "T", 16, list(range(16)))]
    for n, items, t, size, keep in KEEP:
        src = f"  let mut b = bb(B([0; {size}])); let mut i = 0; while i < {size} {{ b.0[i] = i as u8 + 10; i += 1 }} let v: {t} = unsafe {{ *(&raw const b as *const {t}) }}; let w = bb(v);\n" + "\n".join(f"  print(unsafe {{ *(&raw const w as *const u8).add({o}) }});" for o in keep)
        yield Case(f"bytes kept by a {n}", main(src, items + f"#[repr(C, align(16))] #[derive(Clone, Copy)] struct B([u8; {size}]);"), rnd=False)
    # pointers keep provenance through copies, byte-wise copies, integers-typed copies do not
    yield Case("pointers through memory", main("""  let x = bb(41u32); let p = &raw const x; let q = bb([p, p]); print(unsafe { *q[bb(1)] }); let s = bb((p, 1u8)); print(unsafe { *s.0 });
  let a: [U; 8] = unsafe { std::mem::transmute(p) }; let mut c = bb(a); let mut i = 0; while i < 8 { c[i] = a[i]; i += 1 } let r: *const u32 = unsafe { std::mem::transmute(c) }; print(unsafe { *r });
  let sl: &[u16] = bb(&[1, 2, 3]); let w: [usize; 2] = unsafe { std::mem::transmute(sl) }; print(w[1]); let f: fn(u8) -> u8 = bb(f1); let g = bb([f, f2]); print(g[bb(0)](1)); print(g[bb(1)](1));
  let d: &dyn Sh = bb(&7u16); let dd = bb([d, d]); dd[bb(1)].sh(); let mut o: Option<&u32> = bb(None); print(o.is_none() as u8); o = Some(&x); print(*bb(o).unwrap());""", SH + "#[derive(Clone, Copy)] union U { a: u8, b: () } fn f1(x: u8) -> u8 { x + 1 } fn f2(x: u8) -> u8 { x + 2 }"), rnd=True)
    yield Case("pointer bytes out of order", main("  let x = bb(41u32); let p = &raw const x; let a: [U; 8] = unsafe { std::mem::transmute(p) }; let b = [a[1], a[0], a[2], a[3], a[4], a[5], a[6], a[7]]; let r: *const u32 = unsafe { std::mem::transmute(b) }; print(unsafe { *r });", "#[derive(Clone, Copy)] union U { a: u8, b: () }"), "ub")
    yield Case("pointer to integer to pointer by transmute", main("  let x = bb(41u32); let n: usize = unsafe { std::mem::transmute(&raw const x) }; let r: *const u32 = unsafe { std::mem::transmute(bb(n)) }; print(unsafe { *r });"), "ub")
    # statics: identity, relocations, uninitialised parts, mutation
    yield Case("statics and relocations", main("""
  unsafe { print(*A.1); print(*B[bb(1)]); print(A.1 as *const u32 == B[1] as *const u32); X = X + 1; print(X); let p = &raw mut Y; (*p).1 = 9; print((*p).1); print((*p).0); CNT += *A.1; print(CNT); let q = PX; *(q.0) += 5; print(X); }
  print(S.0.len()); print(S.0.as_bytes()[bb(3)]); print(S.1[bb(2)]); print(LINK.1.unwrap().1.unwrap().0); print(E.2[bb(0)] as u8); print(MID.0); print((*MID).1); print(*OFF); print(unsafe { *(OFF as *const u16).add(1) });""", """
static Z: u32 = 5; static A: (u8, &u32) = (1, &Z); static B: [&u32; 2] = [&6, &Z]; static mut X: u32 = 7; static mut Y: (u8, u32) = (1, 2); static mut CNT: u32 = 100;
struct PS(*mut u32); unsafe impl Sync for PS {} static PX: PS = PS(&raw mut X);
static S: (&str, &[u16]) = ("wxyz", &[4, 5, 6]); struct L(u32, Option<&'static L>); static L2: L = L(9, None); static L1: L = L(8, Some(&L2)); static LINK: L = L(7, Some(&L1)); static E: (u8, u32, [bool; 2]) = (1, 2, [true, false]);
static TUP: (u8, (u16, u64)) = (1, (2, 3)); static MID: &(u16, u64) = &TUP.1; static ARR: [u16; 4] = [10, 11, 12, 13]; static OFF: &u16 = &ARR[2];""".replace("print(A.1 as", "print((A.1 as")), rnd=True) if False else Case("statics and relocations", main("""
  unsafe { print(*A.1); print(*B[bb(1)]); print((A.1 as *const u32 == B[1] as *const u32) as u8); X = X + 1; print(X); let p = &raw mut Y; (*p).1 = 9; print((*p).1); print((*p).0); CNT += *A.1; print(CNT); *(PX.0) += 5; print(X); }
  print(S.0.len()); print(S.0.as_bytes()[bb(3)]); print(S.1[bb(2)]); print(LINK.1.unwrap().1.unwrap().0); print(E.2[bb(0)] as u8); print(MID.0); print(MID.1); print(*OFF); print(unsafe { *(&raw const *OFF).wrapping_sub(0) });""", """
static Z: u32 = 5; static A: (u8, &u32) = (1, &Z); static B: [&u32; 2] = [&6, &Z]; static mut X: u32 = 7; static mut Y: (u8, u32) = (1, 2); static mut CNT: u32 = 100;
struct PS(*mut u32); unsafe impl Sync for PS {} static PX: PS = PS(&raw mut X);
static S: (&str, &[u16]) = ("wxyz", &[4, 5, 6]); struct L(u32, Option<&'static L>); static L2: L = L(9, None); static L1: L = L(8, Some(&L2)); static LINK: L = L(7, Some(&L1)); static E: (u8, u32, [bool; 2]) = (1, 2, [true, false]);
static TUP: (u8, (u16, u64)) = (1, (2, 3)); static MID: &(u16, u64) = &TUP.1; static ARR: [u16; 4] = [10, 11, 12, 13]; static OFF: &u16 = &ARR[2];"""))
    yield Case("byte copies of structures", main("""  #[derive(Clone, Copy)] #[repr(C)] struct Q { a: u8, b: u32, p: *const u16 }
  let x = bb(500u16); let q = bb(Q { a: 3, b: 70000, p: &raw const x }); let mut r = bb(Q { a: 0, b: 0, p: std::ptr::null() });
  unsafe { let s = &raw const q as *const std::mem::MaybeUninit<u8>; let d = &raw mut r as *mut std::mem::MaybeUninit<u8>; let mut i = 0; while i < 16 { *d.add(i) = *s.add(i); i += 1; } print(r.a); print(r.b); print(*r.p); }"""), rnd=True)
