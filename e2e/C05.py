"""Validity: reading bytes that do not represent a value of the type is undefined behaviour; every valid representation is accepted."""
from lib import Case
from gen import *
from rty import *
ITEMS = SH + "use std::mem::MaybeUninit;\n#[derive(Clone, Copy)] #[allow(dead_code)] #[repr(u8)] enum T3 { A = 1, B = 5, C = 200 }\n#[derive(Clone, Copy)] #[allow(dead_code)] enum Void {}\nunsafe fn rd<T: Copy>(p: *const T) -> T { *p }\n"

def cases(rng, thorough):
    for b in [0, 1]: yield Case(f"byte {b} as bool", main(f"  let x = bb({b}u8); let v: bool = unsafe {{ rd(&raw const x as *const bool) }}; v.sh(); let t: bool = unsafe {{ std::mem::transmute(x) }}; t.sh(); if t {{ print(1) }} else {{ print(0) }} (!t).sh();", ITEMS))
    for b in [2, 3, 128, 254, 255] + ([rng.randrange(4, 127) for _ in range(10)] if thorough else [rng.randrange(4, 127)]):
        yield Case(f"byte {b} as bool", main(f"  let x = bb({b}u8); let v: bool = unsafe {{ rd(&raw const x as *const bool) }}; v.sh();", ITEMS), "ub")
        yield Case(f"byte {b} as bool in a tuple", main(f"  let x = bb([1u8, {b}]); let v: (bool, bool) = unsafe {{ std::mem::transmute(x) }}; v.0.sh();", ITEMS), "ub")
        yield Case(f"byte {b} as bool in an array", main(f"  let x = bb([1u8, 0, {b}]); let v: [bool; 3] = unsafe {{ std::mem::transmute(x) }}; v[0].sh();", ITEMS), "ub")
        yield Case(f"byte {b} as bool in an enum payload", main(f"  #[repr(C, u8)] #[derive(Clone, Copy)] #[allow(dead_code)] enum W {{ A(bool), B }} let x = bb([0u8, {b}]); let v: W = unsafe {{ std::mem::transmute(x) }}; match v {{ W::A(_) => print(1), W::B => print(2) }}", ITEMS), "ub")
        yield Case(f"other variant ignores byte {b}", main(f"  #[repr(C, u8)] #[derive(Clone, Copy)] #[allow(dead_code)] enum W {{ A(bool), B }} let x = bb([1u8, {b}]); let v: W = unsafe {{ std::mem::transmute(x) }}; match bb(v) {{ W::A(_) => print(1), W::B => print(2) }}", ITEMS))
    for t in ("u8", "i16", "u32", "i64", "u128", "bool", "char", "usize", "&'static u8", "*const u8", "fn()", "T3", "Option<u32>", "[u8; 2]", "(u8, u8)"):
        yield Case(f"uninitialised {t}", main(f"  let x: MaybeUninit<{t}> = bb(MaybeUninit::uninit()); let v: {t} = unsafe {{ rd(&raw const x as *const {t}) }}; let _w = bb(v);", ITEMS), "ub")
        if t not in ("bool", "T3"):
            pass
    for t in ("u16", "u32", "u64", "u128"):
        n = bits(t) // 8
        for miss in sorted({0, n - 1, rng.randrange(n)}):
            yield Case(f"{t} with byte {miss} uninitialised", main(f"  let mut x: MaybeUninit<{t}> = bb(MaybeUninit::uninit()); let p = &raw mut x as *mut u8; let mut i = 0; while i < {n} {{ if i != {miss} {{ unsafe {{ *p.add(i) = 1 }} }} i += 1 }} let v: {t} = unsafe {{ rd(p as *const {t}) }}; print(v);", ITEMS), "ub")
        yield Case(f"{t} initialised byte by byte", main(f"  let mut x: MaybeUninit<{t}> = bb(MaybeUninit::uninit()); let p = &raw mut x as *mut u8; let mut i = 0; while i < {n} {{ unsafe {{ *p.add(i) = i as u8 + 1 }} i += 1 }} let v: {t} = unsafe {{ rd(p as *const {t}) }}; print(v);", ITEMS), rnd=False)
    # padding need not be initialised, data must be
    yield Case("uninitialised padding is fine", main("  #[repr(C)] #[derive(Clone, Copy)] struct P(u8, u32); let mut x: MaybeUninit<P> = MaybeUninit::uninit(); let p = &raw mut x as *mut P; unsafe { (*p).0 = bb(1); (*p).1 = bb(2); let v = rd(p); print(v.0); print(v.1); }", ITEMS))
    yield Case("uninitialised unit, never-read union and empty array are fine", main("  let x: MaybeUninit<u64> = bb(MaybeUninit::uninit()); let y = bb(x); let _z = bb(y); let e: MaybeUninit<[u32; 0]> = bb(MaybeUninit::uninit()); let v = unsafe { rd(&raw const e as *const [u32; 0]) }; print(v.len()); let u: () = unsafe { rd(&raw const e as *const ()) }; u.sh();", ITEMS))
    yield Case("half-initialised struct", main("  #[repr(C)] #[derive(Clone, Copy)] struct P(u8, u32); let mut x: MaybeUninit<P> = MaybeUninit::uninit(); let p = &raw mut x as *mut P; unsafe { (*p).0 = bb(1); let v = rd(p); print(v.0); }", ITEMS), "ub")
    yield Case("half-initialised array", main("  let mut x: MaybeUninit<[u16; 4]> = bb(MaybeUninit::uninit()); let p = &raw mut x as *mut u16; unsafe { *p = 1; *p.add(1) = 2; *p.add(3) = 3; let v = rd(&raw const x as *const [u16; 4]); print(v[0]); }", ITEMS), "ub")
    # references and boxes: null, dangling, misaligned, uninhabited
    for k, t in (("&", "&'static u32"), ("&mut", "&'static mut u32"), ("zero-sized &", "&'static ()"), ("slice", "&'static [u8]"), ("str", "&'static str")):
        wide = t in ("&'static [u8]", "&'static str")
        yield Case(f"null {k} reference", main(f"  let r: {t} = unsafe {{ std::mem::transmute({'bb([0usize, 0])' if wide else 'bb(0usize)'}) }}; let _s = bb(r);", ITEMS), "ub")
    yield Case("dangling reference", main("  let r: &'static u32 = unsafe { std::mem::transmute(bb(16usize)) }; let _s = bb(r);", ITEMS), "ub")
    yield Case("dangling zero-sized reference is fine", main("  let r: &'static [u32; 0] = unsafe { std::mem::transmute(bb(16usize)) }; let s = bb(r); print(s.len()); let r: &'static () = unsafe { std::mem::transmute(bb(1usize)) }; (*bb(r)).sh(); let s: &[u64] = unsafe { std::slice::from_raw_parts(bb(8usize) as *const u64, bb(0)) }; print(s.len());".replace("bb(8usize) as *const u64", "std::ptr::without_provenance(bb(8usize))"), ITEMS), rnd=True)
    yield Case("misaligned reference", main("  let r: &'static [u32; 0] = unsafe { std::mem::transmute(bb(6usize)) }; let s = bb(r); print(s.len());", ITEMS), "ub")
    yield Case("reference to freed memory", main("  let r: &'static u32 = unsafe { let p = allocate(4, 4) as *mut u32; *p = 3; let r = &*p; deallocate(p as *mut u8, 4, 4); std::mem::transmute(r) }; let s = bb(r);", ITEMS), "ub")
    yield Case("reference past the end of its allocation", main("  let a = bb([1u16, 2, 3]); let p = &raw const a as *const u16; let r = unsafe { &*(p.add(2) as *const [u16; 2]) }; let _ = bb(r);", ITEMS), "ub")
    yield Case("slice longer than its allocation", main("  let a = bb([1u16, 2, 3]); let s: &[u16] = unsafe { std::slice::from_raw_parts(&raw const a as *const u16, bb(4)) }; print(s.len());", ITEMS), "ub")
    yield Case("slice of the whole allocation", main("  let a = bb([1u16, 2, 3]); let s: &[u16] = unsafe { std::slice::from_raw_parts(&raw const a as *const u16, bb(3)) }; s.sh();", ITEMS))
    yield Case("slice with an enormous length", main("  let s: &[u8] = unsafe { std::mem::transmute(bb([16usize, usize::MAX])) }; print(bb(s).len());", ITEMS), "ub")
    for k, (t, un) in enumerate([("(u32, Void)", 1), ("NV", 1), ("[Void; 2]", 1), ("[(Void, u16); 3]", 1), ("(Void, [u64; 0])", 1), ("Result<Void, (u8, Void)>", 1), ("Result<u32, Void>", 0), ("Option<(u8, Void)>", 0), ("[Void; 0]", 0), ("MaybeUninit<Void>", 0), ("*const Void", 0), ("(u8, [Void; 0])", 0)]):
        for m in ("", "mut "):
            yield Case(f"reference to {t} {m}", main(f"  let mut x = bb([0u64; 2]); let r: &{m}{t} = unsafe {{ &{m}*(&raw mut x as *mut {t}) }}; let s = bb(r); print(std::mem::size_of_val(s));", ITEMS + "#[allow(dead_code)] struct NV(u32, Void, u8);\n"), "ub" if un else "diff")
    yield Case("reference to an uninhabited type", main("  let x = bb(()); let r: &Void = unsafe { &*(&raw const x as *const Void) }; let _s = bb(r);", ITEMS), "ub")
    yield Case("dyn reference with a bogus vtable", main("  let x = bb(3u64); let r: &dyn Sh = unsafe { std::mem::transmute((&raw const x, &raw const x)) }; let _s = bb(r);", ITEMS), "ub")
    yield Case("dyn reference with another trait's vtable", main("  trait O { fn o(&self); } impl O for u16 { fn o(&self) { print(1) } } let x = bb(3u16); let d: &dyn O = &x; d.o(); let r: &dyn Sh = unsafe { std::mem::transmute(d) }; r.sh();", ITEMS), "ub")
    yield Case("raw pointers may be anything", main("  let p: *const u32 = unsafe { std::mem::transmute(bb(3usize)) }; let q = bb(p); print(q.is_null() as u8); let n: *const [u8] = unsafe { std::mem::transmute(bb([0usize, 7])) }; print(bb(n).len());", ITEMS), rnd=True)
    # alignment of references, every kind of pointee
    AL = "use std::cell::Cell; #[repr(C, align(16))] struct Big([u8; 64]); trait Tr { fn f(&self) -> u8; } impl Tr for u32 { fn f(&self) -> u8 { 1 } } impl Tr for Cell<u16> { fn f(&self) -> u8 { 2 } } #[derive(Clone, Copy)] struct U(u16, u8); #[derive(Clone, Copy)] #[repr(packed)] struct Pk(u32, u8); #[allow(dead_code)] union Un { a: u64, b: u8 }\n"
    for t, a in (("u16", 2), ("u32", 4), ("u64", 8), ("u128", 16), ("(u8, u32)", 4), ("[u16; 3]", 2), ("Cell<u32>", 4), ("U", 2), ("Pk", 1), ("Un", 8), ("Option<u16>", 2), ("[Cell<u16>; 2]", 2), ("&'static u8", 8), ("()", 1), ("[u64; 0]", 8), ("Big", 16)):
        for sl in (False, True):
            n = 0 if t == "Big" else 2
            for off in sorted({a, a // 2, rng.randrange(0, a + 1)}):
                if t == "&'static u8" or (t == "Option<u16>" and off % 2): pass
                e = f"&*std::ptr::slice_from_raw_parts(p as *const {t}, bb({n}))" if sl else f"&*(p as *const {t})"
                if t == "Big" and not sl and off: continue
                mu = f"&mut *std::ptr::slice_from_raw_parts_mut(p as *mut {t}, bb({n}))" if sl else f"&mut *(p as *mut {t})"
                for x, ty in ((e, "&"), (mu, "&mut ")):
                    yield Case(f"{ty}{'slice of ' if sl else ''}{t} at offset {off}", main(f"  let mut big = bb(Big([0; 64])); let p = (&raw mut big as *mut u8).wrapping_add(bb({off})); unsafe {{ let r = {x}; print(std::mem::size_of_val(r)); let _q = bb(r); }}", ITEMS + AL), "ub" if off % a else "diff", rnd=True)
    for t, a in (("u32", 4), ("Cell<u16>", 2)):
        for off in (0, 1, 2, 4): yield Case(f"dyn of {t} at offset {off}", main(f"  let mut big = bb(Big([0; 64])); let p = (&raw mut big as *mut u8).wrapping_add(bb({off})) as *const {t}; unsafe {{ let r: *const dyn Tr = p; print((*r).f()); }}", ITEMS + AL), "ub" if off % a else "diff")
    # the validity assertions of the standard library: as the compiler decides them
    for t in ("u32", "bool", "char", "&'static u8", "(u8, &'static u8)", "Void", "(u8, Void)", "[Void; 0]", "[Void; 2]", "Option<&'static u8>", "T3", "Option<T3>", "fn()", "Option<fn()>", "*const u8", "MaybeUninit<u32>", "MaybeUninit<&'static u8>", "()", "[u8; 3]", "[bool; 0]", "&'static [u8]", "Option<Void>", "Result<Void, u8>", "!", "std::cmp::Ordering"):
        for k in ("assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid"):
            yield Case(f"{k} {t}", "#![feature(never_type)]\n" + feat(f"  print(1); core::intrinsics::{k}::<{t}>(); print(2);", ITEMS))
    # enum tags
    for b in range(0, 256, 1 if thorough else 29):
        ok = b in (1, 5, 200)
        yield Case(f"byte {b} as an enum", main(f"  let v: T3 = unsafe {{ std::mem::transmute(bb({b}u8)) }}; match v {{ T3::A => print(1), T3::B => print(2), T3::C => print(3) }}", ITEMS), "diff" if ok else "ub")
    for b in (1, 5, 200): yield Case(f"byte {b} as an enum", main(f"  let v: T3 = unsafe {{ std::mem::transmute(bb({b}u8)) }}; match v {{ T3::A => print(1), T3::B => print(2), T3::C => print(3) }}", ITEMS))
    yield Case("value of an uninhabited type", main("  let v: Void = unsafe { std::mem::transmute(bb(())) }; let _w = bb(v);", ITEMS), "ub")
    yield Case("value of the never type", main("  fn f() -> ! { unsafe { std::mem::transmute(bb(())) } } f()", ITEMS), "ub")
    yield Case("a struct with an uninhabited field", main("  #[derive(Clone, Copy)] #[allow(dead_code)] struct W(Void, ()); let v: W = unsafe { std::mem::transmute(bb(())) }; let _w = bb(v);", ITEMS), "ub")
    # arguments, return values and stores are checked too
    yield Case("invalid argument", main("  fn f(b: bool) -> u8 { b as u8 } let g: fn(u8) -> u8 = unsafe { std::mem::transmute(f as fn(bool) -> u8) }; print(g(bb(2)));", ITEMS), "ub")
    yield Case("assume", main("  unsafe { std::hint::assert_unchecked(bb(true)); print(1); std::hint::assert_unchecked(bb(false)); print(2); }", ITEMS), "ub")
    yield Case("unreachable", main("  match bb(3u8) { 3 => unsafe { std::hint::unreachable_unchecked() }, _ => print(1) }", ITEMS), "ub")
    # random: valid values of random types survive byte-wise copies with every byte initialised through their own bytes
    for k in range(60 if thorough else 15):
        g = Gen(rng, refs=False); body = []
        for _ in range(4):
            t = g.ty(2)
            body.append(f"  {{ let v: {t} = bb({g.val(t)}); let mut x: MaybeUninit<{t}> = bb(MaybeUninit::uninit()); unsafe {{ *(&raw mut x as *mut {t}) = v; let y = bb(x); let w = rd(&raw const y as *const {t}); w.sh(); let z: {t} = y.assume_init(); z.sh(); let s = &raw const v as *const MaybeUninit<u8>; let d = &raw mut x as *mut MaybeUninit<u8>; let mut i = 0; while i < std::mem::size_of::<{t}>() {{ *d.add(i) = *s.add(i); i += 1 }} rd(d as *const {t}).sh(); }} }}")
        yield Case(f"random valid values {k}", main("\n".join(body), ITEMS + g.items), rnd=True)
    # byte-wise equality reads initialised bytes, whatever they are
    R = "fn eq<T>(a: &T, b: &T) -> u8 { unsafe { core::intrinsics::raw_eq(a, b) as u8 } } #[derive(Clone, Copy)] #[allow(dead_code)] struct Q(u16, u8, u8);\n"
    yield Case("raw equality", feat("  print(eq(&bb(1u8), &bb(1))); print(eq(&bb(1u16), &bb(257))); print(eq(&bb([1u8, 2]), &bb([1, 3]))); print(eq(&bb([1u8, 2]), &bb([1, 2]))); print(eq(&bb([2u8, 2]), &bb([1, 2]))); print(eq(&bb(Q(1, 2, 3)), &bb(Q(1, 2, 3)))); print(eq(&bb(Q(1, 2, 3)), &bb(Q(1, 2, 4)))); print(eq(&bb(Q(256, 2, 3)), &bb(Q(1, 2, 3)))); print(eq(&(), &())); print(eq::<[u32; 0]>(&[], &[])); print(eq(&bb(-1i128), &bb(u128::MAX as i128))); print(eq(&bb(true), &bb(false))); print(eq(&bb(Some(3u32).is_some()), &bb(true)));", ITEMS + R))
    for k, e in (("first byte", "*p.add(1) = 0"), ("second byte", "*p = 0"), ("both bytes", "")):
        for sw in ("eq(&x, &y)", "eq(&y, &x)"):
            yield Case(f"raw equality with the {k} uninitialised {sw}", feat(f"  let y = bb(MaybeUninit::new(0u16)); let mut x: MaybeUninit<u16> = bb(MaybeUninit::uninit()); let p = &raw mut x as *mut u8; unsafe {{ {e}; }} print({sw}); print(p.is_null() as u8);", ITEMS + R), "ub")
    # a pointer's address as an integer has lost its provenance
    yield Case("transmuting a pointer to an integer", main("  let x = bb(7u32); let p = &raw const x; let a: usize = unsafe { std::mem::transmute(p) }; print((a == p.addr()) as u8); let b: [usize; 1] = unsafe { std::mem::transmute([p]) }; print((b[0] == a) as u8); print(unsafe { *p });", ITEMS))
    yield Case("an address is no pointer", main("  let x = bb(7u32); let p = &raw const x; let a: usize = unsafe { std::mem::transmute(p) }; let q: *const u32 = unsafe { std::mem::transmute(bb(a)) }; print((p == q) as u8); print(unsafe { *q });", ITEMS), "ub")
    yield Case("pointer bytes copied as integers are no pointer", main("  let x = bb(7u32); let p = &raw const x; let mut q: *const u32 = std::ptr::null(); unsafe { *(&raw mut q as *mut [u8; 8]) = *(&raw const p as *const [u8; 8]); } print((p == q) as u8); print(unsafe { *q });", ITEMS), "ub")
    yield Case("pointer bytes copied as uninterpreted bytes are the pointer", main("  let x = bb(7u32); let p = &raw const x; let mut q: *const u32 = std::ptr::null(); unsafe { *(&raw mut q as *mut [MaybeUninit<u8>; 8]) = *(&raw const p as *const [MaybeUninit<u8>; 8]); } print((p == q) as u8); print(unsafe { *q });", ITEMS))

