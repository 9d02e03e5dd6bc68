"""Layout: sizes, alignments, field offsets, strides, as observed by a program, against rustc."""
from lib import Case
from gen import *
from rty import *

DYN = "trait T0 { fn id(&self) -> u32; }\n"
def cases(rng, thorough):
    for k in range(250 if thorough else 60):
        g = Gen(rng)
        body = []
        for _ in range(4):
            t = g.ty(2)
            b = f"  {{ let v: {t} = bb({g.val(t)}); v.sh(); print(std::mem::size_of_val(bb(&v))); print(std::mem::align_of_val(bb(&v)));\n"
            b += f"    let p = &raw const v as *const u8; print((p as *const {t}).is_aligned() as u8);\n"
            packed = t in g.defs and "packed" in g.defs[t][2]
            for suf, ft in g.fields(t):
                b += f"    print(unsafe {{ (&raw const v{suf} as *const u8).offset_from(p) }}); {{ let x: {ft} = v{suf}; x.sh(); print(std::mem::size_of_val(&x)); }}\n"
            b += f"    let a: [{t}; 3] = bb([{g.val(t)}, v, {g.val(t)}]); print(std::mem::size_of_val(&a)); let mut i = bb(0); while i < 3 {{ a[i].sh(); print(unsafe {{ (&raw const a[i] as *const u8).offset_from(&raw const a as *const u8) }}); i += 1; }}\n"
            b += f"    let s: &[{t}] = bb(&a); print(s.len()); print(std::mem::size_of_val(s)); print(std::mem::align_of_val(s)); s[bb(1)].sh(); let q = &raw const s[bb(2)]; unsafe {{ (*q).sh(); print(q.offset_from(&raw const s[bb(0)])); (*q.sub(bb(1))).sh(); (*(&raw const s[0]).add(bb(2))).sh(); (*q.wrapping_sub(bb(2))).sh(); }}\n"
            b += f"    let d: &dyn Sh = bb(&v); print(std::mem::size_of_val(d)); print(std::mem::align_of_val(d)); d.sh();\n"
            b += f"    let s1: &[{t}] = unsafe {{ std::slice::from_raw_parts(a.as_ptr().add(1), 2) }}; s1.sh(); print(std::mem::size_of_val(s1));\n"
            b += f"    unsafe {{ let h = allocate(std::mem::size_of_val(&v) + 1, std::mem::align_of_val(&v)) as *mut {t}; *h = v; (*h).sh(); let d: *const dyn Sh = h; (*d).sh(); print(std::mem::size_of_val(&*d)); deallocate(h as *mut u8, std::mem::size_of_val(&v) + 1, std::mem::align_of_val(&*h)); }} }}"
            body.append(b)
        yield Case(f"random layouts {k}", main("\n".join(body), SH + g.items), rnd=True)
    # alignment of accesses: every offset of every power-of-two type
    for t in ("u16", "u32", "u64", "u128"):
        n = bits(t) // 8
        for off in range(1, n if thorough else min(n, 5)):
            yield Case(f"misaligned read of {t} at {off}", main(f"  #[repr(C, align(16))] struct A([u8; 48]); let a = bb(A([7; 48])); let p = &raw const a as *const u8; print(unsafe {{ *(p.add(bb({off})) as *const {t}) }});"), "ub")
        yield Case(f"aligned reads of {t}", main(f"  #[repr(C, align(16))] struct A([u8; 48]); let a = bb(A([7; 48])); let p = &raw const a as *const u8; let mut i = 0; while i < 48 {{ print(unsafe {{ *(p.add(bb(i)) as *const {t}) }}); print(unsafe {{ (p.add(i) as *const {t}).read_unaligned() }}); i += {n}; }} print(unsafe {{ (p.add(3) as *const {t}).read_unaligned() }});"), rnd=True)
    yield Case("packed fields", main("""  #[repr(C, packed)] #[derive(Clone, Copy)] struct P { a: u8, b: u32, c: u16, d: u64 }
  let mut p = bb(P { a: 1, b: 0x01020304, c: 0x1122, d: 5 }); p.b += 1; p.d = bb(9); print({ p.b }); print({ p.c }); print({ p.d }); print({ p.a });
  let q = [p, P { a: 2, b: 3, c: 4, d: 6 }]; print({ q[bb(1)].b }); print({ q[bb(1)].d }); print(std::mem::size_of_val(&q));
  let r = &raw mut p.d; unsafe { r.write_unaligned(77); print(r.read_unaligned()); } print({ p.d });"""), rnd=True)
    yield Case("reference to a misaligned address", main("  let a = bb([0u32; 3]); let p = unsafe { (&raw const a as *const u8).add(2) } as *const u32; let r = unsafe { &*p }; let _ = r;"), "ub")
    yield Case("misaligned zero-sized reference", main("  let a = bb([0u32; 3]); let p = unsafe { (&raw const a as *const u8).add(1) } as *const [u32; 0]; let r = unsafe { &*p }; let _ = r;"), "ub")
    yield Case("zero-sized field with the largest alignment", main("  let r = bb(R(1, 2, [])); print(r.0); print(r.1);", "struct R(u16, u8, [u16; 0]);"))
    for al in (1, 2, 4, 8, 16, 32, 64, 256, 4096):
        yield Case(f"locals of alignment {al}", main("\n".join(f"  let a{i} = bb(A({i})); print(a{i}.0); print((&raw const a{i}).is_aligned() as u8); print(unsafe {{ *(&raw const a{i} as *const u8) }});" for i in range(6)), f"#[repr(align({al}))] #[derive(Clone, Copy)] struct A(u8);"), rnd=True)
    yield Case("dynamically sized: long arrays as slices", main("""  let a = bb([1u16; 700]); let s: &[u16] = bb(&a); print(s.len()); print(std::mem::size_of_val(s)); print(s[bb(699)]); print(std::mem::size_of_val(&a)); print(std::mem::size_of_val(&s[bb(3)..bb(400)])); let b = bb([[3u8; 5]; 300]); let r: &[[u8; 5]] = &b; print(std::mem::size_of_val(r)); print(r.len()); let u: *const [u16] = &raw const a; print(u.len()); print(bb([(); 1000]).len()); let z: &[()] = bb(&[(); 1000]); print(z.len());"""))
    yield Case("dynamically sized: strings, slices of zero-sized types", main("""  let s: &str = bb("hello"); print(s.len()); print(std::mem::size_of_val(s)); print(std::mem::align_of_val(s));
  let z: &[()] = bb(&[(); 5]); print(z.len()); print(std::mem::size_of_val(z)); let e: &[u64] = bb(&[]); print(e.len()); print(std::mem::size_of_val(e)); print(std::mem::align_of_val(e));
  let b = s.as_bytes(); print(b[bb(1)]); print(b[bb(4)]);"""))
