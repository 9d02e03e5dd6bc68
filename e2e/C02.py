"""Pointer arithmetic, comparison and place projection as a program observes them."""
from lib import Case
from gen import *
from rty import *

def cases(rng, thorough):
    ts = ["u8", "u16", "u32", "u64", "u128", "(u8, u32)", "[u16; 3]", "(u8, u8)", "[[u32; 2]; 2]", "bool", "E3"]
    def setup(t, n): return f"  let a: [{t}; {n}] = unsafe {{ let mut u: MaybeUninit<[{t}; {n}]> = MaybeUninit::uninit(); let p = &raw mut u as *mut u8; let mut i = 0; while i < std::mem::size_of::<[{t}; {n}]>() {{ *p.add(i) = 1; i += 1 }} u.assume_init() }}; let a = bb(a); let p = &raw const a as *const {t};\n"
    I = "use std::mem::MaybeUninit;\n#[derive(Clone, Copy)] #[allow(dead_code)] #[repr(u8)] enum E3 { A, B, C }\n"
    for t in ts:
        n = rng.choice([3, 5, 8])
        body = setup(t, n)
        for _ in range(40 if thorough else 14):
            i, j = rng.randint(0, n), rng.randint(0, n)
            body += f"  unsafe {{ let x = p.add(bb({i})); let y = p.offset(bb({j})); print(x.offset_from(y)); print(y.byte_offset_from(x)); print((x < y) as u8); print((x == y) as u8); print((x >= y) as u8); print(x.offset(bb({j-i})) == y); }}\n".replace("print(x.offset(", "print((x.offset(").replace(") == y); }", ") == y) as u8); }")
            if i >= j: body += f"  unsafe {{ print(p.add(bb({i})).sub(bb({i-j})) == p.add(bb({j}))); print(p.add({i}).offset_from_unsigned(p.add({j}))); }}\n".replace("print(p.add(bb", "print((p.add(bb", 1).replace(f"p.add(bb({j})))", f"p.add(bb({j}))) as u8)", 1)
            k = rng.choice([1 << 20, -(1 << 20), 1 << 40, -5, 100, -1])
            body += f"  print((p.wrapping_add({i}).wrapping_offset({k}).wrapping_offset({j} - {i} - ({k})) == p.wrapping_add({j})) as u8); print(p.wrapping_offset({k}) as usize == (p as usize).wrapping_add(({k}isize * std::mem::size_of::<{t}>() as isize) as usize));\n".replace("print(p.wrapping_offset", "print((p.wrapping_offset").replace("as usize));", "as usize)) as u8);") if False else f"  print((p.wrapping_add({i}).wrapping_offset({k}).wrapping_offset({j} - {i} - ({k})) == p.wrapping_add({j})) as u8); print((p.wrapping_offset({k}) < p) as u8); print((p.wrapping_offset({k}) == p) as u8);\n"
            if i < n: body += f"  unsafe {{ let q = p.wrapping_sub(bb({abs(k)%97})).wrapping_add({i} + {abs(k)%97}); print(*(q as *const u8)); print(*(p.cast::<u8>().add(bb({i}) * std::mem::size_of::<{t}>()))); }}\n"
        yield Case(f"pointer arithmetic on {t}", main(body, I), rnd=False)
        # leaving the allocation is undefined behaviour, its last legal neighbour is not
        for nm, good, bad in [("add", f"p.add(bb({n}))", f"p.add(bb({n+1}))"), ("offset", f"p.add(bb({n})).offset(bb(-{n}isize))", f"p.offset(bb(-1))"), ("sub", f"p.add({n}).sub(bb({n}))", f"p.add({n}).sub(bb({n+1}))"),
                              ("byte_add", f"p.byte_add(bb({n} * std::mem::size_of::<{t}>()))", f"p.byte_add(bb({n} * std::mem::size_of::<{t}>() + 1))"),
                              ("overflow", "p.add(bb(0))", "p.add(bb(1usize << 61))" if t not in ("u8", "bool", "u16", "(u8, u8)") else "p.add(bb(1usize << 62))"), ("huge", "p.offset(bb(0))", "p.offset(bb(isize::MAX))"), ("negative huge", "p.offset(bb(0))", "p.offset(bb(isize::MIN))"), ("usize huge", "p.add(bb(0))", "p.add(bb(usize::MAX))")]:
            if rng.random() < (1 if thorough else .5) or t in ("u32",):
                yield Case(f"{nm} on {t}, in bounds", main(setup(t, n) + f"  let q = unsafe {{ {good} }}; print((q == p) as u8); print((q >= p) as u8);", I))
                yield Case(f"{nm} on {t}, out of bounds", main(setup(t, n) + f"  let q = unsafe {{ {bad} }}; print((q == p) as u8);", I), "ub")
        if t in ("u16", "u32", "u64", "[u16; 3]"):
            yield Case(f"offset_from at a non-multiple of {t}", main(setup(t, n) + f"  let q = unsafe {{ (p as *const u8).add(bb(1)) as *const {t} }}; print(unsafe {{ q.offset_from(p) }});", I), "ub")
        yield Case(f"offset_from across allocations of {t}", main(setup(t, n) + f"  let b = bb(a[0]); let q = &raw const b; print(unsafe {{ bb(q).offset_from(bb(p)) }});", I), "ub")
        yield Case(f"offset_from_unsigned backwards on {t}", main(setup(t, n) + f"  print(unsafe {{ p.offset_from_unsigned(p.add(bb(1))) }});", I), "ub")
    yield Case("offset_from out of bounds of the allocation", main("  let a = bb([1u8; 4]); let p = &raw const a as *const u8; let q = p.wrapping_add(bb(5)); print(unsafe { q.offset_from(p) });"), "ub")
    yield Case("offset_from one past the end", main("  let a = bb([1u8; 4]); let p = &raw const a as *const u8; let q = p.wrapping_add(bb(4)); print(unsafe { q.offset_from(p) }); print(unsafe { p.offset_from(q) });"))
    yield Case("offset_from of dead memory", main("  let p = { let a = bb([1u8; 4]); &raw const a as *const u8 }; let q = p.wrapping_add(2); print(unsafe { q.offset_from(p) });"), "ub")
    yield Case("offset_from of equal dangling pointers", main("  let p: *const u16 = std::ptr::without_provenance(bb(32)); print(unsafe { p.offset_from(p) }); let z = p.wrapping_add(0); print(unsafe { z.offset_from(p) });"))
    yield Case("offset of freed memory", main("  unsafe { let p = allocate(8, 4); deallocate(p, 8, 4); let q = p.add(bb(4)); print((q == p) as u8); }"), "ub")
    yield Case("zero offsets of dangling pointers", main("  let p: *const u16 = std::ptr::without_provenance(bb(7)); let q = unsafe { p.add(bb(0)) }; print((p == q) as u8); print(q.addr()); let n: *const u64 = std::ptr::null(); let m = unsafe { n.offset(bb(0)) }; print(m.is_null() as u8); let u: *const () = std::ptr::without_provenance(bb(9)); print(unsafe { u.add(bb(1 << 20)) }.addr());"))
    yield Case("nonzero offset of a dangling pointer", main("  let p: *const u16 = std::ptr::without_provenance(bb(64)); let q = unsafe { p.add(bb(1)) }; print(q.addr());"), "ub")
    yield Case("wrapping arithmetic wraps around", main("  let p: *const u8 = std::ptr::without_provenance(bb(3)); print(p.wrapping_sub(bb(5)).addr()); print(p.wrapping_offset(isize::MIN).addr()); let q: *const u32 = std::ptr::without_provenance(bb(usize::MAX - 3)); print(q.wrapping_add(bb(2)).addr()); print(q.wrapping_add(1).is_null() as u8); print((q > p.cast()) as u8); print(q.wrapping_sub(bb(1)).addr()); print(q.wrapping_offset(bb(-7)).addr()); print(q.wrapping_byte_add(bb(5)).addr()); print(bb(q).with_addr(bb(77)).addr()); print(q.map_addr(|a| a ^ 5).addr());"))
    # arith with element counts that overflow: wrapping operations do, others are undefined
    for t, z in (("u16", 2), ("u32", 4), ("[u16; 3]", 6), ("u64", 8), ("(u8, u32)", 8)):
        b = "".join(f"  print(q.wrapping_{m}(bb({c})).addr()); print(p.wrapping_{m}(bb({c})).wrapping_{w}(bb({c})) == p);\n".replace("print(p", "print((p").replace("== p)", "== p) as u8)") for m, w, c in (("add", "sub", "1usize << 61"), ("add", "sub", "usize::MAX"), ("sub", "add", "(1usize << 63) + 5"), ("offset", "offset", "isize::MIN"), ("add", "sub", f"{rng.getrandbits(64)}usize"), ("sub", "add", f"{rng.getrandbits(64)}usize")))
        b = b.replace("wrapping_offset(bb(isize::MIN)).wrapping_offset(bb(isize::MIN))", "wrapping_offset(bb(isize::MIN)).wrapping_offset(bb(isize::MIN))")
        yield Case(f"wrapping offsets whose byte count overflows, {t}", main(f"  let a: [{t}; 2] = unsafe {{ let mut u: std::mem::MaybeUninit<[{t}; 2]> = std::mem::MaybeUninit::uninit(); let p = &raw mut u as *mut u8; let mut i = 0; while i < {2*z} {{ *p.add(i) = 1; i += 1 }} u.assume_init() }}; let a = bb(a); let p = &raw const a as *const {t}; let q: *const {t} = std::ptr::without_provenance(bb({rng.randint(1, 1000)}));\n" + b + f"  print(unsafe {{ *(p.wrapping_add(bb(1usize << 62)).wrapping_sub(bb(1usize << 62)) as *const u8) }});"))
    yield Case("casts between pointer types", main("""  let a = bb([0x01020304u32, 0x05060708]); let p = &raw const a as *const u32; unsafe { print(*(p as *const u16)); print(*(p as *const u8).add(3)); print(*(p.add(1) as *const u64 as *const u8)); let s = std::ptr::slice_from_raw_parts(p, bb(2)); print((&*s)[1]); print(s.len()); print((s as *const u32 == p) as u8); let d = s as *const u8; print(*d.add(4)); }
  let r = &raw const a; let q = r as *const [u32]; print(q.len()); let m = &mut bb(5u8); let c = m as *mut u8 as *const u8 as *const bool as *const u8; print(unsafe { *c }); let f: fn(u8) -> u8 = bb; print(f(3)); print((f as *const () == f as *const ()) as u8); print(a.as_ptr().addr() == p.addr());""".replace("print(a.as_ptr().addr() == p.addr())", "print((p.addr() == r.addr()) as u8)")))
    yield Case("comparison of wide pointers", main("""  let a = bb([1u8, 2, 3, 4]); let s: *const [u8] = &a[..2]; let t: *const [u8] = &a[..3]; let u: *const [u8] = &a[1..]; print((s == t) as u8); print((s < t) as u8); print((t < u) as u8); print((u > s) as u8); print((s <= s) as u8); print((s >= t) as u8); print((s != u) as u8); print((s as *const u8 == t as *const u8) as u8); print((bb(s) == bb(s)) as u8);
  let v: *const [u8] = &a[1..2]; print((v > t) as u8); print((v < u) as u8); print((v >= t) as u8); print(std::ptr::eq(&a[..2], &a[..2]) as u8); print((s.cmp(&t)) as i8); print(u.cmp(&v) as i8);"""))
    # projections: fields of fields of elements through pointers and references
    for k in range(80 if thorough else 25):
        g = Gen(rng); body = []
        for _ in range(4):
            t = g.struct(2); suf, ft, path = "", t, []
            packed = False
            while True:
                fs = g.fields(ft)
                if ft in g.defs and "packed" in g.defs[ft][2]: packed = True
                if not fs or (suf and rng.random() < .2): break
                s, ft = rng.choice(fs)
                suf += s.replace("[", "[bb(").replace("]", ")]") if rng.random() < .6 else s
            n = rng.choice([2, 3]); i = rng.randrange(n)
            body.append(f"""  {{ let mut a: [{t}; {n}] = bb([{', '.join(g.val(t) for _ in range(n))}]); let base = &raw const a as *const u8; print(unsafe {{ (&raw const a[bb({i})]{suf} as *const u8).offset_from(base) }});
    {{ let x: {ft} = a[bb({i})]{suf}; x.sh(); }} a[bb({i})]{suf} = {g.val(ft)}; a.sh(); let p = &raw mut a; unsafe {{ (*p)[bb({(i+1)%n})]{suf} = (*p)[{i}]{suf}; }} let s: &mut [{t}] = bb(&mut a); s[bb({i})]{suf} = {g.val(ft)}; s.sh(); print(unsafe {{ (&raw const s[bb({(i+1)%n})]{suf} as *const u8).offset_from(s as *const [{t}] as *const u8) }}); }}""")
        yield Case(f"projections {k}", main("\n".join(body), SH + g.items), rnd=True)
    yield Case("array index out of bounds panics", main("  let a = bb([1, 2, 3]); print(a[bb(2)]); print(a[bb(3)]);"))
    yield Case("slice index out of bounds panics", main("  let a = bb([1, 2, 3]); let s = bb(&a[1..]); print(s[bb(1)]); print(s[bb(2)]);"))
    for i, m in ((3, "diff"), (4, "ub"), (1 << 62, "ub"), ((1 << 64) - 1, "ub")):
        yield Case(f"get_unchecked({i}) of 4", main(f"  let a = bb([1u32, 2, 3, 4]); let s = bb(&a[..]); print(unsafe {{ *s.as_ptr().add(bb({i})) }});"), m)
    yield Case("access through a field pointer past the field", main("  #[repr(C)] struct P(u32, u32); let p = bb(P(1, 2)); let q = &raw const p.0; print(unsafe { *q.add(bb(1)) }); let r = &raw const p.1; print(unsafe { *r.sub(1) }); print(unsafe { r.offset_from(q) });"))
    yield Case("pointer past the end dereferenced", main("  let a = bb([1u32, 2]); let p = (&raw const a as *const u32).wrapping_add(bb(2)); print(unsafe { *p });"), "ub")
    for i, m in ((1, "diff"), (2, "diff"), (3, "ub")):
        yield Case(f"address of field {i} beyond the allocation", main(f"  let a = bb([1u32, 2]); let p = &raw const a as *const W; let q = unsafe {{ &raw const (*p).{i} }}; print(q.is_null() as u8);", "#[repr(C)] #[allow(dead_code)] struct W(u32, u32, u32, u32);\n"), m)
    for i, m in ((0, "diff"), (2, "diff"), (3, "panic"), (6, "panic")):
        yield Case(f"address of element {i} of a too long array", main(f"  let a = bb([1u32, 2]); let p = &raw const a as *const [u32; 3]; let q = unsafe {{ &raw const (*p)[bb({i})] }}; print(q.is_null() as u8);"), "diff")
