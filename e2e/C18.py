"""Enums: construction, matching, discriminants, niches, explicit representations, invalid tags."""
from lib import Case
from gen import *

REPRS = ["", "", "", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "isize", "usize", "C", "C, u8", "C, i16", "C, i64"]
FIELDS = [("u8", 3), ("i16", 3), ("u32", 3), ("i64", 3), ("bool", 2), ("char", 1), ("u128", 1), ("Nz", 1), ("&'static u8", 1), ("(u8, u32)", 1), ("[u16; 2]", 1), ("()", 1), ("Inner", 3), ("Option<bool>", 2), ("Option<Inner>", 2), ("Sig", 2), ("Option<Sig>", 1), ("Option<&'static u8>", 1), ("Cmp", 1)]
ITEMS = """
use std::num::NonZeroU16;
type Nz = NonZeroU16;
type Cmp = std::cmp::Ordering;
#[derive(Clone, Copy, PartialEq)] #[allow(dead_code)] enum Inner { A, B, C }
#[derive(Clone, Copy, PartialEq)] #[allow(dead_code)] #[repr(i8)] enum Sig { M = -2, N = -1, Z = 0, P = 1 }
trait Sh { fn sh(&self); }
impl Sh for u8 { fn sh(&self) { print(*self) } } impl Sh for i16 { fn sh(&self) { print(*self) } } impl Sh for u16 { fn sh(&self) { print(*self) } }
impl Sh for u32 { fn sh(&self) { print(*self) } } impl Sh for i64 { fn sh(&self) { print(*self) } } impl Sh for u128 { fn sh(&self) { print(*self) } }
impl Sh for bool { fn sh(&self) { print(*self as u8) } } impl Sh for char { fn sh(&self) { print((*self == 'k') as u8) } }
impl Sh for () { fn sh(&self) { print(77) } } impl Sh for Nz { fn sh(&self) { print(self.get()) } }
impl Sh for &'static u8 { fn sh(&self) { print(**self) } }
impl Sh for (u8, u32) { fn sh(&self) { print(self.0); print(self.1) } }
impl Sh for [u16; 2] { fn sh(&self) { print(self[0]); print(self[1]) } }
impl Sh for Inner { fn sh(&self) { match self { Inner::A => print(1), Inner::B => print(2), Inner::C => print(3) } print(*self as u8) } }
impl Sh for Sig { fn sh(&self) { match self { Sig::M => print(1), Sig::N => print(2), Sig::Z => print(3), Sig::P => print(4) } print(*self as i32) } }
impl Sh for Cmp { fn sh(&self) { print(*self as i8) } }
impl<T: Sh> Sh for Option<T> { fn sh(&self) { match self { None => print(-9), Some(x) => { print(-8); x.sh() } } } }
"""
def fval(rng, t):
    return {"u8": lambda: str(rng.randrange(256)), "i16": lambda: str(rng.randint(-32768, 32767)), "u32": lambda: str(rng.randrange(1 << 32)), "i64": lambda: str(rng.randint(-(1 << 63) + 1, (1 << 63) - 1)),
        "bool": lambda: rng.choice(["true", "false"]), "char": lambda: rng.choice(["'k'", "'x'"]), "u128": lambda: str(rng.randrange(1 << 128)), "Nz": lambda: f"Nz::new({rng.randrange(1,65536)}).unwrap()",
        "&'static u8": lambda: f"&{rng.randrange(256)}", "(u8, u32)": lambda: f"({rng.randrange(256)}, {rng.randrange(1 << 32)})", "[u16; 2]": lambda: f"[{rng.randrange(65536)}, {rng.randrange(65536)}]", "()": lambda: "()",
        "Inner": lambda: rng.choice(["Inner::A", "Inner::B", "Inner::C"]), "Option<bool>": lambda: rng.choice(["None", "Some(true)", "Some(false)"]), "Option<Inner>": lambda: rng.choice(["None", "Some(Inner::A)", "Some(Inner::C)"]),
        "Sig": lambda: rng.choice(["Sig::M", "Sig::N", "Sig::Z", "Sig::P"]), "Option<Sig>": lambda: rng.choice(["None", "Some(Sig::M)", "Some(Sig::P)"]), "Option<&'static u8>": lambda: rng.choice(["None", "Some(&7)"]),
        "Cmp": lambda: rng.choice(["Cmp::Less", "Cmp::Equal", "Cmp::Greater"])}[t]()

def one_enum(rng, k):
    nv = rng.choice([1, 2, 2, 3, 3, 4, 5])
    repr_ = rng.choice(REPRS)
    pool = [t for t, w in FIELDS for _ in range(w)]
    vs = []
    fieldless = rng.random() < .2 and ", " not in repr_
    for i in range(nv):
        nf = 0 if fieldless else rng.choice([0, 0, 1, 1, 2, 3])
        vs.append([rng.choice(pool) for _ in range(nf)])
        if nf > 1: vs[-1] = [t if t != "()" else "u8" for t in vs[-1]]    # zero-sized next to others: a known finding, see "zero-sized variant field"
    if ", " in repr_ and not any(vs): vs[0] = ["u8"]
    explicit = (repr_ not in ("", "C") or fieldless) and rng.random() < .7
    rt = repr_.split(", ")[-1] if repr_ not in ("", "C") else "isize"
    if repr_ == "C": rt = "i32"
    disc = [None] * nv
    if explicit:
        cand = [x for x in interesting(rt, rng, 4) if lo(rt) + nv < x < hi(rt) - nv]
        if rt == "isize" or repr_ == "C": cand = [x for x in cand if -2**31 < x < 2**31 - 10]
        pick = sorted(rng.sample(sorted(set(cand)), nv))
        rng.shuffle(pick)
        disc = pick
    n = f"E{k}"
    s = (f"#[repr({repr_})] " if repr_ else "") + f"#[derive(Clone, Copy)] #[allow(dead_code)] enum {n} {{ "
    for i, f in enumerate(vs):
        s += f"V{i}" + (f"({', '.join(f)})" if f else "") + (f" = {disc[i]}" if disc[i] is not None else "") + ", "
    s += "}\n"
    s += f"impl Sh for {n} {{ fn sh(&self) {{ match self {{ "
    for i, f in enumerate(vs):
        ps = ", ".join(f"x{j}" for j in range(len(f)))
        s += f"{n}::V{i}" + (f"({ps})" if f else "") + f" => {{ print({i}); " + " ".join(f"x{j}.sh();" for j in range(len(f))) + " } "
    s += "} } }\n"
    body = [f"  print(std::mem::size_of::<{n}>()); print(std::mem::align_of::<{n}>()); print(std::mem::size_of::<Option<{n}>>()); print(std::mem::size_of::<Option<Option<{n}>>>());"]
    mk = lambda i: f"{n}::V{i}" + (f"({', '.join(fval(rng, t) for t in vs[i])})" if vs[i] else "")
    for i in range(nv):
        body.append(f"  {{ let v = bb({mk(i)}); v.sh(); let o = bb(Some(v)); o.sh(); let oo = bb(Some(o)); oo.sh(); let r: Result<{n}, u8> = bb(Ok(v)); match r {{ Ok(x) => x.sh(), Err(e) => print(e) }} }}")
        j = rng.randrange(nv)
        body.append(f"  {{ let mut v = bb({mk(i)}); let r = &mut v; *r = {mk(j)}; v.sh(); let mut o = bb(Some(v)); o.sh(); o = bb(None); o.sh(); o = Some({mk(i)}); o.sh(); let a = bb([{mk(i)}, {mk(j)}, {mk(i)}]); a[bb(1)].sh(); a[bb(2)].sh(); let t = bb((3u8, {mk(j)}, 4u8)); print(t.0); t.1.sh(); print(t.2); }}")
        if not any(vs): body.append(f"  print(bb({n}::V{i}) as {'i128' if repr_ else 'isize'}); print(bb({n}::V{i}) as u8);")
        if repr_ and repr_ != "C" : body.append(f"  {{ let v = bb({mk(i)}); print(unsafe {{ *(&raw const v as *const {rt}) }}); }}")
    body.append(f"  {{ let o: Option<{n}> = bb(None); o.sh(); let oo: Option<Option<{n}>> = bb(None); oo.sh(); let oo: Option<Option<{n}>> = bb(Some(None)); oo.sh(); let r: Result<{n}, u8> = bb(Err(5)); match r {{ Ok(x) => x.sh(), Err(e) => print(e) }} }}")
    return s, body, n, vs, repr_, rt, disc

def cases(rng, thorough):
    # a niche whose values wrap around the tag type's sign (keyed by discriminant, not by the truncated value)
    many = "#[repr(i8)] #[derive(Clone, Copy)] enum T { A = 1, B = 0 }\n#[allow(dead_code)] #[derive(Clone, Copy)] enum M { D(T), " + ", ".join(f"V{i}" for i in range(200)) + " }\n"
    yield Case("niche with 200 variants around a signed byte", main("  let v = bb([M::D(T::A), M::D(T::B), M::V0, M::V1, M::V100, M::V125, M::V126, M::V127, M::V128, M::V199]);\n  let mut i = 0; while i < v.len() { match v[i] { M::D(t) => print(1000 + t as i32), M::V0 => print(0), M::V1 => print(1), M::V100 => print(100), M::V125 => print(125), M::V126 => print(126), M::V127 => print(127), M::V128 => print(128), M::V199 => print(199), _ => print(-1) } i += 1 }", many))
    for k in range(400 if thorough else 90):
        s, body, *_ = one_enum(rng, k)
        yield Case(f"random enum {k}", main("\n".join(body), ITEMS + s), rnd=True)
    # fieldless enums with an explicit representation: reading a tag, writing a tag, every invalid tag is undefined behaviour
    for t in ("u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"):
        vals = rng.sample(sorted(set(interesting(t))), 5)
        items = f"#[repr({t})] #[derive(Clone, Copy)] #[allow(dead_code)] enum E {{ " + ", ".join(f"V{i} = {v}" for i, v in enumerate(vals)) + " }\nfn f(e: E) { match e { " + " ".join(f"E::V{i} => print({i})," for i in range(5)) + " } }\n"
        body = "\n".join(f"  f(unsafe {{ std::mem::transmute::<{t}, E>(bb({lit(v,t)})) }}); print(bb(E::V{i}) as {t}); print(bb(E::V{i}) as i128);" for i, v in enumerate(vals))
        yield Case(f"tags of repr({t})", main(body, items))
        near = sorted({x for v in vals for x in (v - 1, v + 1, -v) if lo(t) <= x <= hi(t) and x not in vals} | {x for x in interesting(t) if x not in vals})
        for x in rng.sample(near, min(len(near), 12 if thorough else 4)):
            yield Case(f"invalid tag {x} of repr({t})", main(f"  let e = unsafe {{ std::mem::transmute::<{t}, E>(bb({lit(x,t)})) }}; f(e);", items), "ub")
            yield Case(f"invalid tag {x} of repr({t}) through a pointer", main(f"  let x = bb({lit(x,t)}); let p = &raw const x as *const E; match unsafe {{ &*p }} {{ E::V0 => print(0), E::V1 => print(1), _ => print(2) }}", items), "ub")
    # every byte value of a niche-encoded type is either the value rustc gives it or undefined behaviour
    N = "#[derive(Clone, Copy)] #[allow(dead_code)] enum I3 { A, B, C }\n#[derive(Clone, Copy)] #[allow(dead_code)] enum Big { X(bool), A, B, C }\n#[derive(Clone, Copy)] #[allow(dead_code)] #[repr(i8)] enum S { M = -3, Z = 0 }\n#[derive(Clone, Copy)] #[allow(dead_code)] enum Mid { A, X(I3), B }\n#[derive(Clone, Copy)] #[allow(dead_code)] enum Last { A, B, C, X(I3) }\n#[derive(Clone, Copy)] #[allow(dead_code)] enum Neg { A, X(S), B, C }\n"
    tys = {"Option<bool>": (["None", "Some(true)", "Some(false)"], 3), "Option<Option<bool>>": (["None", "Some(None)", "Some(Some(_))"], 4), "I3": (["I3::A", "I3::B", "I3::C"], 3), "Big": (["Big::X(true)", "Big::X(false)", "Big::A", "Big::B", "Big::C"], 5),
           "Mid": (["Mid::A", "Mid::X(I3::A)", "Mid::X(I3::B)", "Mid::X(I3::C)", "Mid::B"], 5), "Last": (["Last::A", "Last::B", "Last::C", "Last::X(I3::A)", "Last::X(_)"], 6), "Option<S>": (["None", "Some(S::M)", "Some(S::Z)"], 3),
           "Neg": (["Neg::A", "Neg::B", "Neg::C", "Neg::X(S::M)", "Neg::X(S::Z)"], 5), "Option<I3>": (["None", "Some(I3::A)", "Some(I3::B)", "Some(I3::C)"], 4), "std::cmp::Ordering": (["std::cmp::Ordering::Less", "std::cmp::Ordering::Equal", "std::cmp::Ordering::Greater"], 3)}
    for ty, (pats, _) in tys.items():
        items = N + f"fn f(e: {ty}) {{ match e {{ " + " ".join(f"{p} => print({i})," for i, p in enumerate(pats)) + " } }\n"
        vals = [p for p in pats if "_" not in p]
        body = "\n".join(f"  f(bb({p})); print(unsafe {{ std::mem::transmute::<{ty}, u8>(bb({p})) }}); f(unsafe {{ std::mem::transmute::<u8, {ty}>(bb(std::mem::transmute::<{ty}, u8>({p}))) }});" for p in vals)
        yield Case(f"bytes of {ty}", main(body, items))
        valid = {"Option<bool>": {0, 1, 2}, "Option<Option<bool>>": {0, 1, 2, 3}, "I3": {0, 1, 2}, "Big": {0, 1, 2, 3, 4}, "Mid": {0, 1, 2, 3, 5}, "Last": {0, 1, 2, 3, 4, 5}, "Option<S>": {253, 0, 1}, "Neg": {253, 0, 1, 3, 4}, "Option<I3>": {0, 1, 2, 3}, "std::cmp::Ordering": {255, 0, 1}}
        full = {"Option<Option<bool>>": ["None", "Some(None)", "Some(Some(true))", "Some(Some(false))"], "Last": ["Last::A", "Last::B", "Last::C", "Last::X(I3::A)", "Last::X(I3::B)", "Last::X(I3::C)"]}.get(ty, vals)
        yield Case(f"valid bytes of {ty}", main("\n".join(f"  print(unsafe {{ std::mem::transmute::<{ty}, u8>({p}) }});" for p in full), items))
        bad = rng.sample(range(256), 256)
        for b in sorted(bad[:40], key=lambda x: min(abs(x - 5), abs(x - 252)))[:(20 if thorough else 6)]:
            m = "diff" if b in valid[ty] else "ub"
            yield Case(f"byte {b} as {ty}", main(f"  let e = unsafe {{ std::mem::transmute::<u8, {ty}>(bb({b})) }}; f(e);", items), m)
    # uninhabited variants and the never type
    items = "#[allow(dead_code)] #[derive(Clone, Copy)] enum Void {}\n#[allow(dead_code)] #[derive(Clone, Copy)] enum OneReal { A(Void), B(u16), C(Void) }\n"
    yield Case("uninhabited variants", main("  let e = bb(OneReal::B(7)); match e { OneReal::A(..) => print(1), OneReal::B(x) => print(x), OneReal::C(_) => print(3) } let r: Result<u8, Void> = bb(Ok(4)); match r { Ok(x) => print(x), Err(v) => match v {} } print(std::mem::size_of::<Result<u8, Void>>()); let o: Option<Void> = bb(None); print(o.is_none() as u8);", items))
    yield Case("uninhabited field after a bigger field", main("  let e = bb(OneReal::B(7)); match e { OneReal::A(..) => print(1), OneReal::B(x) => print(x) }", "#[allow(dead_code)] #[derive(Clone, Copy)] enum Void {}\n#[allow(dead_code)] #[derive(Clone, Copy)] enum OneReal { A(u16, Void), B(u16) }\n"))
    yield Case("value of an empty enum", main("  let v = unsafe { std::mem::transmute::<(), Void>(bb(())) }; let w = bb(v); let _ = w;", items), "ub")
    yield Case("zero-sized variant field placed after a bigger one", main("  let f = bb(F::Y(1, (), 3)); match f { F::X(a, ()) => print(a), F::Y(a, (), b) => { print(a); print(b) } F::Z((), ()) => print(0) }", "#[allow(dead_code)] #[derive(Clone, Copy)] enum F { X(u16, ()), Y(u8, (), u32), Z((), ()) }"))
    # many variants
    for repr_ in ("", "#[repr(u8)]", "#[repr(i16)]"):
        nv = 200
        items = repr_ + " #[derive(Clone, Copy)] #[allow(dead_code)] enum M { " + ", ".join(f"V{i}" for i in range(nv)) + " }\n#[derive(Clone, Copy)] #[allow(dead_code)] enum O { D(M), X, Y, Z }\nfn f(m: M) { match m { " + " ".join(f"M::V{i} => print({i*3%101})," for i in rng.sample(range(nv), 30)) + " _ => print(999) } }\nfn g(o: O) { match o { O::D(m) => f(m), O::X => print(-1), O::Y => print(-2), O::Z => print(-3) } }\n"
        body = "\n".join(f"  f(bb(M::V{i})); print(bb(M::V{i}) as u32); g(bb(O::D(M::V{i})));" for i in rng.sample(range(nv), 25)) + "\n  g(bb(O::X)); g(bb(O::Y)); g(bb(O::Z));"
        yield Case(f"200 variants {repr_}", main(body, items))

def extra(t, rng, thorough):
    """reading only the discriminant of niche-encoded enums, for every kind of valid tag range: the tags of the values the
    native compiler produces are accepted and every other tag next to them is undefined behaviour"""
    from lib import run_case
    from concurrent.futures import ThreadPoolExecutor
    import random as _r
    specs = [("i8", [1, 2]), ("u8", [1, 2]), ("u8", [3, 4, 5]), ("i8", [-1, 0, 1]), ("i8", [-3, -2]), ("u8", [253, 254, 255]), ("i8", [126, 127]), ("i8", [-128, -127]), ("u8", [128, 129]), ("i16", [1, 2, 3]), ("i16", [-1, 0]), ("u16", [65534, 65535]), ("u32", [7]), ("i8", [0]), ("u8", [255]), ("i64", [-5, -4]), ("u64", [1, 2])]
    if not thorough: specs = specs[:13]
    jobs = []
    for k, (rp, vals) in enumerate(specs):
        for extra_n in ([1, 2, 3, 130] if thorough else [rng.choice([1, 2, 3])]):
            n = bits(rp) // 8
            if extra_n > 100 and n > 1: continue
            # a one-variant enum has no tag of its own kind: give it a second, neighbouring value
            vs = vals if len(vals) > 1 else vals + [vals[0] + 1 if vals[0] < hi(rp) else vals[0] - 1]
            vs = sorted(set(vs))
            items = f"#[allow(dead_code)] #[repr({rp})] #[derive(Clone, Copy)] enum X {{ " + ", ".join(f"V{i} = {v}" for i, v in enumerate(vs)) + " }\n#[allow(dead_code)] #[derive(Clone, Copy)] enum E { P(X), " + ", ".join(f"Q{i}" for i in range(extra_n)) + " }\n"
            all_vals = [f"E::P(X::V{i})" for i in range(len(vs))] + [f"E::Q{i}" for i in range(extra_n)]
            f = f"{t.work}/probe{k}.rs"
            open(f, "w").write(main(f"  assert!(std::mem::size_of::<E>() == {n}); " + " ".join(f"print(unsafe {{ std::mem::transmute::<E, u{bits(rp)}>({v}) }});" for v in all_vals), items))
            r, err = t.run_native(f, f"{t.work}/probe{k}")
            if r is None or r[0] != 0: continue
            tags = [int(x) for x in r[1].split()]
            m = 1 << bits(rp)
            good = {x: ("1" if i < len(vs) else str(2 + i - len(vs))) for i, x in enumerate(tags)}
            bad = sorted({(x + d) % m for x in tags for d in (-1, 1)} | {0, m // 2, m - 1, m // 2 - 1} | {rng.randrange(m)})
            bad = [b for b in bad if b not in good]
            if extra_n > 100: bad = rng.sample(bad, min(8, len(bad)))
            arms = "E::P(_) => print(1), " + ", ".join(f"E::Q{i} => print({2 + i})" for i in range(extra_n))
            items += f"fn k(x: u{bits(rp)}) {{ let p = &raw const x as *const E; unsafe {{ match *p {{ {arms} }} }} }}\n"
            jobs.append(Case(f"tags of values: {rp} {vs} + {extra_n}", main(" ".join(f"k(bb({x}));" for x in tags), items), "ok", "".join(good[x] + "\n" for x in tags)))
            for b in bad: jobs.append(Case(f"tag {b} belongs to no variant: {rp} {vs} + {extra_n}", main(f"k(bb({b}));", items), "ub"))
    with ThreadPoolExecutor(8) as ex: out = list(ex.map(lambda a: run_case(t, f"x{a[0]}", a[1]), enumerate(jobs)))
    for c, st, msg, f in out:
        if st in ("ok", "fail"): yield c.name, st == "ok", msg
