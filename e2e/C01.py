"""Operators as the Rust programmer sees them: every MIR operator on every integer type, bool, char and pointers."""
from lib import Case
from gen import *

def binops(t):
    yield "wrapping_add", "{a}.wrapping_add({b})", None
    yield "wrapping_sub", "{a}.wrapping_sub({b})", None
    yield "wrapping_mul", "{a}.wrapping_mul({b})", None
    yield "and", "{a} & {b}", None
    yield "or", "{a} | {b}", None
    yield "xor", "{a} ^ {b}", None
    yield "oadd", "{{ let (x, o) = {a}.overflowing_add({b}); print(o as u8); x }}", None
    yield "osub", "{{ let (x, o) = {a}.overflowing_sub({b}); print(o as u8); x }}", None
    yield "omul", "{{ let (x, o) = {a}.overflowing_mul({b}); print(o as u8); x }}", None
    yield "div", "{a} / {b}", lambda a, b: b != 0 and not (a == lo(t) and b == -1)
    yield "rem", "{a} % {b}", lambda a, b: b != 0 and not (a == lo(t) and b == -1)
    yield "add", "{a} + {b}", lambda a, b: lo(t) <= a + b <= hi(t)
    yield "sub", "{a} - {b}", lambda a, b: lo(t) <= a - b <= hi(t)
    yield "mul", "{a} * {b}", lambda a, b: lo(t) <= a * b <= hi(t)
    yield "uadd", "unsafe {{ {a}.unchecked_add({b}) }}", lambda a, b: lo(t) <= a + b <= hi(t)
    yield "usub", "unsafe {{ {a}.unchecked_sub({b}) }}", lambda a, b: lo(t) <= a - b <= hi(t)
    yield "umul", "unsafe {{ {a}.unchecked_mul({b}) }}", lambda a, b: lo(t) <= a * b <= hi(t)
    yield "cmp", "({a}.cmp(&{b}) as i8)", None
    for o in ("<", "<=", ">", ">=", "==", "!="): yield "rel" + o, "(({a} " + o + " {b}) as u8)", None

def cases(rng, thorough):
    for o in (True, False):
        w = "with" if o else "without"
        for t in ("u8", "i8", "i16", "u64"):
            for k in (0, 1, 2, 3): yield Case(f"counting on past the end of {t} {w} overflow checks, {k} steps", main(f"  let mut r = bb({t}::MAX - 1)..;" + " print(r.next().unwrap());" * k + " print(r.nth(bb(0)).unwrap());"), ovf=o)
        yield Case(f"adding up {w} overflow checks", main("  let a = bb([200u8, 50, 7]); let mut s = 0u8; let mut i = 0; while i < 3 { s += a[i]; i += 1 } print(s);"), ovf=o)
        yield Case(f"negating the least number {w} overflow checks", main("  print(-bb(i16::MIN));"), ovf=o)
        yield Case(f"distant shifts {w} overflow checks", main("  print(bb(1u8) << bb(9u32)); print(bb(-3i32) >> bb(35u8));"), ovf=o)
        yield Case(f"abs of the least number {w} overflow checks", main("  print(bb(i8::MIN).abs());"), ovf=o)
    n = 60 if thorough else 14
    for t in INTS:
        vals = interesting(t, rng, 12)
        body = []
        for name, tmpl, ok in binops(t):
            pairs = [(a, b) for a in vals for b in vals if ok is None or ok(a, b)]
            # small deviations from the corner cases matter more than random values
            for a, b in rng.sample(pairs, min(n, len(pairs))):
                body.append(f"  print({tmpl.format(a=f'bb({lit(a,t)})', b=f'bb({lit(b,t)})')});")
        for k in range(0, len(body), 90): yield Case(f"binary operators on {t} #{k//90}", main("\n".join(body[k:k+90])))
        body = []
        for a in vals:
            A = f"bb({lit(a,t)})"
            body += [f"  print(!{A});", f"  print({A}.count_ones());", f"  print({A}.wrapping_neg());"]
            if signed(t) and a != lo(t): body.append(f"  print(-{A});")
            for st in rng.sample(INTS, 3):
                s = rng.choice([0, 1, bits(t) // 2, bits(t) - 1, rng.randrange(bits(t))])
                if s > hi(st): continue
                S = f"bb({lit(s,st)})"
                body += [f"  print({A} >> {S});", f"  print({A} << {S});"]
            s = rng.randrange(bits(t)); body += [f"  print(unsafe {{ {A}.unchecked_shr({s}u32) }});", f"  print(unsafe {{ {A}.unchecked_shl({s}u32) }});", f"  print({A}.wrapping_shl({s + bits(t)}u32));", f"  print({A}.wrapping_shr({s + 3*bits(t)}u32));"]
        for k in range(0, len(body), 100): yield Case(f"unary operators and shifts on {t} #{k//100}", main("\n".join(body[k:k+100])))
        body = []
        for a in vals:
            for u in INTS: body.append(f"  print(bb({lit(a,t)}) as {u});")
        rng.shuffle(body)
        body = body[:300 if thorough else 160]
        for k in range(0, len(body), 100): yield Case(f"casts from {t} #{k//100}", main("\n".join(body[k:k+100])))
        # undefined behaviour, each next to its well-defined neighbour
        ub = []
        def pair(name, good, bad): ub.append((name, good, bad))
        pair("unchecked_add", f"bb({lit(hi(t)-1,t)}).unchecked_add(bb(1))", f"bb({lit(hi(t),t)}).unchecked_add(bb(1))")
        pair("unchecked_sub", f"bb({lit(lo(t)+1,t)}).unchecked_sub(bb(1))", f"bb({lit(lo(t),t)}).unchecked_sub(bb(1))")
        pair("unchecked_mul", f"bb({lit(hi(t)//2,t)}).unchecked_mul(bb(2))", f"bb({lit(hi(t)//2+1,t)}).unchecked_mul(bb(2))")
        pair("unchecked_shl", f"bb(1{t}).unchecked_shl(bb({bits(t)-1}u32))", f"bb(1{t}).unchecked_shl(bb({bits(t)}u32))")
        pair("unchecked_shr", f"bb(1{t}).unchecked_shr(bb({bits(t)-1}u32))", f"bb(1{t}).unchecked_shr(bb({bits(t)}u32))")
        for name, g, b in (ub if thorough else rng.sample(ub, 3)):
            yield Case(f"{t} {name} in range", main(f"  print(unsafe {{ {g} }});"))
            yield Case(f"{t} {name} out of range", main(f"  print(unsafe {{ {b} }});"), "ub")
        for name, e in (("add", f"bb({t}::MAX) + bb(1)"), ("sub", f"bb({t}::MIN) - bb(1)"), ("mul", f"bb({t}::MAX) * bb(2)"), ("div", f"bb(1{t}) / bb(0)"), ("rem", f"bb(1{t}) % bb(0)"), ("shl", f"bb(1{t}) << bb({bits(t)}u32)"), ("shr", f"bb(1{t}) >> bb({bits(t)}u32)")) + ((("divmin", f"bb({t}::MIN) / bb(-1)"), ("neg", f"-bb({t}::MIN)")) if signed(t) else ()):
            if thorough or rng.random() < .4: yield Case(f"{t} checked {name} panics", main(f"  print(1);\n  print({e});\n  print(2);"))
    # without overflow checks the plain operators wrap and shifts use the amount modulo the width
    for t in INTS:
        vals = interesting(t, rng, 8); body = []
        for a in vals:
            A = f"bb({lit(a,t)})"
            if signed(t): body.append(f"  print(-{A});")
            for b in rng.sample(vals, 3): body.append(f"  {{ let mut x = {A}; print({A} + bb({lit(b,t)})); print({A} - bb({lit(b,t)})); print({A} * bb({lit(b,t)})); x += bb({lit(b,t)}); print(x); x -= 2; x *= 3; print(x); }}")
            for st in rng.sample(INTS, 2):
                for sh in (bits(t), rng.randrange(hi(st) + 1), rng.randrange(lo(st), 0) if signed(st) else bits(t) + 3):
                    if sh <= hi(st): body.append(f"  print({A} << bb({lit(sh,st)})); print({A} >> bb({lit(sh,st)}));")
        for k in range(0, len(body), 200): yield Case(f"unchecked arithmetic on {t} #{k//200}", main("\n".join(body[k:k+200])), ovf=False)
    # booleans, char, unit-like comparisons
    body = []
    for a in ("true", "false"):
        for c in INTS: body.append(f"  print(bb({a}) as {c});")
        body.append(f"  print((!bb({a})) as u8);")
        for b in ("true", "false"):
            for o in ("&", "|", "^", "<", "<=", ">", ">=", "==", "!=", "&&", "||"): body.append(f"  print((bb({a}) {o} bb({b})) as u8);")
            body.append(f"  print(bb({a}).cmp(&bb({b})) as i8);")
    for a in ("'a'", "'\\u{0}'", "'\\u{10ffff}'", "'\\u{d7ff}'", "'é'"):
        body.append(f"  print(bb({a}) == bb('a'));".replace("print(", "print((").replace(");", ") as u8);"))
        body.append(f"  print((bb({a}) < bb('z')) as u8);")
    yield Case("booleans and characters", main("\n".join(body)))
    # pointers: comparison, offsets
    items = "struct P3(u8, u8, u8);\n#[derive(Clone, Copy)] #[allow(dead_code)] struct W(u64, u16);\n"
    for ty, mk, sz in (("u8", "[0u8; 9]", 1), ("u32", "[0u32; 9]", 4), ("u64", "[0u64; 9]", 8), ("W", "[W(1,2); 9]", 16), ("[u16; 3]", "[[0u16; 3]; 9]", 6), ("u128", "[0u128; 9]", 16)):
        body = [f"  let mut a = {mk}; let p = &raw mut a as *mut {ty}; let c = p as *const {ty};"]
        for i, j in [(0, 0), (0, 9), (9, 0), (3, 7), (7, 3), (8, 9)] + [(rng.randrange(10), rng.randrange(10)) for _ in range(6)]:
            body.append(f"  unsafe {{ let x = c.add(bb({i})); let y = c.add(bb({j}));")
            body.append("    " + " ".join(f"print((x {o} y) as u8);" for o in ("<", "<=", ">", ">=", "==", "!=")))
            body.append(f"    print(y.offset_from(x)); print(y as usize - c as usize); print(x.offset(bb({j - i})) == y);")
            body.append(f"    print((x.wrapping_offset(bb({j}isize - {i})) == y) as u8); print((y.wrapping_sub(bb({j}usize)) == c) as u8); print((x.wrapping_add(bb(1000)).wrapping_sub(bb(1000)) == x) as u8);")
            if j >= i: body.append(f"    print(y.offset_from_unsigned(x)); print((y.sub(bb({j - i})) == x) as u8);")
            body.append("  }")
        yield Case(f"pointer arithmetic on *{ty}", main("\n".join(body).replace("== y);", "== y) as u8);").replace("print(x.offset", "print((x.offset"), items))
    yield Case("pointer offset past the end", main("  let a = [0u32; 4]; let p = &raw const a as *const u32; unsafe { let q = p.add(bb(5)); print((q == p) as u8); }"), "ub")
    yield Case("pointer offset one past the end", main("  let a = [0u32; 4]; let p = &raw const a as *const u32; unsafe { let q = p.add(bb(4)); print((q == p) as u8); }"))
    yield Case("pointer offset before the start", main("  let a = [0u32; 4]; let p = &raw const a as *const u32; unsafe { let q = p.sub(bb(1)); print((q == p) as u8); }"), "ub")
    yield Case("pointer offset overflowing isize", main("  let a = [0u32; 4]; let p = &raw const a as *const u32; unsafe { let q = p.add(bb(1usize << 62)); print((q == p) as u8); }"), "ub")
    yield Case("offset_from not a multiple", main("  let a = [0u8; 8]; let p = &raw const a as *const u8; unsafe { let q = p.add(bb(3)) as *const u16; print(q.offset_from(p as *const u16)); }"), "ub")
    yield Case("offset_from_unsigned negative", main("  let a = [0u8; 8]; let p = &raw const a as *const u8; unsafe { let q = p.add(bb(3)); print(p.offset_from_unsigned(q)); }"), "ub")
    yield Case("wide pointer comparison", main("  let a = [1u8, 2, 3]; let x = &a[0..2] as *const [u8]; let y = &a[0..3] as *const [u8]; let z = &a[1..3] as *const [u8];\n" + "\n".join(f"  print((bb({l}) {o} bb({r})) as u8);" for l in "xyz" for r in "xyz" for o in ("<", "<=", ">", ">=", "==", "!="))))
    yield Case("function pointer comparison", main("  let p: fn() -> u8 = f; let q: fn() -> u8 = g; print((bb(p) == bb(p)) as u8); print(p()); print(q());", "fn f() -> u8 { 1 } fn g() -> u8 { 2 }\n"))
    # exact division: defined exactly for a nonzero divisor, a representable quotient and no remainder
    for t in INTS:
        vals = [v for v in interesting(t, rng, 6)]
        good = [(q * b, b) for q in vals for b in vals if b and lo(t) <= q * b <= hi(t)]
        yield Case(f"exact division on {t}", feat("\n".join(f"  print(unsafe {{ core::intrinsics::exact_div(bb({lit(a, t)}), bb({lit(b, t)})) }});" for a, b in rng.sample(good, min(len(good), 40)))))
        bad = [("by zero", "bb(4{t})", "bb(0{t})"), ("with a remainder", "bb(7{t})", "bb(2{t})"), ("of the smallest value with a remainder", "bb({t}::MIN.wrapping_add(1))", "bb(2{t})"), ("of a smaller value", "bb(3{t})", "bb(5{t})"), ("zero by zero", "bb(0{t})", "bb(0{t})")]
        if signed(t): bad += [("overflowing", "bb({t}::MIN)", "bb(-1{t})"), ("negative with a remainder", "bb(-7{t})", "bb(2{t})"), ("by a negative with a remainder", "bb(7{t})", "bb(-2{t})")]
        elif t != "u8": bad = [b for b in bad if "smallest" not in b[0]]
        else: bad = [b for b in bad if "smallest" not in b[0]]
        for n, a, b in (bad if thorough else rng.sample(bad, 2)):
            yield Case(f"exact division {n} on {t}", feat(f"  print(unsafe {{ core::intrinsics::exact_div({a.replace('{t}', t)}, {b.replace('{t}', t)}) }});"), "ub")
    # equality of arrays (the compiler compares the bytes of plain ones)
    for t in INTS:
        v = [rng.choice(interesting(t, rng, 4)) for _ in range(4)]; body = ""
        for k in range(4):
            w = list(v); w[k] = rng.choice([x for x in interesting(t, rng, 4) if x != v[k]])
            body += f"  print((bb([{', '.join(lit(x, t) for x in v)}]) == bb([{', '.join(lit(x, t) for x in w)}])) as u8); print((bb([{', '.join(lit(x, t) for x in w)}]) != bb([{', '.join(lit(x, t) for x in v)}])) as u8); print((bb([{lit(w[k], t)}; 2]) == bb([{lit(w[k], t)}; 2])) as u8);\n"
        yield Case(f"array equality on {t}", main(body))
