"""helpers for generating Rust programs"""
INTS = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"]
def bits(t): return 64 if t.endswith("size") else int(t[1:])
def signed(t): return t[0] == "i"
def lo(t): return -(1 << (bits(t) - 1)) if signed(t) else 0
def hi(t): return (1 << (bits(t) - 1)) - 1 if signed(t) else (1 << bits(t)) - 1
def interesting(t, rng=None, n=0):
    l, h = lo(t), hi(t)
    s = {0, 1, 2, 3, 7, l, l + 1, h, h - 1, h // 2, h // 2 + 1, l // 2, 100, 85}
    if signed(t): s |= {-1, -2, -3, -7, -100}
    for k in (bits(t) // 2, bits(t) - 2, 7):
        s |= {1 << k, (1 << k) - 1}
        if signed(t): s |= {-(1 << k), -(1 << k) - 1}
    s = sorted(x for x in s if l <= x <= h)
    if rng is not None:
        for _ in range(n): s.append(rng.randint(l, h) if rng.random() < .5 else rng.randint(max(l, -1000), min(h, 1000)))
    return s
def lit(v, t):
    if v == lo(t) and signed(t): return f"{t}::MIN"
    return f"{v}{t}" if v >= 0 else f"({v}{t})"
PRE = "extern crate intrinsics;\nuse intrinsics::*;\n#[inline(never)] fn bb<T>(t: T) -> T { t }\n"
def main(body, items=""): return PRE + items + "\nfn main() {\n" + body + "\n}\n"
def wrap(v, t):
    m = 1 << bits(t); v %= m
    return v - m if signed(t) and v >= m // 2 else v
def feat(body, items=""): return "#![feature(core_intrinsics)]\n#![allow(internal_features)]\n" + main(body, items)
