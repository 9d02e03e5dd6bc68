"""Control flow: branches, matches, loops, assertions - compared with the native execution of the same text."""
from lib import Case
from gen import *

def arms(rng, t, n):
    vs = sorted(set(interesting(t, rng, 6)))
    rng.shuffle(vs)
    return vs[:n]

def match_case(rng, t, k):
    """one function with literal, range, or-pattern and guarded arms, probed at and around every boundary"""
    vs = arms(rng, t, 9); s = f"fn m{k}(x: {t}) -> u32 {{ match x {{ "; pts = set(vs)
    n = 0
    for v in vs[:4]: n += 1; s += f"{lit(v, t).strip('()')} => {n}, "
    n += 1; a, b = sorted(vs[4:6]); s += f"{lit(a, t).strip('()')}..={lit(b, t).strip('()')} => {n}, "; pts |= {a, b}
    n += 1; s += f"{lit(vs[6], t).strip('()')} | {lit(vs[7], t).strip('()')} => {n}, "
    n += 1; s += f"y if y % 3 == 0 => {n}, "
    n += 1; s += f"y @ {lit(lo(t), t).strip('()')}..={lit(vs[8], t).strip('()')} => {n} + (y % 2 == 0) as u32 * 100, "; pts.add(vs[8])
    s += "_ => 99 } }\n"
    pts = sorted({p + d for p in pts for d in (-1, 0, 1) if lo(t) <= p + d <= hi(t)} | set(vs))
    if bits(t) > 64: pts += [x for x in {(p & ((1 << 64) - 1)) for p in pts} if lo(t) <= x <= hi(t)]
    return s, "\n".join(f"  print(m{k}(bb({lit(p, t)})));" for p in rng.sample(pts, min(len(pts), 22)))

class Prog:
    """random structured programs with a step budget so that they terminate"""
    def __init__(self, rng): self.r = rng; self.n = 0; self.lab = []
    def e(self, d=2):
        r = self.r
        if d == 0 or r.random() < .3: return r.choice(["a", "b", "c", f"{r.randrange(0, 9)}u32", "a", "b"])
        k = r.random()
        if k < .7: return f"({self.e(d-1)}).{r.choice(['wrapping_add', 'wrapping_sub', 'wrapping_mul'])}({self.e(d-1)})"
        if k < .85: return f"(if {self.c(d-1)} {{ {self.e(d-1)} }} else {{ {self.e(d-1)} }})"
        return f"(match {self.e(d-1)} & 3 {{ 0 => {self.e(d-1)}, 1 | 2 => {self.e(d-1)}, _ => {self.e(d-1)} }})"
    def c(self, d=2):
        r = self.r; k = r.random()
        if d == 0 or k < .4: return f"{self.e(0)} {r.choice(['<', '<=', '>', '>=', '==', '!='])} {self.e(0)}"
        if k < .6: return f"({self.c(d-1)}) && t({self.c(d-1)}, {r.randrange(100)})"
        if k < .8: return f"({self.c(d-1)}) || t({self.c(d-1)}, {r.randrange(100)})"
        return f"!({self.c(d-1)})"
    def s(self, d):
        r = self.r; k = r.random(); self.n += 1; n = self.n
        if d == 0 or k < .3: return r.choice([f"{r.choice('abc')} = {self.e()};", f"print({self.e(1)});", f"{r.choice('abc')} = {r.choice('abc')}.wrapping_add({r.randrange(5)});"])
        if k < .5: return f"if {self.c()} {{ {self.b(d-1)} }} else {{ {self.b(d-1)} }}"
        if k < .65: return f"match {self.e(1)} % 5 {{ 0 => {{ {self.b(d-1)} }} 1 | 3 => {{ {self.b(d-1)} }} x if x == 2 && {self.c(1)} => {{ {self.b(d-1)} }} _ => {{ {self.b(d-1)} }} }}"
        self.lab.append(f"'l{n}")
        body = self.b(d-1)
        ex = r.choice(self.lab); inner = f"if {self.c(1)} {{ {r.choice(['break', 'continue'])} {ex}; }}"
        if r.random() < .3: inner += f" if {self.c(0)} && {self.c(0)} {{ return {self.e(1)} }}"
        self.lab.pop()
        if k < .8: return f"'l{n}: while {self.c()} {{ f -= 1; if f < 0 {{ return 7 }} {body} {inner} {self.b(0)} }}"
        if k < .9: return f"'l{n}: loop {{ f -= 1; if f < 0 {{ break 'l{n} }} {inner} {body} }}"
        return f"'l{n}: for i in 0..{r.randrange(1, 4)}u32 {{ f -= 1; if f < 0 {{ return i }} a = a.wrapping_add(i); {body} {inner} }}"
    def b(self, d): return " ".join(self.s(d) for _ in range(self.r.choice([1, 2, 3])))
    def fn(self, k): return f"fn p{k}(mut a: u32, mut b: u32, mut c: u32) -> u32 {{ let mut f = 25i32; {self.b(3)} print(a); print(b); c }}\n"

FIX = [
("labelled breaks and continues", "  let mut n = 0u32; let v = 'a: loop { n += 1; let mut i = 0u32; 'b: while i < 5 { i += 1; if i == 2 { continue } if i == 3 && n == 1 { continue 'a } if n == 2 && i == 4 { break 'b } if n == 4 { break 'a i * 10 } print(n * 100 + i); } print(n); if n > 6 { break 0 } }; print(v); let w = 'x: { if bb(true) { break 'x 5 } 6 }; print(w); let y = 'o: { let z: u32 = 'i: { if bb(false) { break 'o 1 } if bb(true) { break 'i 2 } 3 }; z + 10 }; print(y);", ""),
("early returns", "  print(f(0)); print(f(1)); print(f(5)); print(f(20)); g(bb(3)); g(bb(0));", "fn f(n: u32) -> u32 { if n == 0 { return 100 } let mut i = 0; while i < n { if i * i > 50 { return i } i += 1 } let r = match n { 1 => return 7, x => x + 1 }; r } fn g(n: u32) { if n == 0 { print(0); return; } print(n); g(n - 1); print(n + 50); }"),
("short circuits run their right side only when needed", "  let mut n = 0; while n < 4 { n += 1; { let a = bb(n % 2 == 0); let b = bb(n > 2); print((t(a, 1) && t(b, 2)) as u8); print((t(a, 3) || t(b, 4)) as u8); print((t(a, 5) & t(b, 6)) as u8); print((t(a, 7) | t(b, 8)) as u8); print((t(a, 9) ^ t(b, 10)) as u8); print((!t(a, 11)) as u8); if t(a, 12) && (t(b, 13) || t(a, 14)) { print(1) } else if !t(b, 15) && t(a, 16) { print(2) } else { print(3) } } }", ""),
("patterns", """  f(&E::A); f(&E::B(3)); f(&E::B(11)); f(&E::C { x: 1, y: (2, true) }); f(&E::C { x: 0, y: (2, false) }); f(&E::C { x: 9, y: (200, false) }); f(&E::D([1, 2, 3])); f(&E::D([0, 0, 5])); g(Some(Some(3))); g(Some(None)); g(None); g(Some(Some(0))); h((1, -1)); h((1, 5)); h((-7, 0)); h((0, 0)); let E::B(z) = bb(E::B(77)) else { print(0); return }; print(z); if let E::C { x, .. } = bb(E::C { x: 5, y: (1, true) }) { print(x) } let mut o = Some(3u32); while let Some(n) = o { print(n); o = if n == 0 { None } else { Some(n - 1) } } print(matches!(bb(E::D([9; 3])), E::D(_)) as u8);
  let mut e = E::B(1); if let E::B(r) = &mut e { *r += 41 } f(&e); let t = (1u8, (2u16, [3u32, 4])); let (a, (b, c)) = t; print(a); print(b); print(c[1]); let x @ (p, _) = (5u8, 6u8); print(x.1); print(p); let n = bb(5i8); let s = match n { i8::MIN..=-1 => 1, 0 => 2, 1..=5 => 3, 6.. => 4 }; print(s);""",
 "#[derive(Clone, Copy)] enum E { A, B(u32), C { x: i16, y: (u8, bool) }, D([u8; 3]) } fn f(e: &E) { let r = match *e { E::A => 1, E::B(n @ 0..=9) => 10 + n, E::B(n) => 1000 + n, E::C { x: 1, y: (k, true) } => 200 + k as u32, E::C { x, y: (k, b) } if x == 0 || k > 100 => 300 + k as u32 + b as u32, E::C { .. } => 400, E::D(a) if a[0] == 1 => 500 + a[2] as u32, E::D(_) => 600 }; print(r) } fn g(o: Option<Option<u32>>) { print(match o { None => 0, Some(None) => 1, Some(Some(0)) => 2, Some(Some(n)) => 3 + n }) } fn h(p: (i32, i32)) { print(match p { (0, 0) => 0, (x, y) if x < y => 1, (x, _) if x < 0 => 2, (1, -1) => 3, _ => 4 }) }"),
("loops over ranges and iterators", "  for i in 0..5u32 { print(i) } for i in (0..5u8).rev() { print(i) } for i in 250..=255u8 { print(i) } for i in (-3i32..3).step_by(2) { print(i) } let a = [4u32, 5, 6]; for x in &a { print(*x) } for (i, x) in a.iter().enumerate() { print(i as u32 * *x) } let mut s = 0; for x in a.iter().skip(1).chain((&[1u32, 2]).iter()) { s = s * 10 + x } print(s); let mut it = a.iter().rev().take(2); while let Some(x) = it.next() { print(*x) } print((1..=10u32).filter(|x| x % 3 == 1).map(|x| x * x).sum::<u32>()); print(a.iter().position(|x| *x == 6).unwrap()); print(a.iter().any(|x| *x == 9) as u8); for _ in 0..0 { print(999) } for i in bb(5u32)..bb(2) { print(i) }", ""),
("the order of side effects", "  let mut a = [1u32, 2, 3]; let mut i = 0usize; a[{ i += 1; i }] = { i += 1; i as u32 * 10 }; print(a[1]); print(a[2]); let x = { print(1); 5 } + { print(2); 6 } * { print(3); 7 }; print(x); let s = (p(1), p(2), [p(3), p(4)]); print(s.2[0]); let mut k = 0; let v = { k += 1; k } * 10 + { k += 1; k }; print(v); let b = { let q = 3; q } > { let q = 2; p(q) }; print(b as u8); a[p(0) as usize] += p(7); print(a[0]);", "fn p(x: u32) -> u32 { print(x + 500); x }"),
("u128 and i128 matches", "  f(bb(0)); f(bb(1)); f(bb(1 << 64)); f(bb((1 << 64) + 1)); f(bb(u128::MAX)); f(bb(u64::MAX as u128)); g(bb(-1)); g(bb(i128::MIN)); g(bb(u64::MAX as i128)); g(bb(0)); g(bb(-(1 << 64)));", "fn f(x: u128) { print(match x { 0 => 1, 0x1_0000_0000_0000_0000 => 2, u128::MAX => 3, 1 => 4, _ => 5 }) } fn g(x: i128) { print(match x { -1 => 1, i128::MIN => 2, 0 => 3, 0xffff_ffff_ffff_ffff => 4, -0x1_0000_0000_0000_0000 => 5, _ => 6 }) }"),
]
PANICS = [("bounds", "let a = [1u8, 2, 3]; print(a[bb({})]);", [0, 2], [3, 4, 1 << 40, (1 << 64) - 1]), ("slice bounds", "let a = [1u8, 2, 3]; let s = &a[bb(1)..]; print(s[bb({})]);", [0, 1], [2, 3]), ("division", "print(10u32 / bb({}));", [1, 3], [0]), ("remainder", "print(10i32 % bb({}));", [3, -3], [0]),
  ("signed division overflow", "print(i32::MIN / bb({}));", [1, -2], [-1]), ("signed remainder overflow", "print(bb(i64::MIN) % bb({}));", [2], [-1, 0]), ("addition overflow", "print(250u8 + bb({}));", [0, 5], [6, 255]), ("subtraction overflow", "print(5u16 - bb({}));", [5], [6]), ("signed subtraction overflow", "print(-100i8 - bb({}));", [28, -127], [29, 127]),
  ("multiplication overflow", "print(16u8 * bb({}));", [15], [16, 255]), ("negation overflow", "print(-bb::<i8>({}));", [127, -127], [-128]), ("shift", "print(1u32 << bb::<u32>({}));", [31, 0], [32, 33, 255]), ("signed shift", "print(1i64 >> bb::<i32>({}));", [63], [64, -1]), ("assert", "assert!(bb({}) > 3); print(1);", [4], [3, 0]), ("unwrap", "let o: Option<u8> = if bb({}) > 3 {{ Some(1) }} else {{ None }}; print(o.unwrap());", [4], [3]), ("slicing", "let a = [1u8, 2, 3]; print(a[bb(1)..bb({})].len());", [1, 3], [0, 4]), ("usize multiplication", "print(bb(1usize << 62) * bb({}));", [3], [4]), ("i128 addition", "print(i128::MAX + bb::<i128>({}));", [0, -1], [1])]

INHERIT = [("an open range", "let mut r = bb(253u8)..; let mut i = 0; while i < bb(5) { match r.next() { Some(x) => print(x), None => print(-1) } i += 1; }"), ("nth of an open range", "let mut r = bb(1i8)..; match r.nth(bb(200)) { Some(x) => print(x), None => print(-1) }"),
  ("a sum", "print(bb([200u8, 100]).iter().sum::<u8>());"), ("a product", "print(bb([100i8, 2]).iter().product::<i8>());"), ("abs", "print(bb(i8::MIN).abs());"), ("addition through the trait", "print(std::ops::Add::add(bb(200u8), bb(100u8)));"), ("negation through the trait", "print(std::ops::Neg::neg(bb(i16::MIN)));"), ("shift through the trait", "print(std::ops::Shl::shl(bb(3u8), bb(9u32)));"),
  ("assigning operators through the trait", "let mut x = bb(250u8); std::ops::AddAssign::add_assign(&mut x, bb(9)); print(x); std::ops::MulAssign::mul_assign(&mut x, 100); print(x);"), ("division through the trait", "print(std::ops::Div::div(bb(3u8), bb(0u8)));"), ("remainder through the trait", "print(std::ops::Rem::rem(bb(i8::MIN), bb(-1)));")]
def cases(rng, thorough):
    T = "fn t(b: bool, n: u32) -> bool { print(n); b }\n"
    for name, body, items in FIX: yield Case(name, main(body, T + items))
    for k in range(4 if thorough else 1):
        for t in INTS:
            s, b = match_case(rng, t, 0); s2, b2 = match_case(rng, t, 1)
            yield Case(f"match on {t} {k}", main(b + "\n" + b2, s + s2))
    for name, tpl, good, bad in PANICS:
        for g in good: yield Case(f"{name} passes at {g}", main("  print(50); " + tpl.format(g) + " print(51);"))
        for g in bad: yield Case(f"{name} panics at {g}", main("  print(50); " + tpl.format(g) + " print(51);"))
    # std code which inherits the overflow checks of the program it is used in
    for v in (True, False):
        for name, body in INHERIT: yield Case(f"{name} with overflow checks {'on' if v else 'off'}", main("  print(50); " + body + " print(51);"), ovf=v)
        for name, tpl, good, bad in PANICS:
            if "overflow" in name or "shift" in name or "tion" in name: yield Case(f"{name} with overflow checks {'on' if v else 'off'}", main("  print(50); " + tpl.format(bad[0]) + " print(51);"), ovf=v)
    for k in range(160 if thorough else 40):
        p = Prog(rng); items = "".join(p.fn(j) for j in range(3))
        yield Case(f"random control flow {k}", main("\n".join(f"  print(p{j}(bb({rng.randrange(8)}), bb({rng.randrange(8)}), bb({rng.choice([0, 1, 5, 4294967295])})));" for j in range(3) for _ in range(2)), T + items))
    for k in range(40 if thorough else 12):
        n = rng.randrange(2, 7); en = "#[derive(Clone, Copy)] #[allow(dead_code)] enum E { " + ", ".join(f"V{i}" + rng.choice(["", "(u8)", "(bool, i16)"]) for i in range(n)) + " }\n"
        vs = en.split("{")[1].split("}")[0].strip().split(", V"); vs = [v if v.startswith("V") else "V" + v for v in vs]
        val = lambda v, s: v.replace("(u8)", f"({s % 256})").replace("(bool, i16)", f"({'true' if s % 2 else 'false'}, {s - 50})")
        def pat(v, i):
            if "u8" in v: return rng.choice([f"E::{v[:2]}(x) => print(x as i32 + {i})", f"E::{v[:2]}(x @ 0..=99) => print(x as i32 * {i}), E::{v[:2]}(_) => print({i})", f"E::{v[:2]}(x) if x % 2 == 0 => print({i + 1000}), E::{v[:2]}(x) => print(x as i32)"])
            if "bool" in v: return rng.choice([f"E::{v[:2]}(b, y) => print(b as i32 + y as i32)", f"E::{v[:2]}(true, y) => print(y as i32), E::{v[:2]}(false, _) => print({i + 500})", f"E::{v[:2]}(_, -20..=20) => print({i}), E::{v[:2]}(true, _) => print({i + 1}), E::{v[:2]}(false, y) => print(y as i32)"])
            return f"E::{v} => print({i})"
        order = list(range(n)); rng.shuffle(order); cut = rng.randrange(1, n + 1)
        body = ", ".join(pat(vs[i], 10 * i) for i in order[:cut]) + ("" if cut == n else ", _ => print(-7)")
        pr = ", ".join(f"(E::{vs[i].split('(')[0]}{'(..)' if '(' in vs[i] else ''}, {j}) => print({i * 10 + j})" for i in order[:3] for j in (0, 1))
        yield Case(f"enum match {k}", main("\n".join(f"  f(bb(E::{val(v, s)})); g((bb(E::{val(v, s)}), bb({s % 3})));" for v in vs for s in (3, 60, 150)), en + f"fn f(e: E) {{ match e {{ {body} }} }} fn g(p: (E, u8)) {{ match p {{ {pr}, (_, 2) => print(-1), _ => print(-2) }} }}"))
