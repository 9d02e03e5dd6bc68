"""Well-formedness: whatever the tool translates, the machine accepts; a program damaged in one place is refused before anything runs."""
import os, re, json, copy, random
from gen import *
from lib import Case
import C31, C32
MODS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C12", "C14", "C15", "C16", "C18", "C21", "C22", "C24", "C26", "C27", "C28", "C33"]
ZST = [("zero-sized field after a bigger one", ("  let r = R(7, 3, []); print(r.0); print(r.1);", "struct R(u16, u8, [u16; 0]);")),
       ("uninhabited field after a bigger one", ("  let e = bb(A::Y(7)); match e { A::X(..) => print(1), A::Y(x) => print(x) }", "#[derive(Clone, Copy)] enum Void {} #[derive(Clone, Copy)] enum A { X(u16, Void), Y(u16) }")),
       ("constant pointer outside its allocation", ("  unsafe { print((W == P) as u8) }", "static A: u32 = 1; static mut P: *const u32 = &raw const A; static mut W: *const u32 = (&raw const A).wrapping_add(42);"))]
def cases(rng, thorough): return iter(())
def translated(rng, n):
    for m in MODS:
        c = list(__import__(m).cases(random.Random(1), False))
        k = min(len(c), n)
        for x in [c[i * len(c) // k] for i in range(k)]: yield m, x

def walk(x, path=()):
    yield path, x
    if isinstance(x, dict):
        for k, v in x.items(): yield from walk(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x): yield from walk(v, path + (i,))
def at(p, path):
    for k in path: p = p[k]
    return p
def put(p, path, v):
    q = at(p, path[:-1]); q[path[-1]] = v
NONE = 99999
TRUE = {"Constant": [{"Bool": True}, "Bool"]}
def tyof(f, e):
    """the type of a place or value expression where it is easy to see"""
    if isinstance(e, dict) and "Local" in e: return dict((k, v) for k, v in f["locals"]).get(e["Local"])
    if isinstance(e, dict) and "Deref" in e: return e["Deref"]["ty"]
def damage(p):
    """(what, function making the damaged program) at every place of the program where it applies"""
    def sub(path, v): return lambda q: put(q, path, v)
    yield "the start function is not declared", sub(("start",), NONE)
    names = dict((n, i) for i, (n, _) in enumerate(p["functions"]))
    s = names[p["start"]]
    yield "the start function has the Rust convention", sub(("functions", s, 1, "calling_convention"), "Rust")
    yield "the start function is missing", lambda q: q["functions"].pop(s)
    for i, (n, f) in enumerate(p["functions"]):
        F = ("functions", i, 1)
        kinds = {b: x["kind"] for b, x in f["blocks"]}
        if n != p["start"] and f["args"]: yield "the start function takes arguments", lambda q, n=n, i=i: (put(q, ("start",), n), put(q, ("functions", i, 1, "calling_convention"), "C"))
        yield "the return place is not declared", sub(F + ("ret",), NONE)
        if f["args"]:
            yield "an argument is not declared", sub(F + ("args", 0), NONE)
            yield "the return place is an argument", sub(F + ("args", len(f["args"]) - 1), f["ret"])
            yield "an argument is listed twice", lambda q, i=i: q["functions"][i][1]["args"].append(q["functions"][i][1]["args"][0])
        yield "the first block is missing", sub(F + ("start",), NONE)
        yield "a local is of a slice type", sub(F + ("locals", len(f["locals"]) - 1, 1), {"Slice": {"elem": "Bool"}})
        yield "an array has a negative length", sub(F + ("locals", len(f["locals"]) - 1, 1), {"Array": {"elem": "Bool", "count": -1}})
        yield "a trait is not declared", sub(F + ("locals", len(f["locals"]) - 1, 1), {"Ptr": {"VTablePtr": NONE}})
        for b, (bn, blk) in enumerate(f["blocks"]):
            B = F + ("blocks", b, 1)
            t = blk["terminator"]; h = t if isinstance(t, str) else next(iter(t))
            T = B + ("terminator", h)
            if h == "Goto":
                yield "a jump to a missing block", sub(T, NONE)
                for o, k in kinds.items():
                    if k != blk["kind"]: yield "a jump to a block of another kind", sub(T, o); break
            if h == "Switch":
                yield "the default of a switch is missing", sub(T + ("fallback",), NONE)
                for c in range(len(t[h]["cases"])):
                    yield "a case of a switch leads nowhere", sub(T + ("cases", c, 1), NONE)
                    yield "a case of a switch is not a value of its type", sub(T + ("cases", c, 0), 1 << 130)
                yield "a switch over a truth value", sub(T + ("value",), TRUE)
            if h in ("Call", "Intrinsic"):
                if t[h]["next_block"] is not None:
                    yield "a call returns to a missing block", sub(T + ("next_block",), NONE)
                    for o, k in kinds.items():
                        if k != blk["kind"]: yield "a call returns to a block of another kind", sub(T + ("next_block",), o); break
                yield "the result of a call goes to an undeclared local", sub(T + ("ret",), {"Local": NONE})
                for a in range(len(t[h]["arguments"])):
                    yield "an argument of a call is an undeclared local", sub(T + ("arguments", a), {"InPlace": {"Local": NONE}} if h == "Call" else {"Load": {"source": {"Local": NONE}}})
            if h == "Call":
                yield "a call of a truth value", sub(T + ("callee",), TRUE)
                yield "a call unwinds to a missing block", sub(T + ("unwind_block",), NONE)
                bad = {"Regular": ("Regular", "Terminate"), "Cleanup": ("Regular", "Cleanup", "Catch"), "Terminate": ("Regular", "Cleanup", "Catch"), "Catch": ("Regular", "Cleanup", "Catch", "Terminate")}[blk["kind"]]
                for w in bad:
                    o = next((o for o, k in kinds.items() if k == w), None)
                    if o is not None: yield f"a call in a {blk['kind']} block unwinds to a {w} block", sub(T + ("unwind_block",), o)
            if h == "StopUnwind":
                yield "the end of unwinding leads nowhere", sub(T, NONE)
                yield "the end of unwinding leads to itself", sub(T, bn)
            if blk["kind"] == "Regular":
                yield "resuming outside cleanup code", sub(B + ("terminator",), "ResumeUnwind")
                yield "ending an unwinding outside catch code", sub(B + ("terminator",), {"StopUnwind": bn})
                for k in ("Cleanup", "Catch", "Terminate"):
                    if h == "Return": yield f"returning from a {k} block", sub(B + ("kind",), k)
            else:
                yield f"returning from a {blk['kind']} block", sub(B + ("terminator",), "Return")
            for x, st in enumerate(blk["statements"]):
                S = B + ("statements", x); k = next(iter(st))
                if k == "Assign":
                    yield "an undeclared local is assigned", sub(S + (k, "destination"), {"Local": NONE})
                    yield "an undeclared local is read", sub(S + (k, "source"), {"Load": {"source": {"Local": NONE}}})
                    ty = tyof(f, st[k]["destination"])
                    if ty is not None and ty != "Bool": yield "a truth value is assigned to a place of another type", sub(S + (k, "source"), TRUE)
                    if ty is not None: yield "a wide number is assigned to a place of another type", sub(S + (k, "source"), {"Constant": [{"Int": 1}, {"Int": {"signed": "Unsigned", "size": 32}}]})
                if k in ("StorageLive", "StorageDead"): yield f"{k} of an undeclared local", sub(S + (k,), NONE)
                yield "the return place dies", lambda q, B=B, r=f["ret"]: at(q, B)["statements"].insert(0, {"StorageDead": r})
                if f["args"]: yield "an argument dies", lambda q, B=B, r=f["args"][-1]: at(q, B)["statements"].insert(0, {"StorageDead": r})
                if k == "Validate": yield "an undeclared local is validated", sub(S + (k, "place"), {"Local": NONE})
    for path, x in walk(p):
        if not isinstance(x, dict) or len(x) != 1: continue
        (k, v), = x.items()
        fn = ("functions",) == path[:1]
        if k == "Constant" and fn and isinstance(v, list) and isinstance(v[0], dict):
            c = next(iter(v[0]))
            if c == "Int": yield "a number that does not fit its type", sub(path + (k, 0, c), 1 << 130)
            if c == "Int": yield "a number of type bool", sub(path + (k, 1), "Bool")
            if c == "FnPointer": yield "a pointer to an undeclared function", sub(path + (k, 0, c), NONE)
            if c == "GlobalPointer": yield "a pointer to an undeclared global", sub(path + (k, 0, c, "name"), NONE)
            if c == "GlobalPointer": yield "a pointer beyond a global", sub(path + (k, 0, c, "offset"), 1 << 20)
            if c == "VTablePointer": yield "a pointer to an undeclared vtable", sub(path + (k, 0, c), NONE)
        if not fn or not isinstance(v, dict): continue
        if k == "Field" and "root" in v: yield "a field that does not exist", sub(path + (k, "field"), 1000)
        if k == "Field" and "root" in v: yield "a negative field", sub(path + (k, "field"), -1)
        if k == "Downcast": yield "a variant that does not exist", sub(path + (k, "discriminant"), 1 << 70)
        if k == "SetDiscriminant": yield "the discriminant of a variant that does not exist", sub(path + (k, "value"), 1 << 70)
        if k == "Union" and "union_ty" in v: yield "building a union with a negative field", sub(path + (k, "field"), -1)
        if k == "Union" and "union_ty" in v: yield "building a union with a field it does not have", sub(path + (k, "field"), 1000)
        if k == "Variant" and "enum_ty" in v: yield "building a variant that does not exist", sub(path + (k, "discriminant"), 1 << 70)
        if k == "Index" and "index" in v: yield "an index that is a truth value", sub(path + (k, "index"), TRUE)
        if k == "Deref" and "ty" in v: yield "dereferencing a truth value", sub(path + (k, "operand"), TRUE)
        if k == "GetDiscriminant": yield "the discriminant of an undeclared local", sub(path + (k, "place"), {"Local": NONE})
        if k == "AddrOf": yield "the address of an undeclared local", sub(path + (k, "target"), {"Local": NONE})
        if k == "Tuple" and "sized_fields" in v and len(v["sized_fields"]) > 1:
            o = v["sized_fields"]; last = max(range(len(o)), key=lambda i: o[i][0])
            if o[last][0] > 0: yield "fields that overlap", lambda q, a=path + (k, "sized_fields"), o=o: [put(q, a + (i, 0), 0) for i in range(len(o))] if sum(1 for _, t in o if t != {"Tuple": {"sized_fields": []}}) > 1 else None
        if k == "Tuple" and "sized_fields" in v and v["sized_fields"]: yield "a tuple that ends before its fields", sub(path + (k, "sized_fields", 0, 0), 1 << 30)
        if k == "Union" and "fields" in v and v["fields"]: yield "a union field that sticks out", sub(path + (k, "fields", 0, 0), 1 << 20)
        if k == "Union" and "chunks" in v and v["chunks"]: yield "a union chunk that sticks out", sub(path + (k, "chunks", 0, 0), 1 << 20)
        if k == "Enum" and "variants" in v: yield "an enum larger than its variants", sub(path + (k, "size"), v["size"] + 64) if v["variants"] else (lambda q: None)
        if k == "Branch" and "value_type" in v: yield "a tag outside the enum", sub(path + (k, "offset"), 1 << 20)
    for i, (n, g) in enumerate(p["globals"]):
        if g["relocations"]:
            yield "a relocation of an undeclared global", sub(("globals", i, 1, "relocations", 0, 1, "name"), NONE)
            yield "a relocation beyond a global", sub(("globals", i, 1, "relocations", 0, 1, "offset"), 1 << 20)
            yield "a relocation that sticks out of its global", sub(("globals", i, 1, "relocations", 0, 0), len(g["bytes"]) - 7)
    for i, v in enumerate(p["vtables"]):
        V = ("vtables", i, 1)
        yield "a vtable of an undeclared trait", sub(V + ("trait_name",), NONE)
        yield "a vtable whose size is not a multiple of its alignment", lambda q, V=V: (put(q, V + ("size",), 3), put(q, V + ("align",), 2))
        if v[1]["methods"]: yield "a vtable without one of the methods", lambda q, V=V: at(q, V)["methods"].pop()
        if v[1]["methods"]: yield "a vtable method is an undeclared function", sub(V + ("methods", 0, 1), NONE)
        yield "a vtable with a method too many", lambda q, V=V: at(q, V)["methods"].append([NONE, p["start"]])

def extra(t, rng, thorough):
    from concurrent.futures import ThreadPoolExecutor
    def accept(a):
        i, (m, c) = a
        f = f"{t.work}/t{i}.rs"; src = c.src
        if "intrinsics" in src and "extern crate intrinsics" not in src: src = "extern crate intrinsics;\nuse intrinsics::*;\n" + src
        open(f, "w").write(src)
        r = t.mini(f, c.flags, pre=[f"-Coverflow-checks={c.ovf}"])
        return f"{m}, {c.name}: the translation is accepted", "not well-formed" not in r[2], r[2].strip()[-200:]
    PROGS = C31.PROGS + C32.PROGS[:2] + C32.MORE
    def harm(a):
        k, (n, b, i) = a
        f = f"{t.work}/h{k}.rs"; open(f, "w").write(main(b, i)); out = []
        d = t.mini(f, ["--minimize-dump=json"], pre=["-Coverflow-checks=on"])
        if d[0] != 0: return [(f"{n}: dumping", False, f"status {d[0]}: {d[2][:200]}")]
        p = json.loads(d[1])
        r = t.sh([t.minirun], inp=d[1].encode())
        out.append((f"{n}: accepted", "not well-formed" not in r[2], r[2][-200:]))
        by = {}
        for w, g in damage(p): by.setdefault(w, []).append(g)
        R = random.Random(n)
        for w, gs in by.items():
            for g in R.sample(gs, min(len(gs), 12 if thorough else 2)):
                q = copy.deepcopy(p); g(q)
                if q == p: continue
                x = json.dumps(q)
                r = t.sh([t.minirun], inp=x.encode())
                ok = r[0] == 101 and r[1] == "" and "not well-formed" in r[2]
                if not ok: open(f"{t.work}/h{k}_bad.json", "w").write(x)
                out.append((f"{n}, {w}: refused", ok, f"status {r[0]}, printed {r[1][:60]!r}, {r[2][-160:]!r}"))
        return out
    with ThreadPoolExecutor(8) as ex:
        for w, src in ZST: yield accept((w.replace(" ", "_"), ("finding", Case(w, main(*src)))))
        yield from ex.map(accept, enumerate(translated(rng, 40 if thorough else 9)))
        for o in ex.map(harm, enumerate(PROGS)): yield from o
