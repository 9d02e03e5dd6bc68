"""How a run is reported: output streams, exit status, message; command lines of both tools; the JSON route."""
import os, re, json
from lib import Case
from gen import *
ENDINGS = [  # name, body, items, exit status, stdout, stderr (regular expression for all of it), tree borrows?
("finishes", "  print(1); eprint(2); print(-3); eprint(u128::MAX); print(i128::MIN); print(bb(0u8));", "", 0, "1\n-3\n%d\n0\n" % -(1 << 127), "2\n%d\n" % ((1 << 128) - 1)),
("prints nothing", "", "", 0, "", ""),
("interleaved streams", "  let mut i = 0u32; while i < 20 { if i % 3 == 0 { eprint(i) } else { print(i * 1000) } i += 1 }", "", 0, "".join(f"{i * 1000}\n" for i in range(20) if i % 3), "".join(f"{i}\n" for i in range(20) if i % 3 == 0)),
("prints a lot", "  let mut i = 0u32; while i < 700 { print(i); i += 1 } eprint(i)", "", 0, "".join(f"{i}\n" for i in range(700)), "700\n"),
("exits early", "  print(1); eprint(5); if bb(true) { exit() } print(2); eprint(6);", "", 0, "1\n", "5\n"),
("exits from a nested call with live locals", "  let d = D; f(3); print(9); bb(&d);", "struct D; impl Drop for D { fn drop(&mut self) { print(100) } } fn f(n: u32) { print(n); if n == 0 { eprint(1); exit() } f(n - 1); print(50) }", 0, "3\n2\n1\n0\n", "1\n"),
("exits while another thread runs", "  spawn(f, std::ptr::null()); print(1); exit();", "extern \"C\" fn f(_: *const ()) { loop {} }", 0, "1\n", ""),
("undefined behaviour", "  print(1); eprint(2); unsafe { bb(*(std::ptr::without_provenance::<u8>(bb(8)))); } print(3);", "", 101, "1\n", "2\nfatal error: UB: [^\n]+\n"),
("undefined behaviour at once", "  unsafe { bb(*(bb(std::ptr::null::<u8>()))); }", "", 101, "", "fatal error: UB: [^\n]+\n"),
("unreachable code reached", "  print(7); unsafe { std::hint::unreachable_unchecked() }", "", 101, "7\n", "fatal error: UB: [^\n]+\n"),
("panic", "  print(1); eprint(4); let a = bb([1u8; 3]); print(a[bb(3usize)]); print(2);", "", 101, "1\n", "4\nfatal error: program aborted\n"),
("explicit abort", "  print(1); eprint(4); std::process::abort();".replace("std::process::abort()", "std::intrinsics::abort()"), "", 101, "1\n", "4\nfatal error: program aborted\n"),
("division by zero", "  print(1); print(5 / bb(0u32));", "", 101, "1\n", "fatal error: program aborted\n"),
("deadlock on a lock", "  let l = create_lock(); acquire(l); print(1); eprint(2); acquire(l); print(3);", "", 101, "1\n", "2\nfatal error: program dead-locked\n"),
("deadlock between two threads", "  unsafe { A = create_lock(); B = create_lock(); acquire(A); let t = spawn(f, std::ptr::null()); print(1); join(t); print(2); }", "static mut A: usize = 0; static mut B: usize = 0; extern \"C\" fn f(_: *const ()) { unsafe { acquire(B); eprint(8); acquire(A); print(4) } }", 101, "1\n", "8\nfatal error: program dead-locked\n"),
("leak", "  print(1); eprint(2); unsafe { bb(allocate(8, 8)); } print(3);", "", 101, "1\n3\n", "2\nfatal error: program leaked memory\n"),
("leak hidden by exit", "  print(1); unsafe { bb(allocate(8, 8)); } exit();", "", None, "1\n", None),
("panic with a leak", "  unsafe { bb(allocate(8, 8)); } print(1); print([1u8][bb(1usize)]);", "", 101, "1\n", "fatal error: program aborted\n"),
("data race", "  unsafe { let t = spawn(f, std::ptr::null()); X = 1; join(t); }", "static mut X: u32 = 0; extern \"C\" fn f(_: *const ()) { unsafe { let mut i = 0; while i < 50 { X += 1; i += 1 } } }", None, "", None),
]
TBONLY = ("aliasing violation", "  print(1); let mut x = bb(1u32); let p = &raw mut x; unsafe { let r = &mut *p; *r = 2; *p = 3; print(*r); }", "")
def cases(rng, thorough):
    # the diff oracle, also for stderr
    for n, b, i, rc, so, se in ENDINGS:
        if rc == 0 and n != "exits while another thread runs": yield Case("natively: " + n, main(b, i)); yield Case("stderr: " + n, main(b, i), "ok", out=so, err=se)
def extra(t, rng, thorough):
    from concurrent.futures import ThreadPoolExecutor
    jobs = []
    def rust(n, src):
        f = f"{t.work}/x_{re.sub(r'[^a-z0-9]', '_', n)}.rs"; open(f, "w").write(src); return f
    def want(n, r, rc, so, se):
        if rc is not None and r[0] != rc: return n, False, f"exit status {r[0]} instead of {rc}; stdout {r[1][:80]!r}, stderr {r[2][:160]!r}"
        if so is not None and r[1] != so: return n, False, f"stdout is {r[1][:120]!r} instead of {so[:120]!r}"
        if se is not None and not re.fullmatch(se, r[2]): return n, False, f"stderr is {r[2][:200]!r}, which does not match /{se}/"
        return n, True, ""
    OV = ["-Coverflow-checks=on"]
    def routes(e):
        n, b, i, rc, so, se = e; out = []
        pre = "#![feature(core_intrinsics)]\n#![allow(internal_features)]\n" if "intrinsics::abort" in b else ""
        f = rust(n, pre + main(b, i))
        res = []
        d = t.mini(f, ["--minimize-dump=json"], pre=OV)
        out.append(want(f"{n}: dumping runs nothing and succeeds", d, 0, None, ""))
        j = f[:-3] + ".json"; open(j, "w").write(d[1])
        det = rc is not None
        for fl in ([], ["--minirust-tree-borrows"]):
            nm = f"{n} {' '.join(fl)}"
            rs = [("directly", t.mini(f, fl, pre=OV)), ("from a JSON file", t.minirun_([*fl, j])), ("from JSON on standard input", t.minirun_(fl, inp=d[1].encode())), ("after the round-trip check", t.mini(f, ["--minimize-check-json-roundtrip", *fl], pre=OV))]
            for how, r in rs:
                if det: out.append(want(f"{nm} {how}", r, rc, so, se))
                elif n == "leak hidden by exit": out.append(want(f"{nm} {how}", r, rs[0][1][0], so, re.escape(rs[0][1][2])))
                else: out.append(want(f"{nm} {how}", r, r[0], so, "" if r[0] == 0 else "fatal error: UB: Data race[^\n]*\n"))
            if n == "leak hidden by exit": out.append((nm, rs[0][1][0] in (0, 101), f"exit status {rs[0][1][0]}"))
        return out
    def minirun_(args, inp=b""):
        for _ in range(12):
            r = t.sh([t.minirun, *args], inp=inp)
            if "Timeout! `pick` could not find" not in r[2]: return r
        return r
    t.minirun_ = minirun_
    with ThreadPoolExecutor(8) as ex:
        for o in ex.map(routes, ENDINGS): yield from o
    # flags
    ok = rust("cli ok", main("  print(42); eprint(43);")); O, E = "42\n", "43\n"
    tbf = rust("cli tb", main(TBONLY[1])); bad = rust("cli bad", "fn main() { let x: u8 = \"\"; }")
    js = t.mini(ok, ["--minimize-dump=json"], pre=OV)[1]; jf = f"{t.work}/cli.json"; open(jf, "w").write(js)
    tbj = f"{t.work}/clitb.json"; open(tbj, "w").write(t.mini(tbf, ["--minimize-dump=json"], pre=OV)[1])
    UBR = "fatal error: UB: [^\n]+\n"
    def err(msg): return f"fatal error: {msg}\n"
    checks = [
        ("no flags", lambda: t.mini(ok), 0, O, E), ("tree borrows", lambda: t.mini(ok, ["--minirust-tree-borrows"]), 0, O, E),
        ("tree borrows before the file", lambda: t.mini(ok, pre=["--minirust-tree-borrows"]), 0, O, E),
        ("tree borrows twice", lambda: t.mini(tbf, ["--minirust-tree-borrows", "--minirust-tree-borrows"]), 101, "1\n", UBR),
        ("aliasing violation without tree borrows", lambda: t.mini(tbf), 0, "1\n3\n", ""),
        ("aliasing violation with tree borrows", lambda: t.mini(tbf, ["--minirust-tree-borrows"]), 101, "1\n", UBR),
        ("aliasing violation with tree borrows first", lambda: t.mini(tbf, pre=["--minirust-tree-borrows"]), 101, "1\n", UBR),
        ("aliasing violation and round-trip check", lambda: t.mini(tbf, ["--minimize-check-json-roundtrip", "--minirust-tree-borrows"]), 101, "1\n", UBR),
        ("aliasing violation, minirun without tree borrows", lambda: minirun_([tbj]), 0, "1\n3\n", ""),
        ("aliasing violation, minirun with tree borrows", lambda: minirun_([tbj, "--minirust-tree-borrows"]), 101, "1\n", UBR),
        ("aliasing violation, minirun with tree borrows first", lambda: minirun_(["--minirust-tree-borrows", tbj]), 101, "1\n", UBR),
        ("aliasing violation, minirun with tree borrows from standard input", lambda: minirun_(["--minirust-tree-borrows"], inp=open(tbj, "rb").read()), 101, "1\n", UBR),
        ("round-trip check", lambda: t.mini(ok, ["--minimize-check-json-roundtrip"]), 0, O, E),
        ("unknown machine flag", lambda: t.mini(ok, ["--minirust-x"]), 101, "", err("Unknown argument --minirust-x!")),
        ("unknown machine flag, prefix of a known one", lambda: t.mini(ok, ["--minirust-tree-borrow"]), 101, "", err("Unknown argument --minirust-tree-borrow!")),
        ("unknown machine flag, extension of a known one", lambda: t.mini(ok, ["--minirust-tree-borrows=off"]), 101, "", err("Unknown argument --minirust-tree-borrows=off!")),
        ("empty machine flag", lambda: t.mini(ok, ["--minirust-"]), 101, "", err("Unknown argument --minirust-!")),
        ("unknown minimize flag", lambda: t.mini(ok, ["--minimize-x"]), 101, "", err("Unknown minimize argument --minimize-x!")),
        ("misspelt minimize flag", lambda: t.mini(ok, ["--minimize-check-json-round-trip"]), 101, "", err("Unknown minimize argument --minimize-check-json-round-trip!")),
        ("dump without a kind", lambda: t.mini(ok, ["--minimize-dump"]), 101, "", err("Unknown minimize argument --minimize-dump!")),
        ("dump given twice", lambda: t.mini(ok, ["--minimize-dump=json", "--minimize-dump=json"]), 101, "", err("Argument --minimize-dump was given twice!")),
        ("two different dumps", lambda: t.mini(ok, ["--minimize-dump=pretty", "--minimize-dump=json"]), 101, "", err("Argument --minimize-dump was given twice!")),
        ("unknown dump", lambda: t.mini(ok, ["--minimize-dump=xml"]), 101, "", err("Unknown dump format xml")),
        ("empty dump", lambda: t.mini(ok, ["--minimize-dump="]), 101, "", err("Unknown dump format ")),
        ("minirun: file", lambda: minirun_([jf]), 0, O, E), ("minirun: standard input", lambda: minirun_([], inp=js.encode()), 0, O, E),
        ("minirun: flags around the file", lambda: minirun_(["--minirust-tree-borrows", jf, "--minirust-tree-borrows"]), 0, O, E),
        ("minirun: two files", lambda: minirun_([jf, jf]), 101, "", err("Can not load JSON from more than one file!")),
        ("minirun: three files", lambda: minirun_([jf, "x", jf]), 101, "", err("Can not load JSON from more than one file!")),
        ("minirun: unknown flag", lambda: minirun_([jf, "--minirust-x"]), 101, "", err("Unknown argument --minirust-x!")),
        ("minirun: unknown flag and JSON on standard input", lambda: minirun_(["--minirust-y"], inp=js.encode()), 101, "", err("Unknown argument --minirust-y!")),
        ("minirun: flag of the other tool is a file name", lambda: minirun_(["--minimize-dump=json"]), 101, "", "[\\s\\S]+"),
        ("minirun: missing file", lambda: minirun_([f"{t.work}/does-not-exist.json"]), 101, "", "[\\s\\S]+"),
        ("minirun: empty input", lambda: minirun_([]), 101, "", "[\\s\\S]+"),
        ("minirun: a Rust program", lambda: minirun_([ok]), 101, "", "[\\s\\S]+"),
        ("minirun: truncated", lambda: minirun_([], inp=js[:-1].encode()), 101, "", "[\\s\\S]+"),
        ("minirun: garbage behind the program", lambda: minirun_([], inp=(js + "x").encode()), 101, "", "[\\s\\S]+"),
        ("minirun: two programs", lambda: minirun_([], inp=(js + js).encode()), 101, "", "[\\s\\S]+"),
    ]
    r = t.mini(bad); yield "a program the compiler rejects", r[0] not in (0, 124) and r[1] == "" and "error" in r[2] and "internal compiler error" not in r[2], f"exit {r[0]}, {r[2][:200]}"
    r = t.mini(ok, ["--minimize-dump=pretty"]); yield "pretty dump runs nothing", r[0] == 0 and r[2] == "" and "print(42)" in r[1] and not re.search("^42$", r[1], re.M), f"exit {r[0]}, stdout {r[1][:100]!r}, stderr {r[2][:100]!r}"
    r = t.mini(ok, ["--minimize-dump=json"]); yield "JSON dump runs nothing", r[0] == 0 and r[2] == "" and json.loads(r[1])["start"] is not None, f"exit {r[0]}"
    r = t.mini(ok, ["--minimize-dump=json", "--minirust-tree-borrows", "--minimize-check-json-roundtrip"]); yield "JSON dump with other flags", r[0] == 0 and r[2] == "" and json.loads(r[1])["start"] is not None, f"exit {r[0]}"
    with ThreadPoolExecutor(8) as ex:
        yield from ex.map(lambda c: want("command line: " + c[0], c[1](), *c[2:]), checks)
    # an ill-formed program is reported with its own message and nothing of it runs
    p = json.loads(js)
    def broken(f):
        q = json.loads(js); f(q); return json.dumps(q)
    WF = "fatal error: program not well-formed \\(this is a bug in minimize\\):\n    [^\n]+\n"
    muts = [("unknown start function", lambda q: q.__setitem__("start", 999)), ("no functions", lambda q: q.__setitem__("functions", [])), ("start function with arguments", lambda q: q.__setitem__("start", 0) or [f[1].__setitem__("args", [f[1]["ret"]]) for f in q["functions"]]),
            ("block that does not exist", lambda q: [b[1].__setitem__("terminator", {"Goto": 77}) for f in q["functions"] for b in f[1]["blocks"]])]
    for n, m in muts:
        yield want("ill-formed: " + n, minirun_([], inp=broken(m).encode()), 101, "", WF)
