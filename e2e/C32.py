"""Programs exchanged as JSON: same outcome as run directly; damaged text is refused and nothing runs."""
import os, re, json
from gen import *
from C31 import PROGS
MORE = [
 ("big integers", "  print(u128::MAX); print(i128::MIN); print(bb(u128::MAX) >> 3); print(bb(i128::MAX) - 5); print(u64::MAX); print(bb(-1i8)); print((bb(3u128) << 100) + 7);", ""),
 ("floating through structures", "  let s = S { a: (1, [2, 3]), b: Some(4), c: None, d: () }; print(s.a.0); print(s.a.1[1]); print(s.b.unwrap()); print(s.c.is_none() as u8); bb(s.d);", "struct S { a: (u8, [i16; 2]), b: Option<u32>, c: Option<u64>, d: () }"),
 ("undefined behaviour", "  print(1); unsafe { bb(*(std::ptr::without_provenance::<u8>(bb(8)))); }", ""), ("panic", "  print(2); let a = bb([1]); print(a[bb(1usize)]);", ""), ("leak", "  print(3); unsafe { bb(allocate(4, 4)); }", ""),
 ("statics with pointers", "  unsafe { print(**Q); print(A[2]); print(*E.add(1)); }", "static X: i32 = -7; static P: &i32 = &X; static Q: &&i32 = &P; static A: [u8; 3] = [1, 2, 3]; static mut B: [u16; 3] = [7, 8, 9]; static mut E: *const u16 = unsafe { (&raw const B as *const u16).wrapping_add(1) };"),
 ("string slices and fat pointers", "  let s: &str = bb(\"hello\"); print(s.len()); print(s.as_bytes()[4]); let v: &[u32] = bb(&[4, 5, 6]); print(v[1..][1]);", ""),
]
def cases(rng, thorough): return iter(())
def extra(t, rng, thorough):
    from concurrent.futures import ThreadPoolExecutor
    OV = ["-Coverflow-checks=on"]
    def minirun(args, inp=b""): return t.sh([t.minirun, *args], inp=inp)
    def go(a):
        k, (n, b, i) = a
        f = f"{t.work}/j{k}.rs"; open(f, "w").write(main(b, i)); out = []
        d = t.mini(f, ["--minimize-dump=json"], pre=OV)
        if d[0] != 0: return [(f"{n}: dumping", False, f"status {d[0]}: {d[2][:200]}")]
        raw = d[1].encode(); j = f[:-3] + ".json"; open(j, "wb").write(raw)
        for fl in ([], ["--minirust-tree-borrows"]):
            want = t.mini(f, fl, pre=OV)[:3]
            for how, r in (("from a file", minirun([*fl, j])), ("from standard input", minirun(fl, raw)), ("flag last", minirun([j, *fl])), ("with the round-trip check", t.mini(f, ["--minimize-check-json-roundtrip", *fl], pre=OV)),
                           ("re-indented", minirun(fl, json.dumps(json.loads(raw), indent=1).encode()))):
                r = r[:3]
                out.append((f"{n} {how} {' '.join(fl)}", tuple(r) == tuple(want), f"{r!r} instead of {want!r}"[:300]))
        if k < 6:
            muts = [("truncated", raw[:len(raw) // 2]), ("last brace missing", raw.rstrip()[:-1]), ("followed by garbage", raw + b"x"), ("two programs", raw + raw), ("empty", b""), ("without start", json.dumps({k: v for k, v in json.loads(raw).items() if k != "start"}).encode()),
                    ("without functions", json.dumps({k: v for k, v in json.loads(raw).items() if k != "functions"}).encode()), ("start is a string", json.dumps({**json.loads(raw), "start": "main"}).encode()), ("binary garbage", bytes(range(256))),
                    ("unknown operator", re.sub(rb'"Goto"', b'"Jump"', raw, count=1) if b'"Goto"' in raw else b"[")]
            for m, x in muts:
                q = f"{t.work}/j{k}_bad.json"; open(q, "wb").write(x)
                for how, r in (("from standard input", minirun([], x)), ("from a file", minirun([q]))):
                    out.append((f"{n}, {m}, {how}: refused", r[0] not in (0, None) and r[1] == "", f"status {r[0]}, printed {r[1][:60]!r}"))
        return out
    with ThreadPoolExecutor(8) as ex:
        for o in ex.map(go, enumerate(PROGS + MORE)): yield from o
    r = minirun(["/nonexistent/x.json"]); yield "a missing file is an error", r[0] != 0 and r[1] == "", f"status {r[0]}"
