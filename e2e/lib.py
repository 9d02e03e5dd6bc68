"""End-to-end runs of the real tool chain (minimize -> MiniRust machine), built from the repository's working tree.

A case is a Rust program with an expectation that does not come from the code under test:
  diff   the same text compiled by rustc and run natively (against native/intrinsics.rs, our own stand-in for the
         intrinsics crate) must print the same and exit the same way
  ok     must print exactly `out` and exit 0
  ub     must be reported as undefined behaviour
  other  the error line must match `out` (regular expression), exit status 101
Bounded: these are sampled programs, labelled as such, never counted as proved.
"""
import os, re, sys, subprocess, hashlib, shutil, random, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLCHAIN = "nightly-2026-04-01"

# what generated programs may use although the tool declares it unsupported
UNSUPPORTED = r"TyKind not supported: pattern_type|NonDivergingIntrinsic not supported: CopyNonOverlapping|Constant Unions are currently not supported|ptr to ptr cast on non-raw-pointer"

class Case:
    def __init__(self, name, src, mode="diff", out=None, flags=(), why="", rnd=False, err=None, reps=1, ovf=True):
        self.ovf = "on" if ovf else "off"; self.reps = reps; self.name, self.src, self.mode, self.out, self.flags, self.why, self.rnd, self.err = name, src, mode, out, list(flags), why, rnd, err

class Tool:
    def __init__(self, repo, crate, env):
        self.repo, self.crate = repo, crate
        self.env = dict(env); self.env["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
        self.env["CARGO_PROFILE_DEV_DEBUG"] = "0"; self.env["CARGO_PROFILE_DEV_OPT_LEVEL"] = "1"
        self.dir, self.tgt = f"{V}/build/tool", f"{V}/build/mt"
        self.notes = []

    def _sync(self, src, dst, skip=()):
        os.makedirs(dst, exist_ok=True)
        want = set()
        for root, ds, fs in os.walk(src):
            rel = os.path.relpath(root, src)
            ds[:] = [d for d in ds if d not in ("target",) and os.path.normpath(os.path.join(rel, d)) not in skip]
            for f in fs:
                a = os.path.join(root, f); r = os.path.normpath(os.path.join(rel, f)); b = os.path.join(dst, r)
                want.add(r)
                os.makedirs(os.path.dirname(b), exist_ok=True)
                data = open(a, "rb").read()
                if os.path.isfile(b) and open(b, "rb").read() == data: continue
                open(b, "wb").write(data)
        for root, ds, fs in os.walk(dst):
            rel = os.path.relpath(root, dst)
            ds[:] = [d for d in ds if os.path.normpath(os.path.join(rel, d)) not in skip and d != "target"]
            for f in fs:
                r = os.path.normpath(os.path.join(rel, f))
                if r not in want and r != ".stamp": os.remove(os.path.join(root, f))

    def build(self):
        """returns None or an error text"""
        h = hashlib.sha256()
        for root, ds, fs in sorted(os.walk(f"{self.repo}/spec")):
            for f in sorted(fs): h.update(os.path.join(root, f)[len(self.repo):].encode()); h.update(open(os.path.join(root, f), "rb").read())
        h.update(open(f"{self.repo}/specr.toml", "rb").read())
        stamp = f"{self.dir}/.stamp"
        self._sync(f"{self.repo}/tooling", self.dir, skip=("minirust-rs", "minimize/intrinsics/target"))
        if not (os.path.isfile(stamp) and open(stamp).read() == h.hexdigest() and os.path.isfile(f"{self.dir}/minirust-rs/src/lang.rs")):
            if os.path.isdir(f"{self.dir}/minirust-rs"): shutil.rmtree(f"{self.dir}/minirust-rs")
            shutil.copytree(self.crate, f"{self.dir}/minirust-rs")
            open(stamp, "w").write(h.hexdigest())
        r = self.sh(["cargo", "build", "--offline", "-p", "minimize", "-p", "minirun", "--target-dir", self.tgt, "--manifest-path", f"{self.dir}/Cargo.toml"], timeout=600)
        if r[0] != 0: return "minimize does not build: " + r[1][-1500:]
        rc, sr, _ = self.sh(["rustc", "--print", "sysroot"])
        self.rustc_sysroot = sr.strip()
        self.env["LD_LIBRARY_PATH"] = f"{self.rustc_sysroot}/lib"
        self.minimize, self.minirun = f"{self.tgt}/debug/minimize", f"{self.tgt}/debug/minirun"
        # the MIR-encoded standard library: minimize acting as rustc builds it
        st = hashlib.sha256(open(f"{self.repo}/tooling/minimize/src/main.rs", "rb").read() + open(f"{self.repo}/tooling/minimize/src/sysroot.rs", "rb").read()).hexdigest()
        given = "/opt/vp/cache/minirust-sysroot"
        self.sysroot = f"{V}/build/sysroot-{st[:16]}"
        if not os.path.isfile(self.sysroot + "/.ok"):
            if os.path.isfile(given + ".stamp") and open(given + ".stamp").read().split()[0:1] == [st] and os.path.isdir(given + "/lib"):
                self.sysroot = given
            else:
                for d in os.listdir(f"{V}/build"):
                    if d.startswith("sysroot-"): shutil.rmtree(f"{V}/build/{d}")
                r = self.sh([self.minimize], timeout=300, MINIRUST_SYSROOT=self.sysroot, MINIMIZE_BUILD_SYSROOT="only")
                if r[0] != 0: return "the sysroot does not build: " + (r[1] + r[2])[-1500:]
                open(self.sysroot + "/.ok", "w").write("ok")
        self.work = f"{V}/build/e2e"
        if os.path.isdir(self.work): shutil.rmtree(self.work)
        os.makedirs(self.work)
        r = self.sh([self.minimize, f"--sysroot={self.sysroot}", "--crate-type", "lib", "--crate-name", "intrinsics", "--edition", "2021", "--emit=metadata",
                     "-o", f"{self.work}/libintrinsics.rmeta", f"{self.dir}/minimize/intrinsics/src/lib.rs"], timeout=100, MINIMIZE_BE_RUSTC="1", MINIMIZE_BUILD_SYSROOT="off")
        if r[0] != 0: return "the intrinsics crate does not build: " + (r[1] + r[2])[-1500:]
        self.native = f"{self.work}/native"; os.makedirs(self.native)
        r = self.sh(["rustc", "--crate-type", "rlib", "--crate-name", "intrinsics", "--edition", "2021", "-o", f"{self.native}/libintrinsics.rlib", f"{V}/e2e/native_intrinsics.rs"], timeout=100)
        if r[0] != 0: return "native stand-in does not build: " + (r[1] + r[2])[-1500:]
        return None

    def sh(self, cmd, timeout=60, cwd=None, inp=None, **kw):
        e = dict(self.env); e.update(kw)
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd or V + "/build", input=inp)
            return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired as x:
            return 124, (x.stdout or b"").decode(errors="replace"), (x.stderr or b"").decode(errors="replace") + "[timeout]"

    def mini(self, f, flags=(), timeout=40, pre=()):
        # libspecr's random search for a choice satisfying a predicate gives up after 50 attempts: try again
        for _ in range(12):
            r = self._mini(f, flags, timeout, pre)
            if "Timeout! `pick` could not find" not in r[2]: return r
        return r
    def _mini(self, f, flags, timeout, pre):
        return self.sh([self.minimize, f"--sysroot={self.sysroot}", "--edition", "2021", "--extern", f"intrinsics={self.work}/libintrinsics.rmeta", "-Awarnings", *pre, f, *flags], timeout=timeout, MINIMIZE_BUILD_SYSROOT="off")

    def run_native(self, f, exe, ovf="on"):
        r = self.sh(["rustc", "--edition", "2021", "-Awarnings", "-Copt-level=0", "-Cdebuginfo=0", "-Cdebug-assertions=off", f"-Coverflow-checks={ovf}", "--extern", f"intrinsics={self.native}/libintrinsics.rlib", "-o", exe, f], timeout=100)
        if r[0] != 0: return None, r[2]
        r = self.sh([exe], timeout=30)
        if os.path.isfile(exe): os.remove(exe)
        return r, ""

def last_err(e):
    ls = [l for l in e.split("\n") if l.strip()]
    for l in ls:
        if "internal compiler error: minimize" in l: return l[l.index("minimize"):][:200]
    for i, l in enumerate(ls):
        if "panicked at" in l and i + 1 < len(ls): return (l[l.index("panicked at"):][-60:] + " " + ls[i + 1])[:200]
    for l in ls:
        if "fatal error" in l or "internal compiler error" in l or l.startswith("error"): return l[:200]
    return (ls[-1] if ls else "")[:200]

def run_case(t, i, c):
    f = f"{t.work}/c{i}.rs"
    src = c.src
    if "intrinsics" in src and "extern crate intrinsics" not in src: src = "extern crate intrinsics;\nuse intrinsics::*;\n" + src
    open(f, "w").write(src)
    # the same setting of overflow checks on both sides (on, the debug profile's, unless the case says otherwise)
    if c.mode == "race":
        for k in range(c.reps):
            rc, so, se = t.mini(f, c.flags, pre=[f"-Coverflow-checks={c.ovf}"])
            if rc == 101 and "fatal error: UB: Data race" in se: return c, "ok", "", f
            if rc != 0: return c, "fail", f"a racy program ends with exit {rc}: {last_err(se)}", f
        return c, "fail", f"no data race reported in {c.reps} runs", f
    for k in range(c.reps - 1):
        r = judge(t, i, c, f, *t.mini(f, c.flags, pre=[f"-Coverflow-checks={c.ovf}"]))
        if r[1] != "ok": return r
    return judge(t, i, c, f, *t.mini(f, c.flags, pre=[f"-Coverflow-checks={c.ovf}"]))

def judge(t, i, c, f, rc, so, se):
    if rc == 124: return c, "fail", f"no answer within the time limit (program {c.name})", f
    if "internal compiler error" in se or "thread 'rustc'" in se or (rc not in (0, 101)) or (rc != 0 and "fatal error" not in se):
        n, err = t.run_native(f, f"{t.work}/n{i}", c.ovf)
        if n is None: return c, "bad", "the native compiler rejects the case: " + next((l for l in err.split("\n") if l.startswith("error")), "")[:150], f
        if c.rnd and re.search(UNSUPPORTED, se): return c, "skip", last_err(se), f
        return c, "fail", f"the tool gives up or crashes instead of running the program: {last_err(se)}", f
    if "not well-formed" in se: return c, "fail", "translated to an ill-formed program: " + se.strip()[-200:], f
    if c.mode == "ub":
        if rc == 101 and "fatal error: UB" in se: return c, "ok", "", f
        return c, "fail", f"undefined behaviour not reported: exit {rc}, printed {so.split()[:8]}, {last_err(se)}", f
    if c.mode == "other":
        if rc == 101 and re.search(c.out, se): return c, "ok", "", f
        return c, "fail", f"expected exit 101 with /{c.out}/, got exit {rc}: {last_err(se)}", f
    if c.mode == "ok":
        want_rc, want = 0, c.out or ""
        if c.err is not None and se != c.err: return c, "fail", f"stderr should be {c.err!r}, is {se[:200]!r}", f
    else:
        n, err = t.run_native(f, f"{t.work}/n{i}", c.ovf)
        if n is None: return c, "bad", "the native compiler rejects the case: " + next((l for l in err.split("\n") if l.startswith("error")), "")[:150], f
        if n[0] not in (0, 101, 134, -6, 132, -4): return c, "bad", f"native run ended with {n[0]}: {n[2][-300:]}", f
        want_rc, want = (0 if n[0] == 0 else 101), n[1]
    if "fatal error: UB" in se: return c, "fail", f"a well-defined program is reported as undefined behaviour: {last_err(se)}; printed {len(so.split())} of {len(want.split())} values", f
    if rc != want_rc: return c, "fail", f"exit status {rc} instead of {want_rc}: {last_err(se)}", f
    if so != want:
        a, b = so.split("\n"), want.split("\n")
        k = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
        return c, "fail", f"line {k+1} of the output is {a[k] if k < len(a) else '(missing)'} instead of {b[k] if k < len(b) else '(nothing)'}", f
    return c, "ok", "", f

def run(pid, repo, crate, env, seed, thorough, work):
    """returns a result dict like the harness's"""
    res = dict(status="none", evals=0, distinct=0, fails=[], samples=[], notes=[], wall=0.0)
    path = f"{V}/e2e/{pid}.py"
    if not os.path.isfile(path): return res
    t0 = time.time()
    sys.path.insert(0, f"{V}/e2e")
    t = Tool(repo, crate, env)
    err = t.build()
    if err: res["status"] = "nobuild"; res["notes"].append(err); return res
    res["build_s"] = time.time() - t0
    mod = __import__(pid)
    rng = random.Random(seed * 1000003 + sum(map(ord, pid)))
    cases = list(mod.cases(rng, thorough))
    budget = 600 if thorough else 150
    stop = time.time() + budget
    seen = set()
    def go(a):
        if time.time() > stop: return a[1], "late", "", ""
        return run_case(t, a[0], a[1])
    with ThreadPoolExecutor(8) as ex: out = list(ex.map(go, enumerate(cases)))
    late = sk = 0; skm = {}
    for c, st, msg, f in out:
        if st == "late": late += 1; continue
        if st == "skip": sk += 1; skm[msg[-90:]] = c.name; continue
        if st == "bad": res["notes"].append(f"bad case {c.name}: {msg}"); continue
        res["evals"] += 1
        k = hashlib.sha256((c.src + c.mode + c.ovf + " ".join(c.flags)).encode()).hexdigest()
        if k not in seen: seen.add(k); res["distinct"] += 1
        if st == "fail":
            d = f"{work}/fail"; os.makedirs(d, exist_ok=True)
            nm = re.sub(r'[^A-Za-z0-9_.-]', '_', c.name)[:60] + ".rs"
            shutil.copy(f, f"{d}/{nm}")
            res["fails"].append(f"e2e {c.name}: {msg} [program: {d}/{nm}, mode {c.mode}, flags {' '.join(c.flags) or 'none'}]")
        elif len(res["samples"]) < 6 and res["evals"] % 7 == 1: res["samples"].append(f"e2e {c.name} ({c.mode})")
    if late: res["notes"].append(f"{late} of {len(cases)} programs not run within the time budget")
    if sk: res["notes"].append(f"{sk} generated programs use features the tool does not support: " + "; ".join(f"{b}: {a}" for a, b in list(skm.items())[:4]))
    extra = getattr(mod, "extra", None)
    if extra:
        for name, ok, msg in extra(t, rng, thorough):
            res["evals"] += 1; res["distinct"] += 1
            if not ok: res["fails"].append(f"e2e {name}: {msg}")
    res["status"] = "fail" if res["fails"] else "pass"
    res["wall"] = time.time() - t0
    return res
