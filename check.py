#!/usr/bin/env python3
"""Decide one property of minirust/minirust by contract-based deductive verification.

usage: check.py <ID> [--thorough]

Pipeline (all from /repo's current working tree, everything is rebuilt on every run):
  1. specr-transpile /repo/spec            -> build/<ID>/src/{lang,mem,prelude,lib}.rs   (the code that runs)
  2. specx build/<ID>/src                  -> build/<ID>/gen.rs   (the same functions, as Verus spec functions)
  3. slice gen.rs to what contracts/<ID>.rs mentions; assemble with contracts/shim.rs; run Verus
  4. vacuity: every precondition must be satisfiable for the verifier (`assert(false)` must fail behind it)
  5. replay/<ID>: native harness on the transpiled crate itself (independent oracle), used to find a concrete
     failing input, and as a labelled bounded stand-in for functions out of the verifier's reach
  6. evidence/<ID>.json
"""
import sys, os, re, json, subprocess, shutil, time, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + "/tools")
from frames import frames

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TOOLCHAIN = "nightly-2026-04-01"
T0 = time.time()

def sh(cmd, **kw):
    kw.setdefault("stdout", subprocess.PIPE); kw.setdefault("stderr", subprocess.STDOUT)
    kw.setdefault("text", True)
    try:
        r = subprocess.run(cmd, **kw)
        return r.returncode, r.stdout or ""
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        return 124, (o if isinstance(o, str) else o.decode(errors="replace")) + "\n[timeout]"

def env(**kw):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", NO_COLOR="1", RUST_BACKTRACE="0", CARGO_INCREMENTAL="0", RUST_MIN_STACK="1073741824")
    for k in ("RUSTFLAGS", "CI", "GITHUB_ACTION", "GITHUB_ACTIONS", "RUSTC_WRAPPER"): e.pop(k, None)
    e.setdefault("HOME", "/root")
    if "/root/.cargo/bin" not in e.get("PATH", ""): e["PATH"] = "/root/.cargo/bin:/usr/local/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(kw); return e

def build_specx():
    exe = f"{V}/build/specx/release/specx"
    rc, out = sh(["cargo", "+stable", "build", "--offline", "--release", "--manifest-path", f"{V}/specx/Cargo.toml",
                  "--target-dir", f"{V}/build/specx"], env=env())
    if rc != 0: die("specx does not build", out)
    return exe

def die(msg, out=""):
    print("ERROR", msg); print(out[-4000:]); sys.exit(2)

# ---------------------------------------------------------------- 1. transpile
def transpile(work):
    if os.path.isdir(work): shutil.rmtree(work)
    os.makedirs(work)
    cfg = open(f"{REPO}/specr.toml").read()
    cfg = re.sub(r'(?m)^input *=.*$', f'input = "{REPO}/spec"', cfg)
    cfg = re.sub(r'(?m)^output *=.*$', f'output = "{work}/minirust-rs"', cfg)
    open(f"{work}/specr.toml", "w").write(cfg)
    rc, out = sh(["specr-transpile", f"{work}/specr.toml"], env=env(RUSTUP_TOOLCHAIN=TOOLCHAIN), cwd=work, timeout=200)
    if rc != 0 or not os.path.isfile(f"{work}/minirust-rs/src/lang.rs"): die("specr-transpile failed", out)
    return f"{work}/minirust-rs"

# ---------------------------------------------------------------- 3. slicing
DEF = re.compile(r'^pub (open spec fn|uninterp spec fn|axiom fn|proof fn) ([A-Za-z0-9_]+)', re.M)
IDENT = re.compile(r'[A-Za-z_][A-Za-z0-9_]*')

class Gen:
    """definitions of gen.rs: name -> text; axioms (name f__def) attach to f."""
    def __init__(self, text):
        self.types, self.fns, self.axioms, self.loc, self.frames = [], {}, {}, {}, {}
        blocks, cur, loc = [], [], None
        for line in text.split("\n"):
            if line.startswith("// ") and re.match(r'^// \S+\.rs:\d+ ', line):
                loc = line[3:]; continue
            if re.match(r'^(pub |#\[|impl|broadcast)', line):
                if cur and not (len(cur) >= 1 and all(c.startswith("#[") and not re.search(r"\] *pub ", c) for c in cur)):
                    blocks.append((curloc, cur)); cur = []
                if not cur: curloc = loc
            cur.append(line)
        if cur: blocks.append((curloc, cur))
        for l, b in blocks:
            t = "\n".join(b)
            m = DEF.search(t)
            if not m: self.types.append(t); continue
            if m.group(1) == "axiom fn": self.axioms[m.group(2)] = t
            else: self.fns[m.group(2)] = t; self.loc[m.group(2)] = l
        self.ids = {k: set(IDENT.findall(v)) for k, v in list(self.fns.items()) + list(self.axioms.items())}
    def reach(self, names):
        todo, seen = list(names), set()
        while todo:
            n = todo.pop()
            if n in seen: continue
            if n in self.fns or n in self.axioms:
                seen.add(n); todo.extend(self.ids[n] - seen)
                # a recursive function's termination-assumed definition comes along only when the contract uses it
        return seen

# ---------------------------------------------------------------- contract files
class Lemma:
    def __init__(self, name, text, start): self.name, self.text, self.start = name, text, start

def split_items(text):
    """split a contract file (contents of a verus! block) into top-level items"""
    items, cur, depth = [], [], 0
    for line in text.split("\n"):
        if depth == 0 and re.match(r'^(pub |proof |spec |broadcast |use |#\[|///)', line):
            if cur and not all(re.match(r'^(#\[|///|//|\s*$)', c) for c in cur):
                items.append(cur); cur = []
        cur.append(line)
        code = re.sub(r'//.*', '', line)
        depth += code.count("{") + code.count("(") - code.count("}") - code.count(")")
    if cur: items.append(cur)
    return ["\n".join(i) for i in items]

def parse_contract(path):
    items = []
    for t in split_items(open(path).read()):
        m = re.search(r'^(?:pub )?(?:open spec fn|closed spec fn|spec fn|proof fn|broadcast proof fn|uninterp spec fn) ([A-Za-z0-9_]+)', t, re.M)
        k = "proof" if re.search(r'^(?:pub )?(?:broadcast )?proof fn ', t, re.M) else "other"
        items.append(dict(name=m.group(1) if m else None, kind=k, text=t, ids=set(IDENT.findall(re.sub(r'//.*', '', t)))))
    return items

def reach_twin(it):
    """`proof fn L(..) requires R ensures E {..}`  ->  the same signature and requires, body assert(false): must fail"""
    t = re.sub(r'(?m)^\s*///.*\n', '', it["text"])
    t = re.sub(r'(?m)^#\[.*\]\n', '', t)
    m = re.search(r'(?m)^\{', t)
    if not m: return None
    head = t[:m.start()]
    head = head.replace('broadcast proof fn', 'proof fn')
    head = re.sub(r'proof fn ' + it["name"], 'proof fn reach__' + it["name"], head)
    mr = re.search(r'\n\s+requires\b', head)
    if not mr: return None
    me = re.search(r'\n\s+(ensures|decreases)\b', head)
    if me and me.start() > mr.start(): head = head[:me.start()]
    elif me: return None
    hides = " ".join(re.findall(r'\b(?:hide|reveal)\(\w+\);|\breveal_with_fuel\(\w+, \d+\);', it["text"][it["text"].index("\n{"):]))
    return "#[verifier::rlimit(2)]\n" + head.rstrip() + "\n{ " + hides + " assert(false); }\n"

HEAD = '''#![allow(unused_imports, unused_variables, dead_code, non_snake_case, non_camel_case_types, unused_parens, unused_braces, unused_mut)]
'''
def assemble(work, gen, keep, items, common, twins):
    # the functions of the MIR translation are seen through their definitions only where a lemma asks for it (reveal);
    # functions that are not on the list (helpers a change introduces) are transparent
    opaque = set(json.load(open(f"{V}/specx/boundary.json"))) if gen.frames else set()
    out, marks = [], []      # marks: (first line, last line, kind, name)
    def put(s, kind=None, name=None):
        a = sum(x.count("\n") for x in out) + 1
        out.append(s if s.endswith("\n") else s + "\n")
        if kind: marks.append((a, a + out[-1].count("\n") - 1, kind, name))
    put(HEAD)
    put("mod shim {"); put(open(f"{V}/contracts/shim.rs").read(), "shim", "shim"); put("}")
    put("mod gen { use vstd::prelude::*; use crate::shim::{Map, Set, *}; verus! {")
    for t in gen.types: put(t, "type", (IDENT.findall(t) + ["?"] * 3)[2])
    for n in list(gen.fns) + list(gen.axioms):
        if n in keep: put((f"#[verifier::opaque] " if n in opaque and gen.fns.get(n, "").startswith("pub open spec fn") else "") + (gen.fns.get(n) or gen.axioms[n]), "gen", n)
    fr = [n for n in gen.frames if n in keep and n + "_ok" in keep]
    for n in fr: put(gen.frames[n], "gen", n + "__frame")
    bf = "group_shim"
    if gen.frames:
        put("pub axiom fn frame_none() ensures true;\npub broadcast group group_frames { " + ", ".join(f"{n}__frame" for n in fr) + " }" if fr else "pub broadcast group group_frames { }", "gen", "group_frames")
        bf = "{group_shim, group_frames}"
    put("} }")
    put("mod common { use vstd::prelude::*; use vstd::arithmetic::power::*; use vstd::arithmetic::power2::*; use vstd::arithmetic::mul::*; use vstd::arithmetic::div_mod::*; use crate::shim::{Map, Set, *}; use crate::gen::*; verus! { broadcast use " + bf + ";")
    for it in common: put(it["text"], "common", it["name"])
    put("} }")
    put("mod contract { use vstd::prelude::*; use vstd::arithmetic::power::*; use vstd::arithmetic::power2::*; use vstd::arithmetic::mul::*; use vstd::arithmetic::div_mod::*; use crate::shim::{Map, Set, *}; use crate::gen::*; use crate::common::*; verus! { broadcast use " + bf + ";")
    for it in items: put(it["text"], "lemma" if it["kind"] == "proof" else "spec", it["name"])
    put("} }")
    if twins:
        put("mod reach { use vstd::prelude::*; use vstd::arithmetic::power::*; use crate::shim::{Map, Set, *}; use crate::gen::*; use crate::common::*; use crate::contract::*; verus! { broadcast use " + bf + ";")
        for it, t in twins: put(t, "reach", it["name"])
        put("} }")
    put("fn main() {}")
    f = f"{work}/all.rs"
    open(f, "w").write("".join(out))
    return f, marks

ERRPAT = re.compile(r'^error(?:\[E\d+\])?: (.*)$')
VERIF_MSG = ("postcondition not satisfied", "assertion failed", "precondition not satisfied", "could not prove termination",
             "decreases not satisfied", "unable to prove", "assertion not satisfied", "assert_by", "cannot prove", "assertion by", "loop invariant", "invariant not",
             "failed this", "unreached", "requires not satisfied")
def run_verus(f, marks, modules, rlimit, timeout, extra=()):
    cmd = ["verus", f, "--output-json", "--time", "--rlimit", str(rlimit), "--num-threads", "7", "--multiple-errors", "3"]
    for m in modules: cmd += ["--verify-module", m]
    cmd += list(extra)
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=env(), cwd=os.path.dirname(f))
        so, se = r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        so, se = "", "[timeout]"
    js = None
    i = so.find("{")
    if i >= 0:
        try: js = json.loads(so[i:])
        except Exception: js = None
    errs, lines = [], se.split("\n")
    for k, l in enumerate(lines):
        m = ERRPAT.match(l)
        if not m or m.group(1).startswith("aborting due to"): continue
        pos, primary = [], None
        for q in lines[k + 1:k + 60]:
            if ERRPAT.match(q): break
            mm = re.search(r'--> .*?:(\d+):(\d+)', q)
            if mm and primary is None: primary = int(mm.group(1))
            mm = re.match(r'^ *(\d+) \|', q)
            if mm: pos.append(int(mm.group(1)))
        msg = m.group(1)
        kind = "verify" if any(v in msg for v in VERIF_MSG) else "rlimit" if "rlimit" in msg.lower() or "resource limit" in msg.lower() else "tool"
        # a failing lemma: the span inside the contract/reach/common/gen module
        owner = None
        cands = ([primary] if primary else []) + pos
        for pref in (("reach", "lemma", "common"), ("gen", "type", "spec", "shim")):
            for p in cands:
                for a, b, kd, nm in marks:
                    if a <= p <= b and kd in pref: owner = (kd, nm); break
                if owner: break
            if owner: break
        if kind == "tool" and primary:
            for a, b, kd, nm in marks:
                if a <= primary <= b: owner = (kd, nm); break
        errs.append(dict(msg=msg, line=primary, kind=kind, owner=owner, text="\n".join(lines[k:k + 25])))
    if "[timeout]" in se: errs.append(dict(msg="verifier timeout", line=None, kind="rlimit", owner=None, text=se))
    return dict(cmd=" ".join(cmd), js=js, errs=errs, se=se, wall=time.time() - t)

def used_common(common, items):
    by = {c["name"]: c for c in common if c["name"]}
    todo = set().union(*[i["ids"] for i in items]) if items else set()
    seen, todo = set(), list(todo)
    while todo:
        n = todo.pop()
        if n in seen or n not in by: continue
        seen.add(n); todo.extend(by[n]["ids"])
    return [c for c in common if c["name"] in seen or c["name"] is None]

LOOPFN = re.compile(r"\w+__loop\d+(_ok)?")

def prove(pid, work, specx, crate, thorough):
    """returns dict describing what the verifier decided"""
    res = dict(status="undecided", failed=[], undecided=[], verified=[], notes=[], functions=[], smt_s=0.0, wall=0.0, cmd="")
    cfile = f"{V}/contracts/{pid}.rs"
    if not os.path.isfile(cfile): res["status"] = "none"; return res
    # contracts over the miniutil builder: its sources are extracted along with the specification
    # (and contracts over the MIR translation need that too)
    ctext = open(cfile).read()
    mini = bool(re.search(r"\b(mini|FnCtxt|Ctxt)__", ctext))
    bdir = [f"{REPO}/tooling/miniutil/src/build"] if mini or re.search(r"\bbuild__|Builder__", ctext) else []
    if mini: bdir += [f"{REPO}/tooling/minimize/src", f"{V}/specx/src/rustc.txt"]
    rc, out = sh([specx, f"{crate}/src", f"{V}/specx/src/builtins.txt", f"{V}/specx/structural.txt", f"{work}/gen.rs", f"{work}/rep.json"] + bdir, timeout=120)
    if rc != 0 or not os.path.isfile(f"{work}/gen.rs"):
        res["notes"].append("extraction failed: " + out[-600:]); return res
    rep = json.load(open(f"{work}/rep.json"))
    gen = Gen(open(f"{work}/gen.rs").read())
    if mini: gen.frames = frames(gen)
    items, common = parse_contract(cfile), parse_contract(f"{V}/contracts/common.rs")
    allnames = {i["name"] for i in items} | {c["name"] for c in common}
    shim_ids = set(IDENT.findall(open(f"{V}/contracts/shim.rs").read()))
    mech = lambda n: "__" in n and not n.startswith("reach__")
    dropped = {}
    tainted = {}
    for path, err in [(f["path"], f["error"]) for f in rep["functions"] if f["error"]]:
        tainted[path.replace("::", "__")] = f"outside the extracted subset: {err}"
    if mini:
        # functions of the MIR translation that are known to be (partly) outside the subset stay uninterpreted; any others
        # that fall out of it (a change brought them there) leave the contracts over them undecided
        base = json.load(open(f"{V}/specx/mini.json"))
        for f in rep["functions"]:
            if not f["file"].startswith("mini/"): continue
            n = f["path"].replace("::", "__")
            if f["error"] and base.get(f["path"]) == "opaque": tainted.pop(n, None)
            elif not f["error"]:
                known = base.get(f["path"], [])
                new = [d for d in f["dropped"] if d.split(" (line")[0] not in known] if known != "opaque" else []
                if new: tainted[n] = f"outside the extracted subset: {new[0]}"
    known_loops = set(json.load(open(f"{V}/specx/loops.json")))
    for attempt in range(12):
        # lost anchors: names with a double underscore in them that neither gen nor the shim nor the contract defines
        changed = True
        while changed:
            changed = False
            alive = [i for i in items if i["name"] not in dropped]
            for it in items + common:
                if it["name"] in dropped or it["name"] is None: continue
                why = None
                for n in it["ids"]:
                    if n in dropped and n in allnames: why = f"depends on {n}: {dropped[n]}"
                    elif mech(n) and n not in gen.fns and n not in gen.axioms and n not in shim_ids and n not in allnames: why = f"lost anchor {n}"
                if not why and tainted:
                    r = gen.reach(it["ids"])
                    for n in r | it["ids"]:
                        if n in tainted: why = f"depends on {n}: {tainted[n]}"; break
                if why: dropped[it["name"]] = why; changed = True
        live = [i for i in items if i["name"] not in dropped]
        com = used_common([c for c in common if c["name"] not in dropped], live)
        keep = gen.reach(set().union(*[i["ids"] for i in live + com]) if live else set())
        twins = [(i, reach_twin(i)) for i in live if i["kind"] == "proof"]
        twins = [(i, t) for i, t in twins if t]
        f, marks = assemble(work, gen, keep, live, com, twins)
        r = run_verus(f, marks, ["contract", "common", "gen"] + (["reach"] if twins else []), 60 if thorough else 30, 600)
        res["wall"] += r["wall"]; res["cmd"] = r["cmd"]
        tool = [e for e in r["errs"] if e["kind"] == "tool"]
        if not tool: break
        # tool errors (types, unsupported): drop what they touch and retry
        prog = False
        for e in tool:
            o = e["owner"]
            if o and o[0] in ("lemma", "spec", "common", "reach") and o[1] not in dropped:
                dropped[o[1]] = f"not accepted by the verifier front end: {e['msg']}"; prog = True
            elif o and o[0] == "gen" and o[1] not in tainted:
                tainted[o[1]] = f"not accepted by the verifier front end: {e['msg']}"; prog = True
        if not prog:
            res["notes"].append("verifier front end: " + "; ".join(e["msg"] for e in tool)[:600])
            res["undecided"] = [(i["name"], "verifier front end error") for i in items if i["kind"] == "proof"]
            return res
    json.dump(r["js"], open(f"{work}/verus.json", "w")) if r["js"] else None
    open(f"{work}/verus.err", "w").write(r["se"])
    proofs = [i["name"] for i in live if i["kind"] == "proof"]
    failed, rl, reach_failed = {}, {}, set()
    glob_rl = False
    for e in r["errs"]:
        o = e["owner"]
        if e["kind"] == "tool": continue
        if o is None: glob_rl = True; res["notes"].append(e["msg"]); continue
        if o[0] == "reach": reach_failed.add(o[1]); continue
        (failed if e["kind"] == "verify" else rl).setdefault(o[1], e)
    if r["js"] is None or "verification-results" not in (r["js"] or {}): glob_rl = True
    for n in proofs:
        if n in failed:
            # a loop that came with a change has no invariant in the contracts: whatever needs one is not decided by them
            fresh = sorted(f for f in gen.reach(next(i["ids"] for i in live if i["name"] == n)) if f in gen.fns and LOOPFN.fullmatch(f) and f not in known_loops)
            if fresh: res["undecided"].append((n, f"the loop {fresh[0]} has no invariant in the contracts"))
            else: res["failed"].append((n, failed[n]["msg"], failed[n]["text"]))
        elif n in rl or glob_rl: res["undecided"].append((n, "resource limit"))
        else: res["verified"].append(n)
    for n in failed:
        if n not in proofs:
            # an obligation of the extracted definitions themselves (termination of a loop/recursion) or a common lemma
            res["undecided"].append((n, failed[n]["msg"]))
    deps_bad = {n for n, _ in res["undecided"]}
    for n, why in dropped.items():
        if n and any(i["name"] == n and i["kind"] == "proof" for i in items): res["undecided"].append((n, why))
    vac = [i["name"] for i, _ in twins if i["name"] not in reach_failed]
    res["reach_ok"] = len(reach_failed); res["vacuous"] = vac if not glob_rl else []
    res["functions"] = sorted({n for n in keep if n in gen.fns and not n.endswith("_ok") and gen.loc.get(n)} )
    res["anchors"] = sorted({gen.loc[n] for n in res["functions"]})
    direct = set().union(*[i["ids"] for i in live]) if live else set()
    res["under_contract"] = sorted(n for n in res["functions"] if n in direct)
    res["axioms"] = sorted(n for n in keep if n in gen.axioms)
    res["uninterp"] = sorted(n for n in keep if n in gen.fns and gen.fns[n].lstrip().startswith("pub uninterp") and n not in {a[:-5] for a in gen.axioms})
    src = "\n".join(i["text"] for i in live + com)
    res["cheats"] = sorted(set(re.findall(r'\b(assume|admit|external_body|assume_specification)\b', re.sub(r'//.*', '', src))))
    if r["js"]:
        vr = r["js"].get("verification-results", {})
        res["verus_verified"] = vr.get("verified", 0); res["verus_errors"] = vr.get("errors", 0)
        try: res["smt_s"] = r["js"]["times-ms"]["smt"]["total"] / 1000
        except Exception: pass
    if res["failed"]: res["status"] = "failed"
    elif res["undecided"] or not res["verified"]: res["status"] = "undecided"
    else: res["status"] = "proved"
    return res

# ---------------------------------------------------------------- 5. harness
UNITS = ("lang", "mem", "prog")
def harness(pid, work, crate, thorough, seed):
    """native run of the transpiled crate against independent oracles"""
    res = dict(status="none", units=[], evals=0, distinct=0, fails=[], samples=[], notes=[], wall=0.0)
    units = [u for u in UNITS if os.path.isfile(f"{V}/replay/{pid}_{u}.rs")]
    if not units: return res
    ws = f"{work}/ws"
    if os.path.isdir(ws): shutil.rmtree(ws)
    os.makedirs(ws)
    shutil.copytree(crate, f"{ws}/minirust-rs")
    shutil.copytree(f"{REPO}/tooling/miniutil", f"{ws}/miniutil", ignore=shutil.ignore_patterns("target"))
    ct = open(f"{ws}/minirust-rs/Cargo.toml").read()
    ct += "\n[features]\n" + "".join(f"vh_{u} = []\n" for u in UNITS)
    open(f"{ws}/minirust-rs/Cargo.toml", "w").write(ct)
    for u in UNITS:
        if u in units and u != "prog":
            with open(f"{ws}/minirust-rs/src/{u}.rs", "a") as fh:
                fh.write(f'\n#[cfg(feature = "vh_{u}")]\n#[path = "{V}/replay/{pid}_{u}.rs"]\npub mod vh;\n')
    with open(f"{ws}/minirust-rs/src/lib.rs", "a") as fh:
        fh.write(f'\n#[path = "{V}/replay/util.rs"]\npub mod vhu;\n')
    lock = f"{REPO}/tooling/Cargo.lock"
    if os.path.isfile(lock): shutil.copy(lock, f"{ws}/Cargo.lock")
    os.makedirs(f"{ws}/h/src")
    main = "#![feature(never_type)]\n#![feature(yeet_expr)]\n#![allow(unused)]\nuse minirust_rs::vhu;\n"
    if "prog" in units: main += f'#[cfg(feature = "vh_prog")]\n#[path = "{V}/replay/{pid}_prog.rs"]\nmod prog;\n'
    main += "fn main() { vhu::start();\n"
    for u in units:
        call = "prog::run()" if u == "prog" else f"minirust_rs::{u}::vh::run()"
        main += f'  #[cfg(feature = "vh_{u}")] vhu::unit("{u}", || {call});\n'
    main += "  vhu::finish();\n}\n"
    open(f"{ws}/h/src/main.rs", "w").write(main)
    feats = "".join(f'vh_{u} = ["minirust-rs/vh_{u}"]\n' for u in UNITS)
    open(f"{ws}/h/Cargo.toml", "w").write(f'''[package]
name = "vh-{pid.lower()}"
version = "0.1.0"
edition = "2021"
[dependencies]
minirust-rs = {{ path = "../minirust-rs" }}
miniutil = {{ path = "../miniutil" }}
serde_json = "*"
[features]
{feats}''')
    open(f"{ws}/Cargo.toml", "w").write('[workspace]\nresolver = "2"\nmembers = ["miniutil", "h"]\nexclude = ["minirust-rs"]\n[profile.dev]\ndebug = 0\nopt-level = 1\n')
    tgt = f"{V}/build/target"
    def build(us):
        return sh(["cargo", "build", "--offline", "--manifest-path", f"{ws}/h/Cargo.toml", "--target-dir", tgt,
                   "--features", ",".join(f"vh_{u}" for u in us)], env=env(RUSTUP_TOOLCHAIN=TOOLCHAIN), timeout=500)
    t = time.time()
    ok_units = units
    rc, out = build(units)
    if rc != 0:
        ok_units = []
        open(f"{work}/harness_build.err", "w").write(out)
        errs = [l for l in out.split("\n") if l.startswith("error")]
        res["notes"].append("a harness unit does not build against this tree: " + "; ".join(errs[:3]))
        for u in units:
            if len(units) > 1 and build([u])[0] == 0: ok_units.append(u)
        if len(ok_units) > 1: build(ok_units)
        elif len(ok_units) == 1: build(ok_units)
    res["units"] = ok_units; res["build_s"] = time.time() - t
    if not ok_units: res["status"] = "nobuild"; return res
    t = time.time()
    outf = f"{work}/harness.out"
    tier = "thorough" if thorough else "quick"
    budget = 400 if thorough else 60
    with open(outf, "w") as fh:
        try:
            p = subprocess.run([f"{tgt}/debug/vh-{pid.lower()}"], stdout=fh, stderr=subprocess.STDOUT, cwd=work, timeout=budget + 120,
                               env=env(VERIF_SEED=str(seed), VERIF_TIER=tier, VH_BUDGET=str(budget)))
            rc = p.returncode
        except subprocess.TimeoutExpired: rc = 124
    res["wall"] = time.time() - t
    out = open(outf, errors="replace").read()
    done = False
    for l in out.split("\n"):
        if l.startswith("VH-FAIL "): res["fails"].append(l[8:])
        elif l.startswith("VH-SAMPLE "): res["samples"].append(l[10:])
        elif l.startswith("VH-DONE "):
            done = True
            m = dict(x.split("=") for x in l[8:].split()); res["evals"] = int(m["evals"]); res["distinct"] = int(m["distinct"])
        elif l.startswith("VH-NOTE "): res["notes"].append(l[8:])
        elif l.startswith("VH-KNOWN "): res.setdefault("known", []).append(l[9:])
    if not done and not res["fails"]:
        res["notes"].append(f"harness ended early (rc={rc}): " + out[-400:].replace("\n", " | "))
        if rc not in (124, 137, -9):
            # the code under test took the process down (stack overflow, abort): that is a failing run
            res["fails"].append(f"the harness process died (status {rc}) while running the real code; seed {seed}; last output: " + out[-300:].replace("\n", " | "))
            res["status"] = "fail"
        else: res["status"] = "timeout"
        return res
    res["status"] = "fail" if res["fails"] else "pass"
    return res

# ---------------------------------------------------------------- main
def known_findings(pid):
    out, f = [], f"{V}/known-findings.jsonl"
    if os.path.isfile(f):
        for l in open(f):
            l = l.strip()
            if not l: continue
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "known": out.append(d)
    return out

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    pid = args[0]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = f"{V}/build/{pid}"
    os.makedirs(f"{V}/build", exist_ok=True); os.makedirs(f"{V}/evidence", exist_ok=True)
    meta = json.load(open(f"{V}/contracts/meta.json")).get(pid, {})
    specx = build_specx()
    crate = transpile(work)
    pr = prove(pid, work, specx, crate, thorough) if "--no-proof" not in sys.argv else dict(status="none", failed=[], undecided=[], verified=[], notes=[], functions=[])
    ha = harness(pid, work, crate, thorough, seed) if "--no-harness" not in sys.argv else dict(status="none", units=[], evals=0, distinct=0, fails=[], samples=[], notes=[])
    if "--no-e2e" not in sys.argv:
        sys.path.insert(0, f"{V}/e2e")
        import lib as e2e
        ee = e2e.run(pid, REPO, crate, env(), seed, thorough, work)
        if ee["status"] != "none":
            for k in ("evals", "distinct"): ha[k] += ee[k]
            for k in ("fails", "samples", "notes"): ha[k] += ee[k]
            ha["units"] = ha["units"] + ["end-to-end"]; ha["wall"] = ha.get("wall", 0) + ee["wall"]; ha["e2e"] = ee["evals"]
            ha["status"] = "fail" if "fail" in (ha["status"], ee["status"]) else "pass" if "pass" in (ha["status"], ee["status"]) else ee["status"]
    known = known_findings(pid)
    fails, known_hit = [], []
    for f in ha["fails"]:
        k = next((d for d in known if re.search(d["match"], f)), None)
        (known_hit if k else fails).append((f, k) if k else f)
    pfailed = [x for x in pr["failed"]]
    violation, tail = False, ""
    replay = f"{work}/replay.txt"
    rp = []
    if fails:
        violation = True
        rp.append("failing inputs on the real (transpiled) code, found by the harness:"); rp += fails[:40]
    if pfailed:
        if not fails: violation, tail = True, " no-failing-input-found"
        rp.append("\nobligations the verifier rejects:")
        for n, msg, text in pfailed: rp += [f"* {n}: {msg}", text, ""]
    vac = pr.get("vacuous") or []
    cheats = pr.get("cheats") or []
    problems = []
    if vac: problems.append("vacuous precondition: " + ", ".join(vac))
    if cheats: problems.append("trusted statement in the contract file: " + ", ".join(cheats))
    decided = pr["status"] in ("proved", "failed") or ha["status"] in ("pass", "fail")
    level = "proof" if pr["status"] == "proved" else meta.get("fallback_level", "exploration")
    if pr["status"] == "failed": level = "proof"
    nob = len(pr["verified"]) + len(pr["failed"]) + len(pr["undecided"])
    cov = dict(obligations=nob, discharged=len(pr["verified"]), checker_cmd=pr.get("cmd") or "none",
               back_end="Verus 0.2026.09.13 (Z3)", solver_time_s=round(pr.get("smt_s", 0.0), 2), verifier_wall_s=round(pr.get("wall", 0.0), 1),
               verus_items_verified=pr.get("verus_verified", 0),
               obligations_discharged=pr["verified"], obligations_rejected=[n for n, *_ in pr["failed"]],
               obligations_undecided=[dict(name=n, why=w) for n, w in pr["undecided"]],
               functions_under_contract=pr.get("under_contract", []), functions_in_slice=len(pr.get("functions", [])), anchors=pr.get("anchors", [])[:200],
               vacuity=dict(preconditions_shown_reachable=pr.get("reach_ok", 0), vacuous=vac),
               trusted_base=meta.get("trusted", []) + [
                   "Verus and Z3", "specx (mechanical extraction of the transpiled specification into Verus spec functions; droppings listed in DESIGN.md)",
                   "specr-transpile", "contracts/shim.rs: definitions of the libspecr/std operations"]
                   + [f"termination-assumed definitional axiom {a}" for a in pr.get("axioms", [])]
                   + [f"abstract (uninterpreted) {u}" for u in pr.get("uninterp", [])],
               bounded=dict(label="bounded: sampled/enumerated inputs on the real code; never counted as proved", units=ha["units"],
                            evaluations=ha["evals"], distinct_nontrivial=ha["distinct"], scope=meta.get("harness", "")),
               evaluations=ha["evals"], distinct_nontrivial=ha["distinct"],
               rule=meta.get("rule", "cases are generated from VERIF_SEED against an independent oracle; distinct = distinct case descriptions that exercised the property"),
               samples=ha["samples"][:20] or ["(no harness)"], notes=pr["notes"] + ha["notes"] + problems)
    if ha["status"] == "none":
        for k in ("evaluations", "distinct_nontrivial", "rule", "samples"): cov.pop(k, None)
    ev = dict(property=pid, tier="thorough" if thorough else "quick", seed=seed, level=level, coverage=cov,
              assumptions=meta.get("assumptions", []) + ["loops and closures of the extracted functions are the code's own; integers are the code's BigInt, so machine arithmetic is exact",
                   "strings (error messages) are erased by the extraction", "panics inside closures that are returned from functions are not tracked"],
              wall_s=round(time.time() - T0, 1), violations=len(fails) + (len(pfailed) if not fails else 0))
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid}: proof {pr['status']} ({len(pr['verified'])}/{nob} obligations, {pr.get('wall',0):.1f}s), harness {ha['status']} ({ha['evals']} evaluations, {ha.get('wall',0):.1f}s), total {time.time()-T0:.1f}s")
    for n, w in pr["undecided"]: print(f"  undecided {n}: {w}")
    for n in pr["notes"] + ha["notes"]: print("  note:", n)
    for n, msg, _ in pr["failed"]: print(f"  rejected obligation {n}: {msg}")
    for f in fails[:10]: print("  failing input:", f)
    seen = set()
    for f, k in known_hit:
        if k["id"] not in seen:
            seen.add(k["id"]); print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if violation:
        open(replay, "w").write("\n".join(rp) + "\n")
        print(f"VIOLATION property={pid} replay={replay}{tail}")
        sys.exit(1)
    if problems: die("; ".join(problems))
    if not decided: die("nothing could be decided on this tree", "\n".join(pr["notes"] + ha["notes"]))
    sys.exit(0)


if __name__ == "__main__": main()
