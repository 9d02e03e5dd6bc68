#!/usr/bin/env python3
"""Development aid: writes seeded/<id>/{patch.diff,demo.sh,demo.rs,meta.json} from the definitions below.
S(id, property, [(file, old, new)], unit, demo body, needs, breaks)"""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
PRE = {
 "mem": "use super::*;\nuse crate::libspecr::hidden::*;\nmacro_rules! target { ($n:ident, $p:expr) => {\n    #[allow(non_camel_case_types)]\n    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, GcCompat, serde::Serialize, serde::Deserialize)]\n    pub struct $n;\n    impl Target for $n {\n        const PTR_SIZE: Size = Size::from_bytes_const($p);\n        const PTR_ALIGN: Align = Align::from_bytes_const(1).unwrap();\n        const INT_MAX_ALIGN: Align = Align::from_bytes_const(4).unwrap();\n        const ENDIANNESS: Endianness = LittleEndian;\n        const MAX_ATOMIC_SIZE: Size = Size::from_bytes_const($p);\n        fn valid_size(size: Size) -> bool { size.bytes().in_bounds(Signed, Self::PTR_SIZE) }\n    }\n} }\ntarget!(ptr8, 1);\nfn sz(n: i64) -> Size { Size::from_bytes(n).unwrap() }\nfn al(n: i64) -> Align { Align::from_bytes(n).unwrap() }\n",
 "lang": "use super::*;\nuse crate::libspecr::hidden::*;\ntype M = BasicMemory<x86_64>;\nfn sz(n: i64) -> Size { Size::from_bytes(n).unwrap() }\nfn al(n: i64) -> Align { Align::from_bytes(n).unwrap() }\n",
 "prog": "use miniutil::*;\nuse miniutil::build::*;\nuse miniutil::run::*;\n",
}
MINPRE = "#![feature(core_intrinsics)]\n#![allow(internal_features)]\nextern crate intrinsics;\nuse intrinsics::*;\n#[inline(never)] fn bb<T>(t: T) -> T { t }\n"
SEEDS = {}
def S(id, prop, edits, unit, body, needs, breaks, pre=True): SEEDS[id] = (prop, edits, unit, body, needs, breaks, pre)
def write(id):
    prop, edits, unit, body, needs, breaks, pre = SEEDS[id]
    d = f"{V}/seeded/{id}"; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    diff = ""
    byf = {}
    for f, old, new in edits: byf.setdefault(f, []).append((old, new))
    for f, es in byf.items():
        s = open(f"{R}/{f}").read()
        for old, new in es:
            assert s.count(old) == 1, (id, f, s.count(old), old)
            s = s.replace(old, new)
        os.makedirs(os.path.dirname(f"{t}/b/{f}"), exist_ok=True); os.makedirs(os.path.dirname(f"{t}/a/{f}"), exist_ok=True)
        open(f"{t}/b/{f}", "w").write(s); shutil.copy(f"{R}/{f}", f"{t}/a/{f}")
    r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, stdout=subprocess.PIPE, text=True)
    open(f"{d}/patch.diff", "w").write(r.stdout)
    shutil.rmtree(t)
    if unit.startswith("min"):   # "min:EXPECTATION" or "min:EXPECTATION|FLAGS"
        e = unit[4:].split("|") + [""]
        open(f"{d}/demo.rs", "w").write(f"// expect: {e[0]}\n// flags: {e[1]}\n" + (MINPRE if pre else "") + body.strip("\n") + "\n")
        shutil.copy(f"{V}/tools/seedtpl/demo_min.sh", f"{d}/demo.sh"); os.chmod(f"{d}/demo.sh", 0o755)
    else:
        open(f"{d}/demo.rs", "w").write(f"// unit: {unit}\n" + (PRE[unit] if pre else "") + body.strip("\n") + "\n")
        shutil.copy(f"{V}/tools/seedtpl/demo.sh", f"{d}/demo.sh"); os.chmod(f"{d}/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
if __name__ == "__main__":
    import seeds
    for i in (sys.argv[1:] or SEEDS): seeds.SEEDS if False else write(i)
