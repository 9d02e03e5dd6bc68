"""Frame conditions of the extracted MIR translation.

For each extracted function with a state parameter `this: FnCtxt | Ctxt` that returns the new state, the set of state fields
its body (and everything it calls on that state) can assign is computed from the extracted text; the fields outside that set
are unchanged whenever the function accepts its input. The result is one broadcast axiom per function, `X__frame`.
Anything the analysis does not recognise counts as assigning every field."""
import re

IDENT = re.compile(r'[A-Za-z_][A-Za-z0-9_]*')
HEAD = re.compile(r'^pub (?:open |uninterp )?(?:spec|axiom) fn (\w+)\((.*?)\) (?:-> (.*?))?(?: \{|;|$| ensures)', re.M)

def split_params(s):
    out, depth, cur = [], 0, ""
    for c in s:
        if c in "<([": depth += 1
        if c in ">)]": depth -= 1
        if c == "," and depth == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return [tuple(x.strip() for x in p.split(":", 1)) for p in out]

def header(text):
    l = text.split("\n")[0]
    m = re.match(r'pub (?:open |uninterp )?spec fn (\w+)\(', l)
    if not m: return None
    i, depth = m.end(), 1
    while depth and i < len(l):
        depth += {"(": 1, ")": -1}.get(l[i], 0); i += 1
    params = split_params(l[m.end():i - 1])
    r = re.match(r'\s*->\s*(.*?)\s*(;|\{.*)?$', l[i:])
    return m.group(1), params, (r.group(1) if r else None)

def fields_of(gen, ty):
    for t in gen.types:
        m = re.search(r'pub struct %s\s*\{(.*?)\n\}' % ty, t, re.S)
        if m: return re.findall(r'pub (\w+):', m.group(1))
    return []

def frames(gen):
    ff, cf = fields_of(gen, "FnCtxt"), fields_of(gen, "Ctxt")
    if not ff or not cf or "cx" not in ff: return {}
    info = {}
    for n, t in gen.fns.items():
        if n.endswith("_ok") or not re.match(r'(FnCtxt|Ctxt|mini)__', n): continue
        h = header(t)
        if not h: continue
        st = dict(h[1]).get("this")
        if st not in ("FnCtxt", "Ctxt"): continue
        body = gen.axioms.get(n + "__def") or t
        if t.startswith("pub uninterp") and n + "__def" not in gen.axioms: body = None
        info[n] = dict(params=h[1], ret=h[2], st=st, body=body)
    ALL = {"FnCtxt": {f for f in ff if f != "cx"} | {"cx." + c for c in cf}, "Ctxt": {"cx." + c for c in cf}}
    mods = {}
    for n, f in info.items():
        b, st, m = f["body"], f["st"], set()
        if not re.search(r'\b(FnCtxt|Ctxt)\b', f["ret"] or ""): mods[n] = set(); continue      # returns no state
        if b is None: mods[n] = set(ALL[st]); continue
        bad = False
        # every rebinding of `this`
        src = {}                       # variable -> function whose first component it is
        for v, g in re.findall(r'let \((p\d+__)(?:, \w+)*\) = (\w+)', b): src[v] = g
        for v in re.findall(r'let this = (?=(.*?);\n)', b):
            v = v.strip()
            if v.startswith("{") or v.startswith("match ") or v == "this": continue     # a join: its branches end in `this`
            mm = re.match(r'(FnCtxt|Ctxt) \{ (.*), \.\.this \}$', v)
            if re.match(r'p\d+__$', v):
                if not (src.get(v) in info): bad = True
            elif re.match(r'\w+__\w+\(', v):
                if v.split("(")[0] not in info: bad = True
            elif mm and mm.group(1) == st:
                inner = mm.group(2)
                q = re.match(r'(\w+): (\S+)$', inner)
                c = re.match(r'cx: Ctxt \{ (\w+): (\S+), \.\.this\.cx \}$', inner)
                if c and st == "FnCtxt": m.add("cx." + c.group(1))
                elif q and st == "Ctxt" and q.group(1) in cf: m.add("cx." + q.group(1))
                elif q and q.group(1) == "cx":
                    if src.get(q.group(2)) not in info or info[src[q.group(2)]]["st"] != "Ctxt": bad = True
                elif re.match(r'\w+: [^{}]*$', inner) and inner.split(":")[0] in ff: m.add(inner.split(":")[0])
                else: bad = True
            else: bad = True
        # inline updates that are not `let this =` (struct updates elsewhere) and whole states built from nothing
        for ty, inner in re.findall(r'\b(FnCtxt|Ctxt) \{ (.*?)\}', b):
            if ".." not in inner: bad = True
        for fld in re.findall(r'\bFnCtxt \{ (\w+):', b):
            if fld != "cx": m.add(fld)
        for fld in re.findall(r'\bCtxt \{ (\w+):', b):
            if fld in cf: m.add("cx." + fld)
        mods[n] = set(ALL[st]) if bad else m
    changed = True
    calls = {n: ({i for i in IDENT.findall(f["body"])} & set(info)) if f["body"] else set() for n, f in info.items()}
    while changed:
        changed = False
        for n in info:
            if info[n]["body"] is None: continue
            for g in calls[n]:
                add = {x for x in mods[g] if info[n]["st"] == "FnCtxt" or x.startswith("cx.")} - mods[n]
                if add: mods[n] |= add; changed = True
    out = {}
    for n, f in info.items():
        ret, st = f["ret"] or "", f["st"]
        args = ", ".join(p for p, _ in f["params"])
        call = f"{n}({args})"
        if ret == st: acc, guard = "r__", None
        elif ret.startswith(f"({st},") or ret.startswith(f"({st} "): acc, guard = "r__.0", None
        elif re.match(r'Flow<.*, \(%s, .*\)>$' % st, ret): acc, guard = "(r__->Cont_0).0", "r__ is Cont"
        else: continue
        keep = sorted(ALL[st] - mods[n])
        if not keep: continue
        eqs = []
        if st == "FnCtxt":
            eqs += [f"{acc}.{k} == this.{k}" for k in keep if not k.startswith("cx.")]
            cx = [k for k in keep if k.startswith("cx.")]
            eqs += [f"{acc}.cx == this.cx"] if len(cx) == len(cf) else [f"{acc}.{k} == this.{k}" for k in cx]
        else: eqs += [f"{acc}.{k[3:]} == this.{k[3:]}" for k in keep]
        cond = " && ".join(eqs)
        if guard: cond = f"({guard} ==> {cond})"
        ps = ", ".join(f"{a}: {t}" for a, t in f["params"])
        out[n] = (f"pub broadcast axiom fn {n}__frame({ps})\n    requires {n}_ok({args})\n"
                  f"    ensures ({{ let r__ = #[trigger] {call}; {cond} }});\n")
    return out
