use miniutil::*;
use miniutil::pretty::fmt_program;
use minirust_rs::vhu;
#[path = "prog_common.rs"]
mod pc;
use pc::*;
use std::collections::HashMap;

// ---- reference printer: composite types are written out in place, whitespace does not count
struct R { comps: Vec<Type> }
fn atom(s: (String, bool)) -> String { if s.1 { s.0 } else { format!("({})", s.0) } }
fn at(s: impl Into<String>) -> (String, bool) { (s.into(), true) }
fn na(s: impl Into<String>) -> (String, bool) { (s.into(), false) }
fn nm(n: &str, i: Name2) -> String { format!("{n}{i}") }
type Name2 = u32;
fn l(x: LocalName) -> String { nm("_", x.0.get_internal()) }
fn b(x: BbName) -> String { nm("bb", x.0.get_internal()) }
fn f(x: FnName) -> String { nm("f", x.0.get_internal()) }
fn g(x: GlobalName) -> String { format!("global({})", x.0.get_internal()) }
fn v(x: VTableName) -> String { nm("vtable", x.0.get_internal()) }
fn tr(x: TraitName) -> String { nm("trait", x.0.get_internal()) }
fn m(x: TraitMethodName) -> String { nm("m", x.0.get_internal()) }
fn ity(t: IntType) -> String { format!("{}{}", if t.signed == Signed { "i" } else { "u" }, t.size.bytes() * Int::from(8)) }
fn meta(k: PointerMetaKind) -> String { match k { PointerMetaKind::None => "thin".into(), PointerMetaKind::ElementCount => "meta=len".into(), PointerMetaKind::VTablePointer(t) => format!("meta=vtable<{}>", tr(t)) } }
fn lmeta(s: LayoutStrategy) -> PointerMetaKind { match s { LayoutStrategy::Sized(..) => PointerMetaKind::None, LayoutStrategy::Slice(..) => PointerMetaKind::ElementCount, LayoutStrategy::TraitObject(t) => PointerMetaKind::VTablePointer(t), LayoutStrategy::Tuple { tail, .. } => lmeta(tail.extract()) } }
fn lay(s: LayoutStrategy) -> String {
    match s {
        LayoutStrategy::Sized(s, a) => format!("size={},align={}", s.bytes(), a.bytes()), LayoutStrategy::Slice(s, a) => format!("size={}*len,align={}", s.bytes(), a.bytes()),
        LayoutStrategy::TraitObject(_) => "size,align={unknown}".into(),
        LayoutStrategy::Tuple { head, tail } => format!("head=(end={},align={}){},tail=({})", head.end.bytes(), head.align.bytes(), head.packed_align.map(|p| format!(",packed={}", p.bytes())).unwrap_or_default(), lay(tail.extract())),
    }
}
fn pi(p: PointeeInfo) -> String { format!("pointee_info({},{}{}{}{})", meta(lmeta(p.layout)), lay(p.layout), if p.inhabited { "" } else { ",uninhabited" }, if p.freeze { "" } else { ",!Freeze" }, if p.unpin { "" } else { ",!Unpin" }) }
fn pty(p: PtrType) -> String {
    match p {
        PtrType::Ref { mutbl: Mutability::Mutable, pointee } => format!("&mut{}", pi(pointee)), PtrType::Ref { mutbl: Mutability::Immutable, pointee } => format!("&{}", pi(pointee)),
        PtrType::Box { pointee } => format!("Box<{}>", pi(pointee)), PtrType::Raw { meta_kind } => format!("*raw({})", meta(meta_kind)), PtrType::FnPtr => "fn()".into(), PtrType::VTablePtr(_) => "{vtable}".into(),
    }
}
fn reloc(r: Relocation) -> (String, bool) { if r.offset.bytes() == 0 { at(g(r.name)) } else { na(format!("{}+{}", g(r.name), r.offset.bytes())) } }
impl R {
    fn ty(&mut self, t: Type) -> String {
        match t {
            Type::Int(i) => ity(i), Type::Bool => "bool".into(), Type::Ptr(p) => pty(p),
            Type::Array { elem, count } => format!("[{};{count}]", self.ty(elem.extract())), Type::Slice { elem } => format!("[{}]", self.ty(elem.extract())), Type::TraitObject(n) => format!("dyn{}", tr(n)),
            Type::Tuple { .. } | Type::Union { .. } | Type::Enum { .. } => { if !self.comps.contains(&t) { self.comps.push(t); } self.comp(t) }
        }
    }
    fn comp(&mut self, t: Type) -> String {
        let mut o = String::new();
        let kw = match t { Type::Tuple { .. } => "tuple", Type::Union { .. } => "union", _ => "enum" };
        let ls = lay(t.layout::<DefaultTarget>());
        match t {
            Type::Tuple { sized_fields, unsized_field, .. } => {
                for (off, ft) in sized_fields { let s = self.ty(ft); o += &format!("atbyte{}:{s},", off.bytes()); }
                if let Some(u) = unsized_field.extract() { let s = self.ty(u); o += &format!("tail:{s},"); }
            }
            Type::Union { fields, chunks, .. } => {
                for (off, ft) in fields { let s = self.ty(ft); o += &format!("atbyte{}:{s},", off.bytes()); }
                for (off, s) in chunks { o += &format!("chunk(at={},size={}),", off.bytes(), s.bytes()); }
            }
            Type::Enum { variants, discriminant_ty, .. } => {
                o += &format!("Discriminant:{}", ity(discriminant_ty));
                let mut vs: Vec<(Int, Variant)> = variants.iter().collect();
                vs.sort_by_key(|x| x.0);
                for (d, x) in vs { let s = self.ty(x.ty); o += &format!("Variant{d}:{s}"); }
            }
            _ => unreachable!(),
        }
        format!("{kw}({ls}){{{o}}}")
    }
    fn place(&mut self, p: PlaceExpr) -> (String, bool) {
        match p {
            PlaceExpr::Local(x) => at(l(x)),
            PlaceExpr::Deref { operand, ty } => { let t = self.ty(ty); at(format!("deref<{t}>({})", self.val(operand.extract()).0)) }
            PlaceExpr::Field { root, field } => at(format!("{}.{field}", atom(self.place(root.extract())))),
            PlaceExpr::Index { root, index } => { let r = atom(self.place(root.extract())); at(format!("{r}[{}]", self.val(index.extract()).0)) }
            PlaceExpr::Downcast { root, discriminant } => na(format!("{}asvariant{discriminant}", atom(self.place(root.extract())))),
        }
    }
    fn val(&mut self, e: ValueExpr) -> (String, bool) {
        match e {
            ValueExpr::Constant(c, _) => match c {
                Constant::Int(i) => at(format!("{i}")), Constant::Bool(x) => at(if x { "true" } else { "false" }), Constant::GlobalPointer(r) => reloc(r), Constant::FnPointer(x) => at(f(x)), Constant::VTablePointer(x) => at(v(x)),
                Constant::PointerWithoutProvenance(a) => at(if a == Int::ZERO { "nullptr".to_string() } else { format!("invalid_ptr({a})") }),
            },
            ValueExpr::Tuple(es, t) => { let s: Vec<String> = es.iter().map(|x| self.val(x).0).collect(); let (o, c) = if let Type::Array { .. } = t { ("[", "]") } else { ("(", ")") }; at(format!("{o}{}{c}", s.join(","))) }
            ValueExpr::Union { field, expr, union_ty } => { let t = self.ty(union_ty); na(format!("{t}{{field{field}:{}}}", self.val(expr.extract()).0)) }
            ValueExpr::Variant { discriminant, data, enum_ty } => { let t = self.ty(enum_ty); na(format!("{t}(variant{discriminant}):{}", self.val(data.extract()).0)) }
            ValueExpr::GetDiscriminant { place } => at(format!("discriminant({})", self.place(place.extract()).0)),
            ValueExpr::Load { source } => at(format!("load({})", self.place(source.extract()).0)),
            ValueExpr::AddrOf { target, ptr_ty } => { let s = self.place(target.extract()); match ptr_ty {
                PtrType::Raw { .. } => na(format!("&raw{}", atom(s))), PtrType::Ref { mutbl: Mutability::Mutable, .. } => na(format!("&mut{}", atom(s))), PtrType::Ref { .. } => na(format!("&{}", atom(s))),
                _ => at(format!("addr_of<{}>({})", pty(ptr_ty), s.0)) } }
            ValueExpr::UnOp { operator, operand } => { let s = self.val(operand.extract()).0; match operator {
                UnOp::Int(IntUnOp::Neg) => na(format!("-({s})")), UnOp::Int(IntUnOp::BitNot) => na(format!("!({s})")), UnOp::Int(IntUnOp::CountOnes) => na(format!("count_ones({s})")),
                UnOp::Cast(CastOp::IntToInt(t)) => at(format!("int2int<{}>({s})", ity(t))), UnOp::Cast(CastOp::Transmute(t)) => at(format!("transmute<{}>({s})", self.ty(t))),
                UnOp::GetThinPointer => at(format!("get_thin_ptr({s})")), UnOp::GetMetadata => at(format!("get_metadata({s})")),
                UnOp::ComputeSize(t) => at(format!("compute_size<{}>({s})", self.ty(t))), UnOp::ComputeAlign(t) => at(format!("compute_align<{}>({s})", self.ty(t))), UnOp::VTableMethodLookup(x) => na(format!("vtable_lookup<{}>({s})", m(x))) } }
            ValueExpr::BinOp { operator, left, right } => {
                let (x, y) = (self.val(left.extract()), self.val(right.extract()));
                let infix = |o: &str| na(format!("{}{o}{}", atom(x.clone()), atom(y.clone())));
                let call = |o: &str| at(format!("{o}({},{})", atom(x.clone()), atom(y.clone())));
                let raw = |o: String| at(format!("{o}({},{})", x.0, y.0));
                match operator {
                    BinOp::Int(o) => match o { IntBinOp::Add => infix("+"), IntBinOp::Sub => infix("-"), IntBinOp::Mul => infix("*"), IntBinOp::Div => infix("/"), IntBinOp::Rem => infix("%"), IntBinOp::Shl => infix("<<"), IntBinOp::Shr => infix(">>"),
                        IntBinOp::BitAnd => infix("&"), IntBinOp::BitOr => infix("|"), IntBinOp::BitXor => infix("^"), o => call(&format!("{o:?}")) },
                    BinOp::IntWithOverflow(o) => call(&format!("{o:?}WithOverflow")),
                    BinOp::Rel(o) => infix(match o { RelOp::Lt => "<", RelOp::Le => "<=", RelOp::Gt => ">", RelOp::Ge => ">=", RelOp::Eq => "==", RelOp::Ne => "!=", RelOp::Cmp => "<=>" }),
                    BinOp::PtrOffset { inbounds } => raw(if inbounds { "offset_inbounds" } else { "offset_wrapping" }.into()),
                    BinOp::PtrOffsetFrom { inbounds, nonneg } => raw(format!("offset_from_{}{}", if inbounds { "inbounds" } else { "wrapping" }, if nonneg { "_nonneg" } else { "" })),
                    BinOp::ConstructWidePointer(t) => raw(format!("construct_ptr<{}>", pty(t))),
                }
            }
        }
    }
    fn stmt(&mut self, s: Statement) -> String {
        match s {
            Statement::Assign { destination, source } => { let d = self.place(destination).0; format!("{d}={};", self.val(source).0) }
            Statement::PlaceMention(p) => format!("_={};", self.place(p).0), Statement::SetDiscriminant { destination, value } => format!("discriminant({})={value};", self.place(destination).0),
            Statement::Validate { place, fn_entry } => format!("validate({},{fn_entry});", self.place(place).0), Statement::Deinit { place } => format!("deinit({});", self.place(place).0),
            Statement::StorageLive(x) => format!("storage_live({});", l(x)), Statement::StorageDead(x) => format!("storage_dead({});", l(x)),
        }
    }
    fn call(&mut self, callee: String, args: Vec<String>, ret: PlaceExpr, next: Option<BbName>, unwind: Option<BbName>) -> String {
        let r = self.place(ret).0;
        let t = match (next, unwind) { (Some(x), Some(y)) => format!("->[return:{},unwind:{}]", b(x), b(y)), (Some(x), None) => format!("->return:{}", b(x)), (None, Some(y)) => format!("->unwind:{}", b(y)), _ => String::new() };
        format!("{r}={callee}({}){t};", args.join(","))
    }
    fn term(&mut self, t: Terminator) -> String {
        match t {
            Terminator::Goto(x) => format!("goto->{};", b(x)), Terminator::Unreachable => "unreachable;".into(), Terminator::Return => "return;".into(), Terminator::ResumeUnwind => "resume".into(), Terminator::StopUnwind(x) => format!("stopunwind->{}", b(x)),
            Terminator::StartUnwind { unwind_payload, unwind_block } => format!("startunwind({})->unwind:{}", self.val(unwind_payload).0, b(unwind_block)),
            Terminator::Switch { value, cases, fallback } => {
                let mut cs: Vec<(Int, BbName)> = cases.iter().collect();
                cs.sort_by_key(|x| x.0);
                let s: String = cs.iter().map(|(c, x)| format!("{c}:{},", b(*x))).collect();
                format!("switch({})->[{s}otherwise:{}];", self.val(value).0, b(fallback))
            }
            Terminator::Intrinsic { intrinsic, arguments, ret, next_block } => {
                let n = match intrinsic { IntrinsicOp::Abort => "abort", IntrinsicOp::Assume => "assume", IntrinsicOp::Exit => "exit", IntrinsicOp::PrintStdout => "print", IntrinsicOp::PrintStderr => "eprint", IntrinsicOp::Allocate => "allocate",
                    IntrinsicOp::Deallocate => "deallocate", IntrinsicOp::Spawn => "spawn", IntrinsicOp::Join => "join", IntrinsicOp::RawEq => "raw_eq", IntrinsicOp::AtomicStore => "atomic_store", IntrinsicOp::AtomicLoad => "atomic_load",
                    IntrinsicOp::AtomicCompareExchange => "atomic_compare_exchange", IntrinsicOp::AtomicFetchAndOp(IntBinOp::Add) => "atomic_fetch_add", IntrinsicOp::AtomicFetchAndOp(_) => "atomic_fetch_sub",
                    IntrinsicOp::Lock(IntrinsicLockOp::Acquire) => "lock_acquire", IntrinsicOp::Lock(IntrinsicLockOp::Release) => "lock_release", IntrinsicOp::Lock(IntrinsicLockOp::Create) => "lock_create",
                    IntrinsicOp::PointerExposeProvenance => "pointer_expose_provenance", IntrinsicOp::PointerWithExposedProvenance => "pointer_with_exposed_provenance", IntrinsicOp::GetUnwindPayload => "get_unwind_payload" };
                let a = arguments.iter().map(|x| self.val(x).0).collect();
                self.call(n.into(), a, ret, next_block, None)
            }
            Terminator::Call { callee, calling_convention, arguments, ret, next_block, unwind_block } => {
                let c = atom(self.val(callee));
                let a = arguments.iter().map(|x| match x { ArgumentExpr::ByValue(e) => format!("by-value({})", self.val(e).0), ArgumentExpr::InPlace(p) => format!("in-place({})", self.place(p).0) }).collect();
                let conv = if calling_convention == CallingConvention::C { "extern\"C\"" } else { "" };
                self.call(format!("{conv}{c}"), a, ret, next_block, unwind_block)
            }
        }
    }
    fn func(&mut self, n: FnName, x: Function, start: bool) -> String {
        let args: Vec<String> = x.args.iter().map(l).collect();
        let mut o = format!("{}fn{}({})->{}{{", if start { "start" } else { "" }, f(n), args.join(","), l(x.ret));
        let mut ls: Vec<(LocalName, Type)> = x.locals.iter().collect(); ls.sort_by_key(|y| y.0.0.get_internal());
        for (y, t) in ls { let t = self.ty(t); o += &format!("let{}:{t};", l(y)); }
        let mut bs: Vec<(BbName, BasicBlock)> = x.blocks.iter().collect(); bs.sort_by_key(|y| y.0.0.get_internal());
        for (y, bb) in bs {
            o += &format!("{}{}{}:", if x.start == y { "start" } else { "" }, b(y), match bb.kind { BbKind::Regular => "", BbKind::Cleanup => "(Cleanup)", BbKind::Catch => "(Catch)", BbKind::Terminate => "(Terminate)" });
            for s in bb.statements { o += &self.stmt(s); }
            o += &self.term(bb.terminator);
        }
        o + "}"
    }
    fn prog(&mut self, p: Program) -> String {
        let mut o = String::new();
        let mut ts: Vec<_> = p.traits.iter().collect(); ts.sort_by_key(|x| x.0.0.get_internal());
        for (n, ms) in ts { let mut ms: Vec<String> = ms.iter().map(m).collect(); ms.sort(); o += &format!("{}{{{}}}", tr(n), ms.join(",")); }
        let mut vs: Vec<_> = p.vtables.iter().collect(); vs.sort_by_key(|x| x.0.0.get_internal());
        for (n, x) in vs {
            let mut ms: Vec<_> = x.methods.iter().collect(); ms.sort_by_key(|y| y.0.0.get_internal());
            let ms: String = ms.iter().map(|(a, c)| format!("{}()={},", m(*a), f(*c))).collect();
            o += &format!("{}{{trait={},size={},align={},{ms}}}", v(n), tr(x.trait_name), x.size.bytes(), x.align.bytes());
        }
        let mut fs: Vec<_> = p.functions.iter().collect(); fs.sort_by_key(|x| x.0.0.get_internal());
        for (n, x) in fs { o += &self.func(n, x, n == p.start); }
        let mut gs: Vec<_> = p.globals.iter().collect(); gs.sort_by_key(|x| x.0.0.get_internal());
        for (n, x) in gs {
            let bytes: Vec<String> = x.bytes.iter().map(|y| match y { Some(u) => format!("{u:02x}"), None => "__".into() }).collect();
            o += &format!("{}{{bytes=[{}],align={}bytes,", g(n), bytes.join(""), x.align.bytes());
            for (i, r) in x.relocations { o += &format!("atbyte{}:{},", i.bytes(), reloc(r).0); }
            o += "}";
        }
        o
    }
}
// ---- the actual text: the definitions of composite types are read off and written out in place
fn squeeze(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }
fn inline(s: &str, defs: &HashMap<u32, String>, used: &mut Vec<u32>, depth: u32) -> Result<String, String> {
    if depth > 50 { return Err("cyclic composite types".into()); }
    let c: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < c.len() {
        let before = i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_');
        if c[i] == 'T' && before && i + 1 < c.len() && c[i + 1].is_ascii_digit() {
            let mut j = i + 1;
            while j < c.len() && c[j].is_ascii_digit() { j += 1; }
            let n: u32 = c[i + 1..j].iter().collect::<String>().parse().map_err(|_| "index".to_string())?;
            used.push(n);
            o += &inline(defs.get(&n).ok_or(format!("T{n} is not defined"))?, defs, used, depth + 1)?;
            i = j;
        } else { o.push(c[i]); i += 1; }
    }
    Ok(o)
}
fn read(text: &str) -> Result<(String, usize), String> {
    let mut rest = text;
    let mut defs: HashMap<u32, String> = HashMap::new();
    loop {
        let kw = match ["tuple ", "union ", "enum "].iter().find(|k| rest.starts_with(**k)) { Some(k) => *k, None => break };
        let end = rest.find("}\n\n").ok_or("unfinished definition")?;
        let d = &rest[kw.len()..end + 1];
        let sp = d.find(' ').ok_or("definition without name")?;
        let n: u32 = d[1..sp].parse().map_err(|_| format!("name of composite type {}", &d[..sp]))?;
        if defs.insert(n, format!("{kw}{}", &d[sp..])).is_some() { return Err(format!("T{n} defined twice")); }
        rest = &rest[end + 3..];
    }
    let mut used = vec![];
    let body = inline(rest, &defs, &mut used, 0)?;
    for k in defs.keys() { if !used.contains(k) && !defs.values().any(|d| d.contains(&format!("T{k}"))) { return Err(format!("T{k} is defined but not used")); } }
    Ok((squeeze(&body), defs.len()))
}
fn balanced(s: &str) -> bool {
    let mut st = vec![];
    for c in s.chars() { match c { '(' | '[' | '{' => st.push(c), ')' => if st.pop() != Some('(') { return false }, ']' => if st.pop() != Some('[') { return false }, '}' => if st.pop() != Some('{') { return false }, _ => {} } }
    st.is_empty()
}
fn same(p: Program, d: impl Fn() -> String) {
    let text = match vhu::catch(|| fmt_program(p)) { Ok(t) => t, Err(e) => { vhu::fail(&format!("{}: dumping panicked: {e}", d())); return } };
    let mut r = R { comps: vec![] };
    let want = squeeze(&r.prog(p));
    let got = read(&text);
    vhu::check(balanced(&text), || format!("{}: brackets do not balance in {text}", d()));
    match got {
        Err(e) => vhu::fail(&format!("{}: {e}", d())),
        Ok((got, n)) => {
            let ok = got == want;
            let k = got.chars().zip(want.chars()).take_while(|(a, b)| a == b).count();
            let cut = |s: &str| s.chars().skip(k.saturating_sub(40)).take(100).collect::<String>();
            vhu::check(ok, || if ok { d() } else { format!("{}: the dump shows \"{}\" where the program says \"{}\"", d(), cut(&got), cut(&want)) });
            vhu::eq(n, r.comps.len(), || format!("{}: number of composite types defined", d()));
        }
    }
    // another dump, also of a copy with the maps rebuilt, gives the same text
    let copy: Program = {
        let mut q = p; q.functions = p.functions.iter().collect(); q.globals = p.globals.iter().collect(); q.traits = p.traits.iter().collect(); q.vtables = p.vtables.iter().collect(); q
    };
    vhu::check(fmt_program(p) == text && fmt_program(copy) == text, || format!("{}: two dumps of one program differ", d()));
}
fn expr_prog(e: ValueExpr) -> Program { wrap(&[Statement::Assign { destination: PlaceExpr::Local(lname(0)), source: e }], Terminator::Return) }
fn place_prog(e: PlaceExpr) -> Program { wrap(&[Statement::PlaceMention(e)], Terminator::Return) }
fn all_ops(x: ValueExpr, y: ValueExpr) -> Vec<ValueExpr> {
    let (gx, gy) = (GcCow::new(x), GcCow::new(y));
    let mut o = vec![];
    let t = Type::Int(IntType { signed: Signed, size: sz(4) });
    let arr = Type::Array { elem: GcCow::new(t), count: Int::from(2) };
    let tup = Type::Tuple { sized_fields: List::new(), sized_head_layout: TupleHeadLayout { end: sz(0), align: al(1), packed_align: None }, unsized_field: GcCow::new(None) };
    let un = Type::Union { fields: List::new(), size: sz(4), align: al(4), chunks: List::new() };
    let raw = PtrType::Raw { meta_kind: PointerMetaKind::None };
    let refm = |m| PtrType::Ref { mutbl: m, pointee: PointeeInfo { layout: LayoutStrategy::Sized(sz(4), al(4)), inhabited: true, unsafe_cells: UnsafeCellStrategy::Sized { cells: List::new() }, freeze: true, unpin: true } };
    for op in INT_BIN { o.push(BinOp::Int(op)); }
    for op in OVERFLOW { o.push(BinOp::IntWithOverflow(op)); }
    for op in REL { o.push(BinOp::Rel(op)); }
    for i in [false, true] { o.push(BinOp::PtrOffset { inbounds: i }); for j in [false, true] { o.push(BinOp::PtrOffsetFrom { inbounds: i, nonneg: j }); } }
    for q in [raw, PtrType::Raw { meta_kind: PointerMetaKind::ElementCount }] { o.push(BinOp::ConstructWidePointer(q)); }
    let mut out: Vec<ValueExpr> = o.into_iter().map(|op| ValueExpr::BinOp { operator: op, left: gx, right: gy }).collect();
    let mut u = vec![UnOp::GetThinPointer, UnOp::GetMetadata, UnOp::VTableMethodLookup(mname(0)), UnOp::VTableMethodLookup(mname(1)), UnOp::ComputeSize(t), UnOp::ComputeAlign(t), UnOp::Cast(CastOp::Transmute(t)), UnOp::Cast(CastOp::Transmute(arr))];
    for op in INT_UN { u.push(UnOp::Int(op)); }
    for n in [1i64, 4] { for s in [Signed, Unsigned] { u.push(UnOp::Cast(CastOp::IntToInt(IntType { signed: s, size: sz(n) }))); } }
    for op in u { out.push(ValueExpr::UnOp { operator: op, operand: gx }); }
    out.push(ValueExpr::Tuple([x, y].into_iter().collect(), arr)); out.push(ValueExpr::Tuple([x, y].into_iter().collect(), tup)); out.push(ValueExpr::Tuple([x].into_iter().collect(), arr)); out.push(ValueExpr::Tuple([x].into_iter().collect(), tup));
    for n in [0, 1] { out.push(ValueExpr::Union { field: Int::from(n), expr: gx, union_ty: un }); out.push(ValueExpr::Variant { discriminant: Int::from(n), data: gx, enum_ty: un }); }
    let pl = PlaceExpr::Deref { operand: gx, ty: t };
    for p in [pl, PlaceExpr::Index { root: GcCow::new(PlaceExpr::Local(lname(0))), index: gx }, PlaceExpr::Field { root: GcCow::new(pl), field: Int::ZERO }, PlaceExpr::Downcast { root: GcCow::new(pl), discriminant: Int::ZERO }] {
        let p = GcCow::new(p);
        out.push(ValueExpr::Load { source: p }); out.push(ValueExpr::GetDiscriminant { place: p });
        for q in [raw, refm(Mutability::Mutable), refm(Mutability::Immutable), PtrType::Box { pointee: match refm(Mutability::Mutable) { PtrType::Ref { pointee, .. } => pointee, _ => unreachable!() } }, PtrType::FnPtr] { out.push(ValueExpr::AddrOf { target: p, ptr_ty: q }); }
    }
    out
}
/// Two programs that differ print differently: all expressions of depth two over every operator.
fn distinct() {
    let t = Type::Int(IntType { signed: Signed, size: sz(4) });
    let c = |n: i64| ValueExpr::Constant(Constant::Int(Int::from(n)), t);
    let leaves = [c(1), c(-1)];
    let mut level: Vec<ValueExpr> = leaves.to_vec();
    for x in leaves { for y in leaves { level.extend(all_ops(x, y)); } }
    level.dedup();
    let mut seen: HashMap<String, ValueExpr> = HashMap::new();
    let mut twos: Vec<ValueExpr> = level.clone();
    for _ in 0..vhu::scale(120) { let (x, y) = (vhu::pick(&level), vhu::pick(&level)); twos.extend(all_ops(x, y)); }
    for x in &level { twos.extend(all_ops(*x, c(1))); twos.extend(all_ops(c(1), *x)); }
    for e in twos {
        // the definition of the (few) composite types is part of the text
        let s = match vhu::catch(|| fmt_program(expr_prog(e))) { Ok(s) => s, Err(p) => { vhu::fail(&format!("dumping {e:?} panicked: {p}")); continue } };
        let d = s.clone();
        let clash = match seen.get(&s) { Some(o) if *o != e => Some(*o), Some(_) => None, None => { seen.insert(s, e); None } };
        vhu::check(clash.is_none(), || if let Some(o) = clash { format!("two different expressions print the same text {d}: {e:?} and {o:?}") } else { format!("distinct {d}") });
        if vhu::out_of_time() { break }
    }
}
pub fn run() {
    // every intrinsic, operator and terminator on its own
    let t = Type::Int(IntType { signed: Signed, size: sz(4) });
    let c = |n: i64| ValueExpr::Constant(Constant::Int(Int::from(n)), t);
    for i in INTRINSICS { for next in [None, Some(bname(5))] { let p = wrap(&[], Terminator::Intrinsic { intrinsic: i, arguments: [c(3), c(4)].into_iter().collect(), ret: PlaceExpr::Local(lname(6)), next_block: next }); same(p, || format!("intrinsic {i:?} next {next:?}")); } }
    for e in all_ops(c(1), c(2)) { same(expr_prog(e), || format!("expression {e:?}")); }
    for k in KINDS { let mut p = wrap(&[], Terminator::ResumeUnwind); let mut fx = p.functions.get(fname(0)).unwrap(); let mut bb = fx.blocks.get(bname(0)).unwrap(); bb.kind = k; fx.blocks.insert(bname(0), bb); p.functions.insert(fname(0), fx); same(p, || format!("block kind {k:?}")); }
    for i in 0..vhu::scale(500) { let s = gen_stmt(3); same(wrap(&[s], Terminator::Return), || format!("statement #{i} {}", short(&s))); if vhu::out_of_time() { return } }
    for i in 0..vhu::scale(500) { let s = gen_term(2); same(wrap(&[], s), || format!("terminator #{i} {}", short(&s))); if vhu::out_of_time() { return } }
    for i in 0..vhu::scale(400) { let s = gen_place(4); same(place_prog(s), || format!("place #{i} {}", short(&s))); if vhu::out_of_time() { return } }
    for i in 0..vhu::scale(150) { let p = gen_program(2); same(p, || format!("random program #{i} with {} functions", p.functions.len())); if vhu::out_of_time() { return } }
    distinct();
}
fn short<T: std::fmt::Debug>(x: &T) -> String { let s = format!("{x:?}"); s.chars().take(160).collect() }
