use miniutil::*;
use minirust_rs::vhu;
#[path = "prog_common.rs"]
mod pc;
use pc::*;
use serde_json::Value as J;

/// the value with all arrays sorted (maps and sets are written as arrays in no particular order)
fn canon(j: &J) -> J {
    match j {
        J::Array(a) => { let mut v: Vec<J> = a.iter().map(canon).collect(); v.sort_by_key(|x| x.to_string()); J::Array(v) }
        J::Object(o) => J::Object(o.iter().map(|(k, x)| (k.clone(), canon(x))).collect()),
        x => x.clone(),
    }
}
fn load(text: &[u8]) -> Result<Program, String> { vhu::catch(|| json::load_program(text)) }
/// a reader that hands out a few bytes at a time
struct Drip<'a>(&'a [u8], usize);
impl std::io::Read for Drip<'_> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = self.1.min(b.len()).min(self.0.len()); b[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n) } }
fn round(p: Program, d: impl Fn() -> String) -> Option<Vec<u8>> {
    let text = match serde_json::to_vec(&p) { Ok(t) => t, Err(e) => { vhu::fail(&format!("{}: writing failed: {e}", d())); return None } };
    match load(&text) { Ok(q) => vhu::check(q == p, || format!("{}: the program read back differs", d())), Err(e) => vhu::fail(&format!("{}: reading back failed: {e}", d())) }
    match vhu::catch(|| json::load_program(Drip(&text, 3))) { Ok(q) => vhu::check(q == p, || format!("{}: the program read piecewise differs", d())), Err(e) => vhu::fail(&format!("{}: reading piecewise failed: {e}", d())) }
    vhu::check(vhu::catch(|| json::assert_roundtrip(&p)).is_ok(), || format!("{}: assert_roundtrip complains", d()));
    Some(text)
}
fn nodes(j: &J) -> usize { 1 + match j { J::Array(a) => a.iter().map(nodes).sum(), J::Object(o) => o.values().map(nodes).sum(), _ => 0 } }
fn nth<'a>(j: &'a mut J, n: &mut usize) -> Option<&'a mut J> {
    if *n == 0 { return Some(j); }
    *n -= 1;
    match j { J::Array(a) => { for x in a { if let Some(r) = nth(x, n) { return Some(r) } } None } J::Object(o) => { for (_, x) in o.iter_mut() { if let Some(r) = nth(x, n) { return Some(r) } } None } _ => None }
}
fn mutate(j: &mut J) -> Option<String> {
    let mut k = 1 + vhu::below(nodes(j) as u64 - 1) as usize;
    let x = nth(j, &mut k)?;
    let before = x.to_string();
    let what = match vhu::below(7) {
        0 => { *x = J::Null; "replaced by null" } 1 => { *x = J::String("Bogus".into()); "replaced by a string" } 2 => { *x = J::from(-1); "replaced by -1" } 3 => { *x = J::Array(vec![]); "replaced by an empty list" }
        4 => { *x = J::from(true); "replaced by true" }
        5 => match x { J::Array(a) if a.len() > 0 => { a.pop(); "shortened" } J::Object(o) if o.len() > 0 => { let ks: Vec<String> = o.keys().filter(|k| !o[*k].is_null()).cloned().collect(); if ks.is_empty() { return None } let k = vhu::pick(&ks); let v = o.remove(&k).unwrap(); o.insert(format!("{k}x"), v); "with a key renamed" } _ => return None },
        _ => match x { J::Array(a) => { a.push(J::from(7)); "lengthened" } _ => { *x = J::from(1.5); "replaced by a fraction" } },
    };
    if x.to_string() == before { return None }
    Some(format!("{} {what}", before.chars().take(60).collect::<String>()))
}
pub fn run() {
    let int = |v: Int| ValueExpr::Constant(Constant::Int(v), Type::Int(IntType { signed: Signed, size: sz(16) }));
    let one = |e: ValueExpr| wrap(&[Statement::Assign { destination: PlaceExpr::Local(lname(0)), source: e }], Terminator::Return);
    // integers of every size
    let mut pow = Int::ONE;
    for k in 0..400 { for d in [-1i64, 0, 1] { for s in [1i64, -1] { let v = (pow + Int::from(d)) * Int::from(s); round(one(int(v)), || format!("constant {s}*(2^{k}{d:+})")); } } pow = pow * Int::from(2); }
    for (i, e) in [Constant::Bool(true), Constant::Bool(false), Constant::PointerWithoutProvenance(Int::ZERO), Constant::PointerWithoutProvenance(Int::from(u128::MAX)), Constant::FnPointer(fname(u32::MAX)), Constant::VTablePointer(vname(u32::MAX))].into_iter().enumerate() { round(one(ValueExpr::Constant(e, Type::Bool)), || format!("constant #{i} {e:?}")); }
    for i in INTRINSICS { for n in [None, Some(bname(u32::MAX))] { round(wrap(&[], Terminator::Intrinsic { intrinsic: i, arguments: List::new(), ret: PlaceExpr::Local(lname(0)), next_block: n }), || format!("intrinsic {i:?} {n:?}")); } }
    for b in 0..=255u8 { let mut p = wrap(&[], Terminator::Return); p.globals.insert(gname(0), Global { bytes: [Some(b), None, Some(255 - b)].into_iter().collect(), relocations: List::new(), align: al(1) }); round(p, || format!("global byte {b}")); }
    for i in 0..vhu::scale(250) { let s = gen_stmt(4); round(wrap(&[s], Terminator::Return), || format!("statement #{i} {s:?}")); if vhu::out_of_time() { return } }
    for i in 0..vhu::scale(250) { let s = gen_term(3); round(wrap(&[], s), || format!("terminator #{i} {s:?}")); if vhu::out_of_time() { return } }
    for i in 0..vhu::scale(40) {
        let p = gen_program(2);
        let Some(text) = round(p, || format!("random program #{i} with {} functions", p.functions.len())) else { continue };
        // truncated text, text followed by more text
        for _ in 0..6 { let n = vhu::below(text.len() as u64) as usize; vhu::check(load(&text[..n]).is_err(), || format!("random program #{i}: the first {n} of {} bytes are accepted", text.len())); }
        for tail in ["x", "{}", "]", " 1"] { let mut t = text.clone(); t.extend_from_slice(tail.as_bytes()); vhu::check(load(&t).is_err(), || format!("random program #{i} followed by {tail:?} is accepted")); }
        let mut t = text.clone(); t.extend_from_slice(b" \n\t "); vhu::check(load(&t).ok() == Some(p), || format!("random program #{i} followed by white space"));
        let j: J = serde_json::from_slice(&text).unwrap();
        for k in 0..25 {
            let mut m = j.clone();
            let Some(w) = mutate(&mut m) else { continue };
            match load(m.to_string().as_bytes()) {
                Err(_) => vhu::check(true, || format!("random program #{i}, change {k}: {w}: rejected")),
                Ok(q) => { let back = serde_json::to_value(&q).unwrap(); let ok = canon(&back) == canon(&m) || dup(&m); vhu::check(ok, || format!("random program #{i}, change {k}: {w}: {}", if ok { "read as it stands" } else { "accepted, but as something else than what the text says" })) }
            }
        }
        if vhu::out_of_time() { return }
    }
    for t in ["", " ", "{}", "[]", "null", "1", "\"program\"", "{\"functions\":[]}", "{\"functions\":{},\"start\":0,\"globals\":[],\"traits\":[],\"vtables\":[]}"] { vhu::check(load(t.as_bytes()).is_err(), || format!("the text {t:?} is accepted as a program")); }
}
/// a change may have made two keys of a map equal, or put a value into a set twice; then the text is ambiguous and proves nothing
fn dup(m: &J) -> bool {
    match m {
        J::Array(a) => a.iter().enumerate().any(|(i, x)| a[..i].iter().any(|y| y == x || matches!((x, y), (J::Array(p), J::Array(q)) if p.len() == 2 && q.len() == 2 && p[0] == q[0]))) || a.iter().any(dup),
        J::Object(o) => o.values().any(dup), _ => false,
    }
}
