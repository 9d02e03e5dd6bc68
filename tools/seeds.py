#!/usr/bin/env python3
"""The planted bugs (development aid): `python3 tools/seeds.py [ID...]` rewrites seeded/."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds_defs import S, SEEDS, write
M = "tooling/minimize/src/"
BB, RV, TY, EN, CH, CO, VT, MV, FU, PR = (M + f for f in ("bb.rs", "rvalue.rs", "ty.rs", "enums.rs", "chunks.rs", "constant.rs", "vtable.rs", "main.rs", "function.rs", "program.rs"))
U = "tooling/miniutil/src/"

S("C01-shr-unchecked", "C01", [(RV, "(ShrUnchecked, Type::Int(_)) => build::shr_unchecked(l, r),", "(ShrUnchecked, Type::Int(_)) => build::shr(l, r),")], "min:fail UB: .*shift", r"""
fn main() { unsafe { print(core::intrinsics::unchecked_shr(bb(96u32), bb(5u8))); print(core::intrinsics::unchecked_shr(bb(96u32), bb(37u8))); } }
""", "an unchecked right shift by an out-of-range amount", "out-of-range unchecked right shifts are masked instead of being undefined behaviour")
S("C02-offset-wrap", "C02", [(RV, "let offset_bytes = build::mul_unchecked(r, size);", "let offset_bytes = build::mul(r, size);")], "min:fail UB", r"""
fn main() { let a = [1u64, 2, 3]; unsafe { let p = &raw const a as *const u64; let q = core::intrinsics::offset(p, bb(1isize << 61)); print((q == p) as u8); } }
""", "an in-bounds offset whose byte distance overflows back to a small value", "an overflowing in-bounds pointer offset is accepted and moves by the wrapped distance")
S("C04-nested-union", "C04", [(CH, "                mark_size(len, &mut markers[offset..]);\n            },", "                let end = Size::from_bytes(offset).unwrap() + len;\n                mark_size(if offset == 0 { end } else { len }, &mut markers[..]);\n            },")], "min:ok 11 22 33 44 11 22 33 44", r"""
#[repr(C)] #[derive(Clone, Copy)] struct Part { x: u8, y: u32 }
#[repr(C)] #[derive(Clone, Copy)] union Inner { p: Part, q: (), }
#[repr(C)] #[derive(Clone, Copy)] union Outer { i: Inner, s: u8 }
fn main() { unsafe {
  let i = bb(Inner { p: Part { x: 11, y: 22 } }); print(i.p.x); print(i.p.y);
  let j = bb(Inner { p: Part { x: 33, y: 44 } }); print(j.p.x); print(j.p.y);
  let o = bb(Outer { i }); print(o.i.p.x); print(o.i.p.y);
  let o = bb(Outer { i: j }); let o2 = o; print(o2.i.p.x); print(o2.i.p.y);
} }
""", "a union inside a union whose inner data does not form one block starting at offset 0", "copying the outer union loses the inner union's later data bytes")
S("C05-slice-align", "C05", [(TY, "let layout = LayoutStrategy::Slice(size, align);", "let layout = LayoutStrategy::Slice(size, if freeze { align } else { Align::ONE });")], "min:fail UB", r"""
use std::cell::Cell;
#[repr(align(8))] struct A([u8; 32]);
fn main() { let a = bb(A([0; 32])); unsafe {
  let p = (&raw const a as *const u8).wrapping_add(1) as *const Cell<u32>;
  let s: &[Cell<u32>] = &*std::ptr::slice_from_raw_parts(p, bb(2)); print(s.len()); } }
""", "a misaligned reference to a slice with interior mutability", "misaligned references to slices of cells are accepted")
S("C05-uninit-valid", "C05", [(BB, "rs::layout::ValidityRequirement::from_intrinsic(intrinsic_name).unwrap();", "rs::layout::ValidityRequirement::from_intrinsic(if intrinsic_name == rs::sym::assert_zero_valid {\n                        rs::sym::assert_inhabited\n                    } else {\n                        intrinsic_name\n                    }).unwrap();")], "min:fail aborted", r"""
fn main() { core::intrinsics::assert_zero_valid::<u32>(); print(1); core::intrinsics::assert_zero_valid::<(u8, &u8)>(); print(2); }
""", "assert_zero_valid at an inhabited type that must not be zero", "assert_zero_valid accepts types for which zero is invalid")
S("C16-callconv-ptr", "C16", [(BB, "let conv = translate_calling_convention(abi.conv);\n\n                // FIXME: deduplicate", "let conv = if abi.args.is_empty() { CallingConvention::Rust } else { translate_calling_convention(abi.conv) };\n\n                // FIXME: deduplicate")], "min:ok 3 4", r"""
extern "C" fn f() -> u32 { 3 }
fn g() -> u32 { 4 }
fn main() { let p: extern "C" fn() -> u32 = bb(f); print(p()); let q: fn() -> u32 = bb(g); print(q()); }
""", "a call without arguments through an extern \"C\" function pointer", "a call through an extern \"C\" function pointer without arguments uses the wrong calling convention")
S("C18-niche-low", "C18", [(EN, "if min < start {", "if min < start && start != Int::ONE {")], "min:fail UB", r"""
#[allow(dead_code)] #[repr(i8)] #[derive(Clone, Copy)] enum X { A = 1, B = 2 }
#[allow(dead_code)] #[derive(Clone, Copy)] enum E { P(X), Q, R }
fn k(p: *const E) { unsafe { print(match *p { E::P(_) => 1, E::Q => 2, E::R => 3 }) } }
fn main() { let x = bb([4u8, 1, 0]); k(&raw const x as *const E); k(&raw const x[1] as *const E); k(&raw const x[2] as *const E); }
""", "an invalid tag just below the valid range of a niche that starts at 1", "an invalid tag selects the untagged variant instead of being undefined behaviour")
S("C22-terminate-resume", "C22", [(BB, "                    statements: list![],\n                    terminator: build::abort(),\n                    kind: block_kind,", "                    statements: list![],\n                    terminator: if bb.is_cleanup { build::abort() } else { Terminator::ResumeUnwind },\n                    kind: block_kind,")], "min:fail program aborted", r"""
extern "C" fn f(x: u32) { if x == 1 { panic!() } print(x); }
fn t(_: *mut u8) { f(bb(0)); f(bb(1)); }
fn c(_: *mut u8, _: *mut u8) { print(77); }
fn main() { let r = unsafe { core::intrinsics::catch_unwind(t, std::ptr::null_mut(), c) }; print(r); }
""", "a panic inside a function that must not unwind, below a catch", "a panic escapes an extern \"C\" function and is caught")
S("C27-switch-wide", "C27", [(BB, "(int_from_bits(value, int_ty), self.bb_name_map[&target])", "(int_from_bits(value as u64 as u128, int_ty), self.bb_name_map[&target])")], "min:ok 2 0 3", r"""
fn f(x: u128) -> u8 { match x { 0x1_0000_0000_0000_0007 => 2, 9 => 1, _ => 0 } }
fn g(x: i128) -> u8 { match x { -3 => 3, 4 => 5, _ => 0 } }
fn main() { print(f(bb(0x1_0000_0000_0000_0007))); print(f(bb(7))); print(g(bb(-3))); }
""", "a match on a 128-bit integer with an arm that needs more than 64 bits", "matches on 128-bit integers compare only the low half of the arm")
S("C21-fetch-sub", "C21", [(BB, "\"atomic_fetch_sub\" => IntrinsicOp::AtomicFetchAndOp(IntBinOp::Sub),", "\"atomic_fetch_sub\" if rs_args.len() == 2 && matches!(rs_args[1].node, rs::Operand::Constant(_)) => IntrinsicOp::AtomicFetchAndOp(IntBinOp::Sub),\n                \"atomic_fetch_sub\" => IntrinsicOp::AtomicFetchAndOp(IntBinOp::Add),")], "min:ok 10 7", r"""
fn main() { let mut x = bb(10u32); unsafe { let d = bb(3u32); print(atomic_fetch_sub(&raw mut x, d)); print(atomic_load(&raw mut x)); } }
""", "an atomic subtraction of a value that is not a literal", "atomic_fetch_sub with a run-time operand adds")
S("C08-leak-silent", "C08", [(U + "cli.rs", "TerminationInfo::MemoryLeak => show_error!(\"program leaked memory\"),", "TerminationInfo::MemoryLeak if !self.tree_borrows =>\n                show_error!(\"program leaked memory\"),\n            TerminationInfo::MemoryLeak => {}")], "min:fail program leaked memory|--minirust-tree-borrows", r"""
fn main() { unsafe { let p = allocate(bb(4), 4); *p = 1; print(*p); } }
""", "a leak under Tree Borrows", "leaks are not reported under Tree Borrows")

S("C12-cell-struct-offset", "C12", [(TY, """            rs::TyKind::Closure(..) => {
                let layout = self.rs_layout_of(ty);
                self.cells_from_layout(layout, span)
            }
            rs::TyKind::Array""", """            // Captures are references.
            rs::TyKind::Closure(..) => Vec::new(),
            rs::TyKind::Array""")], "min:ok 4 8|--minirust-tree-borrows", r"""
use std::cell::Cell;
fn call<F: Fn(u32) -> u32>(f: &F) -> u32 { f(1) + f(2) }
fn main() { let k = Cell::new(bb(1u32)); let f = move |x| { k.replace(k.get() + x) }; print(bb(call(&f)) + 1); print(call(&f) - 1 + 0); }
""", "a cell captured by value in a closure that is called through a reference", "writing a captured cell is reported as undefined behaviour under Tree Borrows")
S("C05-uninhabited", "C05", [(TY, "let inhabited = !layout.is_uninhabited();", "let inhabited = !(layout.is_uninhabited() && layout.is_sized() && layout.size.bytes() == 0);")], "min:fail UB", r"""
enum Void {}
struct N(#[allow(dead_code)] u32, #[allow(dead_code)] Void);
fn main() { let x = bb(3u32); let r: &N = unsafe { &*(&raw const x as *const N) }; print((r as *const N).is_null() as u8); }
""", "a reference to an uninhabited struct that has a size", "references to uninhabited types with a size are accepted")
S("C28-uninit-zero", "C28", [(CO, "                *b = None;", "                // Padding between initialized bytes reads as zero.\n                *b = if i > 0 && allocation.init_mask().get(rs::Size::from_bytes(i - 1)) { Some(0) } else { None };")], "min:fail UB", r"""
use std::mem::MaybeUninit;
#[repr(C)] struct P(u8, MaybeUninit<u8>);
static S: P = P(1, MaybeUninit::uninit());
fn main() { let r = bb(&S); print(r.0); print(unsafe { r.1.assume_init() }); }
""", "reading the uninitialised part of a static that follows initialised bytes", "uninitialised bytes of a static become zero")
S("C28-long-slice", "C28", [(CO, "Some(build::const_int(el_count))", "Some(build::const_int(el_count & 0xffff))")], "min:ok 70000 7", r"""
const S: &[u8] = &[7; 70000];
fn main() { let s = bb(S); print(s.len()); print(s[bb(66000)]); }
""", "a constant slice with more than 65535 elements", "long constant slices lose the high part of their length")
S("C28-enum-negative", "C28", [(CO, "Signed => discriminant.to_int(discriminant.size()).unwrap().into(),", "Signed if discriminant.size().bytes() <= 4 => discriminant.to_int(discriminant.size()).unwrap().into(),\n                    Signed => (discriminant.to_bits(discriminant.size()).unwrap() as i64).into(),")], "min:ok -3 -170141183460469231731687303715884105728", r"""
#[repr(i128)] #[derive(Clone, Copy)] enum E { A = -3, #[allow(dead_code)] B(u8) = i128::MIN }
const A: E = E::A; const B: E = E::B(4);
fn d(e: E) -> i128 { unsafe { *(&raw const e as *const i128) } }
fn main() { print(d(bb(A))); print(d(bb(B))); }
""", "a constant of an enum with a discriminant that needs more than 64 bits", "such constants cannot be translated or get another discriminant")
S("C26-mixed-cells", "C26", [(VT, "        cells.sort_by_key(|a| a.0);\n", "")], "min:ok 5 7", r"""
use std::cell::Cell;
trait T { fn s(&self) -> u64; }
struct S { a: Cell<u8>, b: Cell<u64>, c: Cell<u16> }
impl T for S { fn s(&self) -> u64 { self.a.set(self.a.get() + 1); self.b.get() + self.c.get() as u64 + self.a.get() as u64 } }
fn main() { let s = S { a: Cell::new(1), b: Cell::new(2), c: Cell::new(1) }; let d: &dyn T = bb(&s); print(d.s()); s.b.set(3); print(d.s()); }
""", "a trait object of a struct with several cells that the compiler reorders", "the vtable's cell list is not sorted, so the program is ill-formed")
S("C31-unwind-target", "C31", [(U + "pretty/function.rs", "            format!(\" -> {next_str}{unwind_str}\")", "            format!(\" -> {next_str}\")")], "prog", r"""
pub fn run() {
    let text = |n: u32| { let mut b = ProgramBuilder::new(); let mut f = b.declare_function(); f.exit(); let f = b.finish_function(f);
        let mut p = b.finish_program(f);
        let mut g = p.functions.get(f).unwrap(); let mut bb = g.blocks.get(g.start).unwrap();
        bb.terminator = Terminator::Call { callee: fn_ptr(f), calling_convention: CallingConvention::Rust, arguments: list![], ret: unit_place(), next_block: None, unwind_block: Some(BbName(Name::from_internal(n))) };
        g.blocks.insert(g.start, bb); p.functions.insert(f, g);
        miniutil::pretty::fmt_program(p) };
    assert!(text(1) != text(2));
}
""", "a call that never returns but may unwind", "the dump does not show where such a call unwinds to")
S("C32-trailing-text", "C32", [(U + "json.rs", "    serde_json::from_reader(BufReader::new(r)).expect(\"Failed to parse JSON into program!\")", "    serde_json::Deserializer::from_reader(BufReader::new(r))\n        .into_iter()\n        .next()\n        .expect(\"There is no program!\")\n        .expect(\"Failed to parse JSON into program!\")")], "prog", r"""
pub fn run() {
    let mut b = ProgramBuilder::new(); let mut f = b.declare_function(); f.exit(); let f = b.finish_function(f); let p = b.finish_program(f);
    let mut t = serde_json::to_vec(&p).unwrap(); t.extend_from_slice(b" {\"functions\":");
    assert!(std::panic::catch_unwind(|| miniutil::json::load_program(&t[..])).is_err());
}
""", "a JSON file with more text after the program", "text after the program is ignored")
S("C33-leak-ok", "C33", [(U + "run.rs", "        Err(TerminationInfo::MachineStop) => Ok(out.into_strings()),\n        Err(info)", "        Err(TerminationInfo::MachineStop | TerminationInfo::MemoryLeak) => Ok(out.into_strings()),\n        Err(info)")], "prog", r"""
pub fn run() {
    let mut b = ProgramBuilder::new(); let mut f = b.declare_function(); let l = f.declare_local::<*mut u8>(); f.storage_live(l); f.allocate(const_int(4usize), const_int(4usize), l); f.exit(); let f = b.finish_function(f);
    assert_eq!(get_stdout::<BasicMem>(b.finish_program(f)), Err(TerminationInfo::MemoryLeak));
}
""", "a leaking program whose output is collected", "a leak is reported as success")
S("C26-vtable-align", "C26", [(VT, "let align = translate_align(layout.align.abi);", "let align = translate_align(layout.align.abi.min(self.tcx.data_layout.i128_align));")], "min:ok 64 1 64", r"""
#[repr(align(64))] struct A(#[allow(dead_code)] u8);
trait T {} impl T for A {} impl T for u8 {}
fn main() { let a: &dyn T = bb(&A(1)); print(std::mem::align_of_val(a)); let b: &dyn T = bb(&1u8); print(std::mem::align_of_val(b)); print(std::mem::size_of_val(a)); }
""", "a trait object of a type whose alignment exceeds that of every integer", "the vtable's alignment is cut to 16")
S("C31-compare-parens", "C31", [(U + "pretty/expr.rs", "                RelOp::Cmp => \"<=>\",\n            };\n\n            let l = fmt_value_expr(left.extract(), comptypes).to_atomic_string();\n            let r = fmt_value_expr(right.extract(), comptypes).to_atomic_string();", "                RelOp::Cmp => \"<=>\",\n            };\n\n            let l = fmt_value_expr(left.extract(), comptypes).to_string();\n            let r = fmt_value_expr(right.extract(), comptypes).to_string();")], "prog", r"""
pub fn run() {
    let text = |v: ValueExpr| { let mut b = ProgramBuilder::new(); let mut f = b.declare_function(); let l = f.declare_local::<bool>(); f.storage_live(l); f.assign(l, v); f.exit(); let f = b.finish_function(f); miniutil::pretty::fmt_program(b.finish_program(f)) };
    let (x, y, z) = (const_bool(true), const_bool(false), const_bool(false));
    assert!(text(lt(lt(x, y), z)) != text(lt(x, lt(y, z))));
}
""", "a comparison whose operand is a comparison", "(a < b) < c and a < (b < c) print the same text")
S("C30-while-kind", "C30", [(U + "build/terminator.rs", "        self.set_cur_block(cond, block_kind);\n\n        self.if_(", "        self.set_cur_block(cond, if block_kind == BbKind::Terminate { BbKind::Cleanup } else { block_kind });\n\n        self.if_(")], "prog", r"""
pub fn run() {
    let mut b = ProgramBuilder::new();
    let g = { let mut g = b.declare_function(); let c = g.cleanup_block(|g| g.resume_unwind()); g.start_unwind(unit_ptr(), c); b.finish_function(g) };
    let mut f = b.declare_function();
    let x = f.declare_local::<bool>();
    let t = f.terminating_block(|f| { f.storage_live(x); f.assign(x, const_bool(true)); f.while_(load(x), |f| f.assign(x, const_bool(false))); f.abort(); });
    let c = f.cleanup_block(|f| { f.call(unit_place(), fn_ptr(g), &[], t); f.exit(); });
    f.start_unwind(unit_ptr(), c);
    let f = b.finish_function(f);
    assert_eq!(get_stdout::<BasicMem>(b.finish_program(f)), Err(TerminationInfo::Abort));
}
""", "a loop inside a block that must not unwind", "loops in terminating blocks get the kind of a cleanup block")
if __name__ == "__main__":
    for i in (sys.argv[1:] or SEEDS): write(i)
