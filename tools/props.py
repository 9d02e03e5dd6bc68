def P(id, title, statement, over, qtext, why, files, mech, note="", **kw):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), note=note, **kw)

BB, RV, TY, EN, CH, CO, VT, MV, FU, PR = ("tooling/minimize/src/" + f for f in
    ("bb.rs", "rvalue.rs", "ty.rs", "enums.rs", "chunks.rs", "constant.rs", "vtable.rs", "main.rs", "function.rs", "program.rs"))
E2E = "Rust programs, generated and fixed, that the whole tool chain runs and whose outcome is compared with rustc's native execution of the same text or with an expectation written by hand"

PROPS = [
P("C01", "Integer operators compute exactly the specified mathematical result",
  "For every integer type and all operands, each integer operator of a Rust program run through the tool chain (and of the MiniRust machine itself) yields the mathematically specified value: wrapping operators wrap in two's complement, "
  "overflow-reporting operators return the wrapped value and flag overflow exactly when it happens, and unchecked operators, division, remainder, exact division and unchecked shifts are undefined behaviour exactly on overflow, a zero divisor, an unrepresentable or inexact quotient, or an out-of-range shift amount. "
  "Negation, bit-wise operators, bit counting and casts between integers, booleans, characters and enum tags follow the two's complement representation, and comparisons (including three-way, boolean and pointer comparisons) agree with the mathematical order.",
  ["inputs"], "all integer types (any byte size), all operand values", "The tests sample a few operand pairs per operator; the statement is over all values of all integer types.",
  ["spec/lang/step/operators.md", "spec/lang/types.md", RV, BB, "tooling/miniutil/src/build/expr.rs"],
  [("eval_int_bin_op, eval_bin_op, eval_rel_op, compare_ptr, eval_int_un_op, eval_count_ones, eval_cast_op", "spec/lang/step/operators.md"), ("IntType::bring_in_bounds, can_represent", "spec/lang/types.md"), ("translate_rvalue_smir: BinaryOp, CheckedBinaryOp, UnaryOp, Cast", RV), ("translate_rs_intrinsic: arithmetic intrinsics", BB)],
  harness="all 10 primitive integer types against Rust's own operations (sampled, 8-bit nearly exhaustive)"),

P("C02", "Pointer arithmetic is exact and out-of-bounds arithmetic is undefined behaviour",
  "Wrapping pointer offset moves the address by exactly count times element size modulo the address space and keeps provenance and allocation; in-bounds offset does the same but is undefined behaviour exactly if the byte offset overflows or the range between the old and new address is not inside one live allocation the pointer may access. "
  "Offset-from computes the exact distance in elements and is undefined behaviour unless both pointers are in bounds of the same allocation and the distance is a multiple of the element size (and non-negative for the unsigned form). "
  "Field, index and variant projections of a place yield exactly the address the layout prescribes, with an out-of-bounds index never yielding a place.",
  ["inputs"], "every pointer, element type and count", "Tests exercise a few offsets in one or two allocations.",
  ["spec/lang/step/operators.md", "spec/lang/step/expressions.md", "spec/mem/pointer.md", RV, BB, RV],
  [("eval_bin_op PtrOffset, PtrOffsetFrom; ptr_offset_inbounds", "spec/lang/step/operators.md"), ("Rvalue BinOp::Offset", RV), ("arith_offset, ptr_offset_from intrinsics", BB), ("translate_place_smir", RV)],
  harness="pointer offset and offset_from on memories in small address spaces against an independent statement"),

P("C03", "Type layouts are consistent and agree with what the compiler says",
  "For every type, the size, alignment, field offsets, niche and tag placement, slice and trait-object tail layout that the machine uses equal those of the Rust compiler, so size_of, align_of, size_of_val, align_of_val and the distance between fields observed by a program are the ones seen natively. "
  "The size of a sized value is a multiple of its alignment, fields lie inside the value, and the run-time size of an unsized value is computed from its metadata, rounded up to its alignment.",
  ["inputs"], "every representable Rust type, sized and unsized", "Tests look at a handful of types.",
  ["spec/lang/types.md", "spec/lang/machine.md", TY, EN, "tooling/miniutil/src/build/ty.rs"],
  [("Type::layout, LayoutStrategy", "spec/lang/types.md"), ("Machine::compute_size_and_align", "spec/lang/step/expressions.md"), ("translate_ty, translate_adt, slices and trait-object tails", TY)],
  ),

P("C04", "Storing and loading a value at any type round-trips, unions included",
  "For every type and every valid value, storing the value and loading it at that type yields the same value, transmuting between types of the same size preserves every data byte in the target's byte order, and overwriting one field or element leaves all other fields and elements unchanged. "
  "Copying a union preserves every byte that is data in some variant (including the parts of wide pointers, nested unions and arrays), and pointers keep their provenance when copied as part of any aggregate.",
  ["inputs"], "every type and every value of it", "Tests check single values of a few types.",
  ["spec/lang/representation.md", "spec/lang/values.md", CH, TY, RV],
  [("Type::encode, Type::decode", "spec/lang/representation.md"), ("calc_chunks, mark_size", CH), ("Aggregate, Repeat, Transmute", RV)],
  ),

P("C05", "Values invalid at their type and uninitialised data are undefined behaviour",
  "Loading, transmuting to or passing a value whose bytes are not a valid representation of its type (a boolean other than 0 or 1, a tag of no variant, a null or dangling or misaligned reference, uninitialised or padding bytes, an uninhabited type) is undefined behaviour, and loading valid bytes never is; reading the bytes of a pointer as an integer strips its provenance. "
  "Typed copies reset padding bytes to uninitialised, uninitialised memory stays so until written, and assert-validity intrinsics and unreachable code are diagnosed exactly when violated.",
  ["inputs"], "every type and every byte pattern", "Tests check a handful of invalid values.",
  ["spec/lang/representation.md", "spec/lang/well-formed.md", "spec/lang/step/expressions.md", TY, BB],
  [("Type::decode, check_value, check_ptr", "spec/lang/representation.md"), ("translate_ty", TY), ("assert_inhabited, assert_zero_valid, unreachable", BB)],
  ),

P("C06", "A new allocation never overlaps live memory and is placed legally",
  "Whenever an allocation (heap, stack local or global) succeeds, the block is suitably aligned, non-null, inside the address space and neither overlaps nor shares its start address with any live allocation, even for zero-sized blocks; "
  "it starts uninitialised with exactly the requested size, its pointer carries fresh provenance and all existing allocations are untouched. Requests with an invalid size or alignment are undefined behaviour.",
  ["inputs", "histories"], "every memory state, size, alignment and kind, and every resolution of the nondeterministic address choice", "Placement is nondeterministic; a test run sees one placement of a few blocks.",
  ["spec/mem/basic.md", "spec/mem/tree_borrows/memory.md", "spec/lang/step/intrinsics.md", BB],
  [("BasicMemory::allocate", "spec/mem/basic.md"), ("TreeBorrowsMemory::allocate", "spec/mem/tree_borrows/memory.md"), ("translate_mir_intrinsic: allocate", BB)],
  harness="sequences of allocations and releases in 8-, 16- and 64-bit address spaces, both memory models"),

P("C07", "Accesses succeed exactly when aligned and in bounds, and touch only those bytes",
  "A load, store, dereference or reference creation succeeds exactly if the address is aligned for its type and, unless it is zero-sized, the whole byte range lies in one live allocation that the pointer has provenance for; otherwise it is undefined behaviour and memory is unchanged. "
  "A store changes exactly the addressed bytes; a load returns exactly the bytes there and changes none, so what was stored is read back. Places in packed structs, raw pointers and expose/with_exposed/int-to-pointer round trips follow the same rule.",
  ["inputs", "histories"], "every memory state, pointer, length, alignment and byte list", "Tests try a handful of in- and out-of-bounds accesses.",
  ["spec/mem/basic.md", "spec/mem/tree_borrows/memory.md", "spec/lang/machine.md", RV, RV],
  [("BasicMemory::check_ptr, load, store, dereferenceable, signed_dereferenceable", "spec/mem/basic.md"), ("TreeBorrowsMemory::load, store, dereferenceable", "spec/mem/tree_borrows/memory.md"), ("Rvalue::Len, Ref, AddressOf", RV)],
  harness="random access sequences against a reference memory in 8-, 16- and 64-bit address spaces, both memory models"),

P("C08", "Memory is released once with matching parameters; leaks are live heap blocks",
  "Deallocation succeeds only through a pointer to the start of a live heap allocation with the same size and alignment, and then only that allocation becomes dead; any other deallocation is undefined behaviour and changes nothing. "
  "A dead allocation (a released block, or a local whose storage or function has ended) can never be accessed, released again or revived. At the end of the program a leak is reported exactly if some heap allocation is still live.",
  ["inputs", "histories"], "every memory state, pointer, kind, size and alignment", "Tests try a few mismatched releases; use-after-free must be caught after every history.",
  ["spec/mem/basic.md", "spec/mem/tree_borrows/memory.md", "spec/lang/step/intrinsics.md", BB],
  [("BasicMemory::deallocate, leak_check", "spec/mem/basic.md"), ("TreeBorrowsMemory::deallocate, leak_check", "spec/mem/tree_borrows/memory.md"), ("translate_mir_intrinsic: deallocate", BB)],
  harness="random allocate/release/access sequences against a reference memory, both memory models"),

P("C10", "Unsynchronised conflicting accesses, and only those, are data races",
  "Two accesses by different threads to a common byte, at least one a write and not both atomic, without synchronisation between them, are reported as a data race under some schedule and end the program as undefined behaviour. "
  "Programs whose conflicting accesses are ordered by spawn, join, locks, or are all atomic or all reads never report one under any schedule.",
  ["schedules", "histories"], "every program, every interleaving", "A test observes one random schedule of a few programs.",
  ["spec/mem/interface.md", "spec/lang/machine.md", "spec/lang/step/intrinsics.md", BB],
  [("Access::races, check_data_races", "spec/lang/machine.md"), ("volatile, atomic and plain accesses", BB)],
  ),

P("C12", "Exactly the accesses that violate the aliasing rules are undefined behaviour",
  "Under Tree Borrows, using a reference after a conflicting access through a foreign pointer, writing through a shared reference or a frozen mutable one, and invalidating or deallocating what a function argument protects are undefined behaviour. "
  "Programs respecting the rules - reborrowing, two-phase borrows, reading through siblings, raw pointers derived from a live reference, and writes through any UnsafeCell part of structs, tuples, arrays, slices, enums and unions, and of values behind trait objects - are never rejected.",
  ["inputs", "histories"], "every sequence of reborrows and accesses", "Tests exercise a few borrow patterns; the tree state machine has unboundedly many histories.",
  ["spec/mem/tree_borrows/memory.md", "spec/mem/tree_borrows/tree.md", "spec/mem/tree_borrows/state_machine.md", TY, VT, RV, RV, FU],
  [("Permission state machine", "spec/mem/tree_borrows/state_machine.md"), ("TreeBorrowsMemory::retag_ptr, end_call, load, store", "spec/mem/tree_borrows/memory.md"), ("unsafe cell ranges: cells_in_sized_ty, cells_in_slice, pointee info", TY), ("Retag statements", BB)],
  ),

P("C14", "Locks give mutual exclusion and deadlocks are detected",
  "At any time at most one thread holds a lock; acquire blocks exactly while another thread holds it and is granted to one waiter after release, and releasing a lock not held by the caller or using an unknown lock is undefined behaviour. "
  "A run in which every unfinished thread is blocked ends as a deadlock, and no other run does.",
  ["schedules", "histories"], "every program and interleaving", "A test observes one schedule.",
  ["spec/lang/step/locks.md", "spec/lang/machine.md", BB, "tooling/minimize/intrinsics/src/lib.rs"],
  [("lock create, acquire, release", "spec/lang/step/locks.md"), ("translate_mir_intrinsic: create_lock, acquire, release", BB)],
  ),

P("C15", "Threads run exactly once with their argument and joins wait for completion",
  "Spawning starts the given function exactly once in a new thread with exactly the given data pointer; join blocks until that thread has finished and then makes its effects visible; unknown thread ids are undefined behaviour. "
  "Any interleaving of the steps of runnable threads can occur, blocked threads never step, and the program ends when the main thread ends.",
  ["schedules", "histories"], "every program and interleaving", "A test observes one schedule.",
  ["spec/lang/step/intrinsics.md", "spec/lang/machine.md", BB, "tooling/minimize/intrinsics/src/lib.rs"],
  [("spawn, join", "spec/lang/step/intrinsics.md"), ("translate_mir_intrinsic: spawn, join", BB)],
  ),

P("C16", "Calls pass arguments and results faithfully and reject mismatched signatures",
  "A call of a function, method, generic instance, closure or function pointer runs exactly the callee with each argument bound to its parameter in order (closure environments and tupled arguments included), evaluates arguments before the call, and stores the result in the destination; recursion gives every frame its own locals. "
  "A call through a pointer whose target does not exist, or whose calling convention, number of arguments, or argument or return types are not ABI compatible, is undefined behaviour; compatible ones are accepted.",
  ["inputs"], "every callee and call site", "Tests exercise a few signatures.",
  ["spec/lang/step/terminators.md", FU, BB, TY, RV],
  [("Machine::create_frame, eval_terminator Call, check_abi_compatibility", "spec/lang/step/terminators.md"), ("translate_terminator Call, translate_calling_convention", BB), ("spread arguments, FnDef and closures", FU)],
  ),

P("C18", "Enums: discriminants, niches, tags and matching agree with the compiler",
  "For every enum, writing a variant and reading its discriminant or matching on it selects that variant with its fields, whatever the layout (explicit, negative or sparse discriminants, every repr, niche-encoded and single-variant layouts, uninhabited variants), and the bytes in memory are those the Rust compiler prescribes. "
  "Tags that belong to no variant are undefined behaviour on reading the discriminant.",
  ["inputs"], "every enum type and value", "Tests cover a few enums.",
  ["spec/lang/representation.md", "spec/lang/types.md", EN, RV],
  [("decode_discriminant, encode_discriminant, Discriminator", "spec/lang/representation.md"), ("translate_enum, niche discriminators", EN), ("Rvalue::Discriminant, Aggregate, SetDiscriminant", RV)],
  ),

P("C19", "Translated programs are well-formed; ill-formed ones are refused unrun",
  "Every supported Rust program is translated to a MiniRust program that the machine accepts as well-formed. "
  "A program the machine accepts refers only to declared locals, blocks, functions, globals, traits and vtables, moves values only between places and operands of the same type, uses every block kind as its kind allows, and has types whose parts fit together. "
  "A program that refers to something undeclared, mixes types, misuses a block kind or violates any other well-formedness condition is reported as not well-formed and no step of it runs.",
  ["inputs"], "every program", "Tests check a few ill-formed programs.",
  ["spec/lang/well-formed.md", "spec/prelude/main.md", FU, BB, PR, "tooling/miniutil/src/run.rs"],
  [("check_wf of programs, functions, statements, terminators, expressions, types, layouts", "spec/lang/well-formed.md"), ("translation of functions and programs", FU), ("run_program", "tooling/miniutil/src/run.rs")],
  ),

P("C21", "Atomic operations are single steps with the specified result",
  "Each supported atomic operation (load, store, compare-exchange, fetch-add and fetch-sub on integers, load, store and compare-exchange on pointers) reads and writes the memory cell in one indivisible step, returns the previous value, and stores exactly the specified result, also under every interleaving with other threads. "
  "Compare-exchange replaces the value exactly if it equals the expected one and reports whether it did; misaligned, dangling or wrongly typed operands are undefined behaviour or refused.",
  ["inputs", "schedules"], "every operation, size, operand and interleaving", "A test observes one schedule and a few operands.",
  ["spec/lang/step/intrinsics.md", BB, "tooling/minimize/intrinsics/src/lib.rs"],
  [("AtomicStore, AtomicLoad, AtomicCompareExchange, AtomicFetchAndOp", "spec/lang/step/intrinsics.md"), ("translate_rs_intrinsic: atomic_*", BB)],
  ),

P("C22", "Panics unwind through every frame, running each destructor exactly once",
  "A panic (explicit, failed assertion, overflow, bounds) unwinds through all frames up to the enclosing catch, running in order exactly the destructors of the live initialised values, each once; without a panic every value is dropped exactly once in reverse declaration order, moved-out values never. "
  "A catch reports whether a panic happened and passes on its payload, a panic that escapes a non-unwinding function or a second panic during cleanup aborts, and a panic in one destructor still drops the remaining values.",
  ["inputs"], "every program, every point a panic can occur at", "Tests cover a few panic sites.",
  ["spec/lang/step/terminators.md", "spec/lang/well-formed.md", BB, FU, "tooling/minimize/intrinsics/src/lib.rs"],
  [("StartUnwind, StopUnwind, ResumeUnwind, Call unwind blocks", "spec/lang/step/terminators.md"), ("Drop, Assert, UnwindAction, catch_unwind", BB)],
  ),

P("C24", "Locals have storage exactly while live, fresh in every activation",
  "A local is backed by its own uninitialised memory of the right size and alignment from the point its storage starts to the point it ends or the function returns, in every frame and every loop iteration separately; access outside is undefined behaviour. "
  "Arguments and the return place are live from function entry on, and storage that is started twice is fresh the second time.",
  ["inputs", "histories"], "every function body and control-flow path", "Tests sample some paths.",
  ["spec/lang/step/statements.md", "spec/lang/machine.md", FU, BB],
  [("StorageLive, StorageDead, Frame::storage_live, storage_dead", "spec/lang/step/statements.md"), ("always-live locals, spread arguments", FU)],
  ),

P("C26", "Dynamic dispatch calls the method of the concrete type",
  "A method call through a trait object runs exactly the implementation of that method for the value's concrete type with the value as receiver, for every receiver kind, including default, generic and inherited supertrait methods, multiple traits with equal method names, and trait objects inside structs. "
  "Size, alignment, interior mutability and destruction of a trait object are those of the concrete type, vtables are shared per type and trait, and a wide pointer with a vtable for another trait, or none, is undefined behaviour.",
  ["inputs"], "every trait, implementing type and method", "Tests cover a few traits.",
  ["spec/lang/step/expressions.md", "spec/lang/machine.md", VT, BB, TY],
  [("VTableLookup, VTableMethodLookup", "spec/lang/step/expressions.md"), ("generate_vtable, generate_trait", VT), ("unsizing coercions", RV), ("Drop of trait objects, virtual calls", BB)],
  ),

P("C27", "Control flow follows the source: branches, matches, loops, assertions",
  "Branches, loops, labelled breaks, early returns and matches (integers of every width and sign, characters, ranges, enums, nested patterns, guards, or-patterns, bindings) take exactly the path the Rust semantics prescribes, and every statement on the path executes exactly once and in order. "
  "A failed run-time assertion (bounds, overflow, division) panics and a passing one does not.",
  ["inputs"], "every control-flow graph and every tested value", "Tests sample some paths.",
  ["spec/lang/step/terminators.md", BB, "tooling/miniutil/src/build/terminator.rs", RV],
  [("Switch, Goto, Return", "spec/lang/step/terminators.md"), ("SwitchInt, Assert, Goto, FalseEdge", BB)],
  ),

P("C28", "Constants and statics have the value and sharing the compiler gives them",
  "Every constant, promoted value and static evaluates to exactly the bytes and pointers the compiler computed: integers of every width, characters, booleans, pointers to other statics or into their middle, nested and cyclic references, strings, slices, and padding left uninitialised. "
  "Each static is one allocation with the compiler's alignment that keeps its mutations for the whole run and is shared by all threads.",
  ["inputs"], "every constant expression and static initialiser", "Tests cover a few constants.",
  [CO, "spec/lang/machine.md", "spec/lang/syntax.md"],
  [("translate_const, translate_static, relocations", CO), ("Machine::new: globals, relocations", "spec/lang/machine.md")],
  ),

P("C30", "The program builder produces exactly the syntax it names",
  "Each helper of the program builder (types, expressions, places, statements, terminators, control-flow combinators, function and program builders) yields exactly the MiniRust syntax its name and parameters say: operands in order, the right operator and type, fresh distinct locals and blocks, blocks of the right kind, and no effect on other parts of the program. "
  "Structured helpers (if, while, switch, calls, locks, spawn, cleanup blocks) yield control flow that executes their closures' statements as named.",
  ["inputs", "histories"], "every builder call sequence", "Tests use the builders but compare only final outcomes of a few programs.",
  ["tooling/miniutil/src/build"],
  [("FunctionBuilder, ProgramBuilder", "tooling/miniutil/src/build/function.rs"), ("expressions", "tooling/miniutil/src/build/expr.rs"), ("terminators", "tooling/miniutil/src/build/terminator.rs"), ("types", "tooling/miniutil/src/build/ty.rs")],
  ),

P("C31", "The textual dump shows the program's code faithfully and unambiguously",
  "The textual dump of a program shows every function, basic block, statement, terminator, place and value expression, local, global, vtable and named composite type exactly once, in a stable order, with its operators, operands, callees, successor blocks and field offsets as they are in the program. "
  "Brackets balance, programs that differ in any of these never print the same text, and dumping is deterministic and never fails on a well-formed program.",
  ["inputs"], "every program", "Tests compare no dumps.",
  ["tooling/miniutil/src/pretty"],
  [("dump_program, fmt_*", "tooling/miniutil/src/pretty")],
  ),

P("C32", "A program survives the JSON round trip unchanged",
  "Writing any program as JSON and reading it back yields an equal program that runs the same way; integers of any size, provenance, names, empty collections, option and nested types included. "
  "Text that is truncated, followed by more text, of the wrong shape, or with unknown or missing parts (other than optional ones, whose absence means none) is rejected with an error and nothing is executed; accepted text means exactly what it says.",
  ["inputs"], "every program; every text", "Tests round-trip a few programs.",
  ["tooling/miniutil/src/json.rs", "tooling/minirun/src/main.rs", MV],
  [("json reading and writing", "tooling/miniutil/src"), ("--minimize-check-json-roundtrip, --minimize-dump=json", MV)],
  ),

P("C33", "Outcome of a run is reported faithfully: output, exit status, error kind",
  "Exactly what the program printed appears, in order, on the stream it was printed to, also when it later fails; a program that finishes or exits ends with status 0 and every other ending (undefined behaviour, ill-formedness, abort, deadlock, leak) is reported with its own message and a non-zero status. "
  "Command-line flags select exactly the documented behaviour, unknown ones are refused, and running the program the two tools exchange as JSON gives the same outcome as running it directly.",
  ["inputs"], "every program, ending and command line", "Tests run one tool with a few programs in-process.",
  [MV, "tooling/minirun/src/main.rs", "tooling/miniutil/src/run.rs", "tooling/miniutil/src/mock_write.rs", "spec/lang/step/intrinsics.md"],
  [("run_program, TerminationInfo", "tooling/miniutil/src/run.rs"), ("command line", MV), ("PrintStdout, PrintStderr, Exit", "spec/lang/step/intrinsics.md")],
  ),
]

INTS = "usize/u32/i32 arithmetic of the code is treated as mathematical"
STR = "text of error messages is erased: only the kind of the outcome is compared"
EXTRA = {
 "C12": dict(assumptions=[INTS, STR, "Node::access, Node::access_node and Node::release_protector are taken to terminate (structural recursion through a higher-order list operation); their defining equations are used, by induction on the path, as axioms"]),
 "C30": dict(harness="every constructor, statement, terminator and block builder called natively and its result compared with syntax written out by hand; random programs built and rendered",
   assumptions=["name counters (u32/usize) are mathematical integers", "panics inside closures taken out of collections are not tracked", "FREEZE and UNPIN of TypeConv are explicit parameters (dictionary passing)", "the macros list! and block! are expanded by the extractor", "build__from_frozen_layout is taken to terminate"],
   trusted=["specx's translation of the builder's Rust subset (generic parameters, &mut self, closures, method-call chains)"]),
}
for _p in PROPS: _p.update(EXTRA.get(_p["id"], {}))
FRAME = "Map keys/iteration order unspecified; maps finite (stated as preconditions)"
TERM_TYPES = 'Type::encode/decode, encode_discriminant/decode_discriminant and Machine::check_value/check_ptr/check_ptr_metadata are recursive over a type that the verifier sees through maps and lists; they are taken to terminate and their defining equations, printed from the extracted bodies, are used as axioms'
EXTRA2 = {
 "C28": dict(assumptions=[INTS, STR, "stated over the abstract memory interface; what its allocate and store do is C06 and C04/C07"]),
 "C33": dict(assumptions=[INTS, STR, "what write! puts on the stream is erased by the extraction: the printed text, the command line and the exit status are decided end to end only"]),
 "C10": dict(assumptions=[INTS, STR, "the equivalence with 'share a byte' is stated for accesses of at least one byte"]),
 "C14": dict(assumptions=[INTS, STR, "lock identifiers fit a usize (library list indexing)", "nondeterministic choice: pick returns an admissible outcome or there is no behaviour"]),
 "C15": dict(assumptions=[INTS, STR, "thread identifiers fit a usize"]),
 "C16": dict(assumptions=[INTS, STR, FRAME, "check_abi_compatibility and the release loop of Return are taken to terminate; defining equations used as axioms"]),
 "C21": dict(assumptions=[INTS, STR, "Type::decode is taken to terminate; what a typed load at an integer type yields is an integer (follows from lemma `ints` for loads of the right length)"]),
 "C22": dict(assumptions=[INTS, STR, FRAME, "the release loop of ResumeUnwind is taken to terminate"]),
 "C24": dict(assumptions=[INTS, STR, FRAME, "the release loop of Return is taken to terminate"]),
 "C27": dict(assumptions=[INTS, STR, "eval_value and eval_place are abstract (taken to terminate)"]),
 "C04": dict(assumptions=[INTS, STR, FRAME, TERM_TYPES, "a target is 2, 4 or 8 bytes wide and its tagged/wide layouts are the ones the program declares; that an enum's variants keep the tag bytes apart from their fields is what C18's contract discharges from well-formedness"]),
 "C05": dict(assumptions=[INTS, STR, FRAME, TERM_TYPES]),
 "C18": dict(assumptions=[INTS, STR, TERM_TYPES, "Type::check_wf and Discriminator::check_wf are taken to terminate; defining equations used as axioms"]),
 "C26": dict(assumptions=[INTS, STR, FRAME, "two vtables have different base pointers (each vtable is its own allocation: C06)"]),
}
for _p in PROPS: _p.update(EXTRA2.get(_p["id"], {}))
# properties whose contracts also cover functions of the translator
MIR = ["the compiler's answers (layouts, MIR, instances, interpreter reads) are arbitrary: its queries are uninterpreted total pure functions (specx/src/rustc.txt); two calls with the same arguments answer the same",
       "which fields of Ctxt/FnCtxt a translator function leaves alone is computed syntactically over the call graph (tools/frames.py) and used as axioms",
       "recursive functions and unbounded loops of the translator are taken to terminate; their defining equations are axioms (X__def)"]
EXTRA3 = {
 "C01": [INTS, STR], "C02": [INTS, STR], "C03": [INTS, STR, "Type::layout descends a finite type (measured where structural, otherwise by its defining equation)"],
 "C06": [INTS, STR, "pick returns an admissible address or there is no behaviour; the address space is finite and its size is the one of the target"],
 "C07": [INTS, STR], "C08": [INTS, STR],
 "C19": [INTS, STR, FRAME, "Type::check_wf, {PlaceExpr, ValueExpr}::check_wf and Discriminator::check_wf are taken to terminate; defining equations used as axioms"],
}
for _p in PROPS:
    _p["assumptions"] = _p.get("assumptions") or EXTRA3.get(_p["id"], [])
    if _p["id"] in "C01 C02 C03 C04 C05 C06 C07 C08 C12 C14 C15 C16 C18 C21 C22 C24 C26 C27 C28 C33".split(): _p["assumptions"] = _p["assumptions"] + MIR
    if _p["id"] == "C28": _p["assumptions"] = _p["assumptions"] + ["the compiler's iterator over the elements of a constant array yields them in order and then ends, whatever state its interpreter is in (hypothesis `walks` of mir_const_val)"]
