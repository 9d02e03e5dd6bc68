// C10: a data race is reported exactly if two unsynchronized accesses of consecutive steps conflict.

/// the accesses have a byte in common
pub open spec fn share_byte(a: Access, b: Access) -> bool { exists|x: int| a.addr <= x < a.addr + a.len.raw && b.addr <= x && #[trigger] (x + 0) < b.addr + b.len.raw }
pub open spec fn writes(a: Access) -> bool { a.ty == AccessType::Store }
/// two accesses race: they share a byte, at least one writes, and not both are atomic
pub open spec fn race(a: Access, b: Access) -> bool {
    share_byte(a, b) && (writes(a) || writes(b)) && !(a.atomicity == Atomicity::Atomic && b.atomicity == Atomicity::Atomic)
}
/// (for accesses of at least one byte; see DESIGN.md for accesses of no bytes)
pub open spec fn nonempty(l: List<Access>) -> bool { forall|i: int| 0 <= i < l.s.len() ==> (#[trigger] l.s[i]).len.raw > 0 }

pub proof fn races(a: Access, b: Access)
    requires a.len.raw > 0, b.len.raw > 0
    ensures Access__races(a, b) == race(a, b), Access__races_ok(a, b), Access__races(a, b) == Access__races(b, a)
{
    let lo = if a.addr <= b.addr { b.addr } else { a.addr };
    if a.addr + a.len.raw > b.addr && b.addr + b.len.raw > a.addr { assert(lo + 0 < b.addr + b.len.raw); assert(share_byte(a, b)); }
}
/// disjoint accesses never race, whatever their size
pub proof fn disjoint_never_races(a: Access, b: Access)
    requires a.len.raw >= 0, b.len.raw >= 0, a.addr + a.len.raw <= b.addr || b.addr + b.len.raw <= a.addr
    ensures !Access__races(a, b)
{ }
pub proof fn reads_never_race(a: Access, b: Access)
    ensures a.ty == AccessType::Load && b.ty == AccessType::Load ==> !Access__races(a, b),
        a.atomicity == Atomicity::Atomic && b.atomicity == Atomicity::Atomic ==> !Access__races(a, b),
{ }

/// some access from position i of l races with some access of prev
pub open spec fn racing(l: List<Access>, i: int, prev: List<Access>) -> bool {
    exists|j: int, k: int| i <= j < l.s.len() && 0 <= k < prev.s.len() && #[trigger] race(l.s[j], prev.s[k])
}
pub proof fn check_loop(l: List<Access>, i: int, prev: List<Access>)
    requires 0 <= i <= l.s.len(), nonempty(l), nonempty(prev)
    ensures ConcurrentMemory__check_data_races__loop1_ok(l, i, prev), ({
        let r = ConcurrentMemory__check_data_races__loop1(l, i, prev);
        if racing(l, i, prev) { r is Exit && is_ub(r->Exit_0) } else { r is Cont }
    })
    decreases l.s.len() - i
{
    if i < l.s.len() {
        check_loop(l, i + 1, prev);
        assert forall|k: int| 0 <= k < prev.s.len() implies Access__races(l.s[i], #[trigger] prev.s[k]) == race(l.s[i], prev.s[k]) by { races(l.s[i], prev.s[k]); }
        if racing(l, i, prev) && !racing(l, i + 1, prev) {
            let (j, k) = choose|j: int, k: int| i <= j < l.s.len() && 0 <= k < prev.s.len() && #[trigger] race(l.s[j], prev.s[k]);
            assert(j == i);
            assert(Access__races(l.s[i], prev.s[k]));
        }
        if !racing(l, i, prev) {
            assert forall|k: int| 0 <= k < prev.s.len() implies !Access__races(l.s[i], #[trigger] prev.s[k]) by { races(l.s[i], prev.s[k]); }
            if racing(l, i + 1, prev) {
                let (j, k) = choose|j: int, k: int| i + 1 <= j < l.s.len() && 0 <= k < prev.s.len() && #[trigger] race(l.s[j], prev.s[k]);
                assert(race(l.s[j], prev.s[k]));
            }
        }
    }
}
/// undefined behaviour exactly if the thread is not synchronized with the previous step and some pair of accesses races
pub proof fn check_data_races(m: ConcurrentMemory, cur: int, sync: Set<int>, prev: List<Access>)
    requires nonempty(m.accesses), nonempty(prev)
    ensures ConcurrentMemory__check_data_races_ok(m, cur, (sync, prev)), ({
        let r = ConcurrentMemory__check_data_races(m, cur, (sync, prev));
        if !sync.s.contains(cur) && racing(m.accesses, 0, prev) { is_ub(r) } else { r is Ok }
    })
{ check_loop(m.accesses, 0, prev); }
/// without any assumption on sizes: reported only if the thread is not synchronized and something was accessed in both steps
pub proof fn no_spurious_report(m: ConcurrentMemory, cur: int, sync: Set<int>, prev: List<Access>)
    ensures sync.s.contains(cur) || m.accesses.s.len() == 0 ==> ConcurrentMemory__check_data_races(m, cur, (sync, prev)) is Ok,
{ }

// ---------------------------------------------------------------- what is recorded
/// a load or store records exactly itself, also if it fails
pub proof fn load_records(m: ConcurrentMemory, p: ThinPointer<Prov>, len: Size, align: Align, at: Atomicity)
    ensures ({
        let (n, r) = ConcurrentMemory__load(m, p, len, align, at);
        let (mem, r0) = MemM__load(m.memory, p, len, align);
        n.accesses.s == m.accesses.s.push(Access { ty: AccessType::Load, atomicity: at, addr: p.addr, len }) && n.memory == mem && r == r0
    })
{ }
pub proof fn store_records(m: ConcurrentMemory, p: ThinPointer<Prov>, b: List<AbstractByte<Prov>>, align: Align, at: Atomicity)
    ensures ({
        let (n, r) = ConcurrentMemory__store(m, p, b, align, at);
        let (mem, r0) = MemM__store(m.memory, p, b, align);
        n.accesses.s == m.accesses.s.push(Access { ty: AccessType::Store, atomicity: at, addr: p.addr, len: Size { raw: b.s.len() as int } }) && n.memory == mem && r == r0
    })
{ }
/// de-initialisation is a non-atomic write of uninitialised bytes
pub proof fn deinit_writes(m: ConcurrentMemory, p: ThinPointer<Prov>, len: Size, align: Align)
    requires len.raw >= 0
    ensures ({
        let (n, r) = ConcurrentMemory__deinit(m, p, len, align);
        n.accesses.s == m.accesses.s.push(Access { ty: AccessType::Store, atomicity: Atomicity::None, addr: p.addr, len })
    })
{ }
/// checks of dereferenceability, allocation and retagging record nothing
pub proof fn others_record_nothing(m: ConcurrentMemory, fe: MemFrameExtra, kind: AllocationKind, p: ThinPointer<Prov>, size: Size, align: Align, ptr: Pointer<Prov>, t: PtrType, b: bool, vt: spec_fn(ThinPointer<Prov>) -> VTable)
    ensures ConcurrentMemory__allocate(m, kind, size, align).0.accesses == m.accesses,
        ConcurrentMemory__deallocate(m, p, kind, size, align).0.accesses == m.accesses,
        ConcurrentMemory__retag_ptr(m, fe, ptr, t, b, vt).0.accesses == m.accesses,
        ConcurrentMemory__end_call(m, fe).0.accesses == m.accesses,
{ }
/// a fresh memory has recorded nothing
pub proof fn new_records_nothing()
    ensures ConcurrentMemory__new().accesses.s.len() == 0
{ }

// ---------------------------------------------------------------- one step of the machine
/// at the start of a step the record is emptied, and whoever is synchronized, or ran before, is exempt
pub proof fn reset_tracking(m: Machine)
    ensures ({
        let (n, (sync, prev)) = Machine__reset_data_race_tracking(m);
        &&& n.mem.accesses.s.len() == 0 && n.mem.memory == m.mem.memory
        &&& prev == m.mem.accesses
        &&& sync.s == m.synchronized_threads.s.insert(m.active_thread)
        &&& n.threads == m.threads && n.locks == m.locks && n.active_thread == m.active_thread
    })
{ }
/// a step that succeeds has passed the check against the accesses of the step before
pub proof fn step_checks(m: Machine)
    ensures ({
        let (n, r) = Machine__step(m);
        let (_, prev) = Machine__reset_data_race_tracking(m);
        r is Ok ==> ConcurrentMemory__check_data_races(n.mem, n.active_thread, prev) is Ok
    })
{ }
/// so no successful step races with the one before, unless its thread is exempt
pub proof fn step_no_race(m: Machine)
    requires nonempty(m.mem.accesses), nonempty(Machine__step(m).0.mem.accesses)
    ensures ({
        let (n, r) = Machine__step(m);
        r is Ok && !m.synchronized_threads.s.contains(n.active_thread) && n.active_thread != m.active_thread ==> !racing(n.mem.accesses, 0, m.mem.accesses)
    })
{
    step_checks(m);
    let (n, r) = Machine__step(m);
    let (_, (sync, prev)) = Machine__reset_data_race_tracking(m);
    check_data_races(n.mem, n.active_thread, sync, prev);
}
