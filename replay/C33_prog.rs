use miniutil::*;
use miniutil::build::*;
use miniutil::mock_write::MockWrite;
use miniutil::run::*;
use minirust_rs::vhu;
use std::io::Write;

const ENDS: &[&str] = &["exit", "unreachable", "abort", "the start function returns", "leak", "deadlock", "assumption broken", "no such function", "exit with memory freed"];
/// a program that prints `vals` (an integer or a boolean, on one of the streams) and then ends as ENDS[end] says
fn program(vals: &[(bool, Option<i64>, bool)], end: usize) -> Program {
    let mut b = ProgramBuilder::new();
    let mut f = b.declare_function();
    for (err, i, t) in vals {
        let v = match i { Some(i) => const_int::<i64>(*i), None => const_bool(*t) };
        if *err { f.eprint(v) } else { f.print(v) }
    }
    let l = f.declare_local::<*mut u8>();
    let k = f.declare_local::<u32>();
    match end {
        0 => f.exit(), 1 => f.unreachable(), 2 => f.abort(), 3 => f.return_(),
        4 => { f.storage_live(l); f.allocate(const_int(4usize), const_int(4usize), l); f.exit() }
        5 => { f.storage_live(k); f.lock_create(k); f.lock_acquire(load(k)); f.lock_acquire(load(k)); f.exit() }
        6 => { f.assume(const_bool(false)); f.exit() }
        7 => { f.call_ignoreret(fn_ptr_internal(77), &[]); f.exit() }
        _ => { f.storage_live(l); f.allocate(const_int(4usize), const_int(4usize), l); f.deallocate(load(l), const_int(4usize), const_int(4usize)); f.exit() }
    }
    let f = b.finish_function(f);
    b.finish_program(f)
}
fn kind(t: &TerminationInfo) -> &'static str {
    match t { TerminationInfo::Ub(_) => "UB", TerminationInfo::MachineStop => "stop", TerminationInfo::Abort => "abort", TerminationInfo::IllFormed(_) => "ill-formed", TerminationInfo::Deadlock => "deadlock", TerminationInfo::MemoryLeak => "leak" }
}
fn one<M: Memory>(model: &str, vals: &[(bool, Option<i64>, bool)], end: usize) {
    let want = match end { 0 | 8 => "stop", 1 | 3 | 6 => "UB", 2 => "abort", 4 => "leak", 5 => "deadlock", _ => "ill-formed" };
    let d = || format!("{model}: a program prints {vals:?} and ends with: {}", ENDS[end]);
    let lines: Vec<std::string::String> = vals.iter().filter(|v| !v.0).map(|v| match v.1 { Some(i) => i.to_string(), None => v.2.to_string() }).collect();
    match vhu::catch(|| get_stdout::<M>(program(vals, end))) {
        Ok(Ok(out)) => { vhu::eq("stop", want, || format!("{}: the outcome of get_stdout", d())); vhu::eq(out, lines, || format!("{}: the lines", d())); }
        Ok(Err(t)) => vhu::eq(kind(&t), want, || format!("{}: the outcome of get_stdout", d())),
        Err(e) => vhu::fail(&format!("{}: get_stdout panicked: {e}", d())),
    }
    match vhu::catch(|| run_program::<M>(program(vals, end))) {
        Ok(t) => vhu::eq(kind(&t), want, || format!("{}: the outcome of run_program", d())),
        Err(e) => vhu::fail(&format!("{}: run_program panicked: {e}", d())),
    }
}
pub fn run() {
    for end in 0..ENDS.len() {
        for k in 0..vhu::scale(6) {
            // what run_program prints goes to our own standard output; nothing there starts like a report
            let vals: Vec<(bool, Option<i64>, bool)> = (0..if k == 0 { 0 } else { vhu::below(9) }).map(|_| (vhu::below(4) == 0, match vhu::below(6) { 0 => None, 1 => Some(vhu::pick(&[i64::MIN, i64::MAX, -1, 0, 10])), _ => Some(vhu::range(-1000, 1000)) }, vhu::coin())).collect();
            one::<BasicMem>("basic memory", &vals, end);
            one::<TreeBorrowMem>("tree borrows", &vals, end);
        }
    }
    // the buffer that collects the output: all that was written to any of its clones, in order, split at the ends of lines
    for _ in 0..vhu::scale(60) {
        let m = MockWrite::new();
        let mut clones = vec![m.clone(), m.clone(), m];
        let mut text = std::string::String::new();
        for _ in 0..vhu::below(12) {
            let part = vhu::pick(&["", "a", "é", "12\n", "\n", "x y", "\n\n", " ", "\r\n", "-1\n"]);
            let i = vhu::below(clones.len() as u64) as usize;
            vhu::check(clones[i].write_all(part.as_bytes()).is_ok() && clones[i].flush().is_ok(), || "MockWrite: writing succeeds".into());
            text.push_str(part);
        }
        let want: Vec<std::string::String> = { let mut v: Vec<_> = text.split('\n').map(|s| s.strip_suffix('\r').unwrap_or(s).to_string()).collect(); if v.last().is_some_and(|s| s.is_empty()) && (text.ends_with('\n') || text.is_empty()) { v.pop(); } v };
        let got = vhu::catch(|| clones.pop().unwrap().into_strings());
        vhu::check(got.as_ref() == Ok(&want), || format!("MockWrite: {text:?} collected as {got:?}"));
    }
}
