//! Native stand-in for the `intrinsics` crate: the oracle side of the differential runs. Written from the crate's
//! documentation, independently of the repository's own bodies.
use std::fmt::Display;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::thread::JoinHandle;
pub fn print(t: impl Display) { println!("{t}"); }
pub fn eprint(t: impl Display) { eprintln!("{t}"); }
pub fn exit() { std::process::exit(0); }
pub unsafe fn allocate(size: usize, align: usize) -> *mut u8 { std::alloc::alloc(std::alloc::Layout::from_size_align(size.max(1), align).unwrap()) }
pub unsafe fn deallocate(ptr: *mut u8, size: usize, align: usize) { std::alloc::dealloc(ptr, std::alloc::Layout::from_size_align(size.max(1), align).unwrap()) }
static HANDLES: Mutex<Vec<Option<JoinHandle<()>>>> = Mutex::new(Vec::new());
struct P(*const ());
unsafe impl Send for P {}
pub fn spawn(f: extern "C" fn(*const ()), data: *const ()) -> usize {
    let p = P(data);
    let h = std::thread::spawn(move || { let p = p; f(p.0) });
    let mut v = HANDLES.lock().unwrap();
    v.push(Some(h));
    v.len()
}
pub fn join(id: usize) { let h = HANDLES.lock().unwrap()[id - 1].take().unwrap(); h.join().unwrap(); }
static LOCKS: Mutex<Vec<bool>> = Mutex::new(Vec::new());
static CV: Condvar = Condvar::new();
pub fn create_lock() -> usize { let mut l = LOCKS.lock().unwrap(); l.push(false); l.len() - 1 }
pub fn acquire(id: usize) { let mut l = LOCKS.lock().unwrap(); while l[id] { l = CV.wait(l).unwrap(); } l[id] = true; }
pub fn release(id: usize) { LOCKS.lock().unwrap()[id] = false; CV.notify_all(); }
pub unsafe fn atomic_store(ptr: *mut u32, value: u32) { AtomicU32::from_ptr(ptr).store(value, SeqCst) }
pub unsafe fn atomic_load(ptr: *mut u32) -> u32 { AtomicU32::from_ptr(ptr).load(SeqCst) }
pub unsafe fn compare_exchange(ptr: *mut u32, current: u32, new: u32) -> u32 { match AtomicU32::from_ptr(ptr).compare_exchange(current, new, SeqCst, SeqCst) { Ok(v) | Err(v) => v } }
pub unsafe fn atomic_fetch_add(ptr: *mut u32, d: u32) -> u32 { AtomicU32::from_ptr(ptr).fetch_add(d, SeqCst) }
pub unsafe fn atomic_fetch_sub(ptr: *mut u32, d: u32) -> u32 { AtomicU32::from_ptr(ptr).fetch_sub(d, SeqCst) }
