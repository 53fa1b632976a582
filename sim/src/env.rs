//! Seams under the library: hash seeds, the allocator, panics and the log receiver.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

thread_local! {
    /// Library code is running on this thread (as opposed to the simulator's own)
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static ALLOC_BYTES: Cell<u64> = const { Cell::new(0) };
    static LOGS: Cell<u64> = const { Cell::new(0) };
    static HASH_SEED: Cell<u64> = const { Cell::new(0) };
    static HASH_CALLS: Cell<u64> = const { Cell::new(0) };
    static HAS_HOOK: Cell<u8> = const { Cell::new(0) };
    static HOOK: RefCell<Option<Arc<dyn Hook>>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub const HOOK_LOG: u8 = 1;
pub const HOOK_ALLOC: u8 = 2;

/// Called when library code on this thread logs or allocates
pub trait Hook: Send + Sync {
    fn event(&self, what: &'static str);
}

pub fn set_hook(h: Option<(Arc<dyn Hook>, u8)>) {
    match h {
        Some((h, mask)) => {
            HOOK.with(|x| *x.borrow_mut() = Some(h));
            HAS_HOOK.with(|x| x.set(mask));
        }
        None => {
            HAS_HOOK.with(|x| x.set(0));
            HOOK.with(|x| *x.borrow_mut() = None);
        }
    }
}

fn fire(bit: u8, what: &'static str) {
    if HAS_HOOK.with(|x| x.get()) & bit != 0 {
        out(|| {
            let h = HOOK.with(|x| x.borrow().clone());
            if let Some(h) = h {
                h.event(what);
            }
        });
    }
}

pub struct Alloc;

fn on_alloc(size: usize) {
    if IN_LIB.with(|x| x.get()) {
        ALLOCS.with(|x| x.set(x.get() + 1));
        ALLOC_BYTES.with(|x| x.set(x.get() + size as u64));
        fire(HOOK_ALLOC, "alloc");
    }
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        on_alloc(n);
        System.realloc(p, l, n)
    }
}

/// Everything std asks the operating system to randomise comes from here
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let seed = HASH_SEED.with(|x| x.get());
    let k = HASH_CALLS.with(|x| {
        x.set(x.get() + 1);
        x.get()
    });
    for i in 0..len {
        let v = crate::src::mix(seed ^ crate::src::mix(k.wrapping_mul(1 << 20) + i as u64 / 8));
        unsafe { *buf.add(i) = (v >> ((i % 8) * 8)) as u8 };
    }
    len as isize
}

/// Must be called before the thread first makes a hash map
pub fn set_hash_seed(seed: u64) {
    HASH_SEED.with(|x| x.set(seed));
    HASH_CALLS.with(|x| x.set(0));
}

/// Run simulator code (possibly called back from library code): not counted, no yield points
pub fn out<T>(f: impl FnOnce() -> T) -> T {
    struct Restore(bool, u64, u64);
    impl Drop for Restore {
        fn drop(&mut self) {
            IN_LIB.with(|x| x.set(self.0));
            set_edges(self.1);
            set_moved(self.2);
        }
    }
    let _r = Restore(IN_LIB.with(|x| x.replace(false)), edges(), moved());
    f()
}

/// Edges of the control flow run so far on this thread, in builds that count them. Everything is
/// compiled to count, the standard library too, so this is the simulated processor time.
#[cfg(sim_edges)]
mod count {
    extern "C" {
        fn sim_edges_at() -> *mut u64;
        fn sim_moved_at() -> *mut u64;
    }
    pub fn edges() -> u64 {
        unsafe { *sim_edges_at() }
    }
    pub fn set_edges(n: u64) {
        unsafe { *sim_edges_at() = n }
    }
    /// Bytes copied
    pub fn moved() -> u64 {
        unsafe { *sim_moved_at() }
    }
    pub fn set_moved(n: u64) {
        unsafe { *sim_moved_at() = n }
    }
}
#[cfg(not(sim_edges))]
mod count {
    pub fn edges() -> u64 {
        0
    }
    pub fn set_edges(_: u64) {}
    pub fn moved() -> u64 {
        0
    }
    pub fn set_moved(_: u64) {}
}
use count::{edges, moved, set_edges, set_moved};

/// Panic payload of a panic injected by the simulator
pub struct Injected(pub u64);

#[derive(Debug, Clone)]
pub enum Panicked {
    Injected(u64),
    Other(String),
}

/// Run library code: allocations and log events count, panics are caught
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    struct Restore(bool);
    impl Drop for Restore {
        fn drop(&mut self) {
            IN_LIB.with(|x| x.set(self.0));
        }
    }
    let r = {
        let _r = Restore(IN_LIB.with(|x| x.replace(true)));
        catch_unwind(AssertUnwindSafe(f))
    };
    r.map_err(|p| {
        out(|| match p.downcast_ref::<Injected>() {
            Some(i) => Panicked::Injected(i.0),
            None => Panicked::Other(
                LAST_PANIC.with(|x| x.borrow_mut().take()).unwrap_or_else(|| "panic".into()),
            ),
        })
    })
}

pub fn inject_panic(id: u64) -> ! {
    std::panic::resume_unwind(Box::new(Injected(id)))
}

pub fn take_last_panic() -> Option<String> {
    LAST_PANIC.with(|x| x.borrow_mut().take())
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Work {
    pub allocs: u64,
    pub bytes: u64,
    pub logs: u64,
    pub edges: u64,
    pub moved: u64,
}

pub fn work() -> Work {
    Work {
        allocs: ALLOCS.with(|x| x.get()),
        bytes: ALLOC_BYTES.with(|x| x.get()),
        logs: LOGS.with(|x| x.get()),
        edges: edges(),
        moved: moved(),
    }
}

impl Work {
    pub fn since(self, a: Work) -> Work {
        Work { allocs: self.allocs - a.allocs, bytes: self.bytes - a.bytes, logs: self.logs - a.logs, edges: self.edges - a.edges, moved: self.moved - a.moved }
    }
}

struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, _: &log::Record) {
        LOGS.with(|x| x.set(x.get() + 1));
        if IN_LIB.with(|x| x.get()) {
            fire(HOOK_LOG, "log");
        }
    }
    fn flush(&self) {}
}
static LOGGER: Logger = Logger;

pub fn init() {
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_FAILURE_BACKTRACE", "0");
    log::set_logger(&LOGGER).expect("logger");
    log::set_max_level(log::LevelFilter::Debug);
    std::panic::set_hook(Box::new(|info| {
        out(|| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            LAST_PANIC.with(|x| *x.borrow_mut() = Some(format!("{} at {}", msg, loc)));
        })
    }));
}
