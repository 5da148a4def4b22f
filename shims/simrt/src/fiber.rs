//! Polls on stacks of their own, which can be held back between two atomic operations of the
//! code under test. The compiler calls the functions below for each atomic access in it
//! (`mc/rustc-wrapper.sh`); outside of worlds with `preempt` they just do the access.
use super::*;
use std::arch::global_asm;

global_asm!(
    ".globl simrt_fiber_switch",
    "simrt_fiber_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
);
extern "C" {
    fn simrt_fiber_switch(save: *mut usize, to: usize);
}

const STACK: usize = 2 << 20;
/// So many accesses in a row to one place are a loop that waits for somebody.
const SPIN: u64 = 100;

pub struct Fiber {
    stack: usize,
    sp: Cell<usize>,
    back: Cell<usize>,
    job: Cell<Option<Box<dyn FnOnce()>>>,
    done: Cell<bool>,
    /// what is current in the world while it runs
    node: Cell<u32>,
    task: Cell<usize>,
    hold: Cell<u64>,
    /// accesses in a row to one place
    row: Cell<(usize, u64)>,
    /// the lock it waits for, and how often it did
    gave: Cell<(usize, u32)>,
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static UNBROKEN: Cell<u32> = const { Cell::new(0) };
    static CUR: Cell<*const Fiber> = const { Cell::new(std::ptr::null()) };
    static POOL: RefCell<Vec<Rc<Fiber>>> = const { RefCell::new(vec![]) };
}

unsafe extern "C" fn entry() -> ! {
    loop {
        let f = CUR.with(|c| c.get());
        let job = (*f).job.take().expect("a job");
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(job));
        (*f).done.set(true);
        simrt_fiber_switch((*f).sp.as_ptr(), (*f).back.get());
    }
}

impl Fiber {
    fn new() -> Rc<Fiber> {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                STACK,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED, "no memory for a stack");
            libc::mprotect(p, 4096, libc::PROT_NONE);
            let ret = (p as usize + STACK - 16) as *mut usize;
            *ret = entry as unsafe extern "C" fn() -> ! as usize;
            *ret.add(1) = 0;
            Rc::new(Fiber {
                stack: p as usize,
                sp: Cell::new(ret as usize - 48),
                back: Cell::new(0),
                job: Cell::new(None),
                done: Cell::new(false),
                node: Cell::new(0),
                task: Cell::new(0),
                hold: Cell::new(0),
                row: Cell::new((0, 0)),
                gave: Cell::new((0, 0)),
            })
        }
    }
    fn resume(&self) {
        let prev = CUR.with(|c| c.replace(self));
        let on = ON.with(|c| c.replace(true));
        self.row.set((0, 0));
        unsafe { simrt_fiber_switch(self.back.as_ptr(), self.sp.get()) };
        ON.with(|c| c.set(on));
        CUR.with(|c| c.set(prev));
    }
}

impl Drop for Fiber {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.stack as *mut libc::c_void, STACK) };
    }
}

/// Stop here for a time of the world.
fn hold(ns: u64) {
    unsafe {
        let f = CUR.with(|c| c.get());
        (*f).hold.set(ns);
        simrt_fiber_switch((*f).sp.as_ptr(), (*f).back.get());
    }
}

pub(crate) fn running() -> bool {
    !std::thread::panicking()
        && ON.try_with(|c| c.get()).unwrap_or(false)
        && UNBROKEN.with(|c| c.get()) == 0
        && try_sim().map_or(false, |s| !s.held.borrow().is_empty())
}
/// A lock is taken and its holder may be held back: give way, longer each time.
pub(crate) fn give_way(lock: usize) {
    let ms = unsafe {
        let f = &*CUR.with(|c| c.get());
        let (l, n) = f.gave.get();
        let n = if l == lock { n + 1 } else { 0 };
        f.gave.set((lock, n));
        1 << n.min(6)
    };
    hold(ms * MS);
}
/// While it lives the current step is not held back at accesses.
pub struct Unbroken(());
pub fn unbroken() -> Unbroken {
    UNBROKEN.with(|c| c.set(c.get() + 1));
    Unbroken(())
}
impl Drop for Unbroken {
    fn drop(&mut self) {
        UNBROKEN.with(|c| c.set(c.get() - 1));
    }
}

impl Sim {
    /// Run `job` for a task; it may be held back underway.
    pub(crate) fn on_fiber(&self, node: u32, task: usize, job: Box<dyn FnOnce()>) {
        let f = POOL.with(|p| p.borrow_mut().pop()).unwrap_or_else(Fiber::new);
        f.job.set(Some(job));
        f.done.set(false);
        f.gave.set((0, 0));
        f.node.set(node);
        f.task.set(task);
        self.step_fiber(f);
    }
    pub(crate) fn resume_held(&self, key: usize) {
        let f = self.held.borrow_mut().remove(&key);
        if let Some(f) = f {
            self.step_fiber(f);
        }
    }
    fn step_fiber(&self, f: Rc<Fiber>) {
        let pn = self.cur_node.replace(f.node.get());
        let pt = self.cur_task.replace(f.task.get());
        self.sync_clock();
        f.resume();
        self.cur_task.set(pt);
        self.cur_node.set(pn);
        self.sync_clock();
        if f.done.get() {
            POOL.with(|p| p.borrow_mut().push(f));
        } else {
            let key = self.next_held.get();
            self.next_held.set(key + 1);
            let cell = Arc::new(WakeCell { id: key | HELD, queued: AtomicBool::new(false), ready: self.ready.clone() });
            self.add_timer(self.now.get() + f.hold.get(), Waker::from(cell));
            self.held.borrow_mut().insert(key, f);
        }
    }
    /// A poll that is held back when its node dies never goes on. What its stack owns is leaked.
    pub(crate) fn leak_held(&self, node: Option<u32>) {
        self.held.borrow_mut().retain(|_, f| node.map_or(false, |n| f.node.get() != n));
    }
    fn quiet(&self) -> bool {
        self.tasks.try_borrow_mut().is_ok()
            && self.timers.try_borrow_mut().is_ok()
            && self.choices.try_borrow_mut().is_ok()
            && self.alive.try_borrow_mut().is_ok()
            && self.down.try_borrow_mut().is_ok()
            && self.ready.try_lock().is_ok()
    }
}

#[cold]
#[inline(never)]
fn access(p: usize, choice: bool) {
    if std::thread::panicking() || UNBROKEN.with(|c| c.get()) > 0 {
        return;
    }
    let spins = unsafe {
        let f = &*CUR.with(|c| c.get());
        let (q, n) = f.row.get();
        f.row.set((p, if p == q { n + 1 } else { 0 }));
        p == q && n > SPIN
    };
    if !choice && !spins {
        return;
    }
    let Some(s) = try_sim() else { return };
    if !s.quiet() {
        return;
    }
    let ns = if spins {
        2 * MS
    } else {
        let node = s.cur_node();
        if node >= 64 || !s.node_in_mask(node) {
            return;
        }
        s.hold_points.set(s.hold_points.get() + 1);
        let menu_len = s.hold_menu.borrow().len() as u32;
        let c = s.choose(Class::Hold, 1 + menu_len, || format!("atomic n{node}"));
        if c == 0 {
            return;
        }
        let d = s.hold_menu.borrow()[(c - 1) as usize];
        d
    };
    drop(s);
    hold(ns);
}
#[inline(always)]
fn point<T>(p: *mut T) {
    if ON.with(|c| c.get()) {
        access(p as usize, true)
    }
}
/// Counts of references are no points of interest; readers that wait for a lock are.
#[inline(always)]
fn count<T>(p: *mut T, one: bool) {
    if ON.with(|c| c.get()) {
        access(p as usize, !one)
    }
}

use std::sync::atomic::{self, AtomicU16, AtomicU32, AtomicU64, AtomicU8};
macro_rules! accesses {
    ($t:ty, $a:ty, $load:ident, $store:ident, $xchg:ident, $cas:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *mut $t, _: i32) -> $t {
            point(p);
            <$a>::from_ptr(p).load(Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _: i32) {
            point(p);
            <$a>::from_ptr(p).store(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, _: i32) -> $t {
            point(p);
            <$a>::from_ptr(p).swap(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *mut $t, c: $t, v: $t, _: i32, _: i32) -> $t {
            point(p);
            match <$a>::from_ptr(p).compare_exchange(c, v, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(x) | Err(x) => x,
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *mut $t, v: $t, _: i32) -> $t {
            count(p, v == 1);
            <$a>::from_ptr(p).fetch_add(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, _: i32) -> $t {
            count(p, true);
            <$a>::from_ptr(p).fetch_sub(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *mut $t, v: $t, _: i32) -> $t {
            point(p);
            <$a>::from_ptr(p).fetch_and(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *mut $t, v: $t, _: i32) -> $t {
            point(p);
            <$a>::from_ptr(p).fetch_or(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, _: i32) -> $t {
            point(p);
            <$a>::from_ptr(p).fetch_xor(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(p: *mut $t, v: $t, _: i32) -> $t {
            point(p);
            <$a>::from_ptr(p).fetch_nand(v, Ordering::SeqCst)
        }
    };
}
accesses!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_compare_exchange_val, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand);
accesses!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_compare_exchange_val, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand);
accesses!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_compare_exchange_val, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand);
accesses!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_compare_exchange_val, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand);
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    atomic::fence(Ordering::SeqCst)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {
    atomic::compiler_fence(Ordering::SeqCst)
}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
