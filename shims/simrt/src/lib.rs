//! Deterministic single-threaded world in which the real code runs.
//!
//! Every source of nondeterminism of an execution is owned here: which task
//! runs next, the clock (both `tokio::time` and, through `clock_gettime`,
//! `std::time::Instant`), the random seeds (`getrandom`), message fate, node
//! crashes. Whatever is left open is decided by `choose`, which the explorer
//! enumerates.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

mod fiber;
pub use fiber::unbroken;
mod sys;

pub const CLIENT: u32 = 1000;
pub const MS: u64 = 1_000_000;
pub const LATENCY: u64 = MS;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Class {
    /// scripted alternatives; always enumerated, cost nothing
    Free = 0,
    /// a step is held back for a while
    Hold = 1,
    /// a request or a response is lost
    Drop = 2,
    /// a node crashes right after a durable operation
    Crash = 3,
    /// a caller gives up on a request
    Cancel = 4,
    /// an operation of the storage or the application fails
    Fail = 5,
}
pub const N_CLASS: usize = 6;

#[derive(Clone, Debug)]
pub struct ChoiceRec {
    pub class: Class,
    pub n: u32,
    pub chosen: u32,
    pub tag: String,
}

#[derive(Clone, Debug)]
pub struct Budget {
    pub total: u32,
    pub per: [u32; N_CLASS],
}
impl Budget {
    pub fn none() -> Self {
        Self { total: 0, per: [0; N_CLASS] }
    }
    pub fn with(mut self, c: Class, n: u32) -> Self {
        self.per[c as usize] = n;
        if self.total < n {
            self.total = n;
        }
        self
    }
    pub fn total(mut self, n: u32) -> Self {
        self.total = n;
        self
    }
}

/// Marks the keys of polls that are held back in the queue of what is ready.
const HELD: usize = 1 << 63;

struct WakeCell {
    id: usize,
    queued: AtomicBool,
    ready: Arc<Mutex<VecDeque<usize>>>,
}
impl Wake for WakeCell {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if !self.queued.swap(true, Ordering::SeqCst) {
            self.ready.lock().unwrap().push_back(self.id);
        }
    }
}

struct Task {
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    cell: Arc<WakeCell>,
    node: u32,
    aborted: bool,
    /// woken while its poll was held back
    missed: bool,
    _companion: Box<dyn Any>,
}

pub struct Sim {
    pub id: u64,
    now: Cell<u64>,
    seq: Cell<u64>,
    ready: Arc<Mutex<VecDeque<usize>>>,
    tasks: RefCell<Vec<Option<Task>>>,
    free: RefCell<Vec<usize>>,
    timers: RefCell<BTreeMap<(u64, u64), Waker>>,
    cur_node: Cell<u32>,
    cur_task: Cell<usize>,
    pub steps: Cell<u64>,
    pub step_limit: Cell<u64>,
    pub overrun: Cell<bool>,
    pub panics: Cell<u64>,
    // choices
    prefix: RefCell<Vec<u32>>,
    pub choices: RefCell<Vec<ChoiceRec>>,
    used: RefCell<[u32; N_CLASS]>,
    used_total: Cell<u32>,
    pub budget: RefCell<Budget>,
    pub enabled: RefCell<[bool; N_CLASS]>,
    pub node_mask: Cell<u64>,
    pub diverged: RefCell<Option<String>>,
    expected: RefCell<Vec<(u32, Class)>>,
    // environment
    pub down: RefCell<BTreeSet<(u32, u32)>>,
    pub fail_delay: Cell<u64>,
    pub alive: RefCell<BTreeSet<u32>>,
    pub skew: RefCell<BTreeMap<u32, u64>>,
    pub verbose: Cell<bool>,
    pub trace: RefCell<Vec<String>>,
    pub lock_points: Cell<bool>,
    pub hold_menu: RefCell<Vec<u64>>,
    pub crash_req: RefCell<Vec<u32>>,
    /// Polls run on stacks of their own and may be held back at atomic operations.
    pub preempt: Cell<bool>,
    held: RefCell<BTreeMap<usize, Rc<fiber::Fiber>>>,
    next_held: Cell<usize>,
    pub hold_points: Cell<u64>,
    /// are the arrivals of responses points too?
    pub reply_points: Cell<bool>,
    pub last_deviation: Cell<u64>,
    pub msgs: Cell<u64>,
}

thread_local! {
    static SIM: RefCell<Option<Rc<Sim>>> = const { RefCell::new(None) };
    static VCLOCK: Cell<u64> = const { Cell::new(0) };
    static VCLOCK_ON: Cell<bool> = const { Cell::new(false) };
    static RNG: Cell<u64> = const { Cell::new(0) };
}

pub fn active() -> bool {
    SIM.with(|s| s.try_borrow().map(|s| s.is_some()).unwrap_or(false))
}
pub fn sim() -> Rc<Sim> {
    SIM.with(|s| s.borrow().as_ref().expect("no simulated world on this thread").clone())
}
fn try_sim() -> Option<Rc<Sim>> {
    SIM.try_with(|s| s.borrow().clone()).ok().flatten()
}

/// Turn on the deterministic clock and random source for this thread. Must be
/// called first on a fresh thread.
pub fn enter_deterministic_thread() {
    VCLOCK.with(|c| c.set(1_000_000_000_000));
    RNG.with(|c| c.set(0x9E3779B97F4A7C15));
    VCLOCK_ON.with(|c| c.set(true));
}

impl Sim {
    pub fn install(prefix: Vec<u32>, expected: Vec<(u32, Class)>, budget: Budget) -> Rc<Sim> {
        static WORLDS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
        let s = Rc::new(Sim {
            id: WORLDS.fetch_add(1, Ordering::SeqCst),
            now: Cell::new(0),
            seq: Cell::new(0),
            ready: Default::default(),
            tasks: Default::default(),
            free: Default::default(),
            timers: Default::default(),
            cur_node: Cell::new(CLIENT),
            cur_task: Cell::new(usize::MAX),
            steps: Cell::new(0),
            step_limit: Cell::new(2_000_000),
            overrun: Cell::new(false),
            panics: Cell::new(0),
            prefix: RefCell::new(prefix),
            choices: Default::default(),
            used: RefCell::new([0; N_CLASS]),
            used_total: Cell::new(0),
            budget: RefCell::new(budget),
            enabled: RefCell::new([false; N_CLASS]),
            node_mask: Cell::new(u64::MAX),
            diverged: RefCell::new(None),
            expected: RefCell::new(expected),
            down: Default::default(),
            fail_delay: Cell::new(20 * MS),
            alive: Default::default(),
            skew: Default::default(),
            verbose: Cell::new(false),
            trace: Default::default(),
            lock_points: Cell::new(false),
            hold_menu: RefCell::new(vec![50 * MS, 3000 * MS]),
            crash_req: Default::default(),
            preempt: Cell::new(false),
            held: Default::default(),
            next_held: Cell::new(0),
            hold_points: Cell::new(0),
            reply_points: Cell::new(false),
            last_deviation: Cell::new(0),
            msgs: Cell::new(0),
        });
        SIM.with(|w| *w.borrow_mut() = Some(s.clone()));
        s
    }
    pub fn uninstall() {
        if let Some(s) = try_sim() {
            s.leak_held(None);
            // Drop every future while the world is still installed.
            loop {
                let futs: Vec<_> = {
                    let mut ts = s.tasks.borrow_mut();
                    ts.iter_mut().filter_map(|t| t.as_mut()).filter_map(|t| t.fut.take()).collect()
                };
                if futs.is_empty() {
                    break;
                }
                drop(futs);
            }
            s.timers.borrow_mut().clear();
        }
        SIM.with(|w| *w.borrow_mut() = None);
    }

    pub fn now(&self) -> u64 {
        self.now.get()
    }
    fn set_now(&self, t: u64) {
        self.now.set(t);
        self.sync_clock();
    }
    fn sync_clock(&self) {
        let k = self.skew.borrow().get(&self.cur_node.get()).copied().unwrap_or(0);
        VCLOCK.with(|c| c.set(1_000_000_000_000 + self.now.get() + k));
    }
    pub fn set_skew(&self, node: u32, ns: u64) {
        self.skew.borrow_mut().insert(node, ns);
        self.sync_clock();
    }
    pub fn cur_node(&self) -> u32 {
        self.cur_node.get()
    }
    pub fn log(&self, f: impl FnOnce() -> String) {
        if self.verbose.get() {
            let l = format!("[{:>9.3}ms n{}] {}", self.now.get() as f64 / 1e6, self.cur_node.get(), f());
            self.trace.borrow_mut().push(l);
        }
    }

    // ---- choices -------------------------------------------------------
    /// Decide among `n` alternatives; 0 is the default.
    pub fn choose(&self, class: Class, n: u32, tag: impl FnOnce() -> String) -> u32 {
        if n <= 1 {
            return 0;
        }
        if class != Class::Free {
            if !self.enabled.borrow()[class as usize] {
                return 0;
            }
            let b = self.budget.borrow();
            if self.used_total.get() >= b.total
                || self.used.borrow()[class as usize] >= b.per[class as usize]
            {
                return 0;
            }
        }
        let i = self.choices.borrow().len();
        let c = self.prefix.borrow().get(i).copied().unwrap_or(0);
        if let Some((en, ec)) = self.expected.borrow().get(i) {
            if *en != n || *ec != class {
                let m = format!("replay diverged at choice {i}: expected {en}/{ec:?}, got {n}/{class:?}");
                self.diverged.borrow_mut().get_or_insert(m);
            }
        }
        let c = if c >= n {
            self.diverged.borrow_mut().get_or_insert(format!("choice {i} out of range: {c} of {n}"));
            0
        } else {
            c
        };
        let tag = tag();
        if c != 0 || class == Class::Free {
            self.log(|| format!("CHOICE #{i} {class:?} {c}/{n} {tag}"));
        }
        self.choices.borrow_mut().push(ChoiceRec { class, n, chosen: c, tag });
        if c != 0 && class != Class::Free {
            self.used.borrow_mut()[class as usize] += 1;
            self.used_total.set(self.used_total.get() + 1);
            self.last_deviation.set(self.now.get());
        }
        c
    }
    pub fn used_total(&self) -> u32 {
        self.used_total.get()
    }
    pub fn enable(&self, c: Class, on: bool) {
        self.enabled.borrow_mut()[c as usize] = on;
    }
    fn node_in_mask(&self, n: u32) -> bool {
        n >= 64 || (self.node_mask.get() >> n) & 1 == 1
    }

    // ---- tasks ---------------------------------------------------------
    pub fn spawn_on(&self, node: u32, fut: impl Future<Output = ()> + 'static) -> usize {
        self.spawn_with(node, (), fut)
    }
    /// Spawn a task with something that is dropped when the task ends, in whatever way:
    /// a poll that is held back when its node crashes keeps what it owns.
    pub fn spawn_with(&self, node: u32, companion: impl Any + 'static, fut: impl Future<Output = ()> + 'static) -> usize {
        let mut tasks = self.tasks.borrow_mut();
        // Slots are never reused within a world: a stale id can not name another task.
        let id = tasks.len();
        let cell = Arc::new(WakeCell { id, queued: AtomicBool::new(true), ready: self.ready.clone() });
        tasks.push(Some(Task { fut: Some(Box::pin(fut)), cell, node, aborted: false, missed: false, _companion: Box::new(companion) }));
        self.ready.lock().unwrap().push_back(id);
        let _ = &self.free;
        id
    }
    pub fn abort(&self, id: usize) {
        self.take_task(id, false)
    }
    fn take_task(&self, id: usize, kill: bool) {
        let t = {
            let mut tasks = self.tasks.borrow_mut();
            match tasks.get_mut(id) {
                Some(slot @ Some(_)) => {
                    let t = slot.as_mut().unwrap();
                    // A poll that is going on, or held back, ends before the task does.
                    if self.cur_task.get() == id || (t.fut.is_none() && !kill) {
                        t.aborted = true;
                        None
                    } else {
                        slot.take()
                    }
                }
                _ => None,
            }
        };
        if let Some(t) = t {
            if self.preempt.get() {
                self.on_fiber(t.node, usize::MAX, Box::new(move || drop(t)));
                return;
            }
            let prev = self.cur_node.replace(t.node);
            drop(t);
            self.cur_node.set(prev);
        }
    }
    pub fn is_finished(&self, id: usize) -> bool {
        !matches!(self.tasks.borrow().get(id), Some(Some(_)))
    }
    /// Drop every task of a node.
    pub fn kill_node(&self, node: u32) {
        let ids: Vec<usize> = {
            let ts = self.tasks.borrow();
            (0..ts.len()).filter(|i| matches!(&ts[*i], Some(t) if t.node == node)).collect()
        };
        self.leak_held(Some(node));
        for i in ids {
            self.take_task(i, true);
        }
    }
    fn poll_task(&self, id: usize) {
        let (fut, cell, node) = {
            let mut tasks = self.tasks.borrow_mut();
            let Some(Some(t)) = tasks.get_mut(id) else { return };
            let Some(f) = t.fut.take() else {
                t.missed = true;
                t.cell.queued.store(false, Ordering::SeqCst);
                return;
            };
            (f, t.cell.clone(), t.node)
        };
        cell.queued.store(false, Ordering::SeqCst);
        if self.preempt.get() && node < 64 {
            self.on_fiber(node, id, Box::new(move || sim().poll_fut(id, fut, cell)));
            return;
        }
        let pn = self.cur_node.replace(node);
        let pt = self.cur_task.replace(id);
        self.sync_clock();
        self.poll_fut(id, fut, cell);
        self.cur_task.set(pt);
        self.cur_node.set(pn);
        self.sync_clock();
    }
    fn poll_fut(&self, id: usize, mut fut: Pin<Box<dyn Future<Output = ()>>>, cell: Arc<WakeCell>) {
        let waker = Waker::from(cell.clone());
        let mut cx = Context::from_waker(&waker);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
        match r {
            Ok(Poll::Pending) => {
                let mut tasks = self.tasks.borrow_mut();
                let gone = match tasks.get_mut(id) {
                    Some(Some(t)) if !t.aborted => {
                        t.fut = Some(fut);
                        if std::mem::take(&mut t.missed) {
                            waker.wake_by_ref();
                        }
                        None
                    }
                    Some(slot) => {
                        slot.take();
                        Some(fut)
                    }
                    None => Some(fut),
                };
                drop(tasks);
                drop(gone);
            }
            Ok(Poll::Ready(())) => {
                let t = self.tasks.borrow_mut()[id].take();
                drop(t);
                drop(fut);
            }
            Err(_) => {
                self.panics.set(self.panics.get() + 1);
                self.log(|| format!("task {id} panicked"));
                let t = self.tasks.borrow_mut()[id].take();
                drop(t);
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(fut)));
            }
        }
    }
    /// Run until virtual time `t`; everything due before or at `t` has run.
    /// `stop` is asked after each step.
    pub fn run_until(&self, t: u64, mut stop: impl FnMut() -> bool) {
        loop {
            let next = self.ready.lock().unwrap().pop_front();
            if let Some(id) = next {
                self.steps.set(self.steps.get() + 1);
                if self.steps.get() > self.step_limit.get() {
                    self.overrun.set(true);
                    return;
                }
                if TRACE_POLL.with(|t| t.get()) { self.log(|| format!("poll {id}")); }
                if id & HELD != 0 {
                    self.resume_held(id & !HELD);
                } else {
                    self.poll_task(id);
                }
                self.after_step();
                if stop() {
                    return;
                }
                continue;
            }
            let due = {
                let timers = self.timers.borrow();
                timers.keys().next().copied()
            };
            match due {
                Some(k) if k.0 <= t => {
                    if k.0 > self.now.get() {
                        self.set_now(k.0);
                    }
                    let w = self.timers.borrow_mut().remove(&k);
                    if let Some(w) = w {
                        w.wake();
                    }
                }
                _ => {
                    if t > self.now.get() {
                        self.set_now(t);
                    }
                    return;
                }
            }
        }
    }
    fn after_step(&self) {
        loop {
            let n = self.crash_req.borrow_mut().pop();
            match n {
                Some(n) => {
                    CRASH_HOOK.with(|h| {
                        let h = h.borrow().clone();
                        if let Some(h) = h {
                            h(n)
                        }
                    });
                }
                None => break,
            }
        }
    }
    pub fn add_timer(&self, deadline: u64, w: Waker) -> (u64, u64) {
        let s = self.seq.get();
        self.seq.set(s + 1);
        let k = (deadline, s);
        self.timers.borrow_mut().insert(k, w);
        k
    }
    pub fn cancel_timer(&self, k: (u64, u64)) {
        self.timers.borrow_mut().remove(&k);
    }

    // ---- links ---------------------------------------------------------
    pub fn link_down(&self, a: u32, b: u32) -> bool {
        if a == b {
            return false;
        }
        self.down.borrow().contains(&(a, b))
    }
    pub fn is_alive(&self, n: u32) -> bool {
        n == CLIENT || self.alive.borrow().contains(&n)
    }
}

thread_local! {
    pub static TRACE_POLL: Cell<bool> = Cell::new(std::env::var("MC_POLL").is_ok());
    static CRASH_HOOK: RefCell<Option<Rc<dyn Fn(u32)>>> = const { RefCell::new(None) };
}
pub fn set_crash_hook(h: Option<Rc<dyn Fn(u32)>>) {
    CRASH_HOOK.with(|c| *c.borrow_mut() = h);
}

/// Assert that a future of this single-threaded world may be called `Send`.
pub struct SendFut<F>(pub F);
unsafe impl<F> Send for SendFut<F> {}
unsafe impl<F> Sync for SendFut<F> {}
impl<F: Future> Future for SendFut<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
    }
}

pub struct Sleep {
    deadline: u64,
    key: Option<(u64, u64)>,
}
impl Sleep {
    pub fn until(deadline: u64) -> Self {
        Sleep { deadline, key: None }
    }
    pub fn deadline(&self) -> u64 {
        self.deadline
    }
    pub fn reset(&mut self, deadline: u64) {
        self.cancel();
        self.deadline = deadline;
    }
    pub fn is_elapsed(&self) -> bool {
        sim().now() >= self.deadline
    }
    fn cancel(&mut self) {
        if let Some(k) = self.key.take() {
            if let Some(s) = try_sim() {
                s.cancel_timer(k);
            }
        }
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let s = sim();
        if s.now() >= self.deadline {
            self.cancel();
            return Poll::Ready(());
        }
        // Re-register only if the earlier registration is gone or the waker differs.
        if let Some(k) = self.key {
            if let Some(w) = s.timers.borrow_mut().get_mut(&k) {
                if !w.will_wake(cx.waker()) {
                    *w = cx.waker().clone();
                }
                return Poll::Pending;
            }
        }
        let k = s.add_timer(self.deadline, cx.waker().clone());
        self.key = Some(k);
        Poll::Pending
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        self.cancel();
    }
}
pub fn sleep_ns(ns: u64) -> Sleep {
    Sleep::until(sim().now().saturating_add(ns))
}

pub struct YieldNow(bool);
pub fn yield_now() -> YieldNow {
    YieldNow(false)
}
impl Future for YieldNow {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

/// Are the acquisitions of locks such points too?
pub fn lock_points() -> bool {
    try_sim().map_or(false, |s| s.lock_points.get())
}
/// A point where the surrounding step may be held back.
pub async fn point(tag: &'static str) {
    let s = sim();
    if !s.node_in_mask(s.cur_node()) {
        return;
    }
    s.hold_points.set(s.hold_points.get() + 1);
    let menu_len = s.hold_menu.borrow().len() as u32;
    let c = s.choose(Class::Hold, 1 + menu_len, || format!("{tag} n{}", s.cur_node()));
    if c > 0 {
        let d = s.hold_menu.borrow()[(c - 1) as usize];
        drop(s);
        if d == 0 {
            yield_now().await;
        } else {
            sleep_ns(d).await;
        }
    }
}
/// A point right after a durable operation of the current node where the node may crash.
/// When it does, the current task never continues.
pub async fn crash_point(tag: &'static str) {
    let s = sim();
    let n = s.cur_node();
    if n >= 64 || !s.node_in_mask(n) {
        return;
    }
    let c = s.choose(Class::Crash, 2, || format!("{tag} n{n}"));
    if c > 0 {
        s.crash_req.borrow_mut().push(n);
        drop(s);
        std::future::pending::<()>().await;
    }
}
/// Does the operation of the current node fail?
pub fn fail_point(tag: &'static str) -> bool {
    let s = sim();
    let n = s.cur_node();
    if n >= 64 || !s.node_in_mask(n) {
        return false;
    }
    s.choose(Class::Fail, 2, || format!("{tag} n{n} fails")) > 0
}

/// Plain single-use channel.
pub mod oneshot {
    use super::*;
    struct Inner<T> {
        val: Option<T>,
        closed: bool,
        waker: Option<Waker>,
    }
    pub struct Tx<T>(Arc<Mutex<Inner<T>>>);
    pub struct Rx<T>(Arc<Mutex<Inner<T>>>);
    pub fn channel<T>() -> (Tx<T>, Rx<T>) {
        let i = Arc::new(Mutex::new(Inner { val: None, closed: false, waker: None }));
        (Tx(i.clone()), Rx(i))
    }
    impl<T> Tx<T> {
        pub fn send(self, v: T) {
            self.0.lock().unwrap().val = Some(v);
        }
    }
    impl<T> Drop for Tx<T> {
        fn drop(&mut self) {
            let w = {
                let mut i = self.0.lock().unwrap();
                i.closed = true;
                i.waker.take()
            };
            if let Some(w) = w {
                w.wake()
            }
        }
    }
    impl<T> Rx<T> {
        pub fn try_take(&self) -> Option<T> {
            self.0.lock().unwrap().val.take()
        }
    }
    impl<T> Future for Rx<T> {
        type Output = Option<T>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
            let mut i = self.0.lock().unwrap();
            if let Some(v) = i.val.take() {
                return Poll::Ready(Some(v));
            }
            if i.closed {
                return Poll::Ready(None);
            }
            i.waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}
