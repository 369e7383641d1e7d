//! Controlled scheduler: logical threads are coroutines, every access to an instrumented object
//! is a scheduling point. Interleavings are sequentially consistent.

use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use everscale_network::verif::sched::{set_current, Op, Scheduler};

use crate::explore::{Chooser, Step, Stop};

struct Request {
    op: Op,
    addr: usize,
    enabled: *const (dyn Fn() -> bool + 'static),
}

struct Hooks;

static HOOKS: Hooks = Hooks;

thread_local! {
    static YIELDER: Cell<*const Yielder<(), Request>> = const { Cell::new(std::ptr::null()) };
    /// Number of accesses which changed something
    static CHANGES: Cell<u64> = const { Cell::new(0) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
}

impl Scheduler for Hooks {
    fn point(&self, op: Op, addr: usize, enabled: &dyn Fn() -> bool) {
        let yielder = YIELDER.with(|y| y.get());
        if yielder.is_null() || std::thread::panicking() {
            return;
        }
        // SAFETY: the reference is only used while this coroutine is suspended here
        let enabled = unsafe {
            std::mem::transmute::<*const (dyn Fn() -> bool + '_), *const (dyn Fn() -> bool + 'static)>(
                enabled,
            )
        };
        // SAFETY: the yielder belongs to the coroutine which is currently running
        unsafe { &*yielder }.suspend(Request { op, addr, enabled });
    }

    fn done(&self, _addr: usize, changed: bool) {
        if changed {
            CHANGES.with(|c| c.set(c.get() + 1));
        }
    }
}

/// Scheduling point for the objects of the harness
pub fn point() {
    everscale_network::verif::sched::point(Op::Write, 0);
    everscale_network::verif::sched::done(0, true);
}

/// Waits until the condition is true
pub fn wait_until(cond: &dyn Fn() -> bool) {
    everscale_network::verif::sched::point_if(Op::Read, 0, cond);
}

/// Number of changes of instrumented objects so far
pub fn changes() -> u64 {
    CHANGES.with(|c| c.get())
}

struct Flag(AtomicBool);

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

/// Runs the future on the current logical thread
pub fn block_on<F: Future>(future: F) -> F::Output {
    let mut future = pin!(future);
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    loop {
        wait_until(&|| flag.0.load(Ordering::SeqCst));
        flag.0.store(false, Ordering::SeqCst);
        if let Poll::Ready(res) = future.as_mut().poll(&mut cx) {
            return res;
        }
    }
}

pub type Body<'a> = Box<dyn FnOnce() + 'a>;

pub struct Options {
    /// Longest execution in steps
    pub horizon: u64,
    /// After how many steps which do not change anything a thread has to let others run
    pub spin: u32,
}

impl Default for Options {
    fn default() -> Self {
        Self {
            horizon: 20_000,
            spin: 12,
        }
    }
}

struct Thread {
    coroutine: Option<Coroutine<(), Request, (), DefaultStack>>,
    pending: Option<Request>,
    idle_steps: u32,
    /// Value of `CHANGES` at the moment when the thread was found spinning
    spinning_at: Option<u64>,
}

/// Explores one interleaving of the threads. Every switch away from a thread which could
/// continue is a deviation.
pub fn run_threads(ch: &mut Chooser<'_>, bodies: Vec<Body<'_>>, options: &Options) -> Step {
    let mut threads: Vec<Thread> = bodies
        .into_iter()
        .map(|body| {
            // SAFETY: coroutines are finished or leaked before the end of this function
            let body = unsafe { std::mem::transmute::<Body<'_>, Body<'static>>(body) };
            let stack = STACKS
                .with(|s| s.borrow_mut().pop())
                .unwrap_or_else(|| DefaultStack::new(256 * 1024).unwrap());
            Thread {
                coroutine: Some(Coroutine::with_stack(
                    stack,
                    move |yielder: &Yielder<(), Request>, ()| {
                        YIELDER.with(|y| y.set(yielder));
                        body()
                    },
                )),
                pending: None,
                idle_steps: 0,
                spinning_at: None,
            }
        })
        .collect();

    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        drive(ch, &mut threads, options)
    }));
    set_current(None);
    YIELDER.with(|y| y.set(std::ptr::null()));

    // Unfinished coroutines (deadlock) are leaked together with everything they borrow
    for thread in threads {
        if let Some(mut c) = thread.coroutine {
            if c.done() {
                STACKS.with(|s| s.borrow_mut().push(c.into_stack()));
            } else {
                unsafe { c.force_reset() };
                std::mem::forget(c);
            }
        }
    }
    match res {
        Ok(res) => res,
        Err(panic) => std::panic::resume_unwind(panic),
    }
}

fn drive(ch: &mut Chooser<'_>, threads: &mut [Thread], options: &Options) -> Step {
    let mut current: Option<usize> = None;
    let mut steps = 0u64;
    loop {
        let changes = CHANGES.with(|c| c.get());
        // Threads which can run, spinning ones only if there is nothing else
        let mut enabled = Vec::new();
        let mut spinners = Vec::new();
        let mut alive = 0;
        for (i, thread) in threads.iter_mut().enumerate() {
            if thread.coroutine.is_none() {
                continue;
            }
            alive += 1;
            let ready = match &thread.pending {
                // SAFETY: the coroutine is suspended in the call which owns the closure
                Some(request) => unsafe { (*request.enabled)() },
                None => true,
            };
            if !ready {
                continue;
            }
            if thread.spinning_at == Some(changes) {
                spinners.push(i);
            } else {
                enabled.push(i);
            }
        }
        if alive == 0 {
            return Ok(());
        }
        if enabled.is_empty() {
            if spinners.is_empty() {
                return Err(Stop::violation(
                    "deadlock",
                    format!("deadlock: {alive} threads wait for each other"),
                ));
            }
            enabled = spinners;
            current = None;
        }
        steps += 1;
        if steps > options.horizon {
            return Err(Stop::violation(
                "livelock",
                format!("no progress: {alive} threads are still running after {steps} steps"),
            ));
        }

        // The running thread goes first, switching away from it is a deviation
        let next = match current.and_then(|c| enabled.iter().position(|t| *t == c)) {
            Some(pos) => {
                let c = enabled.remove(pos);
                enabled.insert(0, c);
                enabled[ch.deviate(enabled.len())]
            }
            None => enabled[ch.choose(enabled.len())],
        };
        if current != Some(next) {
            ch.note(|| format!("  switch to thread {next}"));
        }
        current = Some(next);
        ch.step();

        let thread = &mut threads[next];
        thread.pending = None;
        let coroutine = thread.coroutine.as_mut().unwrap();
        set_current(Some(&HOOKS));
        let saved = thread_yielder(next);
        YIELDER.with(|y| y.set(saved));
        let res = coroutine.resume(());
        save_yielder(next, YIELDER.with(|y| y.get()));
        set_current(None);
        YIELDER.with(|y| y.set(std::ptr::null()));

        if CHANGES.with(|c| c.get()) == changes {
            thread.idle_steps += 1;
            if thread.idle_steps >= options.spin {
                thread.spinning_at = Some(changes);
                thread.idle_steps = 0;
            }
        } else {
            thread.idle_steps = 0;
            thread.spinning_at = None;
        }

        match res {
            CoroutineResult::Yield(request) => {
                let _ = (request.op, request.addr);
                thread.pending = Some(request)
            }
            CoroutineResult::Return(()) => {
                let c = thread.coroutine.take().unwrap();
                STACKS.with(|s| s.borrow_mut().push(c.into_stack()));
                CHANGES.with(|c| c.set(c.get() + 1));
            }
        }
    }
}

thread_local! {
    static YIELDERS: RefCell<Vec<*const Yielder<(), Request>>> = const { RefCell::new(Vec::new()) };
}

fn thread_yielder(i: usize) -> *const Yielder<(), Request> {
    YIELDERS.with(|y| {
        let mut y = y.borrow_mut();
        if y.len() <= i {
            y.resize(i + 1, std::ptr::null());
        }
        y[i]
    })
}

fn save_yielder(i: usize, yielder: *const Yielder<(), Request>) {
    YIELDERS.with(|y| y.borrow_mut()[i] = yielder)
}
