//! Stateless exploration: enumerates every sequence of choices a body can make.
//!
//! A body is a deterministic function of its choices. Exploration runs the body with a prefix of
//! choices, lets it take choice 0 from there on, and queues every alternative it passed by.
//! `choose` has no price; every non-zero answer of `deviate` costs one deviation and the total is
//! bounded.

use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

/// Why an execution stopped early
#[derive(Debug, Clone)]
pub enum Stop {
    /// The property does not hold. `key` identifies what exactly fails
    Violation { key: String, message: String },
    /// The state was already explored with at least the same budget
    Pruned,
    /// The harness itself is broken
    Engine(String),
}

impl Stop {
    pub fn violation(key: impl Into<String>, message: impl Into<String>) -> Self {
        Stop::Violation {
            key: key.into(),
            message: message.into(),
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $key:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::explore::Stop::violation($key, format!($($arg)*)));
        }
    };
}

pub type Step<T = ()> = Result<T, Stop>;

struct Point {
    n: u32,
    taken: u32,
    deviation: bool,
}

/// Source of choices of one execution
pub struct Chooser<'a> {
    prefix: &'a [u32],
    trace: Vec<Point>,
    cost: u32,
    bound: u32,
    pub transitions: u64,
    states: Vec<u64>,
    outcome: u64,
    pub log: Vec<String>,
    logging: bool,
    shared: Option<&'a Shared>,
    diverged: bool,
}

impl<'a> Chooser<'a> {
    pub fn new(prefix: &'a [u32], bound: u32, logging: bool) -> Self {
        Self {
            prefix,
            trace: Vec::new(),
            cost: 0,
            bound,
            transitions: 0,
            states: Vec::new(),
            outcome: 0,
            log: Vec::new(),
            logging,
            shared: None,
            diverged: false,
        }
    }

    fn pick(&mut self, n: usize, deviation: bool) -> usize {
        assert!(n > 0, "no options to choose from");
        if n == 1 || deviation && self.cost >= self.bound {
            return 0;
        }
        let pos = self.trace.len();
        let taken = match self.prefix.get(pos) {
            Some(taken) if (*taken as usize) < n => *taken,
            Some(_) => {
                self.diverged = true;
                0
            }
            None => 0,
        };
        self.trace.push(Point {
            n: n as u32,
            taken,
            deviation,
        });
        if deviation && taken > 0 {
            self.cost += 1;
        }
        taken as usize
    }

    /// Any of `n` options
    pub fn choose(&mut self, n: usize) -> usize {
        self.pick(n, false)
    }

    /// One of the items
    pub fn one_of<T: Clone>(&mut self, items: &[T]) -> T {
        items[self.choose(items.len())].clone()
    }

    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }

    /// Any of `n` options, where everything but the first one is a deviation
    pub fn deviate(&mut self, n: usize) -> usize {
        self.pick(n, true)
    }

    pub fn deviations_left(&self) -> u32 {
        self.bound - self.cost
    }

    /// Records a visited state
    pub fn visit(&mut self, state: u64) {
        self.states.push(state);
    }

    /// Records an executed transition
    pub fn step(&mut self) {
        self.transitions += 1;
    }

    /// Adds something observed to the outcome of this execution
    pub fn observe(&mut self, value: impl std::hash::Hash) {
        self.outcome = crate::util::hash_of(&(self.outcome, value));
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.logging {
            let line = f();
            self.log.push(line);
        }
    }

    pub fn is_logging(&self) -> bool {
        self.logging
    }

    /// Visits the state and stops this execution if everything reachable from the state with the
    /// `budget` is (or is going to be) explored by another one.
    ///
    /// The caller guarantees that equal `state` means equal futures.
    pub fn prune(&mut self, state: u64, budget: u32) -> Step {
        self.states.push(state);
        // Everything up to the end of the prefix was already registered by the parent
        if self.trace.len() < self.prefix.len() {
            return Ok(());
        }
        if let Some(shared) = self.shared {
            let budget = ((budget as u64) << 32) | (self.bound - self.cost) as u64;
            let shard = &shared.seen[state as usize % shared.seen.len()];
            let mut seen = shard.lock().unwrap();
            let entry = seen.entry(state).or_default();
            if entry.iter().any(|known| {
                (known >> 32) >= (budget >> 32) && (known & 0xffff_ffff) >= (budget & 0xffff_ffff)
            }) {
                return Err(Stop::Pruned);
            }
            entry.push(budget);
        }
        Ok(())
    }

    /// This choice does not make sense here, the same as another one is explored anyway
    pub fn skip(&self) -> Step {
        Err(Stop::Pruned)
    }

    fn choices(&self) -> Vec<u32> {
        self.trace.iter().map(|p| p.taken).collect()
    }
}

struct Shared {
    seen: Vec<Mutex<HashMap<u64, Vec<u64>>>>,
}

#[derive(Debug, Clone)]
pub struct Found {
    pub choices: Vec<u32>,
    pub key: String,
    pub message: String,
}

#[derive(Debug, Default)]
pub struct Stats {
    pub executions: u64,
    pub pruned: u64,
    pub transitions: u64,
    pub choice_points: u64,
    pub max_depth: usize,
    pub states: HashSet<u64>,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<Vec<String>>,
    pub capped: bool,
    pub found: Vec<Found>,
    pub engine_error: Option<String>,
}

pub struct Limits {
    /// Max deviations
    pub bound: u32,
    pub deadline: Instant,
    pub threads: usize,
    /// Number of executions to write out
    pub samples: usize,
    /// Longest time a single execution can take
    pub hang: Duration,
}

/// What one execution gave
pub enum Run {
    Ok,
    Pruned,
    Violation { key: String, message: String },
    Engine(String),
}

/// Runs the body once. Panics of the code under test are violations, panics of harness are errors
pub fn run_once<F>(body: &F, chooser: &mut Chooser<'_>) -> Run
where
    F: Fn(&mut Chooser<'_>) -> Step,
{
    PANIC.with(|p| p.borrow_mut().take());
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(chooser)));
    // A panic could have been caught by the runtime
    let panic = PANIC.with(|p| p.borrow_mut().take());
    if chooser.diverged {
        return Run::Engine("diverged while replaying a prefix".to_owned());
    }
    match (res, panic) {
        (Err(_), None) => Run::Engine("unknown panic".to_owned()),
        (_, Some((location, message))) if location.starts_with("src/") => {
            Run::Engine(format!("harness panicked at {location}: {message}"))
        }
        (_, Some((location, message))) => Run::Violation {
            key: format!("panic {}", short_location(&location)),
            message: format!("panicked at {location}: {message}"),
        },
        (Ok(Ok(())), None) => {
            if chooser.trace.len() < chooser.prefix.len() {
                return Run::Engine("execution is shorter than its prefix".to_owned());
            }
            Run::Ok
        }
        (Ok(Err(Stop::Pruned)), None) => Run::Pruned,
        (Ok(Err(Stop::Violation { key, message })), None) => Run::Violation { key, message },
        (Ok(Err(Stop::Engine(e))), None) => Run::Engine(e),
    }
}

fn short_location(location: &str) -> String {
    // Line numbers are not a part of the key
    let file = location.split(':').next().unwrap_or_default();
    file.rsplit("/src/").next().unwrap_or(file).to_owned()
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}

/// Records panics instead of printing them
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let location = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let message = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_owned()
        };
        if std::env::var_os("HARNESS_BACKTRACE").is_some() {
            eprintln!(
                "panic at {location}: {message}\n{}",
                std::backtrace::Backtrace::force_capture()
            );
        }
        let recorded = PANIC.try_with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((location.clone(), message.clone()));
            }
        });
        if recorded.is_err() || std::thread::current().name() == Some("main") {
            eprintln!("panic at {location}: {message}");
        }
    }));
}

struct Queue {
    stack: Vec<Vec<u32>>,
    active: usize,
    stopped: bool,
}

/// Explores all executions of the body within the limits
pub fn explore<F, K>(limits: &Limits, is_known: K, body: F) -> Stats
where
    F: Fn(&mut Chooser<'_>) -> Step + Sync,
    K: Fn(&str) -> bool + Sync,
{
    let queue = Mutex::new(Queue {
        stack: vec![Vec::new()],
        active: 0,
        stopped: false,
    });
    let cond = Condvar::new();
    let total = Mutex::new(Stats::default());
    let shared = Shared {
        seen: (0..64).map(|_| Mutex::new(HashMap::new())).collect(),
    };
    let sample_count = AtomicUsize::new(0);
    let executed = AtomicU64::new(0);
    let done = AtomicBool::new(false);
    type Running = Mutex<Option<(Instant, Vec<u32>)>>;
    let running: Vec<Running> = (0..limits.threads).map(|_| Mutex::new(None)).collect();

    std::thread::scope(|scope| {
        let mut workers = Vec::new();
        for worker in 0..limits.threads {
            let running = &running[worker];
            let (queue, cond, total, shared, body, is_known) =
                (&queue, &cond, &total, &shared, &body, &is_known);
            let (sample_count, executed) = (&sample_count, &executed);
            let thread = std::thread::Builder::new()
                .name(format!("worker-{worker}"))
                .stack_size(16 << 20)
                .spawn_scoped(scope, move || {
                    let mut local = Stats::default();
                    loop {
                        let prefix = {
                            let mut q = queue.lock().unwrap();
                            loop {
                                if q.stopped {
                                    break None;
                                }
                                if let Some(prefix) = q.stack.pop() {
                                    q.active += 1;
                                    break Some(prefix);
                                }
                                if q.active == 0 {
                                    break None;
                                }
                                q = cond.wait(q).unwrap();
                            }
                        };
                        let Some(prefix) = prefix else {
                            cond.notify_all();
                            break;
                        };

                        *running.lock().unwrap() = Some((Instant::now(), prefix.clone()));
                        let n = executed.fetch_add(1, Ordering::Relaxed);
                        // Write out executions number 0, 1, 2, 4, 8, ...
                        let sampled = n & n.saturating_sub(1) == 0
                            && sample_count.load(Ordering::Relaxed) < limits.samples;
                        let mut chooser = Chooser::new(&prefix, limits.bound, sampled);
                        chooser.shared = Some(shared);
                        let run = run_once(body, &mut chooser);
                        *running.lock().unwrap() = None;

                        local.executions += 1;
                        local.transitions += chooser.transitions;
                        local.choice_points += chooser.trace.len() as u64;
                        local.max_depth = local.max_depth.max(chooser.trace.len());
                        local.states.extend(chooser.states.iter().copied());
                        if sampled && !chooser.log.is_empty() {
                            sample_count.fetch_add(1, Ordering::Relaxed);
                            local.samples.push(std::mem::take(&mut chooser.log));
                        }
                        let mut stop = false;
                        match run {
                            Run::Ok => {
                                local.outcomes.insert(chooser.outcome);
                            }
                            Run::Pruned => local.pruned += 1,
                            Run::Violation { key, message } => {
                                let known = is_known(&key);
                                if known {
                                    if !local.found.iter().any(|f| f.key == key) {
                                        local.found.push(Found {
                                            choices: chooser.choices(),
                                            key,
                                            message,
                                        });
                                    }
                                } else {
                                    stop = true;
                                    local.found.push(Found {
                                        choices: chooser.choices(),
                                        key,
                                        message,
                                    });
                                }
                            }
                            Run::Engine(e) => {
                                local.engine_error = Some(format!("{e} (choices {:?})", chooser.choices()));
                                stop = true;
                            }
                        }

                        // Queue alternatives, the shortest prefix ends up at the bottom
                        let mut next = Vec::new();
                        if !stop {
                            let mut cost = 0;
                            for (i, point) in chooser.trace.iter().enumerate() {
                                if i >= prefix.len()
                                    && !(point.deviation && cost >= limits.bound)
                                {
                                    for alt in (0..point.n).rev() {
                                        if alt == point.taken {
                                            continue;
                                        }
                                        let mut p: Vec<u32> =
                                            chooser.trace[..i].iter().map(|p| p.taken).collect();
                                        p.push(alt);
                                        next.push(p);
                                    }
                                }
                                if point.deviation && point.taken > 0 {
                                    cost += 1;
                                }
                            }
                        }

                        let mut q = queue.lock().unwrap();
                        q.active -= 1;
                        if stop {
                            q.stopped = true;
                        }
                        if Instant::now() > limits.deadline && !(q.stack.is_empty() && next.is_empty()) {
                            q.stopped = true;
                            local.capped = true;
                        }
                        q.stack.extend(next);
                        drop(q);
                        cond.notify_all();
                    }

                    let mut total = total.lock().unwrap();
                    total.executions += local.executions;
                    total.pruned += local.pruned;
                    total.transitions += local.transitions;
                    total.choice_points += local.choice_points;
                    total.max_depth = total.max_depth.max(local.max_depth);
                    total.states.extend(local.states);
                    total.outcomes.extend(local.outcomes);
                    total.samples.extend(local.samples);
                    total.capped |= local.capped;
                    total.found.extend(local.found);
                    if total.engine_error.is_none() {
                        total.engine_error = local.engine_error;
                    }
                })
                .unwrap();
            workers.push(thread);
        }

        // Watchdog: code under test which never returns and never reaches a scheduling point
        let (running, done, limits) = (&running, &done, &limits);
        scope.spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                for slot in running {
                    let slot = slot.lock().unwrap();
                    if let Some((since, prefix)) = &*slot {
                        if since.elapsed() > limits.hang {
                            crate::report::report_hang(prefix);
                        }
                    }
                }
            }
        });

        for worker in workers {
            let _ = worker.join();
        }
        done.store(true, Ordering::Relaxed);
    });

    let mut stats = total.into_inner().unwrap();
    stats
        .found
        .sort_by(|a, b| (a.choices.len(), &a.choices).cmp(&(b.choices.len(), &b.choices)));
    stats
}
