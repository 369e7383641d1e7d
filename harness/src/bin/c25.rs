//! C25: the queue of received broadcasts loses nothing and wakes everyone

use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

use everscale_network::overlay::verif_api::BroadcastReceiver;
use everscale_network::overlay::{Overlay, OverlayOptions};
use harness::dhtkit::overlay;
use harness::overlaykit::*;
use harness::puppet::{Msg, Puppet};
use harness::sched::{self, run_threads, Body};
use harness::util::hash_of;
use harness::world::{self, START};
use tokio::task::JoinHandle;
use harness::{check_main, ensure, Chooser, Step, Suite};

#[derive(Default)]
struct Flag(AtomicBool);

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

/// A consumer which is polled by hand
struct Waiter<'a> {
    future: Pin<Box<dyn Future<Output = u32> + 'a>>,
    woken: Arc<Flag>,
}

impl<'a> Waiter<'a> {
    fn new(queue: &'a BroadcastReceiver<u32>) -> Self {
        let woken = Arc::new(Flag::default());
        woken.0.store(true, Ordering::SeqCst);
        Self {
            future: Box::pin(queue.pop()),
            woken,
        }
    }

    fn poll(&mut self) -> Option<u32> {
        self.woken.0.store(false, Ordering::SeqCst);
        let waker = Waker::from(self.woken.clone());
        match self.future.as_mut().poll(&mut Context::from_waker(&waker)) {
            Poll::Ready(item) => Some(item),
            Poll::Pending => None,
        }
    }

    fn is_woken(&self) -> bool {
        self.woken.0.load(Ordering::SeqCst)
    }
}

#[derive(Default)]
struct Outcome {
    pushed: u32,
    popped: Vec<u32>,
    /// Whether there was more than one consumer at a time
    crowded: bool,
}

impl Outcome {
    fn pop(&mut self, item: u32) -> Step {
        ensure!(item < self.pushed, "unknown item", "item {item} was never pushed");
        ensure!(!self.popped.contains(&item), "item returned twice", "item {item}");
        if !self.crowded {
            ensure!(
                item as usize == self.popped.len(),
                "wrong order",
                "item {item} is returned after {:?} to the only consumer",
                self.popped
            );
        }
        self.popped.push(item);
        Ok(())
    }
}

/// All sequences of operations of a single thread
async fn histories(ch: &mut Chooser<'_>, depth: usize, slots: usize) -> Step {
    let queue = Arc::new(BroadcastReceiver::<u32>::default());
    let mut out = Outcome::default();
    let mut waiters: Vec<Option<Waiter<'_>>> = (0..slots).map(|_| None).collect();
    for _ in 0..depth {
        ch.step();
        // Nothing differs the consumers which do not wait
        let free = waiters.iter().position(Option::is_none);
        let mut ops: Vec<(u8, usize)> = vec![(0, 0)];
        if let Some(free) = free {
            ops.push((1, free));
        }
        for (i, waiter) in waiters.iter().enumerate() {
            if let Some(waiter) = waiter {
                ops.push((2, i));
                if waiter.is_woken() {
                    ops.push((3, i));
                }
            }
        }
        let (op, i) = ch.one_of(&ops);
        match op {
            0 => {
                ch.note(|| format!("push {}", out.pushed));
                let item = out.pushed;
                out.pushed += 1;
                queue.push(item);
            }
            1 => {
                ch.note(|| format!("consumer {i} starts to wait"));
                let mut waiter = Waiter::new(&queue);
                out.crowded |= waiters.iter().any(Option::is_some);
                match waiter.poll() {
                    Some(item) => out.pop(item)?,
                    None => waiters[i] = Some(waiter),
                }
            }
            2 => {
                ch.note(|| format!("consumer {i} gives up"));
                waiters[i] = None;
            }
            _ => {
                ch.note(|| format!("consumer {i} runs"));
                if let Some(item) = waiters[i].as_mut().unwrap().poll() {
                    waiters[i] = None;
                    out.pop(item)?;
                }
            }
        }
        // Helpers of the queue may run at any moment, the earliest one is explored
        tokio::task::yield_now().await;
        ch.visit(hash_of(&(
            out.pushed,
            &out.popped,
            waiters.iter().map(|w| w.as_ref().map(Waiter::is_woken)).collect::<Vec<_>>(),
        )));
    }

    // Everything runs until nothing more happens
    settle(&mut waiters, &mut out).await?;
    let waiting = waiters.iter().flatten().count();
    let left = out.pushed as usize - out.popped.len();
    ch.observe((waiting, left));
    ensure!(
        waiting == 0 || left == 0,
        "lost wakeup",
        "{waiting} consumers wait while {left} items are in the queue"
    );
    ensure!(
        queue.data_len() == left,
        "lost item",
        "{} items are in the queue instead of {left}",
        queue.data_len()
    );
    // Whatever is left goes to later consumers
    waiters.clear();
    for _ in 0..left {
        let mut waiter = vec![Some(Waiter::new(&queue))];
        settle(&mut waiter, &mut out).await?;
        ensure!(waiter[0].is_none(), "lost item", "{:?} of {} were returned", out.popped, out.pushed);
    }
    // And there is nothing more
    let mut waiter = Waiter::new(&queue);
    ensure!(waiter.poll().is_none(), "unknown item", "the queue had to be empty");
    let mut waiter = vec![Some(waiter)];
    settle(&mut waiter, &mut out).await?;
    ensure!(waiter[0].is_some(), "unknown item", "the queue had to be empty");
    Ok(())
}

async fn settle(waiters: &mut [Option<Waiter<'_>>], out: &mut Outcome) -> Step {
    for _ in 0..8 {
        for slot in waiters.iter_mut() {
            if let Some(waiter) = slot.as_mut().filter(|w| w.is_woken()) {
                if let Some(item) = waiter.poll() {
                    *slot = None;
                    out.pop(item)?;
                }
            }
        }
        tokio::task::yield_now().await;
    }
    Ok(())
}

/// Threads of a concurrent scenario
struct Crew {
    name: &'static str,
    /// Number of items each producer pushes
    producers: &'static [u32],
    /// Number of items each consumer takes
    consumers: &'static [u32],
    /// Consumers which give up after so many polls
    quitters: &'static [u32],
}

fn threads(ch: &mut Chooser<'_>, crew: &Crew) -> Step {
    world::reset(1);
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let guard = rt.enter();
    let queue = Arc::new(BroadcastReceiver::<u32>::default());
    let popped: RefCell<Vec<(usize, u32)>> = RefCell::default();
    let running = Cell::new(crew.producers.len() + crew.consumers.len() + crew.quitters.len());
    let done = || running.set(running.get() - 1);
    let mut bodies: Vec<Body<'_>> = Vec::new();
    let mut first = 0;
    for count in crew.producers {
        let range = first..first + count;
        first = range.end;
        let (queue, done) = (&queue, &done);
        bodies.push(Box::new(move || {
            for item in range {
                queue.push(item);
            }
            done();
        }));
    }
    for (id, count) in crew.consumers.iter().enumerate() {
        let (queue, popped, done) = (&queue, &popped, &done);
        bodies.push(Box::new(move || {
            for _ in 0..*count {
                let item = sched::block_on(queue.pop());
                popped.borrow_mut().push((id, item));
            }
            done();
        }));
    }
    for (id, polls) in crew.quitters.iter().enumerate() {
        let (queue, popped, done) = (&queue, &popped, &done);
        bodies.push(Box::new(move || {
            let mut waiter = Waiter::new(queue);
            for _ in 0..*polls {
                sched::point();
                if let Some(item) = waiter.poll() {
                    popped.borrow_mut().push((100 + id, item));
                    break;
                }
            }
            sched::point();
            drop(waiter);
            done();
        }));
    }
    // Runs the tasks which were spawned by the others
    {
        let (rt, running) = (&rt, &running);
        bodies.push(Box::new(move || {
            rt.block_on(async {
                let tasks = tokio::runtime::Handle::current();
                loop {
                    let seen = sched::changes();
                    for _ in 0..4 {
                        tokio::task::yield_now().await;
                    }
                    if running.get() == 0 {
                        break;
                    }
                    let busy = || tasks.metrics().num_alive_tasks() > 0 && sched::changes() != seen;
                    sched::wait_until(&|| running.get() == 0 || busy());
                }
            })
        }));
    }
    let res = run_threads(ch, bodies, &sched::Options { horizon: 2_000, ..Default::default() });
    if res.is_err() {
        // Abandoned threads may still be inside of the runtime
        std::mem::forget(guard);
        std::mem::forget(rt);
    } else {
        drop(guard);
    }
    let total: u32 = crew.producers.iter().sum();
    let taken = popped.borrow().clone();
    match res {
        Err(harness::Stop::Violation { key, message }) => {
            return Err(harness::Stop::violation(
                format!("{key}: lost wakeup"),
                format!("{}: {message}, {} of {total} items are taken", crew.name, taken.len()),
            ))
        }
        res => res?,
    }
    ch.observe(&taken);
    ch.visit(hash_of(&taken));
    let mut items: Vec<u32> = taken.iter().map(|(_, item)| *item).collect();
    for id in 0..crew.consumers.len() {
        let of: Vec<u32> = taken.iter().filter(|(i, _)| *i == id).map(|(_, x)| *x).collect();
        // Items of one producer reach one consumer in the order they were pushed
        let mut first = 0;
        for count in crew.producers {
            let of: Vec<u32> = of.iter().copied().filter(|x| (first..first + count).contains(x)).collect();
            first += count;
            ensure!(
                crew.quitters.iter().any(|_| true) || of.windows(2).all(|w| w[0] < w[1]),
                "wrong order",
                "{}: consumer {id} took {of:?}",
                crew.name
            );
        }
    }
    let rest = total as usize - items.len();
    ensure!(queue.data_len() == rest, "lost item", "{} items are left instead of {rest}", queue.data_len());
    world::run(1, async {
        for _ in 0..rest {
            let task = tokio::spawn({
                let queue = queue.clone();
                async move { queue.pop().await }
            });
            world::settle().await;
            ensure!(task.is_finished(), "lost item", "an item can't be taken");
            items.push(task.await.unwrap());
        }
        Ok(())
    })?;
    items.sort_unstable();
    ensure!(
        items == (0..total).collect::<Vec<_>>(),
        "lost item",
        "{}: {items:?} are taken instead of {total}",
        crew.name
    );
    Ok(())
}

type Taken = Arc<Mutex<Vec<u32>>>;

/// Broadcasts from the network reach whoever waits for them
async fn broadcasts(ch: &mut Chooser<'_>, depth: usize) -> Step {
    let id = overlay(1).compute_short_id();
    let node = OverlaySim::private(0, &id, &[], OverlayOptions::default());
    node.mute();
    let mut puppet = Puppet::new(10, 5);
    puppet.introduce(&node.sim);
    let taken = Taken::default();
    let mut waiters = Vec::new();
    let mut sent = 0u32;
    let mut crowded = false;
    for _ in 0..depth {
        ch.step();
        waiters.retain(|w: &tokio::task::JoinHandle<()>| !w.is_finished());
        match ch.choose(if waiters.is_empty() { 3 } else { 4 }) {
            op @ (0 | 1) => {
                // One or two broadcasts in a single packet
                let mut messages = Vec::new();
                for _ in 0..op + 1 {
                    let data = [&[0xbb; 4][..], &sent.to_le_bytes()].concat();
                    messages.push(Msg::Custom(Short::new(10, &data, START).to_bytes(&id)));
                    sent += 1;
                }
                ch.note(|| format!("{} broadcasts arrive", op + 1));
                puppet.say(&node.sim, messages).await;
            }
            2 => {
                ch.note(|| "somebody waits".to_owned());
                crowded |= !waiters.is_empty();
                waiters.push(spawn_taker(&node.overlay, &taken));
                if ch.flag() {
                    world::settle().await;
                }
            }
            _ => {
                let i = ch.choose(waiters.len());
                ch.note(|| format!("waiter {i} gives up"));
                waiters.remove(i).abort();
                if ch.flag() {
                    world::settle().await;
                }
            }
        }
        ch.visit(hash_of(&(sent, &*taken.lock().unwrap(), waiters.len())));
    }
    world::settle().await;
    waiters.retain(|w| !w.is_finished());
    let got = taken.lock().unwrap().clone();
    ch.observe(&got);
    let unique: std::collections::BTreeSet<u32> = got.iter().copied().collect();
    ensure!(unique.len() == got.len(), "item returned twice", "{got:?}");
    ensure!(
        unique.iter().all(|x| *x < sent) && (crowded || got.windows(2).all(|w| w[0] < w[1])),
        "wrong order",
        "{got:?} of {sent}"
    );
    ensure!(
        waiters.is_empty() || got.len() == sent as usize,
        "lost wakeup",
        "{} wait while {got:?} of {sent} are taken",
        waiters.len()
    );
    for waiter in waiters {
        waiter.abort();
    }
    world::settle().await;
    for _ in got.len() as u32..sent {
        let task = spawn_taker(&node.overlay, &taken);
        world::settle().await;
        ensure!(task.is_finished(), "lost item", "{:?} of {sent} are taken", taken.lock().unwrap());
    }
    let mut got = taken.lock().unwrap().clone();
    got.sort_unstable();
    ensure!(got == (0..sent).collect::<Vec<_>>(), "lost item", "{got:?} of {sent}");
    Ok(())
}


fn spawn_taker(overlay: &Arc<Overlay>, taken: &Taken) -> JoinHandle<()> {
    let (overlay, taken) = (overlay.clone(), taken.clone());
    tokio::spawn(async move {
        let info = overlay.wait_for_broadcast().await;
        let item = u32::from_le_bytes(info.data[4..].try_into().unwrap());
        taken.lock().unwrap().push(item);
    })
}

const CREWS: &[Crew] = &[
    Crew { name: "one to one", producers: &[3], consumers: &[3], quitters: &[] },
    Crew { name: "two to one", producers: &[2, 2], consumers: &[4], quitters: &[] },
    Crew { name: "one to two", producers: &[3], consumers: &[1, 2], quitters: &[] },
    Crew { name: "two to two", producers: &[1, 2], consumers: &[2, 1], quitters: &[] },
    Crew { name: "three to three", producers: &[1, 1, 1], consumers: &[1, 1, 1], quitters: &[] },
    Crew { name: "with a quitter", producers: &[2], consumers: &[1], quitters: &[2] },
    Crew { name: "with two quitters", producers: &[3], consumers: &[1], quitters: &[1, 2] },
    Crew { name: "two producers with a quitter", producers: &[1, 2], consumers: &[1, 1], quitters: &[2] },
];

fn main() {
    check_main("C25", |ctx| {
        let depth = ctx.tiered(6, 8);
        ctx.explore(
            Suite {
                name: "histories".to_owned(),
                about: format!("all sequences of {depth} pushes, waits, wakeups and cancellations with up to 3 consumers on one thread"),
                bound: 0,
            },
            |ch| world::run(1, histories(ch, depth, 3)),
        );
        for crew in CREWS {
            let many = crew.producers.len() + crew.consumers.len() + crew.quitters.len() > 3;
            let bound = match many {
                false => ctx.tiered(2, 4),
                true => ctx.tiered(1, 2),
            };
            ctx.explore(
                Suite {
                    name: crew.name.to_owned(),
                    about: format!(
                        "all interleavings of {} producers, {} consumers and {} which give up, with up to {bound} preemptions",
                        crew.producers.len(),
                        crew.consumers.len(),
                        crew.quitters.len()
                    ),
                    bound,
                },
                |ch| threads(ch, crew),
            );
        }
        let depth = ctx.tiered(5, 6);
        ctx.explore(
            Suite {
                name: "broadcasts".to_owned(),
                about: format!("all sequences of {depth} received broadcasts, waits and cancellations on a node"),
                bound: 0,
            },
            |ch| world::run(1, broadcasts(ch, depth)),
        );
    })
}
