//! Small deterministic networks made of real nodes.
//!
//! The nodes run on a single-threaded runtime with a paused clock. Datagrams go through the
//! stand-in for the UDP socket, so a harness decides when and whether each of them arrives.

use std::cell::Cell;
use std::future::Future;
use std::net::{Ipv4Addr, SocketAddrV4};
use std::time::Duration;

use everscale_network::verif;

pub use everscale_network::verif::net::Datagram;

/// Unix time at the beginning of each execution
pub const START: u32 = 1_700_000_000;

thread_local! {
    static ORIGIN: Cell<Option<tokio::time::Instant>> = const { Cell::new(None) };
    static SHIFT: Cell<i64> = const { Cell::new(0) };
}

fn unix_clock() -> u32 {
    let elapsed = ORIGIN.with(|o| match o.get() {
        Some(origin) => tokio::time::Instant::now().saturating_duration_since(origin).as_secs(),
        None => 0,
    });
    (START as i64 + elapsed as i64 + SHIFT.with(|s| s.get())) as u32
}

/// Current unix time of the world
pub fn now() -> u32 {
    unix_clock()
}

/// Shifts unix time without firing timers
pub fn shift_clock(seconds: i64) {
    SHIFT.with(|s| s.set(s.get() + seconds));
}

/// Resets everything this OS thread keeps between executions
pub fn reset(seed: u64) {
    verif::net::reset();
    verif::rng::seed(Some(seed));
    verif::time::set_unix_clock(Some(unix_clock));
    ORIGIN.with(|o| o.set(None));
    SHIFT.with(|s| s.set(0));
}

/// Runs the body in a fresh world
pub fn run<F, T>(seed: u64, f: F) -> T
where
    F: Future<Output = T>,
{
    reset(seed);
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .unwrap();
    let res = rt.block_on(async {
        ORIGIN.with(|o| o.set(Some(tokio::time::Instant::now())));
        f.await
    });
    drop(rt);
    verif::net::reset();
    ORIGIN.with(|o| o.set(None));
    res
}

/// Lets everything which can run without waiting for time run
pub async fn settle() {
    let mut quiet = 0;
    let mut last = verif::net::activity();
    while quiet < 12 {
        tokio::task::yield_now().await;
        let now = verif::net::activity();
        if now == last {
            quiet += 1;
        } else {
            quiet = 0;
            last = now;
        }
    }
}

/// Moves time forward, firing every timer on the way
pub async fn advance(duration: Duration) {
    tokio::time::sleep(duration).await;
    settle().await;
}

/// Address of the `i`-th node
pub fn addr(i: usize) -> SocketAddrV4 {
    SocketAddrV4::new(Ipv4Addr::new(10, 0, 0, i as u8 + 1), port(i))
}

pub fn port(i: usize) -> u16 {
    10_000 + i as u16
}

/// Datagrams sent since the last call
pub fn take_sent() -> Vec<Datagram> {
    verif::net::take_sent()
}

/// Delivers the datagram and lets the receiver process it
pub async fn deliver(datagram: &Datagram) -> bool {
    deliver_raw(datagram.to.port(), datagram.from, datagram.data.clone()).await
}

pub async fn deliver_raw(to: u16, from: u16, data: Vec<u8>) -> bool {
    let from = SocketAddrV4::new(Ipv4Addr::new(10, 0, 0, (from - 10_000) as u8 + 1), from);
    let res = verif::net::deliver(to, from, data);
    settle().await;
    res
}

/// Delivers everything what is sent, in order, until there is nothing left.
/// Returns the number of delivered datagrams
pub async fn flush() -> usize {
    let mut total = 0;
    loop {
        settle().await;
        let sent = take_sent();
        if sent.is_empty() {
            return total;
        }
        for datagram in sent {
            total += 1;
            assert!(total < 100_000, "endless exchange of datagrams");
            deliver(&datagram).await;
        }
    }
}
