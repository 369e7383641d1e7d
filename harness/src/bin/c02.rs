//! C02: a message of any size arrives complete and unchanged

use everscale_network::adnl::NodeOptions;
use harness::nodes::*;
use harness::puppet::{Msg, Puppet, Via};
use harness::util::{hash_of, permutations};
use harness::world::{self, Datagram};
use harness::{check_main, ensure, Chooser, Ctx, Step, Suite};

/// Datagrams must fit this (see the documentation of the ADNL module)
const MTU: usize = 1500;

#[derive(Debug, Copy, Clone, Hash, PartialEq, Eq)]
enum Kind {
    Custom,
    Query,
    Answer,
}

#[derive(Debug, Copy, Clone, Hash, PartialEq, Eq)]
enum State {
    /// The sender has not heard from the receiver
    Fresh,
    /// The sender has a channel, but does not know whether the receiver has it
    Half,
    Established,
}

fn sizes(thorough: bool) -> Vec<usize> {
    let mut res: Vec<usize> = vec![4, 5, 6, 7, 8, 100];
    res.extend(250..260);
    let around = |res: &mut Vec<usize>, at: usize, by: usize| res.extend(at - by..=at + by);
    // Largest size which is sent as a whole: 1024 - additional (0, 40, 72) - header (12, 44)
    for at in [908, 940, 972, 980] {
        around(&mut res, at, if thorough { 8 } else { 2 });
    }
    around(&mut res, 1012, if thorough { 12 } else { 4 });
    around(&mut res, 1024, if thorough { 8 } else { 2 });
    for at in [1900, 1968, 2000, 2036, 2048] {
        around(&mut res, at, if thorough { 12 } else { 2 });
    }
    for at in [3060, 4096, 6000, 20_000] {
        around(&mut res, at, 1);
    }
    res.sort_unstable();
    res.dedup();
    res
}

fn options(ch: &mut Chooser<'_>) -> NodeOptions {
    // Pairwise combinations
    let (priority, version, history) = ch.one_of(&[
        (true, None, false),
        (true, Some(0), true),
        (false, None, true),
        (false, Some(0), false),
    ]);
    NodeOptions {
        force_use_priority_channels: priority,
        version,
        packet_history_enabled: history,
        query_default_timeout_ms: 1000,
        ..Default::default()
    }
}

/// Brings the pair into the state. `a` is going to send
async fn prepare(state: State, a: &Sim, b: &Sim) {
    match state {
        State::Fresh => {}
        State::Half => {
            // `b` creates a channel, `a` gets its key but has no answer yet
            b.send(a, &payload(MESSAGE, 1, 8)).unwrap();
            world::flush().await;
        }
        State::Established => establish(a, b).await,
    }
    a.events();
    b.events();
}

/// How the packets of a message arrive
fn arrange(ch: &mut Chooser<'_>, packets: Vec<Datagram>) -> (Vec<Datagram>, bool) {
    let n = packets.len();
    ensure_mtu(&packets);
    let orders: Vec<Vec<usize>> = if n <= 3 {
        permutations(n)
    } else {
        let mut res: Vec<Vec<usize>> = vec![(0..n).collect(), (0..n).rev().collect()];
        for shift in [1, n - 1] {
            res.push((0..n).map(|i| (i + shift) % n).collect());
        }
        res
    };
    let order = ch.one_of(&orders);
    let mut order = order;
    // Nothing, a lost packet or a copy of a packet
    let fault = ch.choose(if n > 1 { 3 } else { 1 });
    let mut complete = true;
    match fault {
        1 => {
            let lost = ch.choose(n.min(4));
            ch.note(|| format!("packet {} is lost", order[lost]));
            order.remove(lost);
            complete = false;
        }
        2 => {
            let copied = ch.choose(n.min(3));
            let at = ch.one_of(&[0, n / 2, n - 1]);
            ch.note(|| format!("packet {} comes again at {at}", order[copied]));
            let packet = order[copied];
            order.insert(at, packet);
        }
        _ => {}
    }
    ch.note(|| format!("{n} packets arrive in the order {order:?}"));
    (order.into_iter().map(|i| packets[i].clone()).collect(), complete)
}

fn ensure_mtu(packets: &[Datagram]) {
    let longest = packets.iter().map(|p| p.data.len()).max().unwrap_or_default();
    LONGEST.fetch_max(longest, std::sync::atomic::Ordering::Relaxed);
}

static LONGEST: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

async fn single(ch: &mut Chooser<'_>, thorough: bool) -> Step {
    let state = ch.one_of(&[State::Fresh, State::Half, State::Established]);
    let kind = ch.one_of(&[Kind::Custom, Kind::Query, Kind::Answer]);
    let options = options(ch);
    let size = ch.one_of(&sizes(thorough));
    ch.note(|| format!("{kind:?} of {size} bytes, {state:?}, {options:?}"));

    // The sender of the big message is always `a`
    let mut a = Sim::build_stopped(0, &[1], options, None);
    if kind == Kind::Answer {
        a.app = std::sync::Arc::new(Recorder {
            events: Default::default(),
            answer: Some(Box::new(move |_| Some(payload(MESSAGE, 99, size)))),
        });
    }
    a.start();
    let b = Sim::new(1, options);
    a.add(&b);
    b.add(&a);
    prepare(state, &a, &b).await;

    let data = payload(if kind == Kind::Query { QUERY } else { MESSAGE }, 99, size);
    match kind {
        Kind::Custom => {
            a.send(&b, &data).unwrap();
            world::settle().await;
            let (packets, complete) = arrange(ch, world::take_sent());
            for packet in &packets {
                ch.step();
                world::deliver(packet).await;
            }
            world::flush().await;
            check_events(&b, &a, &data, false, complete)?;
        }
        Kind::Query => {
            let query = a.query(&b, &data, None);
            world::settle().await;
            let (packets, complete) = arrange(ch, world::take_sent());
            for packet in &packets {
                ch.step();
                world::deliver(packet).await;
            }
            check_events(&b, &a, &data, true, complete)?;
            world::flush().await;
            world::advance(std::time::Duration::from_secs(2)).await;
            let answer = query.await.unwrap().unwrap();
            let expected = complete.then(|| answer_to(&data));
            ensure!(
                answer == expected,
                "answer",
                "got an answer of {:?} bytes instead of {:?}",
                answer.map(|a| a.len()),
                expected.map(|a| a.len())
            );
        }
        Kind::Answer => {
            let query = b.query(&a, &payload(QUERY, 5, 12), None);
            world::settle().await;
            for packet in world::take_sent() {
                world::deliver(&packet).await;
            }
            let (packets, complete) = arrange(ch, world::take_sent());
            for packet in &packets {
                ch.step();
                world::deliver(packet).await;
            }
            world::flush().await;
            world::advance(std::time::Duration::from_secs(2)).await;
            let answer = query.await.unwrap().unwrap();
            ensure!(
                answer.is_some() == complete && answer.iter().all(|a| a == &data),
                "answer",
                "got an answer of {:?} bytes instead of {size} (complete: {complete})",
                answer.map(|a| a.len())
            );
        }
    }
    let longest = LONGEST.load(std::sync::atomic::Ordering::Relaxed);
    ensure!(
        longest < MTU,
        "too long datagram",
        "sent a datagram of {longest} bytes"
    );
    ch.observe((kind, state, size));
    ch.visit(hash_of(&(kind, state, size, b.node.metrics().incoming_transfers_len)));
    // The nodes still understand each other
    let data = payload(MESSAGE, 123, 64);
    b.send(&a, &data).unwrap();
    world::flush().await;
    check_events(&a, &b, &data, false, true)?;
    Ok(())
}

fn check_events(to: &Sim, from: &Sim, data: &[u8], query: bool, complete: bool) -> Step {
    let events: Vec<_> = to
        .events()
        .into_iter()
        // The small query of an answer
        .filter(|e| e.query == query)
        .collect();
    if !complete {
        ensure!(
            events.is_empty(),
            "incomplete message",
            "an incomplete message was delivered as {} bytes",
            events[0].data.len()
        );
        return Ok(());
    }
    ensure!(
        events.len() == 1,
        "message count",
        "a message of {} bytes was delivered {} times",
        data.len(),
        events.len()
    );
    ensure!(
        events[0].data == data,
        "message content",
        "a message of {} bytes was delivered as {} other bytes",
        data.len(),
        events[0].data.len()
    );
    ensure!(
        events[0].peer == from.id() && events[0].local == to.id(),
        "message identities",
        "a message was attributed to the pair {} {}",
        events[0].local,
        events[0].peer
    );
    Ok(())
}

/// Two messages whose packets are mixed
async fn mixed(ch: &mut Chooser<'_>) -> Step {
    let state = ch.one_of(&[State::Fresh, State::Half, State::Established]);
    let options = NodeOptions {
        force_use_priority_channels: ch.flag(),
        ..Default::default()
    };
    // Who sends the second message: the same identity, another identity of the same node,
    // another node, or the same node to another identity
    let second = ch.choose(4);
    let same_content = second > 0 && ch.flag();
    let sizes = ch.one_of(&[(1500usize, 1500usize), (2500, 1500), (2500, 2500)]);

    let a = Sim::build(0, &[1, 11], options, None);
    let b = Sim::build(1, &[2, 12], options, None);
    let c = Sim::build(2, &[3], options, None);
    for (x, kx, ix) in [(&a, 1u8, 0usize), (&a, 11, 0), (&c, 3, 2)] {
        for kb in [2u8, 12] {
            x.add_as(kx, kb, 1);
            b.add_as(kb, kx, ix);
        }
    }
    prepare(state, &a, &b).await;
    if state != State::Fresh {
        prepare(state, &c, &b).await;
    }

    let first_data = payload(MESSAGE, 1, sizes.0);
    let second_data = if same_content {
        first_data.clone()
    } else {
        payload(MESSAGE, 2, sizes.1)
    };
    let (sender, from, to) = match second {
        0 => (&a, 1u8, 2u8),
        1 => (&a, 11, 2),
        2 => (&c, 3, 2),
        _ => (&a, 1, 12),
    };
    a.node
        .send_custom_message(&short_id(1), &short_id(2), &first_data)
        .unwrap();
    world::settle().await;
    let mut one = world::take_sent();
    sender
        .node
        .send_custom_message(&short_id(from), &short_id(to), &second_data)
        .unwrap();
    world::settle().await;
    let mut two = world::take_sent();
    if ch.flag() {
        two.reverse();
    }
    ch.note(|| {
        format!(
            "{:?}, {} packets from 1 to 2 mixed with {} from {from} to {to}, same content: {same_content}",
            state,
            one.len(),
            two.len()
        )
    });
    one.reverse();
    two.reverse();
    while !one.is_empty() || !two.is_empty() {
        let take_one = if one.is_empty() {
            false
        } else if two.is_empty() {
            true
        } else {
            ch.flag()
        };
        let packet = if take_one { one.pop() } else { two.pop() }.unwrap();
        ch.note(|| format!("a packet of {} arrives", if take_one { "the first" } else { "the second" }));
        ch.step();
        world::deliver(&packet).await;
    }
    let mut events: Vec<_> = b
        .events()
        .into_iter()
        .map(|e| (e.local, e.peer, e.data))
        .collect();
    let mut expected = vec![
        (short_id(2), short_id(1), first_data),
        (short_id(to), short_id(from), second_data),
    ];
    events.sort();
    expected.sort();
    ensure!(
        events == expected,
        "mixed messages",
        "got {:?} instead of {:?}",
        events.iter().map(|e| (e.0, e.1, e.2.len())).collect::<Vec<_>>(),
        expected.iter().map(|e| (e.0, e.1, e.2.len())).collect::<Vec<_>>()
    );
    ch.observe((second, same_content, sizes));
    ch.visit(hash_of(&(second, same_content, sizes)));
    Ok(())
}

/// Many messages in both directions
async fn many(ch: &mut Chooser<'_>, count: usize) -> Step {
    let options = options(ch);
    let (a, b) = pair(options);
    let pattern = ch.choose(3);
    let size = ch.one_of(&[8usize, 1000, 2500]);
    ch.note(|| format!("{options:?} pattern {pattern} size {size}"));
    for i in 0..count {
        let (from, to) = match pattern {
            0 => (&a, &b),
            1 if i % 2 == 0 => (&a, &b),
            2 if i < count / 2 => (&a, &b),
            _ => (&b, &a),
        };
        let data = payload(QUERY, i as u64, size);
        if i % 3 == 2 {
            let query = from.query(to, &data, None);
            world::flush().await;
            check_events(to, from, &data, true, true)?;
            world::advance(std::time::Duration::from_secs(2)).await;
            ensure!(
                query.await.unwrap().unwrap() == Some(answer_to(&data)),
                "answer",
                "no answer to the query number {i}"
            );
        } else {
            from.send(to, &data).unwrap();
            world::flush().await;
            check_events(to, from, &data, false, true)?;
        }
        ch.step();
    }
    ch.observe((pattern, size));
    ch.visit(hash_of(&(pattern, size)));
    Ok(())
}

/// Whether the four bytes before the checksum of `data` look like a version of the protocol,
/// if the prefix of a packet with a version has `len` bytes
fn looks_versioned(data: &[u8], len: usize) -> bool {
    let mut xor = [0u8; 4];
    for (i, byte) in data[..len].iter().enumerate() {
        xor[i % 4] ^= byte;
    }
    xor[0] == xor[2] && xor[1] == xor[3]
}

/// The first number from `hint` on for which there is a value, found once for all executions
fn search<T>(hint: u32, mut f: impl FnMut(u32) -> Option<T>) -> T {
    (hint..).find_map(|n| f(n)).expect("no coincidence")
}

/// One of 65536 packets without a version starts as one which has a version
async fn coincidence(ch: &mut Chooser<'_>) -> Step {
    let via = ch.one_of(&[Via::Handshake, Via::Ordinary, Via::Priority]);
    let options = NodeOptions {
        version: ch.one_of(&[None, Some(0)]),
        ..Default::default()
    };
    ch.note(|| format!("{via:?}, {options:?}"));
    let b = Sim::new(0, options);
    let mut a = Puppet::new(2, 1);
    a.introduce(&b);
    if via != Via::Handshake {
        a.connect(&b).await;
    }
    world::flush().await;
    b.events();
    let data = payload(MESSAGE, 7, 64);
    let message = Msg::Custom(data.clone());
    let datagram = match via {
        Via::Handshake => {
            let contents = a.honest(vec![message]).to_bytes();
            search(HINT, |n| {
                everscale_network::verif::rng::seed(Some(n as u64));
                let datagram = a.seal_for(b.key(), &contents, None);
                looks_versioned(&datagram, 100).then(|| {
                    ch.note(|| format!("one-time key number {n}"));
                    datagram
                })
            })
        }
        _ => {
            let mut packet = a.channel_packet(vec![message]);
            search(0, |n| {
                packet.rand2[..4].copy_from_slice(&n.to_le_bytes());
                let datagram = a.seal_in_channel(&packet.to_bytes(), via == Via::Priority, None);
                looks_versioned(&datagram, 68).then_some(datagram)
            })
        }
    };
    ch.step();
    world::deliver_raw(world::port(b.index), world::port(a.index), datagram).await;
    let events = b.events();
    ensure!(
        events.len() == 1 && events[0].data == data,
        "coincidence",
        "a packet without a version which looks like one with a version: {} deliveries",
        events.len()
    );
    ch.observe(via);
    ch.visit(hash_of(&(via, options.version)));
    Ok(())
}

/// Number to start the search from, to save time
const HINT: u32 = 61632;

/// Every supported version of the protocol
async fn versions(ch: &mut Chooser<'_>) -> Step {
    let version = ch.one_of(&[None, Some(0)]);
    let peer_version = ch.one_of(&[None, Some(0)]);
    let state = ch.one_of(&[State::Fresh, State::Half, State::Established]);
    let make = |index: usize, version| {
        Sim::new(
            index,
            NodeOptions {
                version,
                ..Default::default()
            },
        )
    };
    let (a, b) = (make(0, version), make(1, peer_version));
    a.add(&b);
    b.add(&a);
    prepare(state, &a, &b).await;
    ch.note(|| format!("versions {version:?} and {peer_version:?}, {state:?}"));
    for size in [4, 5, 64, 1500] {
        ch.step();
        let data = payload(MESSAGE, 99, size);
        a.send(&b, &data).unwrap();
        world::flush().await;
        check_events(&b, &a, &data, false, true)?;
        b.send(&a, &data).unwrap();
        world::flush().await;
        check_events(&a, &b, &data, false, true)?;
    }
    ch.observe((version, peer_version, state));
    ch.visit(hash_of(&(version, peer_version, state)));
    Ok(())
}

fn main() {
    check_main("C02", |ctx: &mut Ctx| {
        ctx.assume("messages start with a constructor (at least 4 bytes), as both subscriber traits require");
        ctx.assume("the same bytes are not sent twice at once by one identity to another one");
        let thorough = ctx.is_thorough();
        ctx.explore(
            Suite {
                name: "single".to_owned(),
                about: format!(
                    "a message, query or answer of {} sizes x 3 channel states x 4 option sets x every order of up \
                    to 3 packets (4 orders above) x a lost or repeated packet",
                    sizes(thorough).len()
                ),
                bound: 0,
            },
            |ch| world::run(1, single(ch, thorough)),
        );
        ctx.explore(
            Suite {
                name: "mixed".to_owned(),
                about: "every interleaving of the packets of two split messages from one or two senders to one or \
                    two identities, with equal and different contents"
                    .to_owned(),
                bound: 0,
            },
            |ch| world::run(1, mixed(ch)),
        );
        let count = ctx.tiered(18, 60);
        ctx.explore(
            Suite {
                name: "many".to_owned(),
                about: format!("{count} messages and queries in three directions patterns, 3 sizes, 4 option sets"),
                bound: 0,
            },
            |ch| world::run(1, many(ch, count)),
        );
        ctx.explore(
            Suite {
                name: "coincidence".to_owned(),
                about: "packets of each kind without a version, whose first bytes look like those of a packet with a \
                    version by chance"
                    .to_owned(),
                bound: 0,
            },
            |ch| world::run(1, coincidence(ch)),
        );
        ctx.explore(
            Suite {
                name: "versions".to_owned(),
                about: "nodes with and without the version of the protocol, in 3 channel states".to_owned(),
                bound: 0,
            },
            |ch| world::run(1, versions(ch)),
        );
    })
}
