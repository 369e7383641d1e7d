//! C09: the peer table reflects exactly the accepted additions and removals

use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::net::SocketAddrV4;
use std::sync::Arc;
use std::time::Duration;

use everscale_network::adnl::{NewPeerContext, NodeIdShort, NodeOptions, PeerFilter};
use harness::nodes::*;
use harness::puppet::{Msg, Puppet};
use harness::sched::{block_on, run_threads, Body};
use harness::util::hash_of;
use harness::world;
use harness::{check_main, ensure, Chooser, Step, Suite};

const LOCALS: [u8; 2] = [1, 11];
const PEERS: [u8; 2] = [7, 8];
/// Index of the address which the filter refuses
const BANNED: usize = 3;
/// The peer which the filter refuses when it comes from a packet
const SHY: u8 = 8;

struct Filter;

impl PeerFilter for Filter {
    fn check(&self, ctx: NewPeerContext, addr: SocketAddrV4, peer_id: &NodeIdShort) -> bool {
        addr != world::addr(BANNED)
            && !(ctx == NewPeerContext::AdnlPacket && *peer_id == short_id(SHY))
    }
}

fn allowed(packet: bool, local: u8, peer: u8, index: usize, filter: bool) -> bool {
    if peer == local || index == 0 {
        return false;
    }
    !filter || (index != BANNED && !(packet && peer == SHY))
}

type Table = BTreeMap<(u8, u8), usize>;

fn check_table(node: &Sim, table: &Table) -> Step {
    for local in LOCALS {
        for peer in PEERS.iter().chain(&LOCALS) {
            let want = table.get(&(local, *peer)).map(|i| world::addr(*i));
            let got = node.node.get_peer_address(&short_id(local), &short_id(*peer));
            ensure!(
                want == got,
                "peer table",
                "peer {peer} of {local} is at {got:?} instead of {want:?}"
            );
        }
        // By addresses
        let entries: Vec<_> = (0..8).map(|i| (world::addr(i), i)).collect();
        let found = node
            .node
            .match_peer_addresses(&short_id(local), entries.into_iter().collect());
        let found: HashMap<usize, NodeIdShort> = found.into_iter().flatten().collect();
        for index in 0..8 {
            let ok = match found.get(&index) {
                Some(id) => table
                    .iter()
                    .any(|((l, p), i)| *l == local && short_id(*p) == *id && *i == index),
                None => !table.iter().any(|((l, _), i)| *l == local && *i == index),
            };
            ensure!(
                ok,
                "peers by addresses",
                "{:?} of {local} is at {index} in {table:?}",
                found.get(&index)
            );
        }
    }
    let count = node.node.metrics().peer_count;
    ensure!(
        count == table.len(),
        "peer count",
        "{count} peers instead of {}",
        table.len()
    );
    for unknown in [short_id(7), short_id(99)] {
        ensure!(
            node.node.get_peer_address(&unknown, &short_id(8)).is_none()
                && node.node.remove_peer(&unknown, &short_id(8)).is_err()
                && node
                    .node
                    .match_peer_addresses(&unknown, [(world::addr(6), 0)].into_iter().collect())
                    .is_none(),
            "unknown local identity",
            "something is known for {unknown}"
        );
    }
    Ok(())
}

#[derive(Debug, Clone, Copy)]
enum Op {
    Add { local: u8, peer: u8, index: usize, ctx: NewPeerContext },
    Remove { local: u8, peer: u8 },
    Packet { local: u8, peer: u8, index: Option<usize> },
    Send { local: u8, peer: u8 },
}

fn operations(full: bool) -> Vec<Op> {
    let mut ops = Vec::new();
    for local in LOCALS {
        let other = LOCALS[0] + LOCALS[1] - local;
        for peer in PEERS {
            for index in [6, 5, 0, BANNED] {
                if !full && (local == 11 && (index == 0 || index == BANNED)) {
                    continue;
                }
                ops.push(Op::Add { local, peer, index, ctx: NewPeerContext::Dht });
            }
            ops.push(Op::Remove { local, peer });
            for index in [Some(6), Some(5), Some(BANNED), None] {
                if !full && (local == 11 && index == Some(BANNED)) {
                    continue;
                }
                ops.push(Op::Packet { local, peer, index });
            }
            ops.push(Op::Send { local, peer });
        }
        ops.push(Op::Add { local, peer: local, index: 6, ctx: NewPeerContext::Dht });
        ops.push(Op::Add { local, peer: other, index: 6, ctx: NewPeerContext::PublicOverlay });
        ops.push(Op::Remove { local, peer: other });
        if full {
            ops.push(Op::Add { local, peer: 8, index: 6, ctx: NewPeerContext::PublicOverlay });
            ops.push(Op::Add { local, peer: 8, index: 5, ctx: NewPeerContext::AdnlPacket });
        }
    }
    ops
}

async fn table(ch: &mut Chooser<'_>, depth: usize, full: bool) -> Step {
    let filter = ch.flag();
    let node = Sim::build(
        0,
        &LOCALS,
        Default::default(),
        filter.then(|| Arc::new(Filter) as Arc<dyn PeerFilter>),
    );
    let ops = operations(full);
    let mut puppets: HashMap<u8, Puppet> = PEERS.iter().map(|k| (*k, Puppet::new(*k, 6))).collect();
    let mut known = Table::new();
    let mut seqno = 0;
    for i in 0..depth {
        let op = ch.one_of(&ops);
        ch.note(|| format!("{op:?}, filter: {filter}"));
        ch.step();
        match op {
            Op::Add { local, peer, index, ctx } => {
                let res = node
                    .node
                    .add_peer(ctx, &short_id(local), &short_id(peer), world::addr(index), full_id(peer))
                    .unwrap();
                let want = allowed(ctx == NewPeerContext::AdnlPacket, local, peer, index, filter);
                ensure!(
                    res == want,
                    "result of an addition",
                    "{op:?} gives {res} instead of {want}"
                );
                if want {
                    known.insert((local, peer), index);
                }
            }
            Op::Remove { local, peer } => {
                let res = node.node.remove_peer(&short_id(local), &short_id(peer)).unwrap();
                let want = known.remove(&(local, peer)).is_some();
                ensure!(
                    res == want,
                    "result of a removal",
                    "{op:?} gives {res} instead of {want}"
                );
            }
            Op::Packet { local, peer, index } => {
                let puppet = puppets.get_mut(&peer).unwrap();
                seqno += 1;
                let data = payload(MESSAGE, seqno, 8);
                let mut packet = puppet.honest(vec![Msg::Custom(data.clone())]);
                packet.address = packet.address.and_then(|mut list| {
                    let addr = world::addr(index?);
                    list.0 = Some((u32::from_be_bytes(addr.ip().octets()), addr.port() as u32));
                    Some(list)
                });
                let sealed = puppet.seal_for(local, &packet.to_bytes(), None);
                world::deliver_raw(world::port(0), world::port(6), sealed).await;
                if let Some(index) = index {
                    if allowed(true, local, peer, index, filter) {
                        known.insert((local, peer), index);
                    }
                }
                let events = node.events();
                let want = known.contains_key(&(local, peer));
                ensure!(
                    events.len() == want as usize,
                    if want { "peer not heard" } else { "unknown peer heard" },
                    "{} messages are received",
                    events.len()
                );
                if let Some(event) = events.first() {
                    ensure!(
                        event.data == data
                            && event.local == short_id(local)
                            && event.peer == short_id(peer),
                        "wrong message",
                        "{event:?}"
                    );
                }
            }
            Op::Send { local, peer } => {
                let res = node.node.send_custom_message(
                    &short_id(local),
                    &short_id(peer),
                    &payload(MESSAGE, 1, 8),
                );
                world::settle().await;
                let sent = world::take_sent();
                match known.get(&(local, peer)) {
                    Some(index) => ensure!(
                        res.is_ok() && sent.len() == 1 && sent[0].to == world::addr(*index),
                        "message to a known peer",
                        "{} datagrams are sent to {:?}",
                        sent.len(),
                        sent.first().map(|d| d.to)
                    ),
                    None => ensure!(
                        res.is_err() && sent.is_empty(),
                        "message to an unknown peer",
                        "{} datagrams are sent",
                        sent.len()
                    ),
                }
            }
        }
        ch.observe(known.len());
        ch.visit(hash_of(&(&known, filter)));
        if i + 1 == depth {
            check_table(&node, &known)?;
        }
    }
    Ok(())
}

/// Short names and readiness of the channels
fn channels(sim: &Sim) -> Vec<(String, bool)> {
    let channels = sim.node.verif_channels();
    channels.iter().map(|c| (hex::encode(&c.2[..3]), c.4)).collect()
}

/// Two real nodes forget and add each other again at any moment
async fn again(ch: &mut Chooser<'_>, depth: usize) -> Step {
    let options = NodeOptions {
        packet_history_enabled: ch.flag(),
        ..Default::default()
    };
    let with_channel = ch.flag();
    let sims = [Sim::new(0, options), Sim::new(1, options)];
    let mut known = [true; 2];
    sims[0].add(&sims[1]);
    sims[1].add(&sims[0]);
    if with_channel {
        establish(&sims[0], &sims[1]).await;
    }
    let mut flying: Vec<world::Datagram> = Vec::new();
    let mut counter = 0;
    for _ in 0..depth {
        let side = ch.choose(2);
        let (me, other) = (&sims[side], &sims[1 - side]);
        let op = ch.choose(6);
        ch.step();
        match op {
            0 => {
                ch.note(|| format!("node {side} removes the other one"));
                let res = me.node.remove_peer(&me.id(), &other.id()).unwrap();
                ensure!(res == known[side], "result of a removal", "{res}");
                known[side] = false;
                ensure!(
                    me.send(other, &payload(MESSAGE, 1, 8)).is_err(),
                    "message to a removed peer",
                    "it is possible to send to a removed peer"
                );
                let channels = me.node.metrics();
                ensure!(
                    channels.channels_by_id_len == 0 && channels.channels_by_peers_len == 0,
                    "channel of a removed peer",
                    "{channels:?}"
                );
            }
            1 => {
                ch.note(|| format!("node {side} adds the other one"));
                ensure!(me.add(other), "result of an addition", "refused");
                known[side] = true;
            }
            // Delivered or lost
            2 | 3 => {
                ch.note(|| format!("node {side} sends, delivered: {}", op == 2));
                counter += 1;
                let data = payload(MESSAGE, 1000 + counter, 8);
                let res = me.send(other, &data);
                ensure!(res.is_ok() == known[side], "result of sending", "{res:?}");
                if op == 2 {
                    world::flush().await;
                    let handshake_adds = !known[1 - side];
                    let was_known = known[1 - side];
                    let is_known = other.node.get_peer_address(&other.id(), &me.id()).is_some();
                    let events = other.events();
                    ensure!(
                        events.is_empty() || is_known,
                        "unknown peer heard",
                        "a message of a removed peer is received"
                    );
                    ensure!(
                        !was_known || is_known,
                        "peer forgotten",
                        "the peer is not known after its packet"
                    );
                    if handshake_adds && is_known {
                        ensure!(known[side], "peer appeared", "a removed peer is known again without its packet");
                    }
                    known[1 - side] = is_known;
                    // An answer could have been sent
                    known[side] = me.node.get_peer_address(&me.id(), &other.id()).is_some();
                } else {
                    world::settle().await;
                    flying.extend(world::take_sent());
                }
            }
            4 => {
                ch.note(|| format!("late datagrams of node {side} arrive"));
                let (now, later): (Vec<_>, Vec<_>) = flying
                    .drain(..)
                    .partition(|d| d.to.port() == world::port(1 - side));
                flying = later;
                if now.is_empty() {
                    return ch.skip();
                }
                for d in now {
                    world::deliver(&d).await;
                }
                world::flush().await;
                for i in 0..2 {
                    known[i] = sims[i]
                        .node
                        .get_peer_address(&sims[i].id(), &sims[1 - i].id())
                        .is_some();
                }
                other.events();
            }
            _ => {
                if side == 1 {
                    return ch.skip();
                }
                ch.note(|| "some time passes".to_owned());
                world::advance(Duration::from_secs(2)).await;
            }
        }
        ch.visit(hash_of(&(known, sims[0].node.verif_channel_ids().len(), sims[1].node.verif_channel_ids().len())));
    }
    ch.note(|| "both add each other and talk".to_owned());
    sims[0].add(&sims[1]);
    sims[1].add(&sims[0]);
    let first = ch.choose(2);
    for round in 0..6 {
        for i in [first, 1 - first] {
            let (me, other) = (&sims[i], &sims[1 - i]);
            let data = payload(MESSAGE, 5000 + round, 8);
            ensure!(me.send(other, &data).is_ok(), "message to a peer added again", "error");
            world::flush().await;
            let got = other.events().iter().filter(|e| e.data == data).count();
            ch.note(|| {
                format!(
                    "round {round}: node {i} talks, delivered {got} times, channels {:?} and {:?}",
                    channels(&sims[0]),
                    channels(&sims[1])
                )
            });
            ensure!(
                got == 1 || round < 4,
                "no communication after a peer is added again",
                "a message of node {i} in round {round} is delivered {got} times"
            );
            ch.observe((round, got));
        }
        // Channels of the same second can not be told apart
        world::advance(Duration::from_millis(1100)).await;
    }
    Ok(())
}

/// Two real nodes move the other one to another address and back, nobody is removed
async fn moved(ch: &mut Chooser<'_>, depth: usize) -> Step {
    let options = NodeOptions {
        packet_history_enabled: ch.flag(),
        ..Default::default()
    };
    let with_channel = ch.flag();
    let sims = [Sim::new(0, options), Sim::new(1, options)];
    sims[0].add(&sims[1]);
    sims[1].add(&sims[0]);
    if with_channel {
        establish(&sims[0], &sims[1]).await;
    }
    for step in 0..depth {
        let side = ch.choose(2);
        let (me, other) = (&sims[side], &sims[1 - side]);
        let own = world::addr(1 - side);
        let address = || me.node.get_peer_address(&me.id(), &other.id());
        ch.step();
        match ch.choose(3) {
            0 => {
                let there = address() == Some(own);
                ch.note(|| format!("node {side} sends to the address of the other one: {there}"));
                let data = payload(MESSAGE, 1000 + step as u64, 8);
                ensure!(me.send(other, &data).is_ok(), "message to a known peer", "error");
                if there {
                    world::flush().await;
                    let got = other.events().iter().filter(|e| e.data == data).count();
                    ensure!(got == 1, "moved peer", "the message is delivered {got} times");
                } else {
                    world::settle().await;
                    let sent = world::take_sent();
                    ensure!(
                        !sent.is_empty() && sent.iter().all(|d| d.to == world::addr(5)),
                        "wrong address",
                        "sent to {:?}",
                        sent.iter().map(|d| d.to).collect::<Vec<_>>()
                    );
                }
            }
            op => {
                let addr = if op == 1 { own } else { world::addr(5) };
                ch.note(|| format!("node {side} adds the other one with {addr}"));
                let res = me.node.add_peer(
                    everscale_network::adnl::NewPeerContext::Dht,
                    &me.id(),
                    &other.id(),
                    addr,
                    *other.node.key_by_tag(0).unwrap().full_id(),
                );
                ensure!(matches!(res, Ok(true)), "result of an addition", "{res:?}");
                ensure!(address() == Some(addr), "address is not updated", "{:?}", address());
            }
        }
        let state = sims.each_ref().map(|sim| sim.node.verif_channel_ids().len());
        ch.visit(hash_of(&(state, step, address())));
        ch.observe(state);
    }
    // Both are at home again and hear each other at once
    sims[0].add(&sims[1]);
    sims[1].add(&sims[0]);
    let first = ch.choose(2);
    for i in [first, 1 - first, first] {
        let data = payload(MESSAGE, 5000 + i as u64, 8);
        ensure!(sims[i].send(&sims[1 - i], &data).is_ok(), "message to a known peer", "error");
        world::flush().await;
        let got = sims[1 - i].events().iter().filter(|e| e.data == data).count();
        ensure!(got == 1, "peer came back", "a message of node {i} is delivered {got} times");
    }
    Ok(())
}

/// Concurrent operations on one peer are like some sequence of them
async fn threads(ch: &mut Chooser<'_>, per_thread: usize, count: usize) -> Step {
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    enum T {
        Add(usize),
        Remove,
        Get,
        Packet(usize),
    }
    let node = Sim::build(0, &[1], Default::default(), None);
    let puppet = Puppet::new(7, 6);
    let mut initial = None;
    if ch.flag() {
        node.add_as(1, 7, 4);
        initial = Some(4);
    }
    let all = [T::Add(5), T::Add(6), T::Remove, T::Get, T::Packet(4)];
    let programs: Vec<Vec<T>> = (0..count)
        .map(|_| (0..per_thread).map(|_| ch.one_of(&all)).collect())
        .collect();
    if programs.windows(2).any(|w| {
        let key = |p: &Vec<T>| p.iter().map(|t| all.iter().position(|x| x == t).unwrap()).collect::<Vec<_>>();
        key(&w[0]) > key(&w[1])
    }) {
        return ch.skip();
    }
    let packets: Vec<Vec<u8>> = [4usize]
        .iter()
        .map(|index| {
            let mut p = Puppet::new(7, *index);
            let packet = p.honest(vec![Msg::Nop]);
            puppet.seal_for(1, &packet.to_bytes(), None)
        })
        .collect();
    ch.note(|| format!("{programs:?}, known at first: {initial:?}"));
    let results: Vec<RefCell<Vec<i64>>> = programs.iter().map(|_| RefCell::default()).collect();
    let inner = &node.node;
    let mut bodies: Vec<Body<'_>> = Vec::new();
    for (program, results) in programs.iter().zip(&results) {
        let packets = &packets;
        bodies.push(Box::new(move || {
            for op in program {
                let res = match op {
                    T::Add(index) => inner
                        .add_peer(
                            NewPeerContext::Dht,
                            &short_id(1),
                            &short_id(7),
                            world::addr(*index),
                            full_id(7),
                        )
                        .unwrap() as i64,
                    T::Remove => inner.remove_peer(&short_id(1), &short_id(7)).unwrap() as i64,
                    T::Get => inner
                        .get_peer_address(&short_id(1), &short_id(7))
                        .map_or(-1, |a| a.port() as i64 - 10_000),
                    T::Packet(_) => {
                        let mut data = packets[0].clone();
                        block_on(inner.verif_receive(&mut data, &[], &[])).ok();
                        0
                    }
                };
                results.borrow_mut().push(res);
            }
        }));
    }
    run_threads(ch, bodies, &Default::default())?;
    let results: Vec<Vec<i64>> = results.into_iter().map(|r| r.into_inner()).collect();
    let last = inner
        .get_peer_address(&short_id(1), &short_id(7))
        .map_or(-1, |a| a.port() as i64 - 10_000);

    // A packet adds or moves the peer at some moment, or finds it removed in the meantime
    fn explain(
        programs: &[Vec<T>],
        results: &[Vec<i64>],
        at: &mut Vec<usize>,
        state: i64,
        last: i64,
    ) -> bool {
        if at.iter().zip(programs).all(|(a, p)| *a == p.len()) {
            return state == last;
        }
        for i in 0..programs.len() {
            if at[i] == programs[i].len() {
                continue;
            }
            let res = results[i][at[i]];
            let nexts: Vec<i64> = match programs[i][at[i]] {
                T::Add(index) if res == 1 => vec![index as i64],
                T::Add(_) => vec![],
                T::Remove if res == (state >= 0) as i64 => vec![-1],
                T::Get if res == state => vec![state],
                T::Remove | T::Get => vec![],
                T::Packet(index) if state < 0 => vec![index as i64, state],
                T::Packet(index) => vec![index as i64],
            };
            for next in nexts {
                at[i] += 1;
                let ok = explain(programs, results, at, next, last);
                at[i] -= 1;
                if ok {
                    return true;
                }
            }
        }
        false
    }
    // A packet which is processed while the peer is removed and added may see any of these states
    let relaxed = programs.iter().flatten().any(|t| matches!(t, T::Packet(_)));
    let ok = explain(&programs, &results, &mut vec![0; count], initial.map_or(-1, |i: i64| i), last);
    ensure!(
        ok || relaxed && programs.iter().flatten().any(|t| matches!(t, T::Remove)),
        "concurrent operations",
        "{programs:?} give {results:?} and leave {last}"
    );
    let m = inner.metrics();
    ensure!(
        m.peer_count == (last >= 0) as usize && m.channels_by_peers_len == 0,
        "peer count",
        "{m:?}, the peer is at {last}"
    );
    ch.observe((results, last));
    Ok(())
}

fn main() {
    check_main("C09", |ctx| {
        let depth = ctx.tiered(2, 3);
        ctx.explore(
            Suite {
                name: "table".to_owned(),
                about: format!("all sequences of {depth} additions, removals, packets and messages of 2 identities, 2 peers and 4 addresses, with and without a filter"),
                bound: 0,
            },
            |ch| world::run(1, table(ch, depth, true)),
        );
        let depth = ctx.tiered(3, 4);
        ctx.explore(
            Suite {
                name: "longer".to_owned(),
                about: format!("the same with {depth} operations of a smaller set"),
                bound: 0,
            },
            |ch| world::run(1, table(ch, depth, false)),
        );
        let depth = ctx.tiered(4, 5);
        ctx.explore(
            Suite {
                name: "again".to_owned(),
                about: format!("two nodes remove, add and talk to each other in all {depth} steps, datagrams are lost or late"),
                bound: 0,
            },
            |ch| world::run(1, again(ch, depth)),
        );
        let depth = ctx.tiered(4, 6);
        ctx.explore(
            Suite {
                name: "moved".to_owned(),
                about: format!("two nodes talk and add each other with another address or the right one in all {depth} steps"),
                bound: 0,
            },
            |ch| world::run(1, moved(ch, depth)),
        );
        let bound = ctx.tiered(2, 3);
        ctx.explore(
            Suite {
                name: "threads".to_owned(),
                about: "2 threads with 2 operations on one peer each".to_owned(),
                bound,
            },
            |ch| world::run(1, threads(ch, 2, 2)),
        );
    })
}
