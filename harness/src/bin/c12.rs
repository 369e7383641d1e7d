//! C12: address lists are accepted exactly while they are valid

use std::net::{Ipv4Addr, SocketAddrV4};
use std::time::Duration;

use everscale_network::adnl::{NewPeerContext, Node, NodeOptions};
use everscale_network::proto::adnl::{Address, AddressList};
use everscale_network::util::verif_api::parse_address_list;
use harness::nodes::*;
use harness::puppet::{Msg, Puppet};
use harness::util::hash_of;
use harness::world::{self, START};
use harness::{check_main, ensure, Chooser, Step, Suite};

/// Whether the list is valid at the moment, and its address
fn expected(list: &AddressList, now: u32, tolerance: u32) -> Option<std::net::SocketAddrV4> {
    let address = list.address?;
    let port = u16::try_from(address.port).ok()?;
    if list.reinit_date as u64 > now as u64 + tolerance as u64 {
        return None;
    }
    if list.expire_at != 0 && list.expire_at < now {
        return None;
    }
    Some(std::net::SocketAddrV4::new(address.ip.into(), port))
}

fn parse(ch: &mut Chooser<'_>) -> Step {
    world::reset(1);
    let tolerance = ch.one_of(&[0u32, 1, 60, 100_000]);
    let now = START;
    let address = match ch.choose(2) {
        0 => None,
        _ => Some(Address {
            ip: ch.one_of(&[0u32, 1, 0x0a00_0001, 0x7f00_0001, u32::MAX]),
            port: ch.one_of(&[0u32, 1, 10_000, 65_535, 65_536, 75_536, u32::MAX]),
        }),
    };
    let list = AddressList {
        address,
        version: ch.one_of(&[0, now, u32::MAX]),
        reinit_date: ch.one_of(&[
            0,
            1,
            now - 1,
            now,
            now + 1,
            (now + tolerance).saturating_sub(1),
            now + tolerance,
            now + tolerance + 1,
            u32::MAX,
        ]),
        expire_at: ch.one_of(&[0, 1, now - 1, now, now + 1, now + tolerance, now - tolerance, u32::MAX]),
    };
    // It has to survive the way over the network
    let bytes = tl_proto::serialize(list);
    let list: AddressList = tl_proto::deserialize(&bytes).unwrap();
    let res = parse_address_list(&list, tolerance).ok();
    let want = expected(&list, now, tolerance);
    ch.note(|| format!("{list:?} at {now} with tolerance {tolerance}"));
    ch.step();
    ch.observe(res.is_some());
    ch.visit(hash_of(&bytes));
    ensure!(
        res == want,
        match want {
            None => "invalid list accepted",
            Some(_) if res.is_none() => "valid list rejected",
            Some(_) => "wrong address",
        },
        "{list:?} at {now} with tolerance {tolerance} gives {res:?} instead of {want:?}"
    );
    Ok(())
}

/// Packets of a node reach a peer some time later
async fn announced(ch: &mut Chooser<'_>) -> Step {
    let timeout = ch.one_of(&[0u32, 1, 5, 1000, 100_000]);
    let tolerance = ch.one_of(&[0u32, 1, 60]);
    let known = ch.flag();
    let options = NodeOptions {
        address_list_timeout_sec: timeout,
        clock_tolerance_sec: tolerance,
        ..Default::default()
    };
    let a = Sim::new(0, options);
    let b = Sim::new(1, options);
    a.add(&b);
    if known {
        // Under another address
        b.add_as(b.key(), a.key(), 4);
    }
    world::advance(Duration::from_secs(ch.one_of(&[0u64, 1, 200]))).await;
    let sent_at = world::now();
    let data = payload(MESSAGE, 1, 16);
    a.send(&b, &data).unwrap();
    world::settle().await;
    let sent = world::take_sent();
    assert_eq!(sent.len(), 1);
    let delay = ch.one_of(&[
        0i64,
        1,
        timeout as i64 - 1,
        timeout as i64,
        timeout as i64 + 1,
        timeout as i64 + 100,
        -1,
        -(tolerance as i64),
        -(tolerance as i64) - 1,
        -200 - tolerance as i64,
        -201 - tolerance as i64,
    ]);
    world::shift_clock(delay);
    ch.note(|| format!("arrives after {delay} s, valid for {timeout} s, tolerance {tolerance}, known {known}"));
    ch.step();
    world::deliver(&sent[0]).await;
    let now = world::now();
    let started = a.node.start_time() as u64;
    let in_future = started > now as u64 + tolerance as u64;
    let expired = (sent_at + timeout) < now;
    // A newcomer sees its own start in the future when the clock goes back, which is checked by C06
    let valid = !in_future && !expired;
    let address = b.node.get_peer_address(&b.id(), &a.id());
    let want = match (valid, known) {
        (true, _) => Some(world::addr(0)),
        (false, true) => Some(world::addr(4)),
        (false, false) => None,
    };
    ch.observe((valid, known));
    ch.visit(hash_of(&(valid, known, delay, timeout, tolerance)));
    ensure!(
        address == want,
        match valid {
            true => "valid announcement rejected",
            false => "invalid announcement accepted",
        },
        "the peer is at {address:?} instead of {want:?}"
    );
    let events = b.events();
    ensure!(
        events.len() == valid as usize,
        "message",
        "{} messages are delivered, the list is valid: {valid}",
        events.len()
    );
    Ok(())
}

/// What a node builds for others
async fn own_list(ch: &mut Chooser<'_>) -> Step {
    let index = ch.choose(4);
    let tolerance = ch.one_of(&[0u32, 1, 60]);
    let a = Sim::new(
        index,
        NodeOptions {
            clock_tolerance_sec: tolerance,
            ..Default::default()
        },
    );
    let before = ch.one_of(&[0u64, 1, 1000, 1_000_000]);
    world::advance(Duration::from_secs(before)).await;
    let list = a.node.build_address_list();
    let bytes = tl_proto::serialize(list);
    let list: AddressList = tl_proto::deserialize(&bytes).unwrap();
    let after = ch.one_of(&[0i64, 1, 1000, 100_000_000]);
    world::shift_clock(after);
    ch.step();
    ch.visit(hash_of(&(index, before, after)));
    let parsed = parse_address_list(&list, tolerance).ok();
    ensure!(
        parsed == Some(a.node.socket_addr()) && a.node.socket_addr() == world::addr(index),
        "own address list",
        "{list:?} of {} gives {parsed:?}",
        world::addr(index)
    );

    // And in packets
    let puppet = Puppet::new(9, 6);
    assert!(a.add_as(a.key(), 9, 6));
    a.node
        .send_custom_message(&a.id(), &puppet.id(), &payload(MESSAGE, 1, 8))
        .unwrap();
    world::settle().await;
    for d in world::take_sent() {
        let opened = puppet.open(&d).unwrap();
        ensure!(
            matches!(opened.messages.last(), Some(Msg::Custom(_))),
            "message",
            "{:?}",
            opened.messages
        );
        let parsed = opened.address.and_then(|l| parse_address_list(&l, tolerance).ok());
        ensure!(
            parsed == Some(world::addr(index)),
            "announced address",
            "{parsed:?} is announced by {}",
            world::addr(index)
        );
    }
    Ok(())
}

/// Hostile lists in packets
async fn packets(ch: &mut Chooser<'_>) -> Step {
    let b = Sim::new(1, Default::default());
    let mut puppet = Puppet::new(7, 6);
    let known = ch.flag();
    if known {
        puppet.introduce(&b);
    }
    let now = world::now();
    let ip = u32::from_be_bytes(world::addr(5).ip().octets());
    let address = ch.one_of(&[
        None,
        Some((ip, 10_005u32)),
        Some((ip, 0)),
        Some((ip, 10_005 + 65_536)),
        Some((0, 10_005)),
        Some((u32::MAX, u32::MAX)),
    ]);
    let list = (
        address,
        now,
        ch.one_of(&[0, now, now + 60, now + 61, u32::MAX]),
        ch.one_of(&[0, 1, now - 1, now, now + 1, u32::MAX]),
    );
    let mut packet = puppet.honest(vec![Msg::Custom(payload(MESSAGE, 1, 8))]);
    packet.address = Some(list);
    ch.note(|| format!("{list:?}, known: {known}"));
    ch.step();
    let before = b.node.get_peer_address(&b.id(), &puppet.id());
    puppet.deliver(&b, &packet).await;
    let want = expected(
        &AddressList {
            address: address.map(|(ip, port)| Address { ip, port }),
            version: list.1,
            reinit_date: list.2,
            expire_at: list.3,
        },
        now,
        60,
    );
    let after = b.node.get_peer_address(&b.id(), &puppet.id());
    let events = b.events().len();
    ch.observe((want.is_some(), events));
    ch.visit(hash_of(&(list, known)));
    ensure!(
        after == want.or(before),
        "address of the peer",
        "{list:?} moves the peer from {before:?} to {after:?}"
    );
    ensure!(
        events == want.is_some() as usize,
        "packet with an address list",
        "{list:?}: {events} messages are delivered"
    );
    Ok(())
}

/// Nodes on the same host or on different ones
async fn one_host(ch: &mut Chooser<'_>, depth: usize) -> Step {
    const COUNT: usize = 3;
    let placement = ch.one_of(&[[0, 0, 0], [0, 0, 1], [0, 1, 0], [0, 1, 1], [0, 1, 2]]);
    let loopback: [bool; COUNT] = [ch.flag(), ch.flag(), ch.flag()];
    let public = |i: usize| SocketAddrV4::new(Ipv4Addr::new(10, 0, 0, placement[i] + 1), world::port(i));
    let local = |i: usize| SocketAddrV4::new(Ipv4Addr::LOCALHOST, world::port(i));
    ch.note(|| format!("hosts {placement:?}, loopback {loopback:?}"));
    let nodes: Vec<Sim> = (0..COUNT)
        .map(|i| {
            let options = NodeOptions {
                use_loopback_for_neighbours: loopback[i],
                ..Default::default()
            };
            let keys = [i as u8 + 1];
            let sim = Sim {
                index: i,
                keys: keys.to_vec(),
                node: Node::new(public(i), keystore(&keys), options, None).unwrap(),
                app: Default::default(),
            };
            sim.start();
            sim
        })
        .collect();
    // What each knows about the others
    let mut known = [[None; COUNT]; COUNT];
    for x in 0..COUNT {
        for y in 0..COUNT {
            if x != y {
                let (id, full) = (nodes[y].id(), full_id(nodes[y].key()));
                nodes[x].node.add_peer(NewPeerContext::Dht, &nodes[x].id(), &id, public(y), full).unwrap();
                known[x][y] = Some(public(y));
            }
        }
    }
    for step in 0..depth {
        let x = ch.choose(COUNT);
        let y = (x + 1 + ch.choose(COUNT - 1)) % COUNT;
        let query = ch.flag();
        ch.step();
        ch.note(|| format!("{} from {x} to {y}", if query { "query" } else { "message" }));
        let data = payload(MESSAGE, step as u64, 20);
        let task = match query {
            true => Some(nodes[x].query(&nodes[y], &payload(QUERY, step as u64, 20), Some(1000))),
            false => {
                nodes[x].send(&nodes[y], &data).unwrap();
                None
            }
        };
        let mut datagrams = 0;
        loop {
            world::settle().await;
            let sent = world::take_sent();
            if sent.is_empty() {
                break;
            }
            for datagram in sent {
                datagrams += 1;
                let (from, to) = match datagram.from == world::port(x) {
                    true => (x, y),
                    false => (y, x),
                };
                let near = placement[from] == placement[to];
                let want = match loopback[from] && near {
                    true => local(to),
                    false => known[from][to].unwrap(),
                };
                ensure!(
                    datagram.from == world::port(from) && datagram.to == want,
                    "wrong address",
                    "{from} sends to {} instead of {want}, the address of {to}",
                    datagram.to
                );
                world::deliver(&datagram).await;
                let address = nodes[to].node.get_peer_address(&nodes[to].id(), &nodes[from].id());
                ensure!(
                    address == Some(public(from)) || address == Some(local(from)) && near && loopback[from],
                    "wrong announcement",
                    "{to} knows {from} at {address:?}"
                );
                known[to][from] = address;
            }
        }
        ensure!(datagrams >= 1 + query as usize, "nothing sent", "{datagrams} datagrams");
        match task {
            Some(task) => {
                let answer = task.await.unwrap();
                ensure!(matches!(answer, Ok(Some(_))), "no answer", "{answer:?}");
                nodes[y].events();
            }
            None => {
                let events = nodes[y].events().len();
                ensure!(events == 1, "not delivered", "{events} messages");
            }
        }
        ch.visit(hash_of(&(placement, loopback, known)));
    }
    ch.observe(known);
    Ok(())
}

fn main() {
    check_main("C12", |ctx| {
        ctx.assume("clocks of the nodes are the same unless stated otherwise");
        ctx.explore(
            Suite {
                name: "parse".to_owned(),
                about: "all combinations of addresses, dates around all boundaries and clock tolerances".to_owned(),
                bound: 0,
            },
            parse,
        );
        ctx.explore(
            Suite {
                name: "announced".to_owned(),
                about: "packet of a real node arrives in time, at the end of its validity, too late, or at a peer whose clock is behind".to_owned(),
                bound: 0,
            },
            |ch| world::run(1, announced(ch)),
        );
        ctx.explore(
            Suite {
                name: "own list".to_owned(),
                about: "address lists built by a node at any time after its start".to_owned(),
                bound: 0,
            },
            |ch| world::run(1, own_list(ch)),
        );
        ctx.explore(
            Suite {
                name: "packets".to_owned(),
                about: "signed packets with all combinations of lists to a node which does or does not know the peer".to_owned(),
                bound: 0,
            },
            |ch| world::run(1, packets(ch)),
        );
        let depth = ctx.tiered(3, 4);
        ctx.explore(
            Suite {
                name: "one host".to_owned(),
                about: format!(
                    "{depth} messages or queries between three nodes on the same or other hosts, each of which uses \
                     the loopback interface for its neighbours or not"
                ),
                bound: 0,
            },
            |ch| world::run(1, one_host(ch, depth)),
        );
    })
}
