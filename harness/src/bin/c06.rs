//! C06: a restarted peer replaces its old self and never the reverse

use std::time::Duration;

use everscale_network::adnl::NodeOptions;
use harness::nodes::*;
use harness::puppet::{Msg, Packet, Puppet, Signature, Via};
use harness::sched::{block_on, run_threads, Body};
use harness::util::hash_of;
use harness::world;
use harness::{check_main, ensure, Chooser, Step, Suite};

const A: u8 = 1;
const B: u8 = 2;
const TOLERANCE: u32 = 60;

fn list(index: usize, reinit: u32) -> (Option<(u32, u32)>, u32, u32, u32) {
    let addr = world::addr(index);
    let now = world::now();
    (
        Some((u32::from_be_bytes(addr.ip().octets()), addr.port() as u32)),
        now,
        reinit,
        now + 100_000,
    )
}

fn handshake(seqno: u64, local: u32, target: u32, index: Option<usize>, message: Vec<u8>) -> Packet {
    Packet {
        from: Some(A),
        from_short: None,
        messages: vec![Msg::Custom(message)],
        address: index.map(|index| list(index, local)),
        seqno: Some(seqno),
        confirm_seqno: Some(0),
        reinit: Some((local, target)),
        signature: Signature::By(A),
        ..Packet::empty()
    }
}

/// All sequences of packets of several incarnations
async fn incarnations(ch: &mut Chooser<'_>, depth: usize, boundary: bool) -> Step {
    let history = ch.flag();
    let options = NodeOptions {
        packet_history_enabled: history,
        clock_tolerance_sec: TOLERANCE,
        ..Default::default()
    };
    let b = Sim::build(1, &[B], options, None);
    let start = world::now();
    world::advance(Duration::from_secs(200)).await;
    let puppet = Puppet::new(A, 6);
    // When the peer became known
    let mut own: Option<u32> = None;
    let mut address = None;
    if ch.flag() {
        b.add_as(B, A, 6);
        own = Some(world::now());
        address = Some(world::addr(6));
    }
    let mut accepted = 0u32;
    let mut seqno = 1000;
    let (id, peer) = (b.id(), puppet.id());
    for i in 0..depth {
        let now = world::now();
        let dates: &[u32] = if boundary {
            &[now - 1, now, now + 1, now + TOLERANCE - 1, now + TOLERANCE, now + TOLERANCE + 1, u32::MAX]
        } else {
            &[100, start, now - 10, now + 5, now + TOLERANCE, now + TOLERANCE + 1]
        };
        let local = ch.one_of(dates);
        let current = own.unwrap_or(now);
        let target = ch.one_of(&[0, current, current - 1, current + 1, start - 5]);
        let index = if own.is_none() { Some(7) } else { ch.one_of(&[Some(6), Some(7), None]) };
        seqno -= 1;
        let message = payload(MESSAGE, i as u64, 8);
        // Sequence numbers restart with the incarnation, otherwise they only have to be different
        let packet = handshake(seqno, local, target, index, message.clone());
        ch.note(|| format!("incarnation {local} for {target} (current {current}, now {now}, accepted {accepted}), address {index:?}"));
        ch.step();
        let before = b.node.verif_peer_state(&id, &peer);
        puppet.deliver(&b, &packet).await;
        let events = b.events();
        let sent = world::take_sent();
        let after = b.node.verif_peer_state(&id, &peer);

        let too_new = local > now.saturating_add(TOLERANCE) || target > current;
        let too_old = local < accepted;
        if too_new || too_old {
            let kind = match (too_old, local > now.saturating_add(TOLERANCE)) {
                (true, _) => "old incarnation",
                (_, true) => "incarnation of the future",
                _ => "packet for a future incarnation",
            };
            ensure!(events.is_empty(), format!("{kind} processed"), "{kind} is processed");
            ensure!(sent.is_empty(), format!("{kind} answered"), "{kind} is answered");
            ensure!(
                before == after && b.node.get_peer_address(&id, &peer) == address,
                format!("{kind} has an effect"),
                "{kind} changes {before:?} at {address:?} to {after:?} at {:?}",
                b.node.get_peer_address(&id, &peer)
            );
            continue;
        }
        accepted = local;
        own = Some(current);
        if let Some(index) = index {
            address = Some(world::addr(index));
        }
        ensure!(
            b.node.get_peer_address(&id, &peer) == address,
            "address",
            "the peer is at {:?} instead of {address:?}",
            b.node.get_peer_address(&id, &peer)
        );
        let state = after.map(|s| (s[0].0, s[1].0));
        ensure!(
            state == Some((current, accepted)),
            "dates",
            "dates are {state:?} instead of {current} and {accepted}"
        );
        if target != 0 && target < current {
            ensure!(events.is_empty(), "packet for an old incarnation processed", "{} messages", events.len());
            ensure!(sent.len() == 1, "answer to a packet for an old incarnation", "{} answers", sent.len());
            let opened = puppet.open(&sent[0]);
            let ok = opened.as_ref().is_some_and(|o| {
                o.via == Via::Handshake
                    && o.reinit == Some((current, accepted))
                    && Some(sent[0].to) == address
            });
            ensure!(
                ok,
                "answer to a packet for an old incarnation",
                "the answer is {opened:?} to {:?} instead of {address:?}",
                sent[0].to
            );
        } else {
            ensure!(sent.is_empty(), "answer", "{} datagrams", sent.len());
            ensure!(
                events.len() == 1 && events[0].data == message,
                "current incarnation rejected",
                "{} messages are delivered",
                events.len()
            );
        }
        ch.visit(hash_of(&(own.is_some(), accepted, local, target, address)));
        ch.observe((events.len(), sent.len(), accepted));
    }
    Ok(())
}

/// A new incarnation starts from scratch, old packets stay out
async fn fresh(ch: &mut Chooser<'_>) -> Step {
    let options = NodeOptions {
        packet_history_enabled: true,
        ..Default::default()
    };
    let b = Sim::build(1, &[B], options, None);
    world::advance(Duration::from_secs(10)).await;
    let mut old = Puppet::new(A, 6);
    let in_channel = ch.flag();
    if in_channel {
        old.connect(&b).await;
    } else {
        old.introduce(&b);
    }
    b.events();
    world::take_sent();
    let (id, peer) = (b.id(), old.id());
    let far = ch.one_of(&[5u64, 255, 300, 100_000, 1 << 40]);
    let priority = in_channel && ch.flag();
    let mut kept = Vec::new();
    for i in 0..3 {
        old.seqno += far;
        let data = payload(MESSAGE, i, 8);
        let packet = if in_channel {
            old.channel_packet(vec![Msg::Custom(data.clone())])
        } else {
            old.honest(vec![Msg::Custom(data.clone())])
        };
        kept.push((packet.clone(), in_channel));
        // The last one is still on the way
        if i < 2 {
            if in_channel {
                old.deliver_in_channel(&b, &packet, priority).await;
            } else {
                old.deliver(&b, &packet).await;
            }
            let events = b.events();
            ensure!(
                events.len() == 1 && events[0].data == data,
                "first incarnation",
                "message {i} is delivered {} times",
                events.len()
            );
        }
    }
    for _ in 0..20 {
        b.node.send_custom_message(&id, &peer, &payload(MESSAGE, 99, 8)).unwrap();
    }
    world::settle().await;
    world::take_sent();

    let pause = ch.one_of(&[1u64, 100]);
    world::advance(Duration::from_secs(pause)).await;
    // What the new incarnation sends first and what arrives late from the old one
    let new = Puppet::new(A, 6);
    let first = handshake(1, new.reinit, 0, Some(6), payload(MESSAGE, 10, 8));
    new.deliver(&b, &first).await;
    let events = b.events();
    ensure!(
        events.len() == 1,
        "new incarnation rejected",
        "the first message of the new incarnation is delivered {} times",
        events.len()
    );
    for (packet, in_channel) in &kept {
        if *in_channel {
            old.deliver_in_channel(&b, packet, priority).await;
        } else {
            old.deliver(&b, packet).await;
        }
        ch.step();
        let events = b.events();
        ensure!(
            events.is_empty() && world::take_sent().is_empty(),
            "old incarnation processed",
            "a late packet of the old incarnation is processed"
        );
    }
    let sent = b.node.send_custom_message(&id, &peer, &payload(MESSAGE, 11, 8));
    ensure!(sent.is_ok(), "send", "{sent:?}");
    world::settle().await;
    let sent = world::take_sent();
    let opened = new.open(&sent[0]);
    ensure!(
        sent.len() == 1 && opened.is_some(),
        "old channel used",
        "the new incarnation can't understand the packet"
    );
    let opened = opened.unwrap();
    ensure!(
        opened.via == Via::Handshake && opened.seqno == Some(1) && opened.confirm_seqno == Some(1),
        "sequence numbers not fresh",
        "the first packet for the new incarnation has seqno {:?} and confirms {:?}",
        opened.seqno,
        opened.confirm_seqno
    );
    ensure!(
        opened.reinit.map(|r| r.1) == Some(new.reinit),
        "target date",
        "the packet is for {:?}",
        opened.reinit
    );
    for seqno in [2u64, 4, 3, 300, 50] {
        let packet = handshake(seqno, new.reinit, 0, Some(6), payload(MESSAGE, 20 + seqno, 8));
        for copy in 0..2 {
            new.deliver(&b, &packet).await;
            let events = b.events();
            ensure!(
                events.len() == 1 - copy,
                "sequence numbers not fresh",
                "copy {copy} of the packet {seqno} of the new incarnation is delivered {} times",
                events.len()
            );
        }
    }
    // And its channel works
    let mut second = Puppet::new(A, 6);
    second.seqno = 1000;
    second.connect(&b).await;
    b.events();
    b.node.send_custom_message(&id, &peer, &payload(MESSAGE, 12, 8)).unwrap();
    world::settle().await;
    let sent = world::take_sent();
    let opened = sent.last().and_then(|d| second.open(d));
    let via = opened.as_ref().map(|o| o.via);
    ensure!(matches!(via, Some(Via::Ordinary | Via::Priority)), "channel of the new incarnation", "used {via:?}");
    let opened = opened.unwrap();
    let limit = if opened.via == Via::Priority { 1 } else { 5 };
    ensure!(
        matches!(opened.seqno, Some(seqno) if seqno <= limit),
        "sequence numbers not fresh",
        "the first packet in the channel has seqno {:?}",
        opened.seqno
    );
    ensure!(
        opened.via == Via::Ordinary || opened.confirm_seqno == Some(0),
        "sequence numbers not fresh",
        "the first priority packet confirms {:?}",
        opened.confirm_seqno
    );
    // On both flows. The ordinary one has the numbers of the handshakes
    for (priority, from) in [(true, 0u64), (false, second.seqno), (true, 10)] {
        for seqno in [1u64, 2, 4, 3, 300, 50].map(|n| n + from) {
            second.seqno = seqno - 1;
            let packet = second.channel_packet(vec![Msg::Custom(payload(MESSAGE, 1000 + seqno, 8))]);
            for copy in 0..2 {
                second.deliver_in_channel(&b, &packet, priority).await;
                let events = b.events();
                ensure!(
                    events.len() == 1 - copy,
                    "sequence numbers not fresh",
                    "copy {copy} of the packet {seqno} (priority: {priority}) of the new incarnation is delivered {} times",
                    events.len()
                );
            }
        }
    }
    // Now that the peer uses the priority flow, the node does as well
    world::take_sent();
    b.node.send_custom_message(&id, &peer, &payload(MESSAGE, 13, 8)).unwrap();
    world::settle().await;
    let sent = world::take_sent();
    let opened = sent.last().and_then(|d| second.open(d));
    ensure!(
        matches!(&opened, Some(o) if o.via == Via::Priority && matches!(o.seqno, Some(1 | 2)) && o.confirm_seqno == Some(310)),
        "sequence numbers not fresh",
        "the next priority packet is {:?}",
        opened.map(|o| (o.via, o.seqno, o.confirm_seqno))
    );
    ch.observe((far, in_channel));
    ch.visit(hash_of(&(far, in_channel, priority, pause)));
    Ok(())
}

/// Restarts of real nodes: both follow each other
async fn restarts(ch: &mut Chooser<'_>, depth: usize) -> Step {
    let options = NodeOptions {
        packet_history_enabled: ch.flag(),
        ..Default::default()
    };
    let mut nodes = vec![Sim::new(0, options), Sim::new(1, options)];
    nodes[0].add(&nodes[1]);
    nodes[1].add(&nodes[0]);
    let mut old: Vec<world::Datagram> = Vec::new();
    let mut counter = 0;
    // A message sent after this round must arrive
    for _ in 0..depth {
        let action = ch.choose(5);
        ch.step();
        ch.note(|| format!("action {action}"));
        match action {
            0 | 1 => {
                counter += 1;
                nodes[action].send(&nodes[1 - action], &payload(MESSAGE, counter, 8)).unwrap();
                world::settle().await;
                let sent = world::take_sent();
                for d in &sent {
                    world::deliver(d).await;
                }
                old.extend(sent);
                world::flush().await;
            }
            2 | 3 => {
                let i = action - 2;
                world::advance(Duration::from_secs(1)).await;
                nodes[i].node.shutdown();
                world::settle().await;
                nodes[i] = Sim::new(i, options);
                let other = &nodes[1 - i];
                nodes[i].add(other);
            }
            _ => {
                // Late copies of everything from previous incarnations
                for d in old.drain(..) {
                    world::deliver(&d).await;
                }
                world::take_sent();
            }
        }
    }
    for round in 0..4 {
        world::advance(Duration::from_secs(1)).await;
        for node in &nodes {
            node.events();
        }
        for i in 0..2 {
            counter += 1;
            let data = payload(MESSAGE, counter, 8);
            nodes[i].send(&nodes[1 - i], &data).unwrap();
            world::flush().await;
            let got = nodes[1 - i].events();
            if round > 2 {
                ensure!(
                    got.len() == 1 && got[0].data == data,
                    "restarted node not understood",
                    "a message of node {i} is delivered {} times",
                    got.len()
                );
            }
        }
    }
    for i in 0..2 {
        let state = nodes[i].node.verif_peer_state(&nodes[i].id(), &nodes[1 - i].id()).unwrap();
        let other = nodes[1 - i].node.verif_peer_state(&nodes[1 - i].id(), &nodes[i].id()).unwrap();
        ensure!(
            state[1].0 == other[0].0,
            "incarnation not followed",
            "node {i} knows the incarnation {} instead of {}",
            state[1].0,
            other[0].0
        );
        ch.visit(hash_of(&state));
    }
    Ok(())
}

/// Packets of several incarnations processed by several threads
async fn threads(ch: &mut Chooser<'_>, count: usize, observer: bool) -> Step {
    let options = NodeOptions {
        packet_history_enabled: ch.flag(),
        ..Default::default()
    };
    let b = Sim::build(1, &[B], options, None);
    world::advance(Duration::from_secs(10)).await;
    let puppet = Puppet::new(A, 6);
    puppet.introduce(&b);
    let (id, peer) = (b.id(), puppet.id());
    let now = world::now();
    puppet.deliver(&b, &handshake(5, now - 5, 0, None, payload(MESSAGE, 0, 8))).await;
    b.events();
    let newest = now - 2;
    let dates: Vec<u32> = (0..count)
        .map(|i| if i == 0 { newest } else { now - ch.one_of(&[2u32, 3, 5]) })
        .collect();
    let app: std::sync::Arc<dyn everscale_network::MessageSubscriber> = b.app.clone();
    let subscribers = [app];
    let node = b.node.clone();
    let seen = std::cell::RefCell::new(Vec::new());
    let mut bodies: Vec<Body<'_>> = Vec::new();
    for (i, date) in dates.iter().enumerate() {
        let packet = handshake(6 + i as u64, *date, 0, None, payload(MESSAGE, 100 + i as u64, 8));
        let mut data = puppet.seal_for(B, &packet.to_bytes(), None);
        let (node, subscribers) = (&node, &subscribers);
        bodies.push(Box::new(move || {
            block_on(node.verif_receive(&mut data, subscribers, &[])).ok();
        }));
    }
    if observer {
        let (node, seen) = (&node, &seen);
        bodies.push(Box::new(move || {
            for _ in 0..2 {
                let state = node.verif_peer_state(&id, &peer).unwrap();
                seen.borrow_mut().push(state[1].0);
            }
        }));
    }
    ch.note(|| format!("incarnations {dates:?}"));
    run_threads(ch, bodies, &Default::default())?;
    let seen = seen.into_inner();
    ensure!(
        !observer || seen[0] <= seen[1],
        "date moves backwards",
        "the date was {seen:?}"
    );
    let last = node.verif_peer_state(&id, &peer).unwrap()[1].0;
    ensure!(
        last == newest,
        "date moves backwards",
        "the date is {last} after packets of {dates:?}"
    );
    let got: Vec<_> = b.events().into_iter().map(|e| e.data).collect();
    ensure!(
        got.contains(&payload(MESSAGE, 100, 8)),
        "newest incarnation rejected",
        "the packet of the newest incarnation is not processed"
    );
    // What was accepted is not accepted again
    if options.packet_history_enabled {
        for (i, date) in dates.iter().enumerate() {
            if *date == newest {
                let packet = handshake(6 + i as u64, *date, 0, None, payload(MESSAGE, 100 + i as u64, 8));
                puppet.deliver(&b, &packet).await;
                let again = b.events().len();
                let before = got.contains(&payload(MESSAGE, 100 + i as u64, 8));
                ensure!(
                    before && again == 0,
                    "packet of the newest incarnation",
                    "the packet {i} is delivered {} times at first and {again} times after that",
                    before as usize
                );
            }
        }
    }
    ch.visit(hash_of(&(&dates, &seen, got.len())));
    ch.observe((seen, got.len()));
    Ok(())
}

fn main() {
    check_main("C06", |ctx| {
        ctx.assume("interleavings are sequentially consistent");
        let depth = ctx.tiered(2, 3);
        for boundary in [false, true] {
            ctx.explore(
                Suite {
                    name: format!("incarnations boundary={boundary}"),
                    about: format!(
                        "all sequences of {depth} packets with {} dates, 5 targets and 3 addresses, for a known and an \
                         unknown peer",
                        if boundary { 7 } else { 6 }
                    ),
                    bound: 0,
                },
                |ch| world::run(1, incarnations(ch, depth, boundary)),
            );
        }
        ctx.explore(
            Suite {
                name: "fresh".to_owned(),
                about: "a new incarnation after traffic with small and large sequence numbers, late packets of the old one"
                    .to_owned(),
                bound: 0,
            },
            |ch| world::run(1, fresh(ch)),
        );
        let depth = ctx.tiered(5, 7);
        ctx.explore(
            Suite {
                name: "restarts".to_owned(),
                about: format!("all sequences of {depth} messages, restarts and late packets of two real nodes"),
                bound: 0,
            },
            |ch| world::run(1, restarts(ch, depth)),
        );
        let count = 2;
        let observer = ctx.is_thorough();
        ctx.explore(
            Suite {
                name: "threads".to_owned(),
                about: format!("{count} threads with packets of different incarnations and an observer"),
                bound: ctx.tiered(2, 3),
            },
            |ch| world::run(1, threads(ch, count, observer)),
        );
    })
}
