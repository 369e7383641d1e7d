//! C05: channels between two nodes always converge

use std::collections::{BTreeSet, HashSet, VecDeque};
use std::time::Duration;

use everscale_network::adnl::NodeOptions;
use harness::nodes::*;
use harness::puppet::*;
use harness::sched::{block_on, run_threads, Body};
use harness::util::hash_of;
use harness::world::{self, Datagram};
use harness::{check_main, ensure, Chooser, Step, Suite};

/// Pair of identities which talk to each other: (node, key) on both sides
struct World {
    options: NodeOptions,
    nodes: Vec<Sim>,
    /// Who knows whom: local key, node of the peer, key of the peer
    links: Vec<(usize, u8, usize, u8)>,
    flight: Vec<VecDeque<Datagram>>,
    /// All incoming ids of channels each node ever had
    had: Vec<HashSet<[u8; 32]>>,
    counter: u64,
}

impl World {
    fn new(options: NodeOptions, keys: &[&[u8]], links: &[(usize, u8, usize, u8)]) -> Self {
        let nodes: Vec<_> = keys
            .iter()
            .enumerate()
            .map(|(i, keys)| Sim::build(i, keys, options, None))
            .collect();
        let mut all = Vec::new();
        for (a, ka, b, kb) in links {
            all.push((*a, *ka, *b, *kb));
            all.push((*b, *kb, *a, *ka));
        }
        for (a, ka, b, kb) in &all {
            nodes[*a].add_as(*ka, *kb, *b);
        }
        Self {
            options,
            flight: vec![VecDeque::new(); nodes.len()],
            had: vec![HashSet::new(); nodes.len()],
            nodes,
            links: all,
            counter: 0,
        }
    }

    /// Checks the invariants and collects what was sent
    async fn collect(&mut self) -> Step {
        world::settle().await;
        for (i, node) in self.nodes.iter().enumerate() {
            let channels = node.node.verif_channels();
            let ids: BTreeSet<_> = node.node.verif_channel_ids().into_iter().collect();
            let expected: BTreeSet<_> = channels.iter().flat_map(|c| [c.2, c.3]).collect();
            ensure!(
                ids == expected,
                "channel ids",
                "node {i} has {} incoming channel ids for {} channels",
                ids.len(),
                channels.len()
            );
            let pairs: HashSet<_> = channels.iter().map(|c| (c.0, c.1)).collect();
            ensure!(
                pairs.len() == channels.len(),
                "channels per pair",
                "several channels of one pair"
            );
            self.had[i].extend(ids);
        }
        for datagram in world::take_sent() {
            let to = (datagram.to.port() - world::port(0)) as usize;
            let id: [u8; 32] = datagram.data[..32].try_into().unwrap();
            let handshake = self.nodes[to]
                .keys
                .iter()
                .any(|k| short_id(*k).as_slice() == &id);
            ensure!(
                handshake || self.had[to].contains(&id),
                "channel unknown to the receiver",
                "a packet to node {to} uses a channel which that node never had"
            );
            self.flight[to].push_back(datagram);
        }
        Ok(())
    }

    async fn send(&mut self, link: usize) -> Result<Vec<u8>, harness::explore::Stop> {
        let (node, local, _, peer) = self.links[link];
        self.counter += 1;
        let data = payload(MESSAGE, self.counter, 16);
        self.nodes[node]
            .node
            .send_custom_message(&short_id(local), &short_id(peer), &data)
            .unwrap();
        self.collect().await?;
        Ok(data)
    }

    async fn deliver(&mut self, to: usize, at: usize, keep: bool) -> Step {
        let datagram = if keep {
            self.flight[to][at].clone()
        } else {
            self.flight[to].remove(at).unwrap()
        };
        world::deliver(&datagram).await;
        self.collect().await
    }

    async fn deliver_all(&mut self) -> Step {
        let mut total = 0;
        while let Some(to) = (0..self.nodes.len()).find(|i| !self.flight[*i].is_empty()) {
            self.deliver(to, 0, false).await?;
            total += 1;
            ensure!(total < 1000, "endless exchange", "datagrams never stop");
        }
        Ok(())
    }

    async fn restart(&mut self, i: usize) {
        world::advance(Duration::from_secs(2)).await;
        self.nodes[i].node.shutdown();
        world::settle().await;
        let keys = self.nodes[i].keys.clone();
        self.nodes[i] = Sim::build(i, &keys, self.options, None);
        for (a, ka, b, kb) in &self.links {
            if *a == i {
                self.nodes[i].add_as(*ka, *kb, *b);
            }
        }
    }

    async fn apply(&mut self, fault: Fault) -> Step {
        match fault {
            Fault::Later => world::advance(Duration::from_secs(1)).await,
            Fault::MuchLater => world::advance(Duration::from_secs(100)).await,
            Fault::Reset(link) => {
                let (node, local, _, peer) = self.links[link];
                world::advance(Duration::from_secs(1)).await;
                self.nodes[node]
                    .node
                    .verif_reset_peer(&short_id(local), &short_id(peer))
                    .unwrap();
                self.collect().await?;
            }
            Fault::Restart(node) => {
                self.restart(node).await;
                self.collect().await?;
            }
            Fault::Readd(link) => {
                let (node, local, to, peer) = self.links[link];
                self.nodes[node]
                    .node
                    .remove_peer(&short_id(local), &short_id(peer))
                    .unwrap();
                self.collect().await?;
                world::advance(Duration::from_secs(1)).await;
                self.nodes[node].add_as(local, peer, to);
            }
            fault => unreachable!("{fault:?}"),
        }
        Ok(())
    }

    /// The network works again: everybody keeps talking
    async fn heal(&mut self, ch: &mut Chooser<'_>) -> Step {
        let how = ch.choose(3);
        self.heal_with(ch, how).await
    }

    async fn heal_with(&mut self, ch: &mut Chooser<'_>, how: usize) -> Step {
        const ROUNDS: usize = 4;
        let reverse = how == 1;
        if how == 2 {
            ch.note(|| "everything in flight is lost".to_owned());
            self.flight.iter_mut().for_each(|f| f.clear());
        } else {
            self.deliver_all().await?;
        }
        for round in 0..ROUNDS + 1 {
            world::advance(Duration::from_secs(1)).await;
            for node in &self.nodes {
                node.events();
            }
            let mut expected = Vec::new();
            let mut links: Vec<usize> = (0..self.links.len()).collect();
            if reverse {
                links.reverse();
            }
            for link in links {
                let data = self.send(link).await?;
                expected.push((link, data));
                if round >= ROUNDS {
                    let (_, _, to, peer) = self.links[link];
                    let handshakes = self.flight[to]
                        .iter()
                        .any(|d| d.data[..32] == short_id(peer).as_slice()[..]);
                    ensure!(
                        !handshakes,
                        "no channel",
                        "link {:?} still uses handshakes after {round} rounds",
                        self.links[link]
                    );
                }
                self.deliver_all().await?;
            }
            if round < ROUNDS {
                continue;
            }
            let mut got: Vec<Vec<Event>> = self.nodes.iter().map(|n| n.events()).collect();
            for (link, data) in expected {
                let (_, local, to, peer) = self.links[link];
                let before = got[to].len();
                got[to].retain(|e| {
                    !(e.data == data && e.peer == short_id(local) && e.local == short_id(peer))
                });
                ensure!(
                    got[to].len() + 1 == before,
                    "messages are not understood",
                    "after {round} rounds the message over {:?} was delivered {} times",
                    self.links[link],
                    before - got[to].len()
                );
            }
            ensure!(
                got.iter().all(|g| g.is_empty()),
                "unexpected messages",
                "{got:?}"
            );
        }
        Ok(())
    }

    fn state(&self) -> u64 {
        let mut s = Vec::new();
        for (i, node) in self.nodes.iter().enumerate() {
            s.push((i, self.flight[i].len(), 0, false));
            for c in node.node.verif_channels() {
                let other = self
                    .nodes
                    .iter()
                    .flat_map(|n| n.node.verif_channels())
                    .any(|o| o.0 == c.1 && o.1 == c.0);
                s.push((100 + i, c.4 as usize, c.0.as_slice()[0] as usize, other));
            }
        }
        hash_of(&s)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Fault {
    Lose(usize),
    Newest(usize),
    Copy(usize),
    Later,
    MuchLater,
    Reset(usize),
    Restart(usize),
    Readd(usize),
}

async fn history(ch: &mut Chooser<'_>, mut w: World, depth: usize, faults: &[Fault]) -> Step {
    for _ in 0..depth {
        let fault = ch.deviate(1 + faults.len());
        ch.step();
        if fault > 0 {
            let fault = faults[fault - 1];
            ch.note(|| format!("  {fault:?}"));
            match fault {
                Fault::Lose(to) => match w.flight[to].pop_front() {
                    Some(_) => {}
                    None => return ch.skip(),
                },
                Fault::Newest(to) => {
                    let n = w.flight[to].len();
                    if n < 2 {
                        return ch.skip();
                    }
                    w.deliver(to, n - 1, false).await?
                }
                Fault::Copy(to) => {
                    if w.flight[to].is_empty() {
                        return ch.skip();
                    }
                    w.deliver(to, 0, true).await?
                }
                fault => w.apply(fault).await?,
            }
        } else {
            let mut actions: Vec<(bool, usize)> = (0..w.links.len()).map(|l| (true, l)).collect();
            for to in 0..w.nodes.len() {
                if !w.flight[to].is_empty() {
                    actions.push((false, to));
                }
            }
            let (send, i) = ch.one_of(&actions);
            if send {
                ch.note(|| format!("  send over {:?}", w.links[i]));
                w.send(i).await?;
            } else {
                ch.note(|| format!("  deliver to {i}"));
                w.deliver(i, 0, false).await?;
            }
        }
        ch.visit(w.state());
    }
    ch.observe(w.state());
    w.heal(ch).await
}

/// One packet of a longer history arrives (again) much later than the others
async fn late(ch: &mut Chooser<'_>, phases: usize) -> Step {
    let options = NodeOptions {
        packet_history_enabled: ch.flag(),
        ..Default::default()
    };
    let mut w = World::new(options, &[&[1], &[2]], &[(0, 1, 1, 2)]);
    let copied = ch.flag();
    let from = ch.choose(2);
    let mut late = None;
    let mut lates = 0;
    for phase in 0..=phases {
        if phase > 0 {
            let fault = ch.one_of(&[
                None,
                Some(Fault::Reset(0)),
                Some(Fault::Reset(1)),
                Some(Fault::Readd(0)),
                Some(Fault::Readd(1)),
                Some(Fault::Restart(0)),
                Some(Fault::Restart(1)),
            ]);
            if let Some(fault) = fault {
                ch.note(|| format!("  {fault:?}"));
                w.apply(fault).await?;
            }
        }
        // Both sides send in turns
        for round in 0..4 {
            ch.step();
            w.send((from + round) % 2).await?;
            while let Some(to) = (0..2).find(|i| !w.flight[*i].is_empty()) {
                if late.is_none() && lates == 0 && ch.flag() {
                    ch.note(|| format!("  a packet to {to} {}", if copied { "is copied" } else { "is held back" }));
                    late = Some(w.flight[to][0].clone());
                    lates += 1;
                    if !copied {
                        w.flight[to].pop_front();
                        continue;
                    }
                }
                w.deliver(to, 0, false).await?;
            }
        }
        // It comes at the end of some phase
        if late.is_some() && (phase == phases || ch.flag()) {
            ch.note(|| "  the packet arrives late".to_owned());
            world::deliver(&late.take().unwrap()).await;
            w.collect().await?;
        }
        ch.visit(w.state());
        if lates == 0 && phase == phases {
            return ch.skip();
        }
    }
    ch.observe(w.state());
    w.heal_with(ch, 0).await
}

/// The channel is dropped the way it really happens: queries without answers
async fn silence(ch: &mut Chooser<'_>) -> Step {
    let timeout = ch.one_of(&[0u32, 3]);
    let options = NodeOptions {
        channel_reset_timeout_sec: timeout,
        packet_history_enabled: ch.flag(),
        version: ch.one_of(&[None, Some(0)]),
        ..Default::default()
    };
    let mut w = World::new(options, &[&[1], &[2]], &[(0, 1, 1, 2)]);
    // Some traffic to have large sequence numbers
    let warm = ch.one_of(&[3usize, 20, 300]);
    for _ in 0..warm {
        for link in 0..2 {
            w.send(link).await?;
            w.deliver_all().await?;
        }
    }
    // Which side does not hear the other one, and whether its messages still arrive
    let deaf = ch.choose(2);
    let one_way = ch.flag();
    let talkative = ch.flag();
    let restarted = ch.flag();
    ch.note(|| {
        format!("{options:?}, warm {warm}, deaf {deaf}, one way {one_way}, talkative {talkative}")
    });
    if restarted {
        w.restart(1 - deaf).await;
    }
    let other = 1 - deaf;
    let mut resets = 0;
    for i in 0..8u64 {
        let channels = w.nodes[deaf].node.verif_channels();
        let to = &w.nodes[other];
        let query = w.nodes[deaf].query(to, &payload(QUERY, 7000 + i, 16), Some(900));
        w.collect().await?;
        if one_way {
            while !w.flight[other].is_empty() {
                w.deliver(other, 0, false).await?;
            }
        }
        if talkative {
            let link = if deaf == 0 { 1 } else { 0 };
            w.send(link).await?;
        }
        // Nothing arrives to the deaf node
        w.flight[deaf].clear();
        w.flight[other].clear();
        world::advance(Duration::from_secs(1)).await;
        ensure!(query.is_finished(), "query", "the query does not end");
        ensure!(
            query.await.unwrap().unwrap().is_none(),
            "query",
            "answered by nobody"
        );
        w.collect().await?;
        ch.step();
        let now = w.nodes[deaf].node.verif_channels();
        if !channels.is_empty() && now.is_empty() {
            resets += 1;
            // Not earlier than the timeout after the first lost query
            ensure!(
                i as u32 >= timeout || resets > 1,
                "channel dropped too early",
                "dropped after {i} seconds with the timeout of {timeout}"
            );
        }
        ch.visit(hash_of(&(deaf, one_way, i, now.len())));
    }
    ensure!(
        resets > 0,
        "channel not dropped",
        "the channel is still there after 8 seconds"
    );
    ch.observe(resets);
    w.heal(ch).await
}

/// Whether a channel is dropped depends on what was heard through it after the unanswered query
async fn heard(ch: &mut Chooser<'_>, depth: usize) -> Step {
    let timeout = ch.one_of(&[3u32, 0, 1]);
    let options = NodeOptions {
        channel_reset_timeout_sec: timeout,
        ..Default::default()
    };
    let node = Sim::new(0, options);
    let mut puppet = Puppet::new(7, 6);
    puppet.connect(&node).await;
    world::take_sent();
    node.events();
    let before = node.node.verif_channels();
    ensure!(before.len() == 1, "no channel", "{before:?}");
    // When the first query ended which is not answered
    let mut unanswered: Option<u32> = None;
    for i in 0..depth as u64 {
        let mut dropped_at = None;
        match ch.choose(4) {
            0 => {
                ch.note(|| "a query is not answered".to_owned());
                let (adnl, local, peer) = (node.node.clone(), node.id(), puppet.id());
                let query = tokio::spawn(async move {
                    let data = payload(QUERY, 7000 + i, 16);
                    adnl.query_raw(&local, &peer, data.into(), Some(1000)).await
                });
                world::advance(Duration::from_millis(1000)).await;
                ensure!(query.is_finished(), "query", "the query does not end");
                ensure!(
                    query.await.unwrap().unwrap().is_none(),
                    "query",
                    "answered by nobody"
                );
                world::take_sent();
                dropped_at = Some(world::now());
            }
            1 => {
                ch.note(|| "a message comes through the channel".to_owned());
                let packet = puppet.channel_packet(vec![Msg::Custom(payload(MESSAGE, i, 16))]);
                puppet.deliver_in_channel(&node, &packet, i % 2 == 1).await;
                ensure!(node.events().len() == 1, "message", "it is not delivered");
                unanswered = None;
            }
            n => {
                let pause = [1, timeout as u64 + 2][n - 2];
                ch.note(|| format!("{pause} s pass"));
                world::advance(Duration::from_secs(pause)).await;
            }
        }
        ch.step();
        let now = node.node.verif_channels();
        ch.visit(hash_of(&(
            timeout,
            unanswered,
            now.len(),
            dropped_at.is_some(),
        )));
        match dropped_at {
            None => ensure!(
                now == before,
                "channel dropped too early",
                "no query has ended"
            ),
            Some(at) => {
                let first = *unanswered.get_or_insert(at);
                ensure!(
                    now == before || at >= first + timeout && at > first,
                    "channel dropped too early",
                    "dropped {} s after the first unanswered query, the timeout is {timeout} s",
                    at - first
                );
                ensure!(
                    now.is_empty() || at <= first + timeout,
                    "channel not dropped",
                    "it is still there {} s after the first unanswered query, the timeout is {timeout} s",
                    at - first
                );
                if now.is_empty() {
                    ch.observe((timeout, at - first));
                    return Ok(());
                }
            }
        }
    }
    Ok(())
}

/// Queries which end when their channel is already replaced by another one, or the peer is removed
async fn replaced(ch: &mut Chooser<'_>, depth: usize) -> Step {
    struct Pending {
        task: tokio::task::JoinHandle<anyhow::Result<Option<Vec<u8>>>>,
        channel: Option<usize>,
    }
    const TIMEOUT: u32 = 2;
    let options = NodeOptions {
        channel_reset_timeout_sec: TIMEOUT,
        ..Default::default()
    };
    let node = Sim::new(0, options);
    let mut puppet = Puppet::new(7, 6);
    puppet.connect(&node).await;
    world::take_sent();
    node.events();
    let mut keys = 1u8;
    // Number of the current channel and when its first unanswered query ended
    let mut current: Option<usize> = Some(0);
    let mut unanswered: Option<u32> = None;
    let mut known = true;
    let mut pending: Vec<Pending> = Vec::new();
    for i in 0..depth as u64 {
        match ch.choose(6) {
            n @ (0 | 1) => {
                let timeout = [1000u64, 5000][n];
                if !known {
                    return ch.skip();
                }
                ch.note(|| format!("query with the timeout of {timeout} ms"));
                let (adnl, local, peer) = (node.node.clone(), node.id(), puppet.id());
                let task = tokio::spawn(async move {
                    let data = payload(QUERY, 7000 + i, 16);
                    adnl.query_raw(&local, &peer, data.into(), Some(timeout))
                        .await
                });
                world::settle().await;
                pending.push(Pending {
                    task,
                    channel: current,
                });
            }
            2 => {
                if current.is_none() {
                    return ch.skip();
                }
                ch.note(|| "a message comes through the channel".to_owned());
                let packet = puppet.channel_packet(vec![Msg::Custom(payload(MESSAGE, i, 16))]);
                puppet.deliver_in_channel(&node, &packet, i % 2 == 1).await;
                ensure!(node.events().len() == 1, "message", "it is not delivered");
                unanswered = None;
            }
            3 => {
                ch.note(|| "the peer makes a new channel".to_owned());
                keys += 1;
                puppet.channel_key = channel_key(7, keys);
                puppet.connect(&node).await;
                known = true;
                current = Some(keys as usize);
                unanswered = None;
                ensure!(
                    node.node.verif_channels().len() == 1,
                    "no channel",
                    "after a handshake"
                );
            }
            4 => {
                if !known {
                    return ch.skip();
                }
                ch.note(|| "the peer is removed".to_owned());
                assert!(node.node.remove_peer(&node.id(), &puppet.id()).unwrap());
                known = false;
                current = None;
                unanswered = None;
            }
            _ => ch.note(|| "a second passes".to_owned()),
        }
        ch.step();
        // A second passes, step by step
        for _ in 0..4 {
            let before = node.node.verif_channels().len();
            world::advance(Duration::from_millis(250)).await;
            let (mut due, mut must) = (false, false);
            let mut rest = Vec::new();
            for query in pending.drain(..) {
                if !query.task.is_finished() {
                    rest.push(query);
                    continue;
                }
                let res = query.task.await.unwrap();
                ensure!(
                    matches!(res, Ok(None)),
                    "query",
                    "an unanswered query ends with {res:?}"
                );
                if query.channel.is_some() && query.channel == current {
                    let at = world::now();
                    let first = *unanswered.get_or_insert(at);
                    due |= at >= first + TIMEOUT && at > first;
                    must |= at > first + TIMEOUT;
                }
            }
            pending = rest;
            let now = node.node.verif_channels().len();
            ensure!(
                now == before || due,
                "channel dropped too early",
                "the unanswered queries belong to another channel, or not enough time has passed"
            );
            ensure!(
                now == 0 || !must,
                "channel not dropped",
                "although it is silent for long"
            );
            if now == 0 {
                current = None;
                unanswered = None;
            }
        }
        world::take_sent();
        ch.visit(hash_of(&(
            known,
            current.is_some(),
            unanswered.map(|at| world::now() - at),
            pending.len(),
        )));
        ch.observe((known, current.is_some(), pending.len()));
    }
    Ok(())
}

/// Handshakes processed by several threads at once
async fn threads(ch: &mut Chooser<'_>, kinds: usize) -> Step {
    let kind = ch.choose(kinds);
    let mut w = World::new(Default::default(), &[&[1], &[2]], &[(0, 1, 1, 2)]);
    // B resets its side, so that it uses another key
    let mut packets = Vec::new();
    let established = ch.flag();
    if established {
        for _ in 0..3 {
            for link in 0..2 {
                w.send(link).await?;
                w.deliver_all().await?;
            }
        }
    }
    for _ in 0..2 {
        world::advance(Duration::from_secs(2)).await;
        w.nodes[1]
            .node
            .verif_reset_peer(&short_id(2), &short_id(1))
            .unwrap();
        w.send(1).await?;
        packets.push(w.flight[0].pop_back().unwrap().data);
    }
    if kind == 4 || kind == 5 {
        // The second one confirms the channel
        w.send(0).await?;
        w.deliver_all().await?;
        w.send(1).await?;
        packets[1] = w.flight[0].pop_back().unwrap().data;
    }
    let a = w.nodes[0].node.clone();
    let app: std::sync::Arc<dyn everscale_network::MessageSubscriber> = w.nodes[0].app.clone();
    let subscribers = [app];
    let receive = |mut data: Vec<u8>| -> Body<'_> {
        let (a, subscribers) = (&a, &subscribers);
        Box::new(move || {
            block_on(a.verif_receive(&mut data, subscribers, &[])).ok();
        })
    };
    let remove = || -> Body<'_> {
        let a = &a;
        Box::new(move || {
            a.remove_peer(&short_id(1), &short_id(2)).unwrap();
        })
    };
    let reset = || -> Body<'_> {
        let a = &a;
        Box::new(move || {
            a.verif_reset_peer(&short_id(1), &short_id(2)).ok();
        })
    };
    let send = || -> Body<'_> {
        let a = &a;
        Box::new(move || {
            a.send_custom_message(&short_id(1), &short_id(2), &[1, 2, 3, 4])
                .ok();
        })
    };
    let bodies: Vec<Body<'_>> = match kind {
        0 => vec![receive(packets[0].clone()), receive(packets[1].clone())],
        1 => vec![receive(packets[1].clone()), receive(packets[1].clone())],
        2 => vec![receive(packets[1].clone()), remove()],
        3 => vec![receive(packets[1].clone()), reset()],
        4 => vec![receive(packets[1].clone()), send()],
        5 => vec![receive(packets[1].clone()), reset()],
        _ => vec![
            receive(packets[0].clone()),
            receive(packets[1].clone()),
            reset(),
        ],
    };
    ch.note(|| format!("threads of kind {kind}, established {established}"));
    run_threads(ch, bodies, &Default::default())?;
    ch.visit(w.state());
    ch.observe((kind, w.state()));
    // Only the last key matters
    w.collect().await?;
    if kind == 2 {
        world::advance(Duration::from_secs(1)).await;
        w.nodes[0].add_as(1, 2, 1);
    }
    w.heal(ch).await
}

fn main() {
    check_main("C05", |ctx| {
        ctx.assume("a restart takes at least two seconds, so that the start time is another one");
        ctx.assume("both nodes have the same clock");
        let depth = ctx.tiered(5, 6);
        let bound = ctx.tiered(2, 3);
        for (history_enabled, priority) in [(true, false), (false, true)] {
            let options = NodeOptions {
                packet_history_enabled: history_enabled,
                force_use_priority_channels: priority,
                ..Default::default()
            };
            ctx.explore(
                Suite {
                    name: format!("pair history={history_enabled}"),
                    about: format!(
                        "two nodes, every sequence of {depth} sends and deliveries with faults (loss, reordering, copies, \
                         resets, restarts, removals, pauses), then the network works again"
                    ),
                    bound: if history_enabled { bound } else { bound - 1 },
                },
                |ch| {
                    let faults = [
                        Fault::Lose(0),
                        Fault::Lose(1),
                        Fault::Newest(0),
                        Fault::Newest(1),
                        Fault::Copy(0),
                        Fault::Copy(1),
                        Fault::Later,
                        Fault::Reset(0),
                        Fault::Reset(1),
                        Fault::Restart(0),
                        Fault::Restart(1),
                        Fault::Readd(0),
                        Fault::Readd(1),
                    ];
                    world::run(1, async {
                        let w = World::new(options, &[&[1], &[2]], &[(0, 1, 1, 2)]);
                        history(ch, w, depth, &faults).await
                    })
                },
            );
        }
        let depth = ctx.tiered(4, 5);
        ctx.explore(
            Suite {
                name: "established".to_owned(),
                about: format!(
                    "two nodes with a channel, every sequence of {depth} sends and deliveries with faults"
                ),
                bound,
            },
            |ch| {
                let faults = [
                    Fault::Lose(0),
                    Fault::Newest(0),
                    Fault::Copy(0),
                    Fault::MuchLater,
                    Fault::Reset(0),
                    Fault::Reset(1),
                    Fault::Restart(0),
                    Fault::Readd(0),
                    Fault::Readd(1),
                ];
                let options = NodeOptions {
                    packet_history_enabled: ch.flag(),
                    ..Default::default()
                };
                world::run(1, async {
                    let mut w = World::new(options, &[&[1], &[2]], &[(0, 1, 1, 2)]);
                    for _ in 0..ch.one_of(&[3usize, 40]) {
                        for link in 0..2 {
                            w.send(link).await?;
                            w.deliver_all().await?;
                        }
                    }
                    history(ch, w, depth, &faults).await
                })
            },
        );
        let depth = ctx.tiered(4, 6);
        ctx.explore(
            Suite {
                name: "two identities".to_owned(),
                about: format!(
                    "a node with two identities and a peer of both, every sequence of {depth} sends and deliveries with faults"
                ),
                bound: ctx.tiered(1, 2),
            },
            |ch| {
                let faults = [
                    Fault::Lose(0),
                    Fault::Newest(0),
                    Fault::Copy(0),
                    Fault::Reset(0),
                    Fault::Reset(1),
                    Fault::Restart(1),
                    Fault::Readd(0),
                    Fault::Readd(1),
                ];
                world::run(1, async {
                    let w = World::new(
                        Default::default(),
                        &[&[1, 11], &[2]],
                        &[(0, 1, 1, 2), (0, 11, 1, 2)],
                    );
                    history(ch, w, depth, &faults).await
                })
            },
        );
        let phases = ctx.tiered(2, 3);
        ctx.explore(
            Suite {
                name: "late".to_owned(),
                about: format!(
                    "all histories of {phases} resets, removals and restarts with talk between them, where one packet \
                    (each of them in turn) is held back or copied and arrives at the end of any later phase"
                ),
                bound: 0,
            },
            |ch| world::run(1, late(ch, phases)),
        );
        ctx.explore(
            Suite {
                name: "silence".to_owned(),
                about: "channels dropped because of unanswered queries, with and without a restart of the other side"
                    .to_owned(),
                bound: 0,
            },
            |ch| world::run(1, silence(ch)),
        );
        let depth = ctx.tiered(6, 8);
        ctx.explore(
            Suite {
                name: "heard".to_owned(),
                about: format!(
                    "all sequences of {depth} steps: unanswered query, message through the channel, short or long \
                    pause; three reset timeouts"
                ),
                bound: 0,
            },
            |ch| world::run(1, heard(ch, depth)),
        );
        let kinds = ctx.tiered(6, 7);
        ctx.explore(
            Suite {
                name: "threads".to_owned(),
                about:
                    "two or three threads: handshakes with different channel keys, removal, reset"
                        .to_owned(),
                bound: ctx.tiered(2, 3),
            },
            |ch| world::run(1, threads(ch, kinds)),
        );
        let depth = ctx.tiered(5, 8);
        ctx.explore(
            Suite {
                name: "replaced".to_owned(),
                about: format!(
                    "all sequences of {depth} steps: short or long unanswered query, message through the channel, \
                    another channel, removal of the peer, pause"
                ),
                bound: 0,
            },
            |ch| world::run(1, replaced(ch, depth)),
        );
    })
}
