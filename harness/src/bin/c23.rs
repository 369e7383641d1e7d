//! C23: overlay broadcasts are delivered exactly once to every reachable member

use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::time::Duration;

use everscale_network::adnl::{Key, NodeIdShort};
use everscale_network::overlay::{BroadcastTarget, IdShort, OverlayOptions};
use harness::dhtkit::overlay;
use harness::nodes::{establish, secret};
use harness::overlaykit::*;
use harness::puppet::{Msg, Puppet};
use everscale_network::SubscriberContext;
use harness::sched;
use harness::rldpkit::{parts, Assembler, Part, SYMBOL};
use harness::util::{filler, hash_of};
use harness::world::{self, Datagram};
use harness::{check_main, ensure, Chooser, Step, Suite};

/// Who has whom as a neighbour
type Graph = Vec<Vec<usize>>;

fn is_connected(graph: &Graph) -> bool {
    let mut seen = BTreeSet::from([0]);
    let mut queue = vec![0];
    while let Some(i) = queue.pop() {
        for j in &graph[i] {
            if seen.insert(*j) {
                queue.push(*j);
            }
        }
    }
    seen.len() == graph.len()
}

/// All graphs with `n` members where each can be reached from the first one
fn graphs(n: usize, directed: bool) -> Vec<Graph> {
    let pairs: Vec<(usize, usize)> = (0..n)
        .flat_map(|i| (0..n).map(move |j| (i, j)))
        .filter(|(i, j)| i < j || directed && i != j)
        .collect();
    (0..1u32 << pairs.len())
        .map(|mask| {
            let mut graph = vec![Vec::new(); n];
            for (k, (i, j)) in pairs.iter().enumerate() {
                if mask >> k & 1 == 1 {
                    graph[*i].push(*j);
                    if !directed {
                        graph[*j].push(*i);
                    }
                }
            }
            graph
        })
        .filter(is_connected)
        .collect()
}

fn line(n: usize) -> Graph {
    (0..n)
        .map(|i| (0..n).filter(|j| j + 1 == i || i + 1 == *j).collect())
        .collect()
}

fn ring(n: usize) -> Graph {
    (0..n)
        .map(|i| vec![(i + n - 1) % n, (i + 1) % n])
        .collect()
}

fn full(n: usize) -> Graph {
    (0..n).map(|i| (0..n).filter(|j| *j != i).collect()).collect()
}

/// A broadcast which was sent
struct Sent {
    origin: usize,
    from: NodeIdShort,
    content: Vec<u8>,
    is_long: bool,
    /// What is split into parts
    data: Option<Vec<u8>>,
    /// Number of datagrams per packet
    pieces: usize,
    /// Datagrams from the origin to each of its neighbours
    released: BTreeMap<usize, usize>,
    delivered: BTreeSet<usize>,
    /// Pieces of packets which reached a member through another one
    arrived: BTreeMap<(usize, usize, usize), BTreeSet<usize>>,
    /// Packets which a member has for sure
    known: BTreeMap<usize, BTreeSet<usize>>,
    /// How often a packet was sent to whom
    forwarded: BTreeMap<(usize, usize, usize), usize>,
}

#[derive(Clone)]
struct Flight {
    datagram: Datagram,
    broadcast: usize,
    packet: usize,
    piece: usize,
    from: usize,
    to: usize,
}

impl Flight {
    fn tag(&self) -> (usize, usize, usize, usize, usize) {
        (self.broadcast, self.packet, self.piece, self.from, self.to)
    }
}

struct Net {
    nodes: Vec<OverlaySim>,
    graph: Graph,
    options: OverlayOptions,
    sent: Vec<Sent>,
    flight: Vec<Flight>,
    total: usize,
}

fn node_of(port: u16) -> usize {
    port as usize - 10_000
}

impl Net {
    async fn new(graph: &Graph, options: OverlayOptions, channels: bool) -> Self {
        let id = overlay(1).compute_short_id();
        let nodes: Vec<OverlaySim> = (0..graph.len())
            .map(|i| {
                let peers: Vec<u8> = graph[i].iter().map(|j| *j as u8 + 1).collect();
                OverlaySim::private(i, &id, &peers, options)
            })
            .collect();
        for i in 0..graph.len() {
            for j in 0..i {
                if graph[i].contains(&j) || graph[j].contains(&i) {
                    nodes[i].sim.add(&nodes[j].sim);
                    nodes[j].sim.add(&nodes[i].sim);
                    if channels {
                        establish(&nodes[i].sim, &nodes[j].sim).await;
                    }
                }
            }
        }
        world::take_sent();
        Self {
            nodes,
            graph: graph.clone(),
            options,
            sent: Vec::new(),
            flight: Vec::new(),
            total: 0,
        }
    }

    fn is_long(&self, content: &[u8]) -> bool {
        content.len() > self.options.max_ordinary_broadcast_len
    }

    async fn broadcast(
        &mut self,
        origin: usize,
        content: Vec<u8>,
        key: Option<u8>,
        target: Option<&[usize]>,
    ) -> Step<usize> {
        let node = &self.nodes[origin];
        let key = key.map(|key| Arc::new(Key::from_bytes(secret(key))));
        let from = match &key {
            Some(key) => *key.id(),
            None => node.sim.id(),
        };
        let neighbours = match target {
            Some(target) => target.len(),
            None => self.graph[origin].len().min(self.options.broadcast_target_count as usize),
        };
        let target = match target {
            Some(target) => {
                BroadcastTarget::Explicit(Arc::new(target.iter().map(|i| self.nodes[*i].sim.id()).collect()))
            }
            None => BroadcastTarget::RandomNeighbours,
        };
        let info = node.overlay.broadcast(&node.sim.node, content.clone(), key.as_ref(), target);
        ensure!(
            info.packets > 0 && info.recipient_count == neighbours,
            "wrong summary of a broadcast",
            "{} packets to {} instead of {neighbours} are announced",
            info.packets,
            info.recipient_count
        );
        let long = self.is_long(&content);
        self.sent.push(Sent {
            origin,
            from,
            is_long: long,
            data: (long && !self.options.force_compression).then(|| content.clone()),
            content,
            pieces: 0,
            released: Default::default(),
            delivered: Default::default(),
            arrived: Default::default(),
            known: Default::default(),
            forwarded: Default::default(),
        });
        world::settle().await;
        let broadcast = self.sent.len() - 1;
        self.release(broadcast, neighbours)?;
        Ok(broadcast)
    }

    /// Collects what the origin of the broadcast has sent on its own
    fn release(&mut self, broadcast: usize, neighbours: usize) -> Step {
        let datagrams = world::take_sent();
        let long = self.is_long(&self.sent[broadcast].content);
        let sent = &mut self.sent[broadcast];
        let mut recipients = BTreeSet::new();
        for datagram in &datagrams {
            ensure!(
                node_of(datagram.from) == sent.origin,
                "packet out of nowhere",
                "{} sends a packet",
                datagram.from
            );
            recipients.insert(node_of(datagram.to.port()));
        }
        if sent.pieces == 0 {
            ensure!(
                recipients.len() == neighbours,
                "wrong recipients",
                "{recipients:?} instead of {neighbours} neighbours"
            );
            let packets = if long { self.options.fec_broadcast_wave_len } else { 1 };
            let each = datagrams.len() / neighbours.max(1);
            // The first wave may be shorter
            sent.pieces = match long {
                true if each % packets == 0 && each / packets > 0 => each / packets,
                true => {
                    let last = datagrams[0].data.len();
                    let same = datagrams.iter().filter(|d| d.data.len().abs_diff(last) < 64).count();
                    datagrams.len() / same.max(1)
                }
                false => each,
            };
        }
        for datagram in datagrams {
            let to = node_of(datagram.to.port());
            let count = sent.released.entry(to).or_default();
            let flight = Flight {
                broadcast,
                packet: *count / sent.pieces,
                piece: *count % sent.pieces,
                from: sent.origin,
                to,
                datagram,
            };
            *count += 1;
            self.flight.push(flight);
        }
        Ok(())
    }

    /// Moves time to the next wave. Returns whether there was anything
    async fn wave(&mut self, broadcast: usize) -> Step<bool> {
        world::advance(Duration::from_millis(self.options.fec_broadcast_wave_interval_ms)).await;
        let before = self.flight.len();
        self.release(broadcast, 0)?;
        Ok(self.flight.len() > before)
    }

    async fn deliver(&mut self, flight: &Flight) -> Step {
        self.total += 1;
        let what = || format!("packet {} of broadcast {}", flight.packet, flight.broadcast);
        ensure!(self.total < 5_000, "endless broadcast", "{} datagrams", self.total);
        world::deliver(&flight.datagram).await;
        let me = flight.to;

        // What did it know before
        let long = self.is_long(&self.sent[flight.broadcast].content);
        // Others send the same content
        let content = &self.sent[flight.broadcast].content;
        let is_shared = self.sent.iter().filter(|sent| sent.content == *content).count() > 1;
        let sent = &mut self.sent[flight.broadcast];
        let is_origin = sent.origin == me;
        let was_delivered = sent.delivered.contains(&me);
        let arrived = sent.arrived.entry((me, flight.from, flight.packet)).or_default();
        arrived.insert(flight.piece);
        let is_new = arrived.len() == sent.pieces
            && sent.known.entry(me).or_default().insert(flight.packet);
        let owed = is_new && !was_delivered && !is_origin && sent.is_enough(me);

        // Application
        for (i, node) in self.nodes.iter().enumerate() {
            for got in node.received() {
                ensure!(!is_origin, "own broadcast delivered", "{i} after {}", what());
                ensure!(i == me, "broadcast out of nowhere", "{i} after {}", what());
                ensure!(
                    got.from == sent.from,
                    "wrong source",
                    "{} instead of {}",
                    got.from,
                    sent.from
                );
                ensure!(
                    got.data == sent.content,
                    "wrong content",
                    "{} bytes instead of {}",
                    got.data.len(),
                    sent.content.len()
                );
                ensure!(sent.delivered.insert(i), "delivered twice", "{i} after {}", what());
            }
        }
        ensure!(
            !owed || sent.delivered.contains(&me),
            "not delivered",
            "{me} has {} packets of a broadcast of {} bytes",
            sent.known[&me].len(),
            sent.content.len()
        );

        // Neighbours
        let target_count = match long {
            true => self.options.secondary_fec_broadcast_target_count,
            false => self.options.secondary_broadcast_target_count,
        };
        let mut others = self.graph[me].clone();
        others.retain(|j| *j != flight.from);
        let mut counts: BTreeMap<usize, usize> = BTreeMap::new();
        for datagram in world::take_sent() {
            ensure!(
                node_of(datagram.from) == me,
                "packet out of nowhere",
                "{} sends a packet",
                datagram.from
            );
            let to = node_of(datagram.to.port());
            ensure!(others.contains(&to), "wrong recipient", "{me} sends {} to {to}", what());
            let piece = counts.entry(to).or_default();
            self.flight.push(Flight {
                datagram,
                broadcast: flight.broadcast,
                packet: flight.packet,
                piece: *piece,
                from: me,
                to,
            });
            *piece += 1;
        }
        for (to, pieces) in &counts {
            let times = sent.forwarded.entry((me, flight.packet, *to)).or_default();
            *times += 1;
            ensure!(
                *pieces == sent.pieces && *times == 1 && !is_origin,
                "packet sent again",
                "{me} sends {} to {to} {times} times",
                what()
            );
        }
        let want = others.len().min(target_count as usize);
        ensure!(
            counts.len() <= want,
            "too many recipients",
            "{me} sends {} to {} neighbours",
            what(),
            counts.len()
        );
        let first = is_new && !is_origin && !sent.is_forwarded_before(me, flight.packet, &counts);
        ensure!(
            !first || was_delivered && is_shared || counts.len() == want,
            "not forwarded",
            "{me} sends {} to {} of {want} neighbours",
            what(),
            counts.len()
        );
        Ok(())
    }

    fn state(&self) -> u64 {
        let mut flight: Vec<_> = self.flight.iter().map(Flight::tag).collect();
        flight.sort_unstable();
        let sent: Vec<_> = self
            .sent
            .iter()
            .map(|s| {
                let released: Vec<_> = s.released.iter().collect();
                (released, &s.delivered, &s.arrived, &s.forwarded)
            })
            .collect();
        hash_of(&(flight, sent))
    }

    /// Members who had to get it when nothing is lost
    fn expect_everyone(&self, broadcast: usize, reachable: &[usize]) -> Step {
        let sent = &self.sent[broadcast];
        for i in reachable.iter().filter(|i| **i != sent.origin) {
            ensure!(
                sent.delivered.contains(i),
                "not delivered",
                "{i} did not get broadcast {broadcast} of {} bytes",
                sent.content.len()
            );
        }
        Ok(())
    }

    /// There are more packets than needed, so that some may be lost
    fn expect_spare(&self, broadcast: usize) -> Step {
        let sent = &self.sent[broadcast];
        let (true, Some(data)) = (sent.is_long, &sent.data) else {
            return Ok(());
        };
        let needed = data.len().div_ceil(SYMBOL);
        for count in sent.released.values() {
            let packets = count / sent.pieces;
            ensure!(
                packets >= needed + needed / 2,
                "too few packets",
                "{packets} packets for {needed} symbols"
            );
        }
        Ok(())
    }

    /// Nothing more happens after everything was delivered
    async fn expect_silence(&mut self) -> Step {
        for _ in 0..4 {
            world::advance(Duration::from_secs(30)).await;
            let sent = world::take_sent();
            ensure!(sent.is_empty(), "endless broadcast", "{} more datagrams", sent.len());
            for (i, node) in self.nodes.iter().enumerate() {
                ensure!(node.received().is_empty(), "delivered twice", "{i} gets something more");
            }
        }
        Ok(())
    }
}

impl Sent {
    /// Whether the member has to be able to restore the content
    fn is_enough(&self, member: usize) -> bool {
        let Some(data) = &self.data else {
            // It depends on the length of compressed data, the end of each execution is checked
            return !self.is_long;
        };
        let mut assembler = Assembler::default();
        self.known[&member].iter().any(|seqno| {
            let seqno = *seqno as u32;
            let part: &Part = &parts([0; 32], data, seqno..seqno + 1)[0];
            assembler.add(part).is_some()
        })
    }

    fn is_forwarded_before(&self, member: usize, packet: usize, counts: &BTreeMap<usize, usize>) -> bool {
        let times = self
            .forwarded
            .keys()
            .filter(|(m, p, _)| *m == member && *p == packet)
            .count();
        times > counts.len()
    }
}

/// Datagrams of short broadcasts arrive in every order
async fn orders(ch: &mut Chooser<'_>, graphs: &[Graph], senders: &[usize], faults: bool, channels: bool) -> Step {
    let graph = &graphs[ch.choose(graphs.len())];
    ch.note(|| format!("neighbours: {graph:?}"));
    let mut net = Net::new(graph, OverlayOptions::default(), channels).await;
    for (n, origin) in senders.iter().enumerate() {
        net.broadcast(*origin, filler(n as u64, 30 + n), None, None).await?;
    }
    let mut lost = false;
    loop {
        if channels {
            ch.prune(hash_of(&(graph, net.state(), lost)), ch.deviations_left())?;
        }
        ch.visit(hash_of(&(graph, net.state())));
        if net.flight.is_empty() {
            break;
        }
        ch.step();
        let i = ch.choose(net.flight.len());
        let fate = if faults { ch.deviate(4) } else { 0 };
        let flight = net.flight.remove(i);
        ch.note(|| format!("{:?} {}", flight.tag(), ["arrives", "is lost", "arrives twice", "arrives and remains"][fate]));
        match fate {
            0 => net.deliver(&flight).await?,
            1 => lost = true,
            2 => {
                net.deliver(&flight).await?;
                net.deliver(&flight).await?;
            }
            _ => {
                net.deliver(&flight).await?;
                net.flight.push(flight);
            }
        }
    }
    let everyone: Vec<usize> = (0..graph.len()).collect();
    for n in 0..senders.len() {
        if !lost {
            net.expect_everyone(n, &everyone)?;
        }
        ch.observe(&net.sent[n].delivered);
    }
    net.expect_silence().await
}

/// Every member passes it to a single other one
async fn chain(ch: &mut Chooser<'_>, graphs: &[Graph], long: bool) -> Step {
    let graph = &graphs[ch.choose(graphs.len())];
    ch.note(|| format!("neighbours: {graph:?}"));
    let options = OverlayOptions {
        broadcast_target_count: 1,
        secondary_broadcast_target_count: 1,
        secondary_fec_broadcast_target_count: 1,
        ..Default::default()
    };
    let mut net = Net::new(graph, options, true).await;
    let content = filler(1, if long { SYMBOL + 50 } else { 50 });
    net.broadcast(0, content, None, None).await?;
    loop {
        if net.flight.is_empty() && !(long && net.wave(0).await?) {
            break;
        }
        ch.step();
        ch.visit(net.state());
        let i = ch.deviate(net.flight.len());
        let flight = net.flight.remove(i);
        net.deliver(&flight).await?;
    }
    let everyone: Vec<usize> = (0..graph.len()).collect();
    net.expect_everyone(0, &everyone)?;
    ch.observe(net.total);
    net.expect_silence().await
}

/// Datagrams of a long broadcast are lost, delayed and repeated
async fn long(ch: &mut Chooser<'_>, graph: &Graph, sizes: &[usize], waves: &[usize], origins: &[usize]) -> Step {
    let size = ch.one_of(sizes);
    let options = OverlayOptions {
        fec_broadcast_wave_len: ch.one_of(waves),
        ..Default::default()
    };
    let mut net = Net::new(graph, options, true).await;
    for (n, origin) in origins.iter().enumerate() {
        net.broadcast(*origin, filler(n as u64, size), None, None).await?;
    }
    let mut lost = false;
    loop {
        ch.visit(net.state());
        if net.flight.is_empty() {
            if origins.len() == 1 && net.wave(0).await? {
                continue;
            }
            break;
        }
        ch.step();
        let i = ch.deviate(net.flight.len());
        let fate = ch.deviate(4);
        let flight = net.flight.remove(i);
        ch.note(|| format!("{:?} {}", flight.tag(), ["arrives", "is lost", "arrives twice", "arrives and remains"][fate]));
        match fate {
            0 => net.deliver(&flight).await?,
            1 => lost = true,
            2 => {
                net.deliver(&flight).await?;
                net.deliver(&flight).await?;
            }
            _ => {
                net.deliver(&flight).await?;
                net.flight.push(flight);
            }
        }
    }
    let everyone: Vec<usize> = (0..graph.len()).collect();
    for n in 0..origins.len() {
        if !lost {
            net.expect_everyone(n, &everyone)?;
        }
        ch.observe(&net.sent[n].delivered);
    }
    net.expect_silence().await
}

/// Every set of datagrams of a long broadcast is lost
async fn losses(ch: &mut Chooser<'_>, size: usize, compress: bool) -> Step {
    let options = OverlayOptions {
        force_compression: compress,
        ..Default::default()
    };
    let mut net = Net::new(&line(2), options, true).await;
    net.broadcast(0, filler(3, size), None, None).await?;
    let mut lost = 0;
    loop {
        if net.flight.is_empty() && !net.wave(0).await? {
            break;
        }
        ch.step();
        let flight = net.flight.remove(0);
        if ch.flag() {
            lost += 1;
        } else {
            net.deliver(&flight).await?;
        }
        ch.visit(net.state());
    }
    ch.observe((lost, net.sent[0].delivered.len()));
    net.expect_spare(0)?;
    if lost == 0 {
        net.expect_everyone(0, &[1])?;
    }
    net.expect_silence().await
}

/// One broadcast of each size
async fn sizes(ch: &mut Chooser<'_>, sizes: &[usize]) -> Step {
    let size = ch.one_of(sizes);
    let options = OverlayOptions {
        force_compression: ch.flag(),
        max_ordinary_broadcast_len: ch.one_of(&[768, 0, 1500]),
        ..Default::default()
    };
    let (key, target): (_, Option<&[usize]>) = match ch.choose(3) {
        0 => (None, None),
        1 => (Some(77), None),
        _ => (None, Some(&[2])),
    };
    // Both contents which can be compressed and which can not
    let content = if ch.flag() { filler(size as u64, size) } else { vec![7; size] };
    ch.step();
    ch.visit(hash_of(&(size, &content, key, options.force_compression, options.max_ordinary_broadcast_len)));
    let mut net = Net::new(&line(3), options, true).await;
    if target.is_some() {
        // The others do not know it, but it was asked for
        let (a, b) = (&net.nodes[0].sim, &net.nodes[2].sim);
        a.add(b);
        b.add(a);
        establish(a, b).await;
        net.graph = vec![vec![2], vec![0, 2], vec![1]];
    }
    net.broadcast(0, content, key, target).await?;
    loop {
        if net.flight.is_empty() && !net.wave(0).await? {
            break;
        }
        let flight = net.flight.remove(0);
        net.deliver(&flight).await?;
    }
    net.expect_everyone(0, &[1, 2])?;
    net.expect_spare(0)?;
    ch.observe(net.total);
    net.expect_silence().await
}

/// Old packets are repeated by somebody at any time
async fn replays(ch: &mut Chooser<'_>, long: bool, depth: usize) -> Step {
    const TIMEOUT: u64 = 10;
    let options = OverlayOptions {
        broadcast_timeout_sec: TIMEOUT,
        max_broadcast_log: ch.one_of(&[0, 1, 1000]),
        ..Default::default()
    };
    let id: IdShort = overlay(1).compute_short_id();
    let node = OverlaySim::private(0, &id, &[11], options);
    let mut relays = [Puppet::new(10, 5), Puppet::new(11, 6)];
    for relay in &relays {
        relay.introduce(&node.sim);
    }
    let start = world::now();
    let mut known: Vec<Vec<Vec<u8>>> = Vec::new();
    let mut contents: Vec<(Vec<u8>, u32)> = Vec::new();
    let mut delivered: Vec<usize> = Vec::new();
    for _ in 0..depth {
        ch.step();
        match ch.choose(5 + known.len().min(2)) {
            0 => {
                let content = filler(contents.len() as u64, if long { SYMBOL + 10 } else { 20 });
                let now = world::now();
                let packets: Vec<Vec<u8>> = match long {
                    true => fec_parts(20, &content, &content, now, 0..4).iter().map(|p| p.to_bytes(&id)).collect(),
                    false => vec![Short::new(20, &content, now).to_bytes(&id)],
                };
                for packet in &packets {
                    relays[0].say(&node.sim, vec![Msg::Custom(packet.clone())]).await;
                }
                ch.note(|| "new broadcast".to_owned());
                known.push(packets);
                contents.push((content, now));
                delivered.push(0);
            }
            i @ 1..=4 => {
                let seconds = [1, TIMEOUT / 2 + 1, TIMEOUT, TIMEOUT * 2 + 1][i - 1];
                ch.note(|| format!("{seconds} seconds pass"));
                world::advance(Duration::from_secs(seconds)).await;
            }
            i => {
                // The oldest or the newest one
                let which = if i == 5 { 0 } else { known.len() - 1 };
                ch.note(|| format!("broadcast {which} is repeated"));
                for packet in known[which].clone() {
                    relays[1].say(&node.sim, vec![Msg::Custom(packet)]).await;
                }
            }
        }
        world::take_sent();
        for got in node.received() {
            let which = contents.iter().position(|(c, _)| *c == got.data);
            let Some(which) = which else {
                ensure!(false, "wrong content", "unknown broadcast");
                unreachable!();
            };
            // Too many of old broadcasts are forgotten
            let age = (world::now() - contents[which].1) as u64;
            let may_forget = contents.len() > options.max_broadcast_log as usize;
            if delivered[which] == 0 || age < TIMEOUT || !may_forget {
                delivered[which] += 1;
            }
        }
        ensure!(
            delivered.iter().all(|n| *n == 1),
            "delivered twice",
            "{delivered:?} after {} seconds",
            world::now() - start
        );
        let ages: Vec<u32> = contents.iter().map(|(_, date)| world::now() - date).collect();
        ch.visit(hash_of(&(ages, options.max_broadcast_log)));
    }
    ch.observe(contents.len());
    Ok(())
}

/// Packets of a broadcast with many symbols arrive in an order in which packets are overtaken by
/// many others
async fn far(ch: &mut Chooser<'_>, symbols: u32, blocks: &[u32]) -> Step {
    let id: IdShort = overlay(1).compute_short_id();
    let node = OverlaySim::private(0, &id, &[11], OverlayOptions::default());
    let mut relay = Puppet::new(10, 5);
    relay.introduce(&node.sim);
    let content = filler(9, SYMBOL * symbols as usize - 5);
    let first = ch.one_of(&[0, 100]);
    let block = ch.one_of(blocks);
    // Number of the only lost packet, if there is one
    let lost = ch.one_of(&[None, Some(0), Some(symbols / 2), Some(symbols - 1)]);
    let repeated = ch.flag();
    ch.note(|| format!("{symbols} symbols in reversed blocks of {block}, the first one of {first}, {lost:?} is lost, repeated: {repeated}"));
    // One more than needed if one is lost, and some more for the decoder
    let count = symbols + 8;
    let packets: Vec<Vec<u8>> = fec_parts(20, &content, &content, world::now(), 0..count)
        .iter()
        .map(|p| p.to_bytes(&id))
        .collect();
    let mut order: Vec<u32> = Vec::new();
    let mut start = 0;
    while start < count {
        let end = count.min(if start == 0 && first > 0 { first.min(block) } else { start + block });
        order.extend((start..end).rev());
        start = end;
    }
    for seqno in order {
        if lost == Some(seqno) {
            continue;
        }
        for _ in 0..1 + repeated as usize {
            relay.say(&node.sim, vec![Msg::Custom(packets[seqno as usize].clone())]).await;
        }
        world::take_sent();
    }
    let got = node.received();
    ensure!(
        got.len() == 1,
        "not delivered once",
        "{} deliveries, {symbols} symbols in reversed blocks of {block} after {first}, {lost:?} lost",
        got.len()
    );
    ensure!(got[0].data == content, "wrong content", "{} bytes", got[0].data.len());
    ch.visit(hash_of(&(symbols, first, block, lost, repeated)));
    ch.observe(got.len());
    Ok(())
}

/// What threads get at the same time
#[derive(Debug, Clone, Copy, PartialEq)]
enum Job {
    /// Short broadcast from the neighbour
    Short(u8),
    /// Packet of a long broadcast
    Long(u32),
    /// Packet of the long broadcast with the same content of another source
    OtherLong(u32),
    /// The node itself sends the same short broadcast
    Own,
}

/// Workers of one node handle packets of a broadcast at the same time
async fn threads(ch: &mut Chooser<'_>, jobs: &[Job]) -> Step {
    let id: IdShort = overlay(1).compute_short_id();
    // 10 and 11 pass packets, 12 only listens
    let node = OverlaySim::private(0, &id, &[10, 11, 12], OverlayOptions::default());
    let puppets = [Puppet::new(10, 5), Puppet::new(11, 6), Puppet::new(12, 7)];
    for puppet in &puppets {
        puppet.introduce(&node.sim);
    }
    world::settle().await;
    world::take_sent();
    let content = filler(1, SYMBOL - 10);
    let now = world::now();
    let messages: Vec<Vec<u8>> = jobs
        .iter()
        .map(|job| match job {
            Job::Short(_) => Short::new(20, &content, now).to_bytes(&id),
            Job::Long(n) => fec_parts(20, &content, &content, now, *n..*n + 1)[0].to_bytes(&id),
            Job::OtherLong(n) => fec_parts(21, &content, &content, now, *n..*n + 1)[0].to_bytes(&id),
            Job::Own => Vec::new(),
        })
        .collect();
    let subscriber = node.overlays.message_subscriber();
    let own = std::cell::Cell::new(None);
    let failed = std::cell::Cell::new(0);
    let order = std::cell::RefCell::new(Vec::new());
    let mut bodies: Vec<sched::Body<'_>> = Vec::new();
    for (i, (job, message)) in std::iter::zip(jobs, &messages).enumerate() {
        let (node, subscriber, own, failed, order) = (&node, &subscriber, &own, &failed, &order);
        let (puppets, content) = (&puppets, &content);
        bodies.push(Box::new(move || {
            if *job == Job::Own {
                let target = BroadcastTarget::RandomNeighbours;
                let info = node.overlay.broadcast(&node.sim.node, content.clone(), None, target);
                own.set(Some(info.packets));
            } else {
                let from = match job {
                    Job::Short(from) => *from as usize,
                    _ => i % 2,
                };
                let ctx = SubscriberContext {
                    adnl: &node.sim.node,
                    local_id: &node.sim.id(),
                    peer_id: &puppets[from].id(),
                };
                let constructor = u32::from_le_bytes(message[..4].try_into().unwrap());
                match sched::block_on(subscriber.try_consume_custom(ctx, constructor, message)) {
                    Ok(true) => {}
                    Ok(false) | Err(_) => failed.set(failed.get() + 1),
                }
            }
            order.borrow_mut().push(i);
        }));
    }
    sched::run_threads(ch, bodies, &Default::default())?;
    world::settle().await;
    let got = node.received();
    let sent = world::take_sent();
    // Packets of long ones take two datagrams
    let pieces = if jobs.iter().any(|j| matches!(j, Job::Long(_))) { 2 } else { 1 };
    let to = |index: usize| sent.iter().filter(|d| d.to == world::addr(index)).count() / pieces;
    let order = order.take();
    ch.visit(hash_of(&(&order, got.len(), sent.len())));
    ch.observe((&order, got.len(), sent.len(), own.get()));
    ensure!(failed.get() == 0, "packet refused", "{} of {jobs:?} failed", failed.get());
    ensure!(
        got.iter().all(|r| r.data == content),
        "wrong content",
        "wrong content after {jobs:?} in the order {order:?}"
    );
    let expected = match own.get() {
        Some(n) if n > 0 => 0,
        _ => 1,
    };
    ensure!(
        got.len() == expected,
        if got.len() > expected { "delivered twice" } else { "not delivered" },
        "{} broadcasts instead of {expected} are delivered after {jobs:?} in the order {order:?}",
        got.len()
    );
    // The one who only listens gets each packet once
    let mut distinct = messages.clone();
    distinct.sort();
    distinct.dedup();
    let most = match jobs.contains(&Job::Own) {
        true => 1,
        false => distinct.len(),
    };
    // A packet of a complete broadcast does not have to be passed
    let least = match jobs.iter().all(|j| matches!(j, Job::Long(_) | Job::OtherLong(_))) {
        true => 1,
        false => most,
    };
    ensure!(
        (least..=most).contains(&to(7)),
        "forwarded wrong",
        "{} datagrams instead of {least}..={most} are passed after {jobs:?} in the order {order:?}",
        to(7)
    );
    Ok(())
}

fn main() {
    check_main("C23", |ctx| {
        use Job::*;
        let bound = ctx.tiered(2, 3);
        let mut menu = vec![
            vec![Short(0), Short(0)],
            vec![Short(0), Short(1)],
            vec![Long(0), Long(0)],
            vec![Long(0), Long(1)],
            vec![Long(0), OtherLong(0)],
            vec![Own, Short(0)],
            vec![Short(0), Short(1), Short(0)],
            vec![Long(0), Long(1), Long(0)],
        ];
        if ctx.is_thorough() {
            menu.push(vec![Own, Short(0), Short(1)]);
            menu.push(vec![Long(0), OtherLong(0), Long(1)]);
        }
        for jobs in menu {
            ctx.explore(
                Suite {
                    name: format!("threads {jobs:?}"),
                    about: format!("interleavings of threads which handle {jobs:?}, up to {bound} preemptions"),
                    bound,
                },
                |ch| world::run(1, threads(ch, &jobs)),
            );
        }
        let thorough = ctx.is_thorough();
        let all = |n: usize, directed: bool| -> Vec<Graph> { (2..=n).flat_map(|n| graphs(n, directed)).collect() };
        let mut run = |name: &str, about: &str, bound: u32, graphs: &[Graph], senders: &[usize], faults: bool, channels: bool| {
            ctx.explore(
                Suite {
                    name: name.to_owned(),
                    about: format!("{about}, {} topologies", graphs.len()),
                    bound,
                },
                |ch| world::run(1, orders(ch, graphs, senders, faults, channels)),
            );
        };
        run("orders", "all orders of the datagrams of a short broadcast among 2 or 3 members", 0, &all(3, true), &[0], false, true);
        run("orders of four", "all orders of the datagrams of a short broadcast among 4 members", 0, &graphs(4, false), &[0], false, true);
        run("first contact", "all orders of the datagrams of a short broadcast among members which had no contact before", 0, &all(3, false), &[0], false, false);
        run("two of one", "all orders of the datagrams of two short broadcasts of a member", 0, &all(3, false), &[0, 0], false, true);
        run("two of two", "all orders of the datagrams of two short broadcasts of different members", 0, &all(3, false), &[0, 1], false, true);
        run("faults", "all orders with up to 2 losses and repetitions of the datagrams of a short broadcast", 2, &all(3, false), &[0], true, true);
        run("three", "all orders of the datagrams of three short broadcasts of two members in a triangle", 0, &[full(3)], &[0, 1, 0], false, true);
        if thorough {
            run("orders of four, one way", "all orders of the datagrams of a short broadcast among 4 members which do not have to know each other", 0, &graphs(4, true), &[0], false, true);
            run("two of four", "all orders of the datagrams of two short broadcasts among 4 members", 0, &[line(4), ring(4)], &[0, 2], false, true);
            run("orders of five", "all orders of the datagrams of a short broadcast among 5 members", 0, &[line(5), ring(5)], &[0], false, true);
        }
        let topologies = [line(3), line(4), vec![vec![1], vec![0, 2], vec![0, 1]], vec![vec![1], vec![2], vec![0]]];
        for long in [false, true] {
            ctx.explore(
                Suite {
                    name: format!("chain{}", if long { " of a long one" } else { "" }),
                    about: "every member passes a broadcast to a single other one, with up to 1 or 2 reorderings".to_owned(),
                    bound: ctx.tiered(1, 2),
                },
                |ch| world::run(1, chain(ch, &topologies, long)),
            );
        }
        let mut run = |name: &str, bound: u32, graph: Graph, sizes: &[usize], waves: &[usize], origins: &[usize]| {
            ctx.explore(
                Suite {
                    name: name.to_owned(),
                    about: format!("up to {bound} reorderings, losses and repetitions of datagrams of long broadcasts of {sizes:?} bytes from {origins:?} in {graph:?}"),
                    bound,
                },
                |ch| world::run(1, long(ch, &graph, sizes, waves, origins)),
            );
        };
        run("long in a pair", if thorough { 4 } else { 3 }, line(2), &[769, SYMBOL * 2 + 1], &[1, 20], &[0]);
        run("long in a line", if thorough { 3 } else { 2 }, line(3), &[769, SYMBOL * 2 + 1], &[1, 20], &[0]);
        run("long in a triangle", 2, full(3), if thorough { &[769, SYMBOL * 2 + 1] } else { &[769] }, if thorough { &[1, 20] } else { &[20] }, &[0]);
        run("long in a square", if thorough { 2 } else { 1 }, ring(4), &[769], &[20], &[0]);
        run("two long", if thorough { 2 } else { 1 }, full(3), &[769], &[20], &[0, 1]);
        for (size, compress) in [(769, false), (SYMBOL * 2, false), (1000, true)] {
            ctx.explore(
                Suite {
                    name: format!("losses of {size}{}", if compress { ", compressed" } else { "" }),
                    about: format!("every set of lost datagrams of a long broadcast of {size} bytes"),
                    bound: 0,
                },
                |ch| world::run(1, losses(ch, size, compress)),
            );
        }
        let mut lens: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 30, 31, 32, 253, 254, 255, 256];
        for n in 1..=6 {
            lens.extend(n * SYMBOL - 6..=n * SYMBOL + 2);
        }
        lens.extend([10_000, 30_000]);
        if thorough {
            lens = (0..SYMBOL * 4).collect();
            lens.extend([10_000, 30_000, 100_000]);
        }
        ctx.explore(
            Suite {
                name: "sizes".to_owned(),
                about: format!("broadcasts of {} sizes with each option", lens.len()),
                bound: 0,
            },
            |ch| world::run(1, sizes(ch, &lens)),
        );
        let blocks: &[u32] = if thorough { &[1, 2, 63, 64, 65, 128, 255, 256] } else { &[1, 64, 256] };
        for symbols in if thorough { vec![40, 300, 600] } else { vec![300] } {
            ctx.explore(
                Suite {
                    name: format!("far {symbols}"),
                    about: format!("broadcast of {symbols} symbols, packets of which are overtaken by up to 256 others"),
                    bound: 0,
                },
                |ch| world::run(1, far(ch, symbols, blocks)),
            );
        }
        let depth = if thorough { 6 } else { 5 };
        for long in [false, true] {
            ctx.explore(
                Suite {
                    name: format!("repetitions of {}", if long { "long" } else { "short" }),
                    about: format!("all sequences of {depth} broadcasts, waits and repetitions of old broadcasts"),
                    bound: 0,
                },
                |ch| world::run(1, replays(ch, long, depth)),
            );
        }
    })
}
