//! C29: stopping a node stops it and releases its work

use std::borrow::Cow;
use std::collections::VecDeque;
use std::sync::{Arc, Mutex, Weak};
use std::time::Duration;

use everscale_network::adnl::{Node, NodeOptions as AdnlOptions};
use everscale_network::{dht, proto, rldp};
use everscale_network::{MessageSubscriber, QueryConsumingResult, QuerySubscriber, SubscriberContext};
use harness::dhtkit::{bytes_of, dht_node, overlay, overlay_node, overlay_value, signed_value, DhtSim};
use harness::nodes::*;
use harness::overlaykit::{fec_parts, message_prefix, query_prefix, OverlaySim, Short};
use harness::puppet::{Msg, Puppet};
use harness::rldpkit::{parts, query_payload, RldpMsg, RldpSim};
use harness::util::{filler, hash_of};
use futures_util::StreamExt;
use harness::world;
use harness::{check_main, ensure, Chooser, Step, Suite};

const PING_ID: u8 = 0xee;

type Calls = Arc<Mutex<Vec<(usize, bool, Vec<u8>)>>>;

/// Subscriber which takes everything
struct Numbered {
    number: usize,
    calls: Calls,
}

#[async_trait::async_trait]
impl MessageSubscriber for Numbered {
    async fn try_consume_custom<'a>(
        &self,
        _: SubscriberContext<'a>,
        _: u32,
        data: &'a [u8],
    ) -> anyhow::Result<bool> {
        self.calls.lock().unwrap().push((self.number, false, data.to_vec()));
        Ok(true)
    }
}

#[async_trait::async_trait]
impl QuerySubscriber for Numbered {
    async fn try_consume_query<'a>(
        &self,
        _: SubscriberContext<'a>,
        constructor: u32,
        query: Cow<'a, [u8]>,
    ) -> anyhow::Result<QueryConsumingResult<'a>> {
        if constructor == proto::rpc::AdnlPing::TL_ID {
            return Ok(QueryConsumingResult::Rejected(query));
        }
        self.calls.lock().unwrap().push((self.number, true, query.to_vec()));
        Ok(QueryConsumingResult::Consumed(Some(service_answer(self.number, &query))))
    }
}

fn service_answer(number: usize, query: &[u8]) -> Vec<u8> {
    [&[number as u8, 0xa5, 0x5a, 0xff][..], query].concat()
}

type QueryResult = anyhow::Result<Option<Vec<u8>>>;
type Done = Arc<Mutex<Option<(tokio::time::Instant, Result<Option<Vec<u8>>, String>)>>>;

struct Pending {
    data: Vec<u8>,
    started: tokio::time::Instant,
    done: Done,
    /// Known after the query is sent
    id: Option<[u8; 32]>,
    /// An answer which must have been processed
    answered: bool,
    /// The node was stopped before the query was sent or answered
    checked: bool,
}

/// What waits for the node to run
#[derive(Clone, Debug)]
enum Incoming {
    Custom(Vec<u8>),
    Query([u8; 32], Vec<u8>),
    Ping([u8; 32], u64),
    Answer(usize),
    Garbage,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Outgoing {
    Custom(Vec<u8>),
    Query(Vec<u8>),
    Answer([u8; 32], Vec<u8>),
}

const TIMEOUT: u64 = 1000;

struct Env {
    node: Arc<Node>,
    puppet: Puppet,
    calls: Calls,
    started: bool,
    stopped: bool,
    message_subscribers: Vec<usize>,
    query_subscribers: Vec<usize>,
    registered: usize,
    items: u8,
    inbox: VecDeque<Incoming>,
    /// Datagrams before the start could be lost
    early: Vec<Incoming>,
    outbox: Vec<Outgoing>,
    pending: Vec<Pending>,
    /// Number of datagrams which the socket refuses to send
    failing: usize,
}

const OPS: [&str; 14] = [
    "start", "shutdown", "add message subscriber", "add query subscriber", "custom comes", "query comes",
    "ping comes", "send custom", "send query", "answer comes", "garbage comes", "600 ms pass",
    "receiving fails", "the next sending fails",
];

impl Env {
    fn new() -> Self {
        let sim = Sim::build_stopped(0, &[1], AdnlOptions::default(), None);
        let puppet = Puppet::new(10, 5);
        puppet.introduce(&sim);
        Self {
            node: sim.node,
            puppet,
            calls: Default::default(),
            started: false,
            stopped: false,
            message_subscribers: Vec::new(),
            query_subscribers: Vec::new(),
            registered: 0,
            items: 0,
            inbox: Default::default(),
            early: Vec::new(),
            outbox: Vec::new(),
            pending: Vec::new(),
            failing: 0,
        }
    }

    fn item(&mut self, tag: u32) -> Vec<u8> {
        self.items += 1;
        [&tag.to_le_bytes()[..], &[self.items; 8]].concat()
    }

    /// Puts the datagram into the socket, the node doesn't run
    fn put(&mut self, incoming: Incoming, messages: Option<Vec<Msg>>) {
        let data = match messages {
            Some(messages) => {
                let packet = self.puppet.honest(messages);
                self.puppet.seal_for(1, &packet.to_bytes(), None)
            }
            None => filler(self.items as u64, 100),
        };
        everscale_network::verif::net::deliver(world::port(0), world::addr(5), data);
        if !self.stopped {
            match self.started {
                true => self.inbox.push_back(incoming),
                false => self.early.push(incoming),
            }
        }
    }

    fn apply(&mut self, op: usize) -> Step {
        match op {
            0 => {
                let ok = self.node.start().is_ok();
                ensure!(
                    ok != self.started,
                    "wrong result of start",
                    "start returned {ok}, started before: {}",
                    self.started
                );
                self.started = true;
            }
            1 => {
                self.node.shutdown();
                self.stopped = true;
                self.inbox.clear();
                self.early.clear();
                self.outbox.clear();
            }
            2 | 3 => {
                self.registered += 1;
                let number = self.registered;
                let subscriber = Arc::new(Numbered { number, calls: self.calls.clone() });
                let ok = match op {
                    2 => self.node.add_message_subscriber(subscriber).is_ok(),
                    _ => self.node.add_query_subscriber(subscriber).is_ok(),
                };
                ensure!(
                    ok != self.started,
                    "wrong result of adding a subscriber",
                    "{} returned {ok}, started before: {}",
                    OPS[op],
                    self.started
                );
                if ok {
                    match op {
                        2 => self.message_subscribers.push(number),
                        _ => self.query_subscribers.push(number),
                    }
                }
            }
            4 => {
                let data = self.item(MESSAGE);
                self.put(Incoming::Custom(data.clone()), Some(vec![Msg::Custom(data)]));
            }
            5 => {
                let data = self.item(QUERY);
                let id = [self.items; 32];
                self.put(Incoming::Query(id, data.clone()), Some(vec![Msg::Query { id, data }]));
            }
            6 => {
                self.items += 1;
                let mut id = [self.items; 32];
                id[0] = PING_ID;
                let value = self.items as u64 * 1_000_003;
                let data = bytes_of(proto::rpc::AdnlPing { value });
                self.put(Incoming::Ping(id, value), Some(vec![Msg::Query { id, data }]));
            }
            7 => {
                let data = self.item(MESSAGE);
                let res = self.node.send_custom_message(&short_id(1), &short_id(10), &data);
                if !self.stopped {
                    ensure!(res.is_ok(), "message is not sent", "{res:?}");
                    self.outbox.push(Outgoing::Custom(data));
                }
            }
            8 => {
                let data = self.item(QUERY);
                let done: Done = Default::default();
                tokio::spawn({
                    let (node, done) = (self.node.clone(), done.clone());
                    let data = bytes::Bytes::copy_from_slice(&data);
                    async move {
                        let res: QueryResult =
                            node.query_raw(&short_id(1), &short_id(10), data, Some(TIMEOUT)).await;
                        let res = res.map_err(|e| e.to_string());
                        *done.lock().unwrap() = Some((tokio::time::Instant::now(), res));
                    }
                });
                self.pending.push(Pending {
                    data: data.clone(),
                    started: tokio::time::Instant::now(),
                    done,
                    id: None,
                    answered: false,
                    checked: false,
                });
                if !self.stopped {
                    self.outbox.push(Outgoing::Query(data));
                }
            }
            9 => {
                let index = self
                    .pending
                    .iter()
                    .position(|p| p.id.is_some() && !p.answered && p.done.lock().unwrap().is_none());
                let Some(index) = index else { return Ok(()) };
                let pending = &self.pending[index];
                let message = Msg::Answer {
                    id: pending.id.unwrap(),
                    data: answer_to(&pending.data),
                };
                self.put(Incoming::Answer(index), Some(vec![message]));
            }
            10 => {
                self.items += 1;
                self.put(Incoming::Garbage, None);
            }
            12 => everscale_network::verif::net::fail_recv(world::port(0)),
            13 => {
                everscale_network::verif::net::fail_send(world::port(0));
                self.failing += 1;
            }
            _ => {}
        }
        Ok(())
    }

    /// The node runs until it has nothing to do
    async fn run(&mut self, time: Option<Duration>, c: &mut Chooser<'_>) -> Step {
        let now = tokio::time::Instant::now();
        match time {
            Some(time) => world::advance(time).await,
            None => world::settle().await,
        }

        let mut sent = Vec::new();
        for datagram in world::take_sent() {
            ensure!(
                self.started && !self.stopped,
                "datagram is sent by a stopped node",
                "{} bytes; started: {}, stopped: {}",
                datagram.data.len(),
                self.started,
                self.stopped
            );
            let Some(opened) = self.puppet.open(&datagram) else {
                return Err(harness::explore::Stop::violation("unreadable datagram", "sent by the node"));
            };
            for message in opened.messages {
                match message {
                    Msg::Create { .. } | Msg::Confirm { .. } => {}
                    Msg::Custom(data) => sent.push(Outgoing::Custom(data)),
                    Msg::Query { id, data } => {
                        if let Some(pending) = self.pending.iter_mut().find(|p| p.data == data) {
                            pending.id = Some(id);
                        }
                        sent.push(Outgoing::Query(data));
                    }
                    Msg::Answer { id, data } => sent.push(Outgoing::Answer(id, data)),
                    message => {
                        return Err(harness::explore::Stop::violation("unexpected message", format!("{message:?}")))
                    }
                }
            }
        }
        let calls = std::mem::take(&mut *self.calls.lock().unwrap());

        let mut variants = Vec::new();
        for with_early in [true, false] {
            let mut expected_sent = Vec::new();
            let mut expected_calls = Vec::new();
            let mut answered = Vec::new();
            if self.started && !self.stopped {
                let early = self.early.iter().filter(|_| with_early);
                for incoming in early.chain(self.inbox.iter()) {
                    match incoming {
                        Incoming::Custom(data) => {
                            if let Some(number) = self.message_subscribers.first() {
                                expected_calls.push((*number, false, data.clone()));
                            }
                        }
                        Incoming::Query(id, data) => {
                            if let Some(number) = self.query_subscribers.first() {
                                expected_calls.push((*number, true, data.clone()));
                                expected_sent.push(Outgoing::Answer(*id, service_answer(*number, data)));
                            }
                        }
                        Incoming::Ping(id, value) => expected_sent.push(Outgoing::Answer(
                            *id,
                            bytes_of(proto::adnl::Pong { value: *value }),
                        )),
                        Incoming::Answer(index) => answered.push(*index),
                        Incoming::Garbage => {}
                    }
                }
                expected_sent.extend(self.outbox.iter().cloned());
            }
            expected_sent.sort();
            expected_calls.sort();
            variants.push((expected_sent, expected_calls, answered));
        }
        let mut got_sent = sent;
        got_sent.sort();
        let mut got_calls = calls;
        got_calls.sort();
        if self.stopped {
            ensure!(
                got_calls.is_empty(),
                "stopped node processes datagrams",
                "{got_calls:?}"
            );
        }
        let Some((expected, _, answered)) = variants
            .iter()
            .find(|(sent, calls, _)| {
                let lost = sent.len().min(self.failing);
                is_part(&got_sent, sent) && got_sent.len() + lost == sent.len() && *calls == got_calls
            })
        else {
            return Err(harness::explore::Stop::violation(
                "wrong reaction",
                format!(
                    "sent {got_sent:?}, called {got_calls:?}; expected {:?}, {:?}",
                    variants[0].0, variants[0].1
                ),
            ));
        };
        self.failing -= expected.len() - got_sent.len();
        for index in answered {
            self.pending[*index].answered = true;
        }
        if self.started && !self.stopped {
            self.early.clear();
            self.inbox.clear();
            self.outbox.clear();
        }

        let later = now + time.unwrap_or_default();
        for pending in &mut self.pending {
            let deadline = pending.started + Duration::from_millis(TIMEOUT);
            let done = pending.done.lock().unwrap().clone();
            if pending.checked {
                continue;
            }
            match done {
                None => {
                    ensure!(
                        later < deadline,
                        "query is still pending after its timeout",
                        "{:?} after the start",
                        later - pending.started
                    );
                    ensure!(!pending.answered, "answer is lost", "query is still pending");
                }
                Some((at, res)) => {
                    pending.checked = true;
                    ensure!(
                        at <= deadline + Duration::from_millis(2),
                        "query ended too late",
                        "{:?} after the start",
                        at - pending.started
                    );
                    c.observe((0u8, hash_of(&res)));
                    match res {
                        Ok(Some(answer)) => ensure!(
                            pending.answered && answer == answer_to(&pending.data),
                            "answer from nowhere",
                            "{} bytes",
                            answer.len()
                        ),
                        Ok(None) => {
                            ensure!(!pending.answered, "answer is lost", "query timed out");
                            ensure!(
                                at + Duration::from_millis(2) >= deadline,
                                "query timed out too early",
                                "{:?} after the start",
                                at - pending.started
                            );
                        }
                        Err(e) => ensure!(self.stopped, "query failed in a running node", "{e}"),
                    }
                }
            }
        }
        Ok(())
    }
}

/// Whether all sorted items are among the other sorted ones
fn is_part(items: &[Outgoing], all: &[Outgoing]) -> bool {
    let mut all = all.iter();
    items.iter().all(|item| all.any(|other| other == item))
}

fn alive_tasks() -> usize {
    tokio::runtime::Handle::current().metrics().num_alive_tasks()
}

async fn expect_released(node: Weak<Node>) -> Step {
    ensure!(
        node.upgrade().is_none(),
        "stopped node is not released",
        "it is still referred to after the stop"
    );
    ensure!(
        alive_tasks() == 0,
        "tasks of a stopped node are still running",
        "{} tasks",
        alive_tasks()
    );
    Ok(())
}

fn histories(c: &mut Chooser<'_>, depth: usize) -> Step {
    world::run(29, async {
        let mut env = Env::new();
        for _ in 0..depth {
            let op = c.choose(OPS.len());
            c.note(|| OPS[op].to_owned());
            env.apply(op)?;
            c.step();
            if op == 11 {
                env.run(Some(Duration::from_millis(600)), c).await?;
            } else if c.deviate(2) == 0 {
                env.run(None, c).await?;
            } else {
                c.note(|| "  at once".to_owned());
            }
        }
        env.run(None, c).await?;
        env.run(Some(Duration::from_millis(TIMEOUT + 100)), c).await?;
        ensure!(
            env.node.metrics().query_count == 0,
            "pending queries are kept",
            "{} queries",
            env.node.metrics().query_count
        );
        c.observe((1u8, env.started, env.stopped));
        if env.stopped || !env.started {
            let node = Arc::downgrade(&env.node);
            drop(env);
            world::advance(Duration::from_secs(2)).await;
            expect_released(node).await?;
        }
        Ok(())
    })
}

/// Everything a program has
struct Stack {
    sims: Vec<Arc<Node>>,
    handles: Vec<Box<dyn std::any::Any>>,
    /// Operations and times by which each of them must end
    operations: Vec<(tokio::task::JoinHandle<String>, Duration)>,
}

const SCENARIOS: [&str; 8] = [
    "rldp query with a long question",
    "rldp query with a long answer",
    "dht store",
    "dht search",
    "short broadcast",
    "long broadcast",
    "long adnl query",
    "rldp query over an overlay",
];

fn make_stack(scenario: usize) -> Stack {
    let mut stack = Stack {
        sims: Vec::new(),
        handles: Vec::new(),
        operations: Vec::new(),
    };
    match scenario {
        0 | 1 => {
            let answer: AnswerFn = match scenario {
                0 => Box::new(|query| Some(query[..10].to_vec())),
                _ => Box::new(|query| Some(filler(query.len() as u64, 4000))),
            };
            let a = RldpSim::new(0, rldp::NodeOptions::default(), None);
            let b = RldpSim::new(1, rldp::NodeOptions::default(), Some(answer));
            a.add(&b);
            b.add(&a);
            let query = filler(7, if scenario == 0 { 4000 } else { 50 });
            let (rldp, from, to) = (a.rldp.clone(), a.sim.id(), b.sim.id());
            let bound = Duration::from_millis(
                2 * rldp.options().query_max_timeout_ms + 10_000,
            );
            stack.operations.push((
                tokio::spawn(async move { format!("{:?}", rldp.query(&from, &to, query, None).await.map(|(a, _)| a.map(|a| a.len()))) }),
                bound,
            ));
            stack.sims = vec![a.sim.node.clone(), b.sim.node.clone()];
            stack.handles = vec![Box::new(a), Box::new(b)];
        }
        2 | 3 => {
            let nodes: Vec<_> = (0..3)
                .map(|i| DhtSim::new(i, AdnlOptions::default(), dht::NodeOptions::default()))
                .collect();
            for a in &nodes {
                for b in &nodes {
                    if a.sim.index != b.sim.index {
                        a.dht.add_dht_peer(b.description(world::START)).unwrap();
                    }
                }
            }
            let value = signed_value(1, b"name", 0, world::START + 100, b"some value");
            let dht = nodes[0].dht.clone();
            let operation = match scenario {
                2 => tokio::spawn(async move {
                    let store = dht.store_value(value.as_equivalent_ref()).unwrap();
                    let store = store.then_check(|_, _: tl_proto::BoxedWrapper<proto::adnl::AddressList>| Ok(true));
                    let _ = store.check_all().await;
                    "stored".to_owned()
                }),
                _ => tokio::spawn(async move {
                    let id = *short_id(9).as_slice();
                    let mut values = dht
                        .entry(&id, "name")
                        .values::<tl_proto::BoxedWrapper<proto::adnl::AddressList>>()
                        .use_new_peers(true);
                    format!("{}", values.next().await.is_some())
                }),
            };
            stack.operations.push((operation, Duration::from_secs(30)));
            stack.sims = nodes.iter().map(|n| n.sim.node.clone()).collect();
            stack.handles = nodes.into_iter().map(|n| Box::new(n) as Box<dyn std::any::Any>).collect();
        }
        4 | 5 => {
            let id = overlay(1).compute_short_id();
            let members: Vec<_> = (0..3u8)
                .map(|i| {
                    let peers: Vec<u8> = (1..4).filter(|k| *k != i + 1).collect();
                    OverlaySim::private(i as usize, &id, &peers, Default::default())
                })
                .collect();
            for a in &members {
                for b in &members {
                    if a.sim.index != b.sim.index {
                        a.sim.add(&b.sim);
                    }
                }
            }
            let data = filler(3, if scenario == 4 { 300 } else { 3000 });
            let info = members[0].overlay.broadcast(
                &members[0].sim.node,
                data,
                None,
                everscale_network::overlay::BroadcastTarget::RandomNeighbours,
            );
            let sent = format!("{}", info.packets);
            stack.operations.push((tokio::spawn(async move { sent }), Duration::from_secs(1)));
            stack.sims = members.iter().map(|n| n.sim.node.clone()).collect();
            stack.handles = members.into_iter().map(|n| Box::new(n) as Box<dyn std::any::Any>).collect();
        }
        6 => {
            let (a, b) = pair(AdnlOptions::default());
            let handle = a.query(&b, &payload(QUERY, 4, 3000), Some(1000));
            stack.operations.push((
                tokio::spawn(async move { format!("{:?}", handle.await.unwrap().map(|a| a.map(|a| a.len()))) }),
                Duration::from_secs(2),
            ));
            stack.sims = vec![a.node.clone(), b.node.clone()];
            stack.handles = vec![Box::new(a), Box::new(b)];
        }
        _ => {
            let id = overlay(1).compute_short_id();
            let nodes: Vec<_> = (0..2usize)
                .map(|i| {
                    let sim = Sim::build_stopped(i, &[i as u8 + 1], AdnlOptions::default(), None);
                    let overlays = everscale_network::overlay::Node::new(sim.node.clone(), 0).unwrap();
                    let rldp = rldp::Node::new(
                        sim.node.clone(),
                        vec![overlays.query_subscriber()],
                        rldp::NodeOptions::default(),
                    )
                    .unwrap();
                    let (overlay, _) = overlays.add_public_overlay(&id, Default::default());
                    overlays.add_overlay_subscriber(id, sim.app.clone());
                    sim.start();
                    (sim, overlays, rldp, overlay)
                })
                .collect();
            nodes[0].0.add(&nodes[1].0);
            nodes[1].0.add(&nodes[0].0);
            let (rldp, overlay) = (nodes[0].2.clone(), nodes[0].3.clone());
            let (from, to) = (nodes[0].0.id(), nodes[1].0.id());
            let _ = from;
            let bound = Duration::from_millis(2 * rldp.options().query_max_timeout_ms + 10_000);
            stack.operations.push((
                tokio::spawn(async move {
                    let query = payload(QUERY, 4, 3000);
                    let res = overlay.rldp_query(&rldp, &to, Raw(query), None).await;
                    format!("{:?}", res.map(|(a, _)| a.map(|a| a.len())))
                }),
                bound,
            ));
            stack.sims = nodes.iter().map(|n| n.0.node.clone()).collect();
            stack.handles = nodes.into_iter().map(|n| Box::new(n) as Box<dyn std::any::Any>).collect();
        }
    }
    stack
}

/// Bytes which are sent as they are
struct Raw(Vec<u8>);

impl tl_proto::TlWrite for Raw {
    type Repr = tl_proto::Boxed;

    fn max_size_hint(&self) -> usize {
        self.0.len()
    }

    fn write_to<P: tl_proto::TlPacket>(&self, packet: &mut P) {
        packet.write_raw_slice(&self.0);
    }
}

/// One of the nodes is stopped in the middle of its work
fn interrupted(c: &mut Chooser<'_>, max: usize) -> Step {
    let scenario = c.choose(SCENARIOS.len());
    c.note(|| SCENARIOS[scenario].to_owned());
    let who = c.choose(if matches!(scenario, 2..=5) { 3 } else { 2 });
    let after = c.choose(max);
    let hurried = c.flag();
    c.note(|| format!("node {who} is stopped after {after} datagrams, at once: {hurried}"));
    world::run(2900, async {
        let mut stack = make_stack(scenario);
        if !hurried || after > 0 {
            world::settle().await;
        }
        let started = tokio::time::Instant::now();
        let mut queue: VecDeque<world::Datagram> = VecDeque::new();
        let mut delivered = 0;
        let mut stopped = false;
        let mut max_bound = Duration::ZERO;
        for (_, bound) in &stack.operations {
            max_bound = max_bound.max(*bound);
        }
        loop {
            if !stopped && delivered == after {
                queue.extend(world::take_sent());
                stack.sims[who].shutdown();
                stopped = true;
                world::settle().await;
            }
            let sent = world::take_sent();
            if stopped {
                let late = sent.iter().filter(|d| d.from == world::port(who)).count();
                ensure!(
                    late == 0,
                    "datagram is sent by a stopped node",
                    "{} datagrams, {}",
                    late,
                    SCENARIOS[scenario]
                );
            }
            queue.extend(sent);
            if let Some(datagram) = queue.pop_front() {
                delivered += 1;
                c.step();
                let from = datagram.from;
                let (to, data) = (datagram.to.port(), datagram.data);
                if hurried && delivered == after {
                    // The receiver has no chance to see it
                    everscale_network::verif::net::deliver(to, world::addr((from - 10_000) as usize), data);
                } else {
                    world::deliver_raw(to, from, data).await;
                }
                ensure!(delivered < 50_000, "endless exchange", "{} datagrams", delivered);
                continue;
            }
            if started.elapsed() > max_bound {
                break;
            }
            world::advance(Duration::from_millis(50)).await;
        }
        if !stopped {
            // It ended earlier
            c.observe("short");
        }
        for (operation, bound) in stack.operations.drain(..) {
            ensure!(
                operation.is_finished(),
                "operation does not end",
                "{} still runs after {bound:?}",
                SCENARIOS[scenario]
            );
            let result = operation.await.unwrap();
            c.note(|| format!("result: {result}"));
            c.observe(result);
        }
        let nodes: Vec<_> = stack.sims.iter().map(Arc::downgrade).collect();
        for node in &stack.sims {
            node.shutdown();
        }
        drop(stack);
        world::advance(Duration::from_secs(3600)).await;
        for node in nodes {
            expect_released(node).await?;
        }
        Ok(())
    })
}

/// A node which offers every service and peers of it
struct Service {
    sim: Sim,
    overlay_id: everscale_network::overlay::IdShort,
    handles: Vec<Box<dyn std::any::Any>>,
    attacker: Puppet,
    witness: Puppet,
}

impl Service {
    async fn new() -> Self {
        let sim = Sim::build_stopped(0, &[1], AdnlOptions::default(), None);
        let overlay_id = overlay(1).compute_short_id();
        let overlays = everscale_network::overlay::Node::new(sim.node.clone(), 0).unwrap();
        let key = sim.node.key_by_tag(0).unwrap().clone();
        let (overlay, _) =
            overlays.add_private_overlay(&overlay_id, key, &[short_id(10), short_id(12)], Default::default());
        let (public, _) = overlays.add_public_overlay(&harness::dhtkit::overlay(2).compute_short_id(), Default::default());
        overlays.add_overlay_subscriber(overlay_id, sim.app.clone());
        let rldp = rldp::Node::new(
            sim.node.clone(),
            vec![overlays.query_subscriber(), sim.app.clone()],
            rldp::NodeOptions::default(),
        )
        .unwrap();
        let dht = dht::Node::new(sim.node.clone(), 0, dht::NodeOptions::default()).unwrap();
        sim.node.start().unwrap();
        let mut attacker = Puppet::new(10, 5);
        attacker.connect(&sim).await;
        let mut witness = Puppet::new(12, 7);
        witness.connect(&sim).await;
        world::take_sent();
        Self {
            sim,
            overlay_id,
            handles: vec![Box::new(overlays), Box::new(overlay), Box::new(public), Box::new(rldp), Box::new(dht)],
            attacker,
            witness,
        }
    }

    /// Datagrams the node gets from the attacker when nothing is wrong
    fn datagrams(&mut self) -> Vec<(&'static str, Vec<u8>)> {
        let messages = vec![Msg::Custom(payload(MESSAGE, 1, 12)), Msg::Nop];
        let handshake = self.attacker.honest(messages.clone());
        let channel = self.attacker.channel_packet(messages);
        vec![
            ("handshake", self.attacker.seal_for(1, &handshake.to_bytes(), None)),
            ("handshake with a version", self.attacker.seal_for(1, &handshake.to_bytes(), Some(0))),
            ("ordinary channel packet", self.attacker.seal_in_channel(&channel.to_bytes(), false, None)),
            ("priority channel packet", self.attacker.seal_in_channel(&channel.to_bytes(), true, None)),
            ("channel packet with a version", self.attacker.seal_in_channel(&channel.to_bytes(), false, Some(0))),
        ]
    }

    async fn put(&mut self, data: Vec<u8>) {
        world::deliver_raw(world::port(0), world::port(5), data).await;
    }

    /// Whether the node still does its work
    async fn check(mut self, c: &mut Chooser<'_>) -> Step {
        c.observe(world::take_sent().len());
        ensure!(
            world::now() == world::START,
            "harness is broken",
            "time has passed"
        );
        for (value, via) in [(1u64, "handshake"), (2, "channel")] {
            let id = [value as u8; 32];
            let data = bytes_of(proto::rpc::AdnlPing { value });
            let message = Msg::Query { id, data };
            match via {
                "channel" => {
                    let packet = self.witness.channel_packet(vec![message]);
                    self.witness.deliver_in_channel(&self.sim, &packet, false).await;
                }
                _ => self.witness.say(&self.sim, vec![message]).await,
            }
            let expected = Msg::Answer { id, data: bytes_of(proto::adnl::Pong { value }) };
            let answered = world::take_sent()
                .iter()
                .filter_map(|datagram| self.witness.open(datagram))
                .any(|opened| opened.messages.contains(&expected));
            ensure!(answered, "node does not serve others any more", "ping in a {via} is not answered");
        }
        let sent = self.sim.node.send_custom_message(&self.sim.id(), &short_id(12), &payload(MESSAGE, 3, 20));
        ensure!(sent.is_ok(), "node cannot send any more", "{sent:?}");
        world::settle().await;
        let delivered = world::take_sent()
            .iter()
            .filter_map(|datagram| self.witness.open(datagram))
            .any(|opened| opened.messages.contains(&Msg::Custom(payload(MESSAGE, 3, 20))));
        ensure!(delivered, "node cannot send any more", "message is not sent");

        let node = Arc::downgrade(&self.sim.node);
        self.sim.node.shutdown();
        self.handles.clear();
        drop(self);
        world::advance(Duration::from_secs(600)).await;
        expect_released(node).await
    }
}

/// One invalid datagram
fn datagrams(c: &mut Chooser<'_>, dense: bool) -> Step {
    let kind = c.choose(2);
    world::run(2901, async {
        let mut service = Service::new().await;
        let mut samples = service.datagrams();
        let data = if kind == 0 {
            let lengths: Vec<usize> = (0..=140)
                .chain([1000, 2047, 2048, 2049, 4096, 65_507])
                .collect();
            let length = c.one_of(&lengths);
            let fill = c.choose(3);
            let prefix = c.choose(5);
            c.note(|| format!("{length} bytes, fill {fill}, prefix {prefix}"));
            let mut data = match fill {
                0 => vec![0; length],
                1 => vec![0xff; length],
                _ => filler(length as u64, length),
            };
            let prefix = match prefix {
                0 => Vec::new(),
                1 => samples[0].1[..32].to_vec(),
                2 => samples[2].1[..32].to_vec(),
                3 => samples[3].1[..32].to_vec(),
                _ => service.overlay_id.as_slice().to_vec(),
            };
            let common = prefix.len().min(length);
            data[..common].copy_from_slice(&prefix[..common]);
            data
        } else {
            let index = c.choose(samples.len());
            let (name, mut data) = samples.swap_remove(index);
            let what = c.choose(3);
            match what {
                0 => {
                    let length = c.choose(data.len());
                    c.note(|| format!("{name} cut to {length}"));
                    data.truncate(length);
                }
                1 => {
                    let extra = c.one_of(&[1, 2, 3, 4, 8, 16, 1000, 2048]);
                    c.note(|| format!("{name} and {extra} more"));
                    data.extend(vec![0x5a; extra]);
                }
                _ => {
                    let at = c.choose(data.len());
                    let masks: &[u8] = if dense { &[1, 2, 4, 8, 16, 32, 64, 128] } else { &[1, 0x80] };
                    let mask = c.one_of(masks);
                    c.note(|| format!("{name} with {mask:#x} at {at}"));
                    data[at] ^= mask;
                }
            }
            data
        };
        let times = 1 + c.choose(2);
        for _ in 0..times {
            service.put(data.clone()).await;
        }
        service.check(c).await
    })
}

/// Something every service could be asked
fn requests(service: &Service) -> Vec<(&'static str, bool, Vec<u8>)> {
    let id = &service.overlay_id;
    let value = signed_value(10, b"name", 1, world::START + 1000, b"some value");
    let member = overlay_node(10, &overlay(2).compute_short_id(), world::START);
    let nodes = overlay_value(&overlay(2), &[member.clone()], world::START + 1000);
    let key = [7; 32];
    let ping = bytes_of(proto::rpc::DhtPing { random_id: 1 });
    let node = dht_node(10, 5, world::START);
    let prefix = bytes_of(proto::rpc::DhtQuery { node: node.as_equivalent_ref() });
    let short = Short::new(10, b"some data", world::START).to_bytes(id);
    let content = filler(1, 1000);
    let fec = fec_parts(10, &content, &content, world::START, 0..1).remove(0).to_bytes(id);
    let rldp = |payload: &[u8]| RldpMsg::Part(parts([5; 32], payload, 0..1).remove(0)).to_bytes();
    let compressed = {
        let mut data = zstd::bulk::compress(&filler(2, 300), 3).unwrap();
        data.extend(300u32.to_be_bytes());
        data
    };
    vec![
        ("adnl ping", true, bytes_of(proto::rpc::AdnlPing { value: 1 })),
        ("dht ping", true, ping.clone()),
        ("dht find node", true, bytes_of(proto::rpc::DhtFindNode { key: &key, k: 3 })),
        ("dht find value", true, bytes_of(proto::rpc::DhtFindValue { key: &key, k: 3 })),
        ("dht store", true, bytes_of(proto::rpc::DhtStore { value: value.as_equivalent_ref() })),
        ("dht store of overlay nodes", true, bytes_of(proto::rpc::DhtStore { value: nodes.as_equivalent_ref() })),
        ("dht address list", true, bytes_of(proto::rpc::DhtGetSignedAddressList)),
        ("dht query with a node", true, [prefix.clone(), ping.clone()].concat()),
        ("dht query in a query", true, [prefix.clone(), prefix.clone(), ping].concat()),
        ("dht node alone", true, prefix),
        ("random peers", true, {
            let nodes = proto::overlay::NodesOwned { nodes: vec![member].into() };
            let mut query = query_prefix(&overlay(2).compute_short_id());
            query.extend(tl_proto::serialize(proto::rpc::OverlayGetRandomPeersOwned { peers: nodes }));
            query
        }),
        ("query in an overlay", true, [query_prefix(id), payload(QUERY, 1, 20)].concat()),
        ("short broadcast", false, short),
        ("long broadcast", false, fec),
        ("unknown message in an overlay", false, [message_prefix(id), payload(MESSAGE, 1, 20)].concat()),
        ("rldp query", false, rldp(&query_payload([6; 32], 1000, &payload(QUERY, 1, 20)))),
        ("rldp query in an overlay", false, rldp(&query_payload([6; 32], 1000, &[query_prefix(id), payload(QUERY, 1, 20)].concat()))),
        ("compressed rldp query", false, rldp(&query_payload([6; 32], 1000, &compressed))),
        ("rldp answer", false, rldp(&harness::rldpkit::answer_payload([6; 32], &payload(QUERY, 1, 20)))),
        ("rldp confirm", false, RldpMsg::Confirm { transfer: [5; 32], part: 0, seqno: 1 }.to_bytes()),
        ("rldp complete", false, RldpMsg::Complete { transfer: [5; 32], part: 0 }.to_bytes()),
    ]
}

const COUNT_REQUESTS: usize = 21;

/// One invalid request
fn invalid_requests(c: &mut Chooser<'_>, dense: bool) -> Step {
    world::run(2902, async {
        let mut service = Service::new().await;
        let mut all = requests(&service);
        assert_eq!(all.len(), COUNT_REQUESTS);
        let index = c.choose(all.len());
        let (name, is_query, mut data) = all.swap_remove(index);
        let step = if dense || data.len() < 100 { 1 } else { 4 };
        match c.choose(4) {
            0 => {
                let length = c.choose(data.len() / step + 1) * step;
                c.note(|| format!("{name} cut to {length}"));
                data.truncate(length);
            }
            1 => {
                let extra = c.one_of(&[1, 3, 4, 32, 1000]);
                c.note(|| format!("{name} and {extra} more"));
                data.extend(vec![0x5a; extra]);
            }
            2 => {
                let at = c.choose(data.len().div_ceil(step)) * step;
                let mask = if dense { c.one_of(&[0xff, 1, 0x80, 0x10]) } else { c.one_of(&[0xff, 1]) };
                c.note(|| format!("{name} with {mask:#x} at {at}"));
                data[at] ^= mask;
            }
            _ => {
                let at = c.choose(data.len() / 4) * 4;
                let value: u32 = c.one_of(&[0, 0xffff_ffff, 0x7fff_ffff, 0x8000_0000, 0x0001_0000]);
                c.note(|| format!("{name} with {value:#x} at {at}"));
                data[at..at + 4].copy_from_slice(&value.to_le_bytes());
            }
        }
        let is_query = is_query ^ c.flag();
        let message = match is_query {
            true => Msg::Query { id: [9; 32], data },
            false => Msg::Custom(data),
        };
        let packet = service.attacker.channel_packet(vec![message]);
        service.attacker.deliver_in_channel(&service.sim, &packet, false).await;
        service.check(c).await
    })
}

/// One invalid packet in a channel
fn packets(c: &mut Chooser<'_>, dense: bool) -> Step {
    world::run(2903, async {
        let mut service = Service::new().await;
        let messages = match c.choose(3) {
            0 => vec![Msg::Custom(payload(MESSAGE, 1, 12))],
            1 => vec![Msg::Nop, Msg::Answer { id: [1; 32], data: vec![1; 4] }],
            _ => {
                let hash = [8; 32];
                vec![Msg::Part { hash, total: 100, offset: 0, data: vec![1; 40] }]
            }
        };
        let mut data = service.attacker.channel_packet(messages).to_bytes();
        match c.choose(3) {
            0 => {
                let length = c.choose(data.len());
                c.note(|| format!("cut to {length}"));
                data.truncate(length);
            }
            1 => {
                let at = c.choose(data.len());
                let mask = if dense { c.one_of(&[0xff, 1, 0x80, 0x10, 2, 4, 8]) } else { c.one_of(&[0xff, 1]) };
                c.note(|| format!("{mask:#x} at {at}"));
                data[at] ^= mask;
            }
            _ => {
                let at = c.choose(data.len() / 4) * 4;
                let value: u32 = c.one_of(&[0, 0xffff_ffff, 0x7fff_ffff, 0x8000_0000]);
                c.note(|| format!("{value:#x} at {at}"));
                data[at..at + 4].copy_from_slice(&value.to_le_bytes());
            }
        }
        let priority = c.flag();
        let datagram = service.attacker.seal_in_channel(&data, priority, None);
        service.put(datagram).await;
        service.check(c).await
    })
}

/// Parameters of codes which make no sense
fn codes(c: &mut Chooser<'_>, wide: bool) -> Step {
    let values: &[u32] = if wide {
        &[0, 1, 2, 255, 256, 768, 1000, 65_535, 65_536, 1 << 24, u32::MAX]
    } else {
        &[0, 1, 768, 65_536, u32::MAX]
    };
    let is_broadcast = c.flag();
    let total = c.one_of(values);
    let packet = c.one_of(values);
    let count = c.one_of(values);
    let size = c.one_of(&[values[0], values[2], values[values.len() - 1], total]);
    let seqno = c.one_of(&[0u32, 1, 1 << 24, u32::MAX]);
    let len = c.one_of(&[0usize, 1, 768, 1000]);
    c.note(|| format!("broadcast: {is_broadcast}, {total}/{packet}/{count}, size {size}, seqno {seqno}, data {len}"));
    world::run(2904, async {
        let mut service = Service::new().await;
        let message = if is_broadcast {
            let content = filler(1, 1000);
            let mut fec = fec_parts(10, &content, &content, world::START, 0..1).remove(0);
            fec.params = (total, packet, count);
            fec.data_size = size;
            fec.seqno = seqno;
            fec.data = filler(2, len);
            fec.signed(10).to_bytes(&service.overlay_id)
        } else {
            RldpMsg::Part(harness::rldpkit::Part {
                transfer: [5; 32],
                total_len: total,
                packet_len: packet,
                packet_count: count,
                part: 0,
                total_size: size as u64,
                seqno,
                data: filler(2, len),
            })
            .to_bytes()
        };
        let packet = service.attacker.channel_packet(vec![Msg::Custom(message)]);
        service.attacker.deliver_in_channel(&service.sim, &packet, false).await;
        service.check(c).await
    })
}

const NESTED: &str = "C29_NESTED";
/// Stack of a worker thread of the runtime by default
const STACK: usize = 2 << 20;

/// Many levels of the same prefix in one request. Runs in its own process
fn serve_nested(levels: usize) -> Step {
    let body = move || {
        world::run(2905, async {
            let mut service = Service::new().await;
            let node = dht_node(10, 5, world::START);
            let prefix = bytes_of(proto::rpc::DhtQuery { node: node.as_equivalent_ref() });
            let mut query = prefix.repeat(levels);
            query.extend(bytes_of(proto::rpc::DhtPing { random_id: 1 }));
            let message = Msg::Query { id: [9; 32], data: query }.to_bytes();
            let hash: [u8; 32] = sha2::Digest::finalize(<sha2::Sha256 as sha2::Digest>::new_with_prefix(&message)).into();
            for (i, data) in message.chunks(1000).enumerate() {
                let part = Msg::Part {
                    hash,
                    total: message.len() as u32,
                    offset: i as u32 * 1000,
                    data: data.to_vec(),
                };
                let packet = service.attacker.channel_packet(vec![part]);
                service.attacker.deliver_in_channel(&service.sim, &packet, false).await;
            }
            service.check(&mut Chooser::new(&[], 0, false)).await
        })
    };
    std::thread::Builder::new().stack_size(STACK).spawn(body).unwrap().join().unwrap()
}

fn nested(c: &mut Chooser<'_>) -> Step {
    let levels = c.one_of(&[0usize, 1, 2, 10, 100, 1000, 3000, 10_000]);
    c.note(|| format!("{levels} nested queries"));
    let output = std::process::Command::new(std::env::current_exe().unwrap())
        .env(NESTED, levels.to_string())
        .output()
        .expect("cannot start a process");
    c.observe(output.status.code());
    match output.status.code() {
        Some(0) => Ok(()),
        Some(3) => Err(harness::explore::Stop::violation(
            "node does not serve others after a nested request",
            String::from_utf8_lossy(&output.stdout).into_owned(),
        )),
        _ => Err(harness::explore::Stop::violation(
            "process of the node died from a nested request",
            format!("{levels} levels, {}", output.status),
        )),
    }
}

fn main() {
    if let Ok(levels) = std::env::var(NESTED) {
        match serve_nested(levels.parse().unwrap()) {
            Ok(()) => std::process::exit(0),
            Err(e) => {
                println!("{e:?}");
                std::process::exit(3)
            }
        }
    }
    check_main("C29", |ctx| {
        ctx.assume("the socket is a stand-in which hands over whole datagrams and never fails");
        let depth = ctx.tiered(4, 5);
        let hurried = ctx.tiered(2, 3);
        ctx.explore(
            Suite {
                name: "histories".to_owned(),
                about: format!(
                    "all sequences of {depth} of {} lifecycle and traffic operations, up to {hurried} of them \
                     followed by the next one before the node runs",
                    OPS.len()
                ),
                bound: hurried,
            },
            |c| histories(c, depth),
        );
        let max = ctx.tiered(14, 60);
        ctx.explore(
            Suite {
                name: "interrupted".to_owned(),
                about: format!(
                    "{} scenarios, each node stopped after each of the first {max} datagrams, with and \
                     without letting the last one be processed",
                    SCENARIOS.len()
                ),
                bound: 0,
            },
            |c| interrupted(c, max),
        );
        let dense = ctx.is_thorough();
        ctx.explore(
            Suite {
                name: "datagrams".to_owned(),
                about: "one datagram (once and twice) of 147 lengths with 3 fillings and 5 beginnings, or one of 5 \
                        valid datagrams cut to every length, extended or with a changed bit in every byte"
                    .to_owned(),
                bound: 0,
            },
            |c| datagrams(c, dense),
        );
        ctx.explore(
            Suite {
                name: "packets".to_owned(),
                about: "one packet in a channel, cut to every length or changed at every place".to_owned(),
                bound: 0,
            },
            |c| packets(c, dense),
        );
        ctx.explore(
            Suite {
                name: "requests".to_owned(),
                about: format!(
                    "{COUNT_REQUESTS} requests and messages to all services, as a query and as a message, cut, \
                     extended or changed at every place"
                ),
                bound: 0,
            },
            |c| invalid_requests(c, dense),
        );
        ctx.explore(
            Suite {
                name: "codes".to_owned(),
                about: "parts of RLDP messages and broadcasts with all combinations of extreme parameters".to_owned(),
                bound: 0,
            },
            |c| codes(c, dense),
        );
        ctx.explore(
            Suite {
                name: "nested".to_owned(),
                about: "requests to the DHT with 0 to 10000 nested prefixes, the node runs in its own process on \
                        a thread with a 2 MB stack"
                    .to_owned(),
                bound: 0,
            },
            nested,
        );
    })
}
