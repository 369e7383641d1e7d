//! C08: incoming traffic reaches the right subscriber, in order, once

use std::borrow::Cow;
use std::sync::{Arc, Mutex};

use anyhow::Result;
use everscale_network::adnl::Node;
use everscale_network::{MessageSubscriber, QueryConsumingResult, QuerySubscriber, SubscriberContext};
use harness::nodes::*;
use harness::puppet::{Msg, Packet, Puppet};
use harness::rldpkit::RldpSim;
use harness::util::hash_of;
use harness::world;
use harness::{check_main, ensure, Chooser, Step, Suite};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Behaviour {
    Answer,
    Silent,
    Reject,
    Fail,
    /// Rejects everything but what starts with its own tag
    Own,
    /// Like `Fail`, but only for its own tag
    FailOwn,
    /// Answers with nothing
    Empty,
}

const ALL: [Behaviour; 7] = [
    Behaviour::Answer,
    Behaviour::Silent,
    Behaviour::Reject,
    Behaviour::Fail,
    Behaviour::Own,
    Behaviour::FailOwn,
    Behaviour::Empty,
];

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
struct Offer {
    subscriber: usize,
    query: bool,
    constructor: u32,
    data: Vec<u8>,
    local: u8,
    peer: u8,
}

struct Subscriber {
    index: usize,
    behaviour: Behaviour,
    log: Arc<Mutex<Vec<Offer>>>,
}

fn own(index: usize) -> u32 {
    0x7700_0000 + index as u32
}

fn answer_of(subscriber: usize, data: &[u8]) -> Vec<u8> {
    let mut answer = vec![subscriber as u8, 9, 9, 9];
    answer.extend_from_slice(data);
    answer
}

impl Subscriber {
    fn push(&self, ctx: SubscriberContext<'_>, query: bool, constructor: u32, data: &[u8]) {
        let key = |id: &everscale_network::adnl::NodeIdShort| {
            (0..100).find(|k| short_id(*k) == *id).unwrap_or(255)
        };
        self.log.lock().unwrap().push(Offer {
            subscriber: self.index,
            query,
            constructor,
            data: data.to_vec(),
            local: key(ctx.local_id),
            peer: key(ctx.peer_id),
        });
    }
}

#[async_trait::async_trait]
impl MessageSubscriber for Subscriber {
    async fn try_consume_custom<'a>(
        &self,
        ctx: SubscriberContext<'a>,
        constructor: u32,
        data: &'a [u8],
    ) -> Result<bool> {
        self.push(ctx, false, constructor, data);
        match self.behaviour {
            Behaviour::Answer | Behaviour::Silent | Behaviour::Empty => Ok(true),
            Behaviour::Reject => Ok(false),
            Behaviour::Own => Ok(constructor == own(self.index)),
            Behaviour::FailOwn if constructor != own(self.index) => Ok(false),
            Behaviour::Fail | Behaviour::FailOwn => anyhow::bail!("failed"),
        }
    }
}

#[async_trait::async_trait]
impl QuerySubscriber for Subscriber {
    async fn try_consume_query<'a>(
        &self,
        ctx: SubscriberContext<'a>,
        constructor: u32,
        query: Cow<'a, [u8]>,
    ) -> Result<QueryConsumingResult<'a>> {
        self.push(ctx, true, constructor, &query);
        // Give others a chance to run
        tokio::task::yield_now().await;
        let answer = Ok(QueryConsumingResult::Consumed(Some(answer_of(self.index, &query))));
        match self.behaviour {
            Behaviour::Answer => answer,
            Behaviour::Silent => Ok(QueryConsumingResult::Consumed(None)),
            Behaviour::Empty => Ok(QueryConsumingResult::Consumed(Some(Vec::new()))),
            Behaviour::Own if constructor == own(self.index) => answer,
            Behaviour::Reject | Behaviour::Own => Ok(QueryConsumingResult::Rejected(query)),
            Behaviour::FailOwn if constructor != own(self.index) => Ok(QueryConsumingResult::Rejected(query)),
            Behaviour::Fail | Behaviour::FailOwn => anyhow::bail!("failed"),
        }
    }
}

/// What must happen to one message
#[derive(Default)]
struct Expected {
    offers: Vec<Offer>,
    answer: Option<Vec<u8>>,
}

fn expected(behaviours: &[Behaviour], query: bool, data: &[u8], local: u8) -> Expected {
    let mut res = Expected::default();
    if data.len() < 4 {
        return res;
    }
    let constructor = u32::from_le_bytes(data[..4].try_into().unwrap());
    for (i, b) in behaviours.iter().enumerate() {
        res.offers.push(Offer {
            subscriber: i,
            query,
            constructor,
            data: data.to_vec(),
            local,
            peer: 7,
        });
        match b {
            Behaviour::Answer => {
                res.answer = Some(answer_of(i, data));
                return res;
            }
            Behaviour::Empty => {
                res.answer = Some(Vec::new());
                return res;
            }
            Behaviour::Own if constructor == own(i) => {
                res.answer = Some(answer_of(i, data));
                return res;
            }
            Behaviour::FailOwn if constructor != own(i) => {}
            Behaviour::Reject | Behaviour::Own => {}
            Behaviour::Silent | Behaviour::Fail | Behaviour::FailOwn => return res,
        }
    }
    if constructor == everscale_network::proto::rpc::AdnlPing::TL_ID && data.len() == 12 {
        let mut pong = everscale_network::proto::adnl::Pong::TL_ID.to_le_bytes().to_vec();
        pong.extend_from_slice(&data[4..]);
        res.answer = Some(pong);
    }
    res
}

async fn run(ch: &mut Chooser<'_>, max: usize, packets: usize, per_packet: usize) -> Step {
    let count = ch.choose(max + 1);
    let behaviours: Vec<Behaviour> = (0..count).map(|_| ch.one_of(&ALL)).collect();
    let log = Arc::new(Mutex::new(Vec::new()));
    let node = Node::new(world::addr(0), keystore(&[1, 11]), Default::default(), None).unwrap();
    for (index, behaviour) in behaviours.iter().enumerate() {
        let subscriber = Arc::new(Subscriber {
            index,
            behaviour: *behaviour,
            log: log.clone(),
        });
        node.add_message_subscriber(subscriber.clone()).unwrap();
        node.add_query_subscriber(subscriber).unwrap();
    }
    node.start().unwrap();
    let sim = Sim {
        index: 0,
        keys: vec![1, 11],
        node,
        app: Default::default(),
    };
    let local = if per_packet == 1 { ch.one_of(&[1u8, 11]) } else { 1 };
    let in_channel = local == 1 && ch.flag();
    let mut puppet = Puppet::new(7, 6);
    if in_channel {
        puppet.connect(&sim).await;
    } else {
        assert!(sim.add_as(local, 7, 6));
    }
    log.lock().unwrap().clear();
    world::take_sent();
    let mut ping = everscale_network::proto::rpc::AdnlPing::TL_ID.to_le_bytes().to_vec();
    ping.extend([1, 2, 3, 4, 5, 6, 7, 8]);
    let mut counter = 0u8;
    for _ in 0..packets {
        let mut messages = Vec::new();
        let mut offers = Vec::new();
        let mut answers = Vec::new();
        for _ in 0..per_packet {
            counter += 1;
            let kind = ch.choose(if per_packet > 1 { 9 } else { 8 });
            let tagged = |tag: u32| {
                let mut data = tag.to_le_bytes().to_vec();
                data.extend([counter; 7]);
                data
            };
            let (query, data) = match kind {
                0 => (true, tagged(own(0))),
                1 => (false, tagged(own(0))),
                2 => (true, tagged(own(1))),
                3 => (false, tagged(own(1))),
                4 => (true, ping.clone()),
                5 => (true, ping[..9].to_vec()),
                6 => (true, vec![1, 2]),
                7 => (false, vec![1, 2, 3]),
                _ => {
                    messages.push(Msg::Part {
                        hash: [1; 32],
                        total: 4,
                        offset: 100,
                        data: vec![1],
                    });
                    continue;
                }
            };
            let e = expected(&behaviours, query, &data, local);
            offers.extend(e.offers);
            if query {
                let id = [counter; 32];
                if let Some(answer) = e.answer {
                    answers.push((id, answer));
                }
                messages.push(Msg::Query { id, data });
            } else {
                messages.push(Msg::Custom(data));
            }
        }
        ch.note(|| format!("{behaviours:?}, to {local}, channel {in_channel}: {messages:?}"));
        ch.step();
        if in_channel {
            let packet: Packet = puppet.channel_packet(messages);
            puppet.deliver_in_channel(&sim, &packet, true).await;
        } else {
            let packet = puppet.honest(messages);
            let data = puppet.seal_for(local, &packet.to_bytes(), None);
            world::deliver_raw(world::port(0), world::port(6), data).await;
        }
        let seen = std::mem::take(&mut *log.lock().unwrap());
        ensure!(
            seen.iter().all(|o| o.data.len() >= 4),
            "message without a constructor",
            "{seen:?}"
        );
        ensure!(
            seen == offers,
            "offers",
            "{behaviours:?} are offered\n{seen:?}\ninstead of\n{offers:?}"
        );
        let mut sent = Vec::new();
        for d in world::take_sent() {
            let opened = puppet.open(&d);
            ensure!(opened.is_some(), "answer", "an answer can't be opened");
            for m in opened.unwrap().messages {
                match m {
                    Msg::Answer { id, data } => sent.push((id, data)),
                    Msg::Create { .. } | Msg::Confirm { .. } => {}
                    m => ensure!(false, "unexpected message", "{m:?} is sent"),
                }
            }
        }
        ensure!(sent == answers, "answers", "answers are {sent:?} instead of {answers:?}");
        ch.visit(hash_of(&(&behaviours, &offers, &sent)));
        ch.observe((offers.len(), sent.len()));
    }
    Ok(())
}

/// Queries and messages of several packets
async fn large(ch: &mut Chooser<'_>) -> Step {
    let behaviours: Vec<Behaviour> = (0..3).map(|_| ch.one_of(&ALL)).collect();
    let query = ch.flag();
    let len = ch.one_of(&[900usize, 980, 1100, 3000]);
    let log = Arc::new(Mutex::new(Vec::new()));
    let a = Sim::build(6, &[7], Default::default(), None);
    let node = Node::new(world::addr(0), keystore(&[1]), Default::default(), None).unwrap();
    for (index, behaviour) in behaviours.iter().enumerate() {
        let subscriber = Arc::new(Subscriber {
            index,
            behaviour: *behaviour,
            log: log.clone(),
        });
        node.add_message_subscriber(subscriber.clone()).unwrap();
        node.add_query_subscriber(subscriber).unwrap();
    }
    node.start().unwrap();
    let b = Sim {
        index: 0,
        keys: vec![1],
        node,
        app: Default::default(),
    };
    a.add(&b);
    let data = payload(own(1), 5, len);
    let e = expected(&behaviours, query, &data, 1);
    ch.step();
    if query {
        let pending = a.query(&b, &data, Some(600));
        world::flush().await;
        world::advance(std::time::Duration::from_secs(1)).await;
        let answer = pending.await.unwrap().unwrap();
        ensure!(answer == e.answer, "answers", "got {answer:?}");
    } else {
        a.send(&b, &data).unwrap();
        world::flush().await;
    }
    let seen = std::mem::take(&mut *log.lock().unwrap());
    ensure!(seen == e.offers, "offers", "{} offers instead of {}", seen.len(), e.offers.len());
    ch.visit(hash_of(&(&behaviours, query, len)));
    Ok(())
}

/// Queries over RLDP, which may be compressed
async fn over_rldp(ch: &mut Chooser<'_>) -> Step {
    let count = ch.choose(4);
    let behaviours: Vec<Behaviour> = (0..count).map(|_| ch.one_of(&ALL)).collect();
    let len = ch.one_of(&[2usize, 4, 5, 6, 7, 11, 1023, 1024, 1026, 3001]);
    let options = everscale_network::rldp::NodeOptions {
        force_compression: ch.flag(),
        query_min_timeout_ms: 200,
        query_max_timeout_ms: 300,
        ..Default::default()
    };
    let log = Arc::new(Mutex::new(Vec::new()));
    let a = RldpSim::new(6, options, None);
    let node = Node::new(world::addr(0), keystore(&[1]), Default::default(), None).unwrap();
    let mut subscribers: Vec<Arc<dyn QuerySubscriber>> = Vec::new();
    for (index, behaviour) in behaviours.iter().enumerate() {
        subscribers.push(Arc::new(Subscriber {
            index,
            behaviour: *behaviour,
            log: log.clone(),
        }));
    }
    let rldp = everscale_network::rldp::Node::new(node.clone(), subscribers, options).unwrap();
    let b = Sim {
        index: 0,
        keys: vec![1],
        node,
        app: Default::default(),
    };
    b.start();
    a.sim.add(&b);
    let data = payload(own(1), 5, len);
    let mut e = expected(&behaviours, true, &data, 1);
    if data.len() < 4 {
        e = Expected::default();
    }
    e.offers.iter_mut().for_each(|offer| offer.peer = 7);
    ch.step();
    let (asking, from, to) = (a.rldp.clone(), a.sim.id(), b.id());
    let query = data.clone();
    let pending = tokio::spawn(async move { asking.query(&from, &to, query, None).await });
    for _ in 0..100 {
        world::flush().await;
        if pending.is_finished() {
            break;
        }
        world::advance(std::time::Duration::from_millis(20)).await;
    }
    ensure!(pending.is_finished(), "answers", "no end");
    let answer = pending.await.unwrap();
    ensure!(
        matches!(&answer, Ok((answer, _)) if *answer == e.answer),
        "answers",
        "{behaviours:?}, {len} bytes: got {answer:?} instead of {:?}",
        e.answer
    );
    let seen = std::mem::take(&mut *log.lock().unwrap());
    ensure!(
        seen == e.offers,
        "offers",
        "{behaviours:?} are offered {len} bytes as\n{seen:?}\ninstead of\n{:?}",
        e.offers
    );
    ensure!(b.events().is_empty(), "offers", "a query over RLDP is offered to an ADNL subscriber");
    drop(rldp);
    ch.visit(hash_of(&(&behaviours, len, options.force_compression)));
    ch.observe((seen.len(), e.answer.map(|answer| answer.len())));
    Ok(())
}

fn main() {
    check_main("C08", |ctx| {
        ctx.assume("subscribers return the query they reject unchanged");
        let max = ctx.tiered(2, 3);
        ctx.explore(
            Suite {
                name: "single".to_owned(),
                about: format!("up to {max} subscribers of 7 kinds, two packets with one of 8 queries or messages"),
                bound: 0,
            },
            |ch| world::run(1, run(ch, max, 2, 1)),
        );
        ctx.explore(
            Suite {
                name: "three subscribers".to_owned(),
                about: "up to 3 subscribers of 7 kinds, a packet with one of 8 queries or messages".to_owned(),
                bound: 0,
            },
            |ch| world::run(1, run(ch, 3, 1, 1)),
        );
        let per_packet = ctx.tiered(3, 4);
        ctx.explore(
            Suite {
                name: "several".to_owned(),
                about: format!("up to 2 subscribers of 7 kinds, a packet with {per_packet} of 9 messages"),
                bound: 0,
            },
            |ch| world::run(1, run(ch, 2, 1, per_packet)),
        );
        ctx.explore(
            Suite {
                name: "large".to_owned(),
                about: "3 subscribers of 7 kinds, queries and messages of several packets".to_owned(),
                bound: 0,
            },
            |ch| world::run(1, large(ch)),
        );
        ctx.explore(
            Suite {
                name: "over RLDP".to_owned(),
                about: "up to 3 subscribers of 7 kinds of an RLDP node, queries of 10 sizes, compressed or not".to_owned(),
                bound: 0,
            },
            |ch| world::run(1, over_rldp(ch)),
        );
    })
}
