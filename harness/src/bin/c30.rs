//! C30: RLDP flow control accounting stays consistent

use std::cell::RefCell;
use std::collections::BTreeSet;
use std::future::Future;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;

use everscale_network::adnl::NodeIdShort;
use everscale_network::proto::rldp::MessagePart;
use everscale_network::rldp::verif_api::{OutgoingTransferState, TransfersCache};
use everscale_network::rldp::NodeOptions;
use everscale_network::verif::params::set_rldp_slice;
use harness::dhtkit::Cast;
use harness::nodes::Sim;
use harness::puppet::Msg;
use harness::rldpkit::*;
use harness::sched::{block_on, run_threads, Body};
use harness::util::{filler, hash_of};
use harness::world;
use harness::{check_main, ensure, Chooser, Step, Stop, Suite};

const WAVE: Duration = Duration::from_millis(10);
const SLICE: usize = 2 * SYMBOL;

/// Messages relative to the current state of the transfer
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Input {
    Complete(i64),
    Confirm(i64, Seqno),
    /// A part of the answer. It is not processed concurrently
    Reply,
    /// Messages for another transfer
    Other,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Seqno {
    Zero,
    Sent,
    Future,
    Max,
}

const ALL: [Input; 13] = [
    Input::Complete(0),
    Input::Complete(-1),
    Input::Complete(1),
    Input::Complete(2),
    Input::Complete(u32::MAX as i64),
    Input::Confirm(0, Seqno::Sent),
    Input::Confirm(0, Seqno::Zero),
    Input::Confirm(0, Seqno::Future),
    Input::Confirm(0, Seqno::Max),
    Input::Confirm(-1, Seqno::Sent),
    Input::Confirm(1, Seqno::Sent),
    Input::Reply,
    Input::Other,
];

const CONCURRENT: [Input; 6] = [
    Input::Complete(0),
    Input::Complete(-1),
    Input::Complete(1),
    Input::Confirm(0, Seqno::Sent),
    Input::Confirm(-1, Seqno::Max),
    Input::Confirm(1, Seqno::Sent),
];

struct Env {
    node: Sim,
    cache: Arc<TransfersCache>,
    local: NodeIdShort,
    peer: NodeIdShort,
    transfer: [u8; 32],
}

impl Env {
    fn message<'a>(&'a self, input: Message, other: &'a [u8; 32]) -> MessagePart<'a> {
        let transfer_id = if input.known { &self.transfer } else { other };
        match input.seqno {
            Some(seqno) => MessagePart::Confirm {
                transfer_id,
                part: input.part,
                seqno,
            },
            None => MessagePart::Complete {
                transfer_id,
                part: input.part,
            },
        }
    }

    async fn handle(&self, message: MessagePart<'_>) -> bool {
        self.cache
            .handle_message(&self.node.node, &self.local, &self.peer, message)
            .await
            .is_ok()
    }
}

#[derive(Debug, Clone, Copy)]
struct Message {
    known: bool,
    part: u32,
    seqno: Option<u32>,
}

type Res = anyhow::Result<(Option<Vec<u8>>, u64)>;

struct Scope<'a> {
    segments: usize,
    /// Messages in one segment
    handlers: usize,
    menu: &'a [Input],
    lens: &'a [usize],
}

async fn transfer(ch: &mut Chooser<'_>, scope: &Scope<'_>) -> Step {
    let options = NodeOptions {
        query_wave_len: 2,
        ..Default::default()
    };
    let node = Sim::new(0, Default::default());
    let mut cast = Cast::new(1);
    cast.puppets[0].introduce(&node);
    let len = ch.one_of(scope.lens);
    let data = filler(len as u64, len);
    let total = len.div_ceil(SLICE) as u32;
    let mut env = Env {
        cache: Arc::new(TransfersCache::new(Vec::new(), options)),
        local: node.id(),
        peer: cast.puppets[0].id(),
        node,
        transfer: [0; 32],
    };
    let answer = filler(1, 1000);
    let cache = env.cache.clone();
    let (adnl, local, peer) = (env.node.node.clone(), env.local, env.peer);
    let mut query = Box::pin(async {
        cache.query(&adnl, &local, &peer, data.clone(), None).await
    });

    // Reference
    let mut part = 0u32;
    let mut sent_in_part = 0u32;
    let mut sent_part = 0u32;
    let mut replied = false;
    let mut history: Vec<Vec<Input>> = Vec::new();

    for segment in 0..=scope.segments {
        // Nothing interferes with the first wave
        let mut inputs = Vec::new();
        if segment > 0 {
            for i in 0..scope.handlers {
                let max = scope.menu.len();
                let n = ch.choose(max + 1);
                if n == 0 {
                    break;
                }
                let input = scope.menu[n - 1];
                if i > 0 && input == Input::Reply {
                    return ch.skip();
                }
                inputs.push(input);
            }
        }
        let before = part;
        let begun = sent_part;
        let was_finished = finished(part, total, replied);
        let messages: Vec<Message> = inputs
            .iter()
            .filter_map(|input| {
                let at = |offset: i64| (part as i64 + offset) as u32;
                Some(match *input {
                    Input::Reply => return None,
                    Input::Complete(offset) if offset == u32::MAX as i64 => Message {
                        known: true,
                        part: u32::MAX,
                        seqno: None,
                    },
                    Input::Complete(offset) => Message {
                        known: true,
                        part: at(offset),
                        seqno: None,
                    },
                    Input::Confirm(offset, seqno) => Message {
                        known: true,
                        part: at(offset),
                        seqno: Some(match seqno {
                            Seqno::Zero => 0,
                            Seqno::Sent => sent_in_part.saturating_sub(1),
                            Seqno::Future => sent_in_part + 3,
                            Seqno::Max => u32::MAX,
                        }),
                    },
                    Input::Other => Message {
                        known: false,
                        part,
                        seqno: None,
                    },
                })
            })
            .collect();
        if inputs.contains(&Input::Reply) && !replied {
            let symbol = &parts(negate(env.transfer), &answer, 0..1)[0];
            let bytes = RldpMsg::Part(symbol.clone()).to_bytes();
            assert!(env.handle(tl_proto::deserialize(&bytes).unwrap()).await);
            world::settle().await;
            cast.listen().await;
            replied = true;
        }
        history.push(inputs);
        // Parts the transfer may be at after all these messages, in any order
        let mut possible = BTreeSet::from([part]);
        for order in harness::util::permutations(messages.len()) {
            let mut at = part;
            for i in order {
                let message = messages[i];
                if message.known && message.seqno.is_none() && message.part == at {
                    at += 1;
                }
            }
            possible.insert(at);
        }
        let last = *possible.iter().max().unwrap();
        let completes = messages.iter().any(|m| m.known && m.seqno.is_none() && m.part == part);
        // A part is completed before it is sent
        let premature = last > begun + 1;
        if completes {
            possible.remove(&part);
        }

        // The loop of the sender and the incoming messages
        let mut polled: Poll<Res> = Poll::Pending;
        let other = [0x77; 32];
        let mut ok = vec![true; messages.len()];
        {
            let mut bodies: Vec<Body<'_>> = Vec::new();
            let (polled, query) = (&mut polled, &mut query);
            bodies.push(Box::new(move || {
                let mut cx = Context::from_waker(futures_util::task::noop_waker_ref());
                *polled = query.as_mut().poll(&mut cx);
            }));
            for (message, ok) in messages.iter().zip(&mut ok) {
                let (env, other) = (&env, &other);
                bodies.push(Box::new(move || *ok = block_on(env.handle(env.message(*message, other)))));
            }
            run_threads(ch, bodies, &Default::default())?;
        }
        ensure!(ok.iter().all(|ok| *ok), "failed message", "after {history:?}");

        let packets = listen(&mut cast).await;
        if segment == 0 {
            ensure!(!packets.is_empty(), "nothing sent", "in the first wave");
            env.transfer = packets[0].transfer;
        }
        for packet in &packets {
            ensure!(packet.transfer == env.transfer, "wrong transfer", "after {history:?}");
            ensure!(
                packet.part == sent_part || packet.part == sent_part + 1 || premature && packet.part > sent_part,
                "wrong part",
                "part {} is sent after {sent_part}, {history:?}",
                packet.part
            );
            if packet.part > sent_part {
                sent_part = packet.part;
                sent_in_part = 0;
            }
            ensure!(
                packet.part >= before && packet.part <= last,
                "wrong part",
                "part {} is sent when the transfer is between {before} and {last}, {history:?}",
                packet.part
            );
            let from = packet.part as usize * SLICE;
            ensure!(from < len, "wrong part", "part {} is sent of a payload of {len} bytes, {history:?}", packet.part);
            let slice = &data[from..len.min(from + SLICE)];
            let mut expected = parts(env.transfer, slice, sent_in_part..sent_in_part + 1).remove(0);
            expected.part = packet.part;
            expected.total_size = len as u64;
            ensure!(
                *packet == expected,
                "wrong symbol",
                "symbol {} of part {} instead of {sent_in_part}, {history:?}",
                packet.seqno,
                packet.part
            );
            sent_in_part += 1;
        }
        ch.note(|| {
            format!(
                "{:?}: sent {:?}",
                history.last().unwrap(),
                packets.iter().map(|p| (p.part, p.seqno)).collect::<Vec<_>>()
            )
        });
        ensure!(
            !was_finished || packets.is_empty(),
            "not finished",
            "{} packets are sent after everything is complete, {history:?}",
            packets.len()
        );
        match polled {
            Poll::Pending => {}
            Poll::Ready(res) => {
                // A peer completes parts it could not have received
                ensure!(
                    res.is_err() && premature,
                    "finished",
                    "the query ends with {:?} at part {before}, {history:?}",
                    res.map(|(answer, _)| answer.map(|answer| answer.len()))
                );
                ch.observe("error");
                return Ok(());
            }
        }
        if possible.len() > 1 || premature {
            // Messages for the parts in the future. It is visible what was first
            world::advance(WAVE).await;
            let mut cx = Context::from_waker(futures_util::task::noop_waker_ref());
            if let Poll::Ready(res) = query.as_mut().poll(&mut cx) {
                ensure!(res.is_err(), "finished", "the query ends with {:?}, {history:?}", res.map(|_| ()));
                ch.observe("error");
                return Ok(());
            }
            let packets = listen(&mut cast).await;
            for packet in packets {
                ensure!(
                    packet.part >= sent_part && packet.part <= last,
                    "wrong part",
                    "part {} is sent after {sent_part}, {history:?}",
                    packet.part
                );
                sent_part = packet.part;
            }
            ch.observe("jump");
            return Ok(());
        }
        part = *possible.iter().next().unwrap();
        ch.visit(hash_of(&(len, part, sent_part, sent_in_part, replied, &history)));
        ch.observe((part, sent_part, sent_in_part));
        if segment < scope.segments {
            world::advance(WAVE).await;
        }
    }

    // Whatever has happened, usual messages finish the transfer
    let mut idle = 0;
    for _ in 0..20 {
        world::advance(WAVE).await;
        let mut cx = Context::from_waker(futures_util::task::noop_waker_ref());
        let poll = query.as_mut().poll(&mut cx);
        ensure!(poll.is_pending(), "finished", "the query ends without an answer, {history:?}");
        let packets = listen(&mut cast).await;
        if finished(part, total, replied) {
            ensure!(
                packets.is_empty(),
                "not finished",
                "{} packets are sent after everything is complete, {history:?}",
                packets.len()
            );
            idle += 1;
            if idle > 2 {
                break;
            }
            continue;
        }
        ensure!(!packets.is_empty(), "stopped", "nothing is sent in part {part} of {total}, {history:?}");
        ensure!(
            packets.iter().all(|packet| packet.part == part),
            "wrong part",
            "{:?} instead of {part}, {history:?}",
            packets.iter().map(|packet| packet.part).collect::<Vec<_>>()
        );
        let complete = MessagePart::Complete {
            transfer_id: &env.transfer,
            part,
        };
        assert!(env.handle(complete).await);
        part += 1;
    }
    ensure!(finished(part, total, replied), "not finished", "at part {part} of {total}, {history:?}");
    for symbol in parts(negate(env.transfer), &answer, 0..2) {
        let bytes = RldpMsg::Part(symbol).to_bytes();
        assert!(env.handle(tl_proto::deserialize(&bytes).unwrap()).await);
    }
    world::settle().await;
    world::advance(WAVE).await;
    let mut cx = Context::from_waker(futures_util::task::noop_waker_ref());
    match query.as_mut().poll(&mut cx) {
        Poll::Ready(Ok((Some(got), _))) if got == answer => Ok(()),
        Poll::Ready(res) => Err(Stop::violation(
            "wrong answer",
            format!("{:?}, {history:?}", res.map(|(answer, _)| answer.map(|answer| answer.len()))),
        )),
        Poll::Pending => Err(Stop::violation("no answer", format!("{history:?}"))),
    }
}

fn finished(part: u32, total: u32, replied: bool) -> bool {
    part >= total || replied && part + 1 >= total
}

async fn listen(cast: &mut Cast) -> Vec<Part> {
    cast.listen()
        .await
        .into_iter()
        .filter_map(|heard| match heard.message {
            Msg::Custom(data) => match RldpMsg::parse(&data) {
                Some(RldpMsg::Part(part)) => Some(part),
                _ => None,
            },
            _ => None,
        })
        .collect()
}

fn run(ch: &mut Chooser<'_>, scope: &Scope<'_>) -> Step {
    set_rldp_slice(Some(SLICE));
    let res = world::run(1, transfer(ch, scope));
    set_rldp_slice(None);
    res
}

/// What a peer may say about a part between waves
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Say {
    Nothing,
    /// Offset of the part, offset from the last symbol which was sent
    Confirm(i64, i64),
    /// The number of the symbol itself
    Number(i64, u32),
    Complete(i64),
}

const SAY: [Say; 10] = [
    Say::Nothing,
    Say::Confirm(0, 0),
    Say::Confirm(0, -400),
    Say::Confirm(0, 2),
    Say::Confirm(0, 800),
    Say::Number(0, u32::MAX),
    Say::Number(0, 1),
    Say::Confirm(-1, 0),
    Say::Confirm(1, 0),
    Say::Complete(0),
];

/// Symbols are numbered on while few of them are not confirmed
async fn window(ch: &mut Chooser<'_>, waves: usize, symbols: usize) -> Step {
    let options = NodeOptions {
        query_wave_len: symbols as u32,
        ..Default::default()
    };
    let node = Sim::new(0, Default::default());
    let mut cast = Cast::new(1);
    cast.puppets[0].introduce(&node);
    cast.puppets[0].connect(&node).await;
    let slice = symbols * SYMBOL;
    let data = filler(3, 3 * slice);
    let env = Env {
        cache: Arc::new(TransfersCache::new(Vec::new(), options)),
        local: node.id(),
        peer: cast.puppets[0].id(),
        node,
        transfer: [0; 32],
    };
    let cache = env.cache.clone();
    let (adnl, local, peer) = (env.node.node.clone(), env.local, env.peer);
    let mut query = Box::pin(async { cache.query(&adnl, &local, &peer, data, None).await });

    // Reference: the next number, the highest confirmed one, whether the part is complete
    let (mut part, mut next, mut confirmed) = (0u32, 0u32, 0u32);
    let mut history = Vec::new();
    let mut transfer = None;
    for wave in 0..waves {
        let mut cx = Context::from_waker(futures_util::task::noop_waker_ref());
        let poll = query.as_mut().poll(&mut cx);
        ensure!(poll.is_pending(), "finished", "in wave {wave}, {history:?}");
        let packets = listen(&mut cast).await;
        ensure!(
            packets.len() == symbols,
            "wrong wave",
            "{} packets instead of {symbols} in wave {wave}, {history:?}",
            packets.len()
        );
        for packet in packets {
            let transfer = *transfer.get_or_insert(packet.transfer);
            ensure!(
                (packet.transfer, packet.part) == (transfer, part),
                "wrong part",
                "part {} instead of {part}, {history:?}",
                packet.part
            );
            ensure!(
                packet.seqno == next,
                "wrong symbol",
                "symbol {} of part {part} instead of {next}, {confirmed} is confirmed, {history:?}",
                packet.seqno
            );
            if (next as usize) < symbols || next - confirmed <= 1000 {
                next += 1;
            }
        }
        ch.note(|| format!("wave {wave}: symbols of part {part} are sent before {next}"));
        ch.visit(hash_of(&(part, next, confirmed, wave)));
        ch.step();
        let transfer = transfer.unwrap();
        // Nothing can be late before the first part
        let say = if wave + 1 < waves { ch.one_of(&SAY) } else { Say::Nothing };
        history.push(say);
        let last = next as i64 - 1;
        let message = match say {
            Say::Nothing => None,
            Say::Confirm(offset, from_last) => Some((offset, Some((last + from_last) as u32))),
            Say::Number(offset, seqno) => Some((offset, Some(seqno))),
            Say::Complete(offset) => Some((offset, None)),
        };
        if let Some((offset, seqno)) = message {
            let number = (part as i64 + offset) as u32;
            // Twice, as anything may be repeated
            for _ in 0..2 {
                let message = match seqno {
                    Some(seqno) => MessagePart::Confirm {
                        transfer_id: &transfer,
                        part: number,
                        seqno,
                    },
                    None => MessagePart::Complete {
                        transfer_id: &transfer,
                        part: number,
                    },
                };
                assert!(env.handle(message).await);
            }
            match seqno {
                Some(seqno) if offset == 0 && seqno < next => confirmed = confirmed.max(seqno),
                None if part < 2 => (part, next, confirmed) = (part + 1, 0, 0),
                None => {
                    ch.observe("complete");
                    return Ok(());
                }
                _ => {}
            }
        }
        world::advance(WAVE).await;
    }
    ch.observe((part, next, confirmed));
    Ok(())
}

fn run_window(ch: &mut Chooser<'_>, waves: usize, symbols: usize) -> Step {
    set_rldp_slice(Some(symbols * SYMBOL));
    let res = world::run(1, window(ch, waves, symbols));
    set_rldp_slice(None);
    res
}

/// The counter of parts under concurrent completions
fn counter(ch: &mut Chooser<'_>) -> Step {
    const OPS: [&[u32]; 6] = [&[1], &[1, 2], &[2], &[1, 1], &[2, 1], &[1, 2, 3]];
    let state = OutgoingTransferState::default();
    let threads = [ch.one_of(&OPS), ch.one_of(&OPS)];
    let seen = RefCell::new(Vec::new());
    {
        let mut bodies: Vec<Body<'_>> = Vec::new();
        for ops in threads {
            let (state, seen) = (&state, &seen);
            bodies.push(Box::new(move || {
                for part in ops {
                    state.set_part(*part);
                    let part = state.part();
                    seen.borrow_mut().push(part);
                }
            }));
        }
        run_threads(ch, bodies, &Default::default())?;
    }
    let seen = seen.into_inner();
    ch.step();
    // Parts after any sequential order
    let mut possible = BTreeSet::new();
    let mut stack = vec![(0usize, 0usize, 0u32)];
    while let Some((a, b, part)) = stack.pop() {
        let then = |next: u32| if next == part + 1 { next } else { part };
        if let Some(next) = threads[0].get(a) {
            stack.push((a + 1, b, then(*next)));
        }
        if let Some(next) = threads[1].get(b) {
            stack.push((a, b + 1, then(*next)));
        }
        if a == threads[0].len() && b == threads[1].len() {
            possible.insert(part);
        }
    }
    let part = state.part();
    ensure!(
        possible.contains(&part),
        "wrong part",
        "part {part} after {threads:?}, possible ones: {possible:?}"
    );
    ensure!(
        seen.iter().all(|seen| *seen <= part),
        "moved back",
        "part {part} after {seen:?}, {threads:?}"
    );
    ch.visit(hash_of(&(threads, &seen, part)));
    ch.observe((threads, part));
    Ok(())
}

fn main() {
    check_main("C30", |ctx| {
        ctx.assume("parts of a transfer are made of two symbols instead of 2 MB");
        let scope = Scope {
            segments: ctx.tiered(3, 4),
            handlers: 1,
            menu: &ALL,
            lens: ctx.tiered(&[2 * SLICE + 100], &[2 * SLICE + 100, SLICE, SLICE + 1]),
        };
        ctx.explore(
            Suite {
                name: "sequences".to_owned(),
                about: format!("all sequences of {} messages of {} between the waves of transfers of one to three parts", scope.segments, ALL.len()),
                bound: 0,
            },
            |ch| run(ch, &scope),
        );
        let scope = Scope {
            segments: ctx.tiered(2, 3),
            handlers: 1,
            menu: &CONCURRENT,
            lens: &[2 * SLICE + 100, SLICE + 1],
        };
        let bound = ctx.tiered(1, 2);
        ctx.explore(
            Suite {
                name: "one message".to_owned(),
                about: format!("all interleavings of the waves with one incoming message in each of {} of them, up to {bound} preemptions", scope.segments),
                bound,
            },
            |ch| run(ch, &scope),
        );
        let scope = Scope {
            segments: ctx.tiered(1, 2),
            handlers: 2,
            menu: &CONCURRENT,
            lens: &[2 * SLICE + 100, SLICE + 1],
        };
        ctx.explore(
            Suite {
                name: "two messages".to_owned(),
                about: format!("all interleavings of the waves with two incoming messages in each of {} of them, up to {bound} preemptions", scope.segments),
                bound,
            },
            |ch| run(ch, &scope),
        );
        let waves = ctx.tiered(4, 5);
        let symbols = 700;
        ctx.explore(
            Suite {
                name: "window".to_owned(),
                about: format!("all sequences of {waves} of {} messages between waves of {symbols} symbols", SAY.len()),
                bound: 0,
            },
            |ch| run_window(ch, waves, symbols),
        );
        let bound = ctx.tiered(3, 6);
        ctx.explore(
            Suite {
                name: "counter".to_owned(),
                about: format!("all interleavings of two threads with up to three completions each, up to {bound} preemptions"),
                bound,
            },
            counter,
        );
    })
}
