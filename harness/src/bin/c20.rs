//! C20: RLDP state stays bounded under hostile input

use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

use everscale_network::rldp::NodeOptions;
use harness::dhtkit::Cast;
use harness::nodes::{answer_to, payload, AnswerFn, FAILING, QUERY, REJECTED, SILENT};
use harness::puppet::Msg;
use harness::rldpkit::*;
use harness::util::hash_of;
use harness::world;
use harness::{check_main, ensure, Chooser, Step, Suite};

const MAX: u32 = 3000;
const WAVE: Duration = Duration::from_millis(10);
/// Longer than any transfer and its grace period
const FORGOTTEN: Duration = Duration::from_secs(8);

fn options() -> NodeOptions {
    NodeOptions {
        max_answer_size: MAX,
        max_peer_queries: 2,
        query_min_timeout_ms: 300,
        query_max_timeout_ms: 1000,
        query_wave_len: 4,
        ..Default::default()
    }
}

fn answer_fn() -> Option<AnswerFn> {
    Some(Box::new(|query| {
        let tag = u32::from_le_bytes(query[..4].try_into().unwrap());
        (tag != SILENT).then(|| answer_to(query))
    }))
}

async fn send(cast: &mut Cast, who: usize, node: &RldpSim, message: &RldpMsg) {
    cast.puppets[who]
        .say(&node.sim, vec![Msg::Custom(message.to_bytes())])
        .await;
}

async fn listen(cast: &mut Cast) -> Vec<(usize, RldpMsg)> {
    cast.listen()
        .await
        .into_iter()
        .filter_map(|heard| match heard.message {
            Msg::Custom(data) => Some((heard.by, RldpMsg::parse(&data)?)),
            _ => None,
        })
        .collect()
}

/// What an honest peer gets for its query
async fn honest_query(cast: &mut Cast, who: usize, node: &RldpSim, n: u8, query: &[u8]) -> Option<Vec<u8>> {
    let transfer = [n; 32];
    let query_id = [n ^ 0x55; 32];
    let bytes = query_payload(query_id, 1 << 20, query);
    let count = bytes.len().div_ceil(SYMBOL) as u32;
    for part in parts(transfer, &bytes, 0..count) {
        send(cast, who, node, &RldpMsg::Part(part)).await;
    }
    let mut assembler = Assembler::default();
    for _ in 0..20 {
        for (by, message) in listen(cast).await {
            let RldpMsg::Part(part) = message else {
                continue;
            };
            if by != who || part.transfer != negate(transfer) {
                continue;
            }
            let number = part.part;
            if let Some(bytes) = assembler.add(&part) {
                let complete = RldpMsg::Complete {
                    transfer: negate(transfer),
                    part: number,
                };
                send(cast, who, node, &complete).await;
                let answer = tl_proto::deserialize(&bytes).ok()?;
                return match answer {
                    everscale_network::proto::rldp::Message::Answer { query_id: id, data } if *id == query_id => {
                        Some(data.to_vec())
                    }
                    _ => None,
                };
            }
        }
        world::advance(WAVE).await;
    }
    None
}

fn tasks() -> usize {
    tokio::runtime::Handle::current().metrics().num_alive_tasks()
}

/// Another query still works and nothing remains when its time has passed
async fn afterwards(cast: &mut Cast, node: &RldpSim, baseline: usize, what: &str) -> Step {
    node.events();
    let query = payload(QUERY, 99, 900);
    let answer = honest_query(cast, 0, node, 0xee, &query).await;
    ensure!(
        answer == Some(answer_to(&query)),
        "not served",
        "a usual query is answered with {:?} bytes after {what}",
        answer.map(|answer| answer.len())
    );
    let events = node.events();
    ensure!(
        events.iter().filter(|event| event.data == query).count() == 1,
        "wrong delivery",
        "{} events after {what}",
        events.len()
    );
    world::advance(FORGOTTEN).await;
    cast.listen().await;
    let (transfers, tasks) = (node.transfers(), tasks());
    ensure!(transfers == 0, "leaked transfer", "{transfers} transfers are remembered after {what}");
    ensure!(tasks <= baseline, "leaked task", "{tasks} tasks instead of {baseline} after {what}");
    Ok(())
}

fn start() -> (RldpSim, Cast) {
    let node = RldpSim::new(0, options(), answer_fn());
    let cast = Cast::new(2);
    for puppet in &cast.puppets {
        puppet.introduce(&node.sim);
    }
    (node, cast)
}

/// Single messages with every combination of strange fields
async fn fields(ch: &mut Chooser<'_>, full: bool) -> Step {
    let (node, mut cast) = start();
    world::settle().await;
    let baseline = tasks();
    let payload = query_payload([3; 32], 1 << 20, &payload(QUERY, 3, 1000));
    let honest = parts([1; 32], &payload, 0..3);
    let pick = |ch: &mut Chooser<'_>, quick: &[u64], full_list: &[u64]| match full {
        true => ch.one_of(full_list),
        false => ch.one_of(quick),
    };
    let known = ch.choose(3);
    for part in &honest[..known] {
        send(&mut cast, 0, &node, &RldpMsg::Part(part.clone())).await;
    }
    let len = payload.len() as u64;
    let mut part = honest[2].clone();
    part.total_len = pick(ch, &[len, 0, 1, 0xffff_ffff], &[len, 0, 1, len + 1, 3001, 50_000_000, 0xffff_ffff]) as u32;
    part.packet_len = pick(
        ch,
        &[768, 0, 4, 65536, 769],
        &[768, 0, 1, 7, 8, 760, 769, 65528, 65535, 65536, 65536 + 768, 0xffff_ffff],
    ) as u32;
    part.part = pick(ch, &[0, 1], &[0, 1, 0xffff_ffff]) as u32;
    part.total_size = pick(ch, &[len, 0, 3001], &[len, 0, len - 1, 3000, 3001, 1 << 32, u64::MAX]);
    part.seqno = pick(ch, &[2, 0xff_ffff, 0xffff_ffff], &[2, 0, 0xff_ffff, 1 << 24, 0xffff_ffff]) as u32;
    let data_len = pick(ch, &[768, 0, 767], &[768, 0, 1, 767, 769]) as usize;
    part.data.resize(data_len, 7);
    part.packet_count = pick(ch, &[2], &[2, 0, 0xffff_ffff]) as u32;
    ch.step();
    let what = format!(
        "a part {} of {} bytes, {} of {} bytes, symbol {} with {data_len} bytes, after {known} usual ones",
        part.part, part.total_size, part.packet_len, part.total_len, part.seqno
    );
    ch.note(|| what.clone());
    ch.visit(hash_of(&(&part, known)));
    // An exact copy of an usual message is served as usual
    send(&mut cast, 0, &node, &RldpMsg::Part(part)).await;
    let heard = listen(&mut cast).await;
    ch.observe((heard.len(), node.transfers()));
    let events = node.events();
    ensure!(events.len() <= 1, "wrong delivery", "{} events after {what}", events.len());
    afterwards(&mut cast, &node, baseline, &what).await
}

#[derive(Debug, Clone, PartialEq, Hash)]
enum Op {
    /// Symbol of the query in this transfer
    Symbol(usize, u32),
    /// Symbol of a query which is handled differently: its payload of a single symbol
    Other(usize, u32),
    Complete(bool, u32),
    Confirm(bool, u32, u32),
    /// Symbol of an answer to the answer
    Reverse,
    /// Fields are out of limits
    Bad,
    Wait,
    LongWait,
}

/// Sequences of messages to an answering node
async fn histories(ch: &mut Chooser<'_>, depth: usize) -> Step {
    let (node, mut cast) = start();
    world::settle().await;
    let baseline = tasks();
    let transfer = [1u8; 32];
    let query = payload(QUERY, 3, 1000);
    let bytes = query_payload([3; 32], 1 << 20, &query);
    let usual = parts(transfer, &bytes, 0..3);
    let others = [SILENT, REJECTED, FAILING].map(|tag| payload(tag, 5, 50));
    let ops = [
        Op::Symbol(0, 0),
        Op::Symbol(0, 1),
        Op::Symbol(0, 2),
        Op::Symbol(1, 1),
        Op::Other(0, SILENT),
        Op::Other(1, REJECTED),
        Op::Other(2, FAILING),
        Op::Complete(false, 0),
        Op::Complete(true, 0),
        Op::Complete(true, 1),
        Op::Complete(true, 0xffff_ffff),
        Op::Confirm(true, 0, 1),
        Op::Confirm(true, 0, 0xffff_ffff),
        Op::Reverse,
        Op::Bad,
        Op::Wait,
        Op::LongWait,
    ];
    let mut history = Vec::new();
    // Every incarnation of the transfer is over at this moment
    let mut delivered: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    let mut forgotten = 1;
    for _ in 0..depth {
        let op = ch.one_of(&ops);
        history.push(op.clone());
        ch.step();
        let message = match op {
            Op::Symbol(who, n) => Some((who, RldpMsg::Part(usual[n as usize].clone()))),
            Op::Other(n, _) => {
                let bytes = query_payload([4 + n as u8; 32], 1 << 20, &others[n]);
                let mut part = parts([20 + n as u8; 32], &bytes, 0..1).remove(0);
                part.transfer = [20 + n as u8; 32];
                Some((0, RldpMsg::Part(part)))
            }
            Op::Complete(answer, part) => Some((0, RldpMsg::Complete {
                transfer: if answer { negate(transfer) } else { transfer },
                part,
            })),
            Op::Confirm(answer, part, seqno) => Some((0, RldpMsg::Confirm {
                transfer: if answer { negate(transfer) } else { transfer },
                part,
                seqno,
            })),
            Op::Reverse => {
                let mut part = usual[0].clone();
                part.transfer = negate(transfer);
                Some((0, RldpMsg::Part(part)))
            }
            Op::Bad => {
                let mut part = usual[0].clone();
                part.total_size = u64::MAX;
                part.transfer = [9; 32];
                Some((0, RldpMsg::Part(part)))
            }
            Op::Wait => {
                world::advance(Duration::from_millis(50)).await;
                None
            }
            Op::LongWait => {
                world::advance(Duration::from_secs(7)).await;
                forgotten += 1;
                None
            }
        };
        if let Some((who, message)) = message {
            send(&mut cast, who, &node, &message).await;
        }
        listen(&mut cast).await;
        for event in node.events() {
            ensure!(
                event.data == query || others.contains(&event.data),
                "wrong delivery",
                "{} bytes are delivered after {history:?}",
                event.data.len()
            );
            let count = delivered.entry(event.data).or_default();
            *count += 1;
            ensure!(*count <= forgotten, "delivered twice", "a transfer is delivered {count} times after {history:?}");
        }
        ch.visit(hash_of(&(&history, node.transfers())));
    }
    ch.observe((node.transfers(), delivered.len()));
    // Both symbols of the query have arrived in the same incarnation
    let needed: Vec<BTreeSet<_>> = history
        .split(|op| *op == Op::LongWait)
        .map(|ops| {
            ops.iter()
                .filter_map(|op| match op {
                    Op::Symbol(_, n) => Some(*n),
                    _ => None,
                })
                .collect()
        })
        .collect();
    let expected = needed.iter().filter(|symbols| symbols.len() >= 2).count();
    let got = delivered.get(&query).copied().unwrap_or_default();
    // Something else in the transfer of the answer may only take its answer away
    ensure!(got == expected, "not delivered", "delivered {got} times instead of {expected} after {history:?}");
    afterwards(&mut cast, &node, baseline, &format!("{history:?}")).await
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Reply {
    Answer,
    /// Its last symbol is repeated
    Repeated,
    OtherQuery,
    NotAnswer,
    Garbage,
    TooBig,
    BiggestPossible,
    TooBigLater,
    Empty,
    BadFec,
    CompleteOnly,
    CompleteMax,
    CompleteNext,
    ConfirmFuture,
    Nothing,
}

const REPLIES: [Reply; 15] = [
    Reply::Answer,
    Reply::Repeated,
    Reply::OtherQuery,
    Reply::NotAnswer,
    Reply::Garbage,
    Reply::TooBig,
    Reply::BiggestPossible,
    Reply::TooBigLater,
    Reply::Empty,
    Reply::BadFec,
    Reply::CompleteOnly,
    Reply::CompleteMax,
    Reply::CompleteNext,
    Reply::ConfirmFuture,
    Reply::Nothing,
];

/// A node asks somebody who may be hostile
async fn asker(ch: &mut Chooser<'_>, depth: usize) -> Step {
    let (node, mut cast) = start();
    world::settle().await;
    let baseline = tasks();
    let query = payload(QUERY, 3, 1000);
    let replies: Vec<_> = (0..depth).map(|_| ch.one_of(&REPLIES)).collect();
    // From somebody who knows the ids of the transfers
    let other = ch.flag();
    let (local, peer) = (node.sim.id(), cast.puppets[0].id());
    let task = tokio::spawn({
        let (rldp, query) = (node.rldp.clone(), query.clone());
        async move { rldp.query(&local, &peer, query, Some(0)).await }
    });
    let mut assembler = Assembler::default();
    let mut asked = None;
    for _ in 0..20 {
        for (by, message) in listen(&mut cast).await {
            let RldpMsg::Part(part) = message else { continue };
            assert_eq!(by, 0);
            if let Some(bytes) = assembler.add(&part) {
                asked = Some((part.transfer, bytes));
            }
        }
        if asked.is_some() {
            break;
        }
        world::advance(WAVE).await;
    }
    let Some((transfer, bytes)) = asked else {
        return Err(harness::Stop::violation("not asked", "the query is not sent"));
    };
    let (query_id, max_answer_size, sent) = match tl_proto::deserialize(&bytes) {
        Ok(everscale_network::proto::rldp::Message::Query {
            query_id,
            max_answer_size,
            data,
            ..
        }) => (*query_id, max_answer_size, data.to_vec()),
        other => return Err(harness::Stop::violation("wrong query", format!("{other:?}"))),
    };
    ensure!(sent == query && max_answer_size == MAX as u64, "wrong query", "up to {max_answer_size} bytes");
    let answer = answer_to(&query);
    let biggest = payload(1, 1, MAX as usize - 40);
    let transfer_back = negate(transfer);
    let mut possible: BTreeSet<Option<Vec<u8>>> = BTreeSet::new();
    let mut errors = false;
    for (i, reply) in replies.iter().enumerate() {
        ch.step();
        let who = usize::from(other && i + 1 == replies.len());
        let whole = |payload: &[u8]| {
            let count = payload.len().div_ceil(SYMBOL) as u32;
            parts(transfer_back, payload, 0..count).into_iter().map(RldpMsg::Part).collect::<Vec<_>>()
        };
        let complete = |part| vec![RldpMsg::Complete { transfer, part }];
        let messages = match reply {
            Reply::Answer => {
                possible.insert(Some(answer.clone()));
                whole(&answer_payload(query_id, &answer))
            }
            Reply::Repeated => {
                let mut all = whole(&answer_payload(query_id, &answer));
                all.remove(0);
                all.extend(all.clone());
                all
            }
            Reply::OtherQuery => {
                errors = true;
                whole(&answer_payload([9; 32], &answer))
            }
            Reply::NotAnswer => {
                errors = true;
                whole(&query_payload(query_id, 1 << 20, &answer))
            }
            Reply::Garbage => {
                errors = true;
                whole(&answer)
            }
            Reply::TooBig => whole(&answer_payload(query_id, &payload(1, 1, MAX as usize - 36))),
            Reply::BiggestPossible => {
                possible.insert(Some(biggest.clone()));
                whole(&answer_payload(query_id, &biggest))
            }
            Reply::TooBigLater => {
                let mut all = parts(transfer_back, &answer_payload(query_id, &biggest), 0..4);
                for part in &mut all {
                    part.total_size = 200;
                }
                all.into_iter().map(RldpMsg::Part).collect()
            }
            Reply::Empty => {
                errors = true;
                let mut part = parts(transfer_back, &answer_payload(query_id, &answer), 0..1).remove(0);
                part.total_size = 0;
                vec![RldpMsg::Part(part)]
            }
            Reply::BadFec => {
                let mut all = parts(transfer_back, &answer_payload(query_id, &answer), 0..2);
                all[0].packet_len = 0;
                all[1].data.truncate(700);
                all.into_iter().map(RldpMsg::Part).collect()
            }
            Reply::CompleteOnly => complete(0),
            Reply::CompleteMax => complete(0xffff_ffff),
            Reply::CompleteNext => [complete(0), complete(1)].concat(),
            Reply::ConfirmFuture => vec![RldpMsg::Confirm {
                transfer,
                part: 0,
                seqno: 0xffff_ffff,
            }],
            Reply::Nothing => Vec::new(),
        };
        for message in messages {
            send(&mut cast, who, &node, &message).await;
        }
        world::advance(Duration::from_millis(15)).await;
    }
    for _ in 0..60 {
        world::advance(Duration::from_millis(500)).await;
        listen(&mut cast).await;
        if task.is_finished() {
            break;
        }
    }
    ensure!(task.is_finished(), "endless query", "not finished after {replies:?}");
    let res = task.await.unwrap();
    ch.note(|| format!("{replies:?}: {:?}", res.as_ref().map(|(answer, _)| answer.as_ref().map(Vec::len))));
    ch.observe(match &res {
        Ok((answer, _)) => format!("{:?}", answer.as_ref().map(Vec::len)),
        Err(e) => e.to_string(),
    });
    ch.visit(hash_of(&(&replies, other)));
    match res {
        Ok((None, _)) => {
            // Nobody has interfered
            let undisturbed = replies[0] == Reply::Answer || replies[0] == Reply::BiggestPossible;
            ensure!(!undisturbed || other, "lost answer", "no answer after {replies:?}");
        }
        Ok((Some(answer), _)) => ensure!(
            possible.contains(&Some(answer.clone())),
            "wrong answer",
            "{} bytes after {replies:?}",
            answer.len()
        ),
        Err(e) => {
            let jump = replies.iter().any(|reply| matches!(reply, Reply::CompleteNext | Reply::CompleteOnly));
            ensure!(errors || jump, "failed query", "{e} after {replies:?}")
        }
    }
    ensure!(node.events().is_empty(), "wrong delivery", "an answer is delivered as a query");
    afterwards(&mut cast, &node, baseline, &format!("{replies:?}")).await
}

/// Queries and answers which are abandoned at any moment
async fn abandoned(ch: &mut Chooser<'_>, moments: usize) -> Step {
    let (node, mut cast) = start();
    world::settle().await;
    let baseline = tasks();
    let how = ch.choose(4);
    let moment = ch.choose(moments);
    let with_reply = ch.flag();
    let query = payload(QUERY, 3, 2000);
    let (local, peer) = (node.sim.id(), cast.puppets[0].id());
    ch.step();
    let what = format!("abandoned in way {how} after {moment} waves, replied: {with_reply}");
    match how {
        // Somebody asks this node and disappears
        0 | 1 => {
            let bytes = query_payload([3; 32], 1 << 20, &query);
            let symbols = if with_reply { 3 } else { 2 };
            for part in parts([1; 32], &bytes, 0..symbols) {
                send(&mut cast, 0, &node, &RldpMsg::Part(part)).await;
            }
            world::advance(WAVE * moment as u32).await;
            if how == 1 {
                node.sim.node.remove_peer(&local, &peer).unwrap();
            }
            world::advance(FORGOTTEN).await;
            cast.listen().await;
            if how == 1 {
                cast.puppets[0].introduce(&node.sim);
            }
        }
        // This node asks somebody and gives up
        _ => {
            let task = tokio::spawn({
                let (rldp, query) = (node.rldp.clone(), query.clone());
                async move { rldp.query(&local, &peer, query, None).await }
            });
            let mut transfer = None;
            for i in 0..=moment {
                for (_, message) in listen(&mut cast).await {
                    if let RldpMsg::Part(part) = message {
                        transfer = Some(part.transfer);
                    }
                }
                if let (true, 0, Some(transfer)) = (with_reply, i, transfer) {
                    let part = parts(negate(transfer), &payload(1, 1, 2000), 0..1).remove(0);
                    send(&mut cast, 0, &node, &RldpMsg::Part(part)).await;
                }
                if i < moment {
                    world::advance(WAVE).await;
                }
            }
            if how == 2 {
                task.abort();
            } else {
                node.sim.node.remove_peer(&local, &peer).unwrap();
            }
            world::settle().await;
            world::advance(Duration::from_secs(25)).await;
            ensure!(task.is_finished(), "endless query", "{what}");
            world::advance(FORGOTTEN).await;
            if how == 3 {
                cast.puppets[0].introduce(&node.sim);
            }
            cast.listen().await;
        }
    }
    ch.visit(hash_of(&(how, moment, with_reply)));
    ch.observe(node.transfers());
    let (transfers, tasks) = (node.transfers(), tasks());
    ensure!(transfers == 0, "leaked transfer", "{transfers} transfers are remembered, {what}");
    ensure!(tasks <= baseline, "leaked task", "{tasks} tasks instead of {baseline}, {what}");
    afterwards(&mut cast, &node, baseline, &what).await
}

/// The number of queries to one peer is limited, and the limit is always released
async fn limits(ch: &mut Chooser<'_>, total: usize) -> Step {
    let (node, mut cast) = start();
    world::settle().await;
    let (local, peer) = (node.sim.id(), cast.puppets[0].id());
    let mut fates = Vec::new();
    let mut active: BTreeMap<[u8; 32], usize> = BTreeMap::new();
    let ask = |i: usize| {
        let rldp = node.rldp.clone();
        let query = payload(QUERY, i as u64, 20);
        Some(tokio::spawn(async move { rldp.query(&local, &peer, query, Some(1)).await }))
    };
    // The others begin when unused limits have been dropped already
    let first = ch.one_of(&[total, 1, 2]);
    let mut tasks: Vec<_> = (0..first).map(ask).collect();
    let mut ended = BTreeSet::new();
    let mut finished = 0;
    let mut rounds = 0;
    while finished < total {
        rounds += 1;
        ensure!(rounds < 200, "endless query", "{finished} of {total} queries are finished, {fates:?}");
        let mut news = BTreeMap::new();
        for (_, message) in listen(&mut cast).await {
            let RldpMsg::Part(part) = message else { continue };
            if ended.contains(&part.transfer) {
                continue;
            }
            if let Some(bytes) = Assembler::default().add(&part) {
                let Ok(everscale_network::proto::rldp::Message::Query { query_id, data, .. }) = tl_proto::deserialize(&bytes) else {
                    return Err(harness::Stop::violation("wrong query", "not a query"));
                };
                let i = (0..total).find(|i| data == payload(QUERY, *i as u64, 20)).unwrap();
                if !active.contains_key(&part.transfer) {
                    news.insert(part.transfer, (i, *query_id));
                }
                active.insert(part.transfer, i);
            }
        }
        ensure!(active.len() <= 2, "too many queries", "{} at once, {fates:?}", active.len());
        node.rldp.gc();
        if rounds == 2 {
            tasks.extend((first..total).map(ask));
        }
        for (transfer, (i, query_id)) in news {
            ch.step();
            let fate = ch.choose(4);
            fates.push((i, fate));
            match fate {
                // An answer, an error, a cancellation, a timeout
                0 | 1 => {
                    let query_id = if fate == 0 { query_id } else { [9; 32] };
                    let answer = parts(negate(transfer), &answer_payload(query_id, &[i as u8; 8]), 0..1);
                    send(&mut cast, 0, &node, &RldpMsg::Part(answer[0].clone())).await;
                }
                2 => tasks[i].as_ref().unwrap().abort(),
                _ => {}
            }
        }
        world::advance(Duration::from_millis(100)).await;
        for i in 0..tasks.len() {
            if !tasks[i].as_ref().is_some_and(|task| task.is_finished()) {
                continue;
            }
            let res = tasks[i].take().unwrap().await;
            finished += 1;
            let fate = fates.iter().find(|(other, _)| *other == i).map(|(_, fate)| *fate);
            ensure!(fate.is_some(), "early end", "query {i} is finished and was not sent");
            let right = match (fate.unwrap(), res) {
                (0, Ok(Ok((Some(answer), _)))) => answer == [i as u8; 8],
                (1, Ok(Err(_))) => true,
                (2, Err(e)) => e.is_cancelled(),
                (3, Ok(Ok((None, _)))) => true,
                _ => false,
            };
            ensure!(right, "wrong end", "query {i} of {fates:?}");
            let transfer = *active.iter().find(|(_, other)| **other == i).unwrap().0;
            active.remove(&transfer);
            ended.insert(transfer);
        }
        ch.visit(hash_of(&(&fates, active.len(), finished)));
    }
    world::advance(FORGOTTEN).await;
    ch.observe(&fates);
    ensure!(node.transfers() == 0, "leaked transfer", "{} transfers after {fates:?}", node.transfers());
    node.rldp.gc();
    let peers = node.rldp.metrics().peer_count;
    ensure!(peers == 0, "leaked limit", "{peers} limits are kept after {fates:?}");
    Ok(())
}

/// Sizes around the limits
async fn sizes(ch: &mut Chooser<'_>) -> Step {
    let (node, mut cast) = start();
    world::settle().await;
    // Bytes of the query with its header
    let size = ch.one_of(&[2996usize, 3000, 3004, 6000]);
    let query = payload(QUERY, 1, size - 52);
    let asked = honest_query(&mut cast, 0, &node, 1, &query).await;
    let events = node.events();
    ch.step();
    ensure!(
        (events.len() == 1) == (size <= MAX as usize),
        "wrong size",
        "{} deliveries of a query of {size} bytes, the limit is {MAX}",
        events.len()
    );
    ensure!(asked.is_some() == (size <= MAX as usize), "wrong size", "answered: {}", asked.is_some());
    // Limit of the one who asks
    let small = payload(QUERY, 2, 100);
    let limit = ch.one_of(&[0u64, 99, 103, 104, 105, u64::MAX]);
    let bytes = query_payload([7; 32], limit, &small);
    for part in parts([8; 32], &bytes, 0..1) {
        send(&mut cast, 0, &node, &RldpMsg::Part(part)).await;
    }
    let mut answered = false;
    for _ in 0..3 {
        for (_, message) in listen(&mut cast).await {
            answered |= matches!(message, RldpMsg::Part(part) if part.transfer == negate([8; 32]));
        }
        world::advance(WAVE).await;
    }
    ch.observe((size, limit, answered));
    ch.visit(hash_of(&(size, limit)));
    let expected = answer_to(&small).len() as u64 <= limit;
    ensure!(answered == expected, "wrong size", "answered: {answered}, the limit is {limit}");
    Ok(())
}

fn main() {
    check_main("C20", |ctx| {
        let full = ctx.is_thorough();
        ctx.explore(
            Suite {
                name: "fields".to_owned(),
                about: "a message part with every combination of strange fields, before, within and after a usual transfer".to_owned(),
                bound: 0,
            },
            |ch| world::run(1, fields(ch, full)),
        );
        let depth = ctx.tiered(3, 4);
        ctx.explore(
            Suite {
                name: "histories".to_owned(),
                about: format!("all sequences of {depth} of 17 messages to an answering node"),
                bound: 0,
            },
            |ch| world::run(1, histories(ch, depth)),
        );
        let depth = ctx.tiered(2, 3);
        ctx.explore(
            Suite {
                name: "asker".to_owned(),
                about: format!("all sequences of {depth} of 15 replies to an asking node, also of somebody else"),
                bound: 0,
            },
            |ch| world::run(1, asker(ch, depth)),
        );
        let moments = ctx.tiered(4, 60);
        ctx.explore(
            Suite {
                name: "abandoned".to_owned(),
                about: format!("queries which are cancelled or whose peer disappears after any of {moments} waves"),
                bound: 0,
            },
            |ch| world::run(1, abandoned(ch, moments)),
        );
        let total = ctx.tiered(5, 6);
        ctx.explore(
            Suite {
                name: "limits".to_owned(),
                about: format!("{total} queries to a peer with a limit of two, each of them is answered, fails, is cancelled or times out"),
                bound: 0,
            },
            |ch| world::run(1, limits(ch, total)),
        );
        ctx.explore(
            Suite {
                name: "sizes".to_owned(),
                about: "queries and answers of sizes around the limits".to_owned(),
                bound: 0,
            },
            |ch| world::run(1, sizes(ch)),
        );
    })
}
