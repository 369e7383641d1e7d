//! C19: RLDP transfers deliver the exact payload or fail within the timeout

use std::time::Duration;

use everscale_network::rldp::NodeOptions;
use harness::dhtkit::Cast;
use harness::nodes::{answer_to, establish, payload, AnswerFn, QUERY};
use harness::puppet::Msg;
use harness::rldpkit::*;
use harness::util::{filler, hash_of};
use harness::world::{self, Datagram};
use harness::{check_main, ensure, Chooser, Step, Stop, Suite};
use tokio::time::Instant;

const WAVE: Duration = Duration::from_millis(10);

/// The only right answer of this size
fn answer_of(query: &[u8], len: usize) -> Vec<u8> {
    filler(hash_of(query), len)
}

fn answering(len: usize) -> Option<AnswerFn> {
    Some(Box::new(move |query| Some(answer_of(query, len))))
}

async fn pair(options: NodeOptions, answer: Option<usize>) -> (RldpSim, RldpSim) {
    let a = RldpSim::new(0, options, answer.and_then(answering));
    let b = RldpSim::new(1, options, answer.and_then(answering));
    a.add(&b);
    b.add(&a);
    establish(&a.sim, &b.sim).await;
    (a, b)
}

fn silence(_: &[u8]) -> Option<Vec<u8>> {
    None
}

/// What may happen to a datagram
#[derive(Debug, Clone, Copy, PartialEq)]
enum Fate {
    Delivered,
    Lost,
    Twice,
    /// Arrives after the next wave
    Late,
    /// Arrives when everything is over
    Ancient,
}

const FATES: [Fate; 5] = [Fate::Delivered, Fate::Lost, Fate::Twice, Fate::Late, Fate::Ancient];

struct Plan {
    from: usize,
    query: Vec<u8>,
    answer: usize,
}

/// Every pattern of a few lost, duplicated, delayed and reordered datagrams
async fn patterns(ch: &mut Chooser<'_>, plans: &[(usize, usize)], options: NodeOptions) -> Step {
    let (query_len, answer_len) = ch.one_of(plans);
    let (a, b) = pair(options, Some(answer_len)).await;
    let plans = vec![Plan {
        from: 0,
        query: payload(QUERY, 1, query_len),
        answer: answer_len,
    }];
    exchange(ch, &[a, b], plans).await
}

/// Several transfers at the same time
async fn together(ch: &mut Chooser<'_>, options: NodeOptions) -> Step {
    let lens = ch.one_of(&[(8usize, 0usize, 8usize), (400, 800, 400), (800, 800, 1600)]);
    let (a, b) = pair(options, Some(lens.1)).await;
    let plans = (0..3)
        .map(|i| Plan {
            from: usize::from(i == 2),
            query: payload(QUERY, i, if i == 1 { lens.2 } else { lens.0 }),
            answer: lens.1,
        })
        .collect();
    exchange(ch, &[a, b], plans).await
}

async fn exchange(ch: &mut Chooser<'_>, nodes: &[RldpSim; 2], plans: Vec<Plan>) -> Step {
    let tasks: Vec<_> = plans
        .iter()
        .map(|plan| nodes[plan.from].query(&nodes[1 - plan.from], &plan.query, None))
        .collect();
    let mut late: Vec<Datagram> = Vec::new();
    let mut ancient: Vec<Datagram> = Vec::new();
    let mut waves = 0;
    loop {
        world::settle().await;
        let mut sent = world::take_sent();
        if sent.is_empty() {
            if tasks.iter().all(|task| task.is_finished()) {
                break;
            }
            waves += 1;
            ensure!(waves < 100, "slow", "{waves} waves of packets");
            let due = std::mem::take(&mut late);
            world::advance(WAVE).await;
            // The next wave overtakes
            sent = world::take_sent();
            sent.extend(due);
        }
        for datagram in sent {
            ch.step();
            let fate = FATES[ch.deviate(FATES.len())];
            if fate != Fate::Delivered {
                ch.note(|| format!("wave {waves}: {} bytes from {} are {fate:?}", datagram.data.len(), datagram.from));
            }
            match fate {
                Fate::Lost => {}
                Fate::Late => late.push(datagram),
                Fate::Ancient => ancient.push(datagram),
                Fate::Twice => {
                    world::deliver(&datagram).await;
                    world::deliver(&datagram).await;
                }
                Fate::Delivered => {
                    world::deliver(&datagram).await;
                }
            }
        }
        ch.visit(hash_of(&(waves, late.len(), ancient.len(), ch.deviations_left())));
    }
    for datagram in late.into_iter().chain(ancient) {
        world::deliver(&datagram).await;
    }
    world::flush().await;
    // Nobody goes on with what the other one has received
    let mut rest = 0;
    for i in 0..10 {
        world::advance(WAVE).await;
        rest = world::flush().await;
        ensure!(rest == 0 || i < 9, "endless transfer", "{rest} packets a wave after everything was received");
        if rest == 0 {
            break;
        }
    }
    ch.observe((waves, rest));
    for (task, plan) in tasks.into_iter().zip(&plans) {
        let res = match task.await.unwrap() {
            Ok((res, _)) => res,
            Err(e) => return Err(Stop::violation("failed query", format!("{e}"))),
        };
        ensure!(
            res == Some(answer_of(&plan.query, plan.answer)),
            "wrong answer",
            "{:?} bytes instead of {}",
            res.map(|res| res.len()),
            plan.answer
        );
    }
    // Also after everything is forgotten
    for _ in 0..3 {
        check_events(nodes, &plans)?;
        world::advance(Duration::from_secs(25)).await;
        world::flush().await;
    }
    check_events(nodes, &plans)?;
    Ok(())
}

fn check_events(nodes: &[RldpSim; 2], plans: &[Plan]) -> Step {
    for to in 0..2 {
        let events = nodes[to].app.events.lock().unwrap().clone();
        let mut expected: Vec<_> = plans.iter().filter(|plan| plan.from != to).map(|plan| &plan.query).collect();
        let mut got: Vec<_> = events.iter().map(|event| &event.data).collect();
        expected.sort();
        got.sort();
        ensure!(
            got == expected,
            "wrong delivery",
            "{:?} bytes are delivered instead of {:?}",
            got.iter().map(|data| data.len()).collect::<Vec<_>>(),
            expected.iter().map(|data| data.len()).collect::<Vec<_>>()
        );
        ensure!(
            events.iter().all(|event| event.query && event.peer == nodes[1 - to].sim.id() && event.local == nodes[to].sim.id()),
            "wrong sender",
            "{:?}",
            events.iter().map(|event| event.peer).collect::<Vec<_>>()
        );
    }
    Ok(())
}

/// Directions in which nothing is delivered from some moment on
#[derive(Debug, Clone, Copy, PartialEq)]
enum Cut {
    Queries,
    Answers,
    Both,
    /// The subscriber does not answer
    Silent,
    /// The subscriber does not know this query
    Rejected,
    Failing,
}

async fn blackouts(ch: &mut Chooser<'_>, lens: &[(usize, usize)], moments: usize) -> Step {
    let (query_len, answer_len) = ch.one_of(lens);
    let cut = ch.one_of(&[Cut::Queries, Cut::Answers, Cut::Both, Cut::Silent, Cut::Rejected, Cut::Failing]);
    let (min, max) = ch.one_of(&[(500u64, 10_000u64), (100, 300)]);
    let roundtrip = ch.one_of(&[None, Some(1u64), Some(200), Some(1_000_000)]);
    let options = NodeOptions {
        query_min_timeout_ms: min,
        query_max_timeout_ms: max,
        ..Default::default()
    };
    let tag = match cut {
        Cut::Rejected => harness::nodes::REJECTED,
        Cut::Failing => harness::nodes::FAILING,
        _ => QUERY,
    };
    let a = RldpSim::new(0, options, None);
    let b = RldpSim::new(1, options, match cut {
        Cut::Silent => Some(Box::new(silence)),
        _ => answering(answer_len),
    });
    a.add(&b);
    b.add(&a);
    establish(&a.sim, &b.sim).await;
    let is_cut = matches!(cut, Cut::Queries | Cut::Answers | Cut::Both);
    let moment = if is_cut { ch.choose(moments) } else { 0 };
    let query = payload(tag, 1, query_len);
    let started = Instant::now();
    let mut last = started;
    let mut received = 0u64;
    let task = a.query(&b, &query, roundtrip);
    let mut total = 0;
    let mut waits = 0;
    loop {
        world::settle().await;
        let sent = world::take_sent();
        if task.is_finished() {
            break;
        }
        if sent.is_empty() {
            world::advance(WAVE).await;
            waits += 1;
            ensure!(waits < 20_000, "endless query", "{:?} passed", started.elapsed());
        }
        for datagram in sent {
            ch.step();
            let from_a = datagram.from == world::port(0);
            let lost = is_cut
                && total >= moment
                && match cut {
                    Cut::Queries => from_a,
                    Cut::Answers => !from_a,
                    _ => true,
                };
            total += 1;
            if !lost {
                if !from_a {
                    last = Instant::now();
                    received += 1;
                }
                world::deliver(&datagram).await;
            }
        }
    }
    let res = match task.await.unwrap() {
        Ok((res, _)) => res,
        Err(e) => return Err(Stop::violation("failed query", format!("{cut:?} at {moment}: {e}"))),
    };
    let elapsed = last.elapsed().as_millis() as u64;
    ch.note(|| format!("{cut:?} at {moment} of {total}: {:?}, {elapsed} ms after the last packet", res.as_ref().map(Vec::len)));
    ch.observe((res.is_some(), received));
    ch.visit(hash_of(&(query_len, answer_len, moment, total, res.is_some())));
    if !is_cut {
        ensure!(res.is_none(), "wrong answer", "{cut:?}: {} bytes", res.map_or(0, |res| res.len()));
    }
    match &res {
        Some(res) => ensure!(*res == answer_of(&query, answer_len), "wrong answer", "{} bytes instead of {answer_len}", res.len()),
        // One percent more for each packet
        None => {
            let limit = max + max * (total as u64) / 100 + 50;
            ensure!(elapsed <= limit, "late end", "{elapsed} ms after the last packet, {limit} at most");
            let limit = match roundtrip {
                None => max,
                Some(roundtrip) => roundtrip.clamp(min, max),
            };
            let least = limit.min(min);
            ensure!(elapsed >= least, "early end", "{elapsed} ms after the last packet, {least} at least");
        }
    }
    world::advance(Duration::from_secs(50)).await;
    let events = b.events();
    let allowed = usize::from(cut != Cut::Rejected);
    ensure!(
        events.len() <= allowed && events.iter().all(|event| event.data == query),
        "wrong delivery",
        "{:?} bytes are delivered",
        events.iter().map(|event| event.data.len()).collect::<Vec<_>>()
    );
    ensure!(events.len() == 1 || res.is_none(), "no delivery", "answered, but not delivered");
    ensure!(a.events().is_empty(), "wrong delivery", "something is delivered to the asking node");
    Ok(())
}

/// Something from the other side of a query
#[derive(Debug, Clone, Copy, PartialEq)]
enum News {
    Confirm,
    /// Confirms what was already confirmed
    Old,
    Complete,
    Symbol,
    /// Many of them at once
    Symbols,
    /// Not the first time
    Repeated,
    Other,
}

/// A query ends exactly when nothing new has come for long enough
async fn timing(ch: &mut Chooser<'_>, timeouts: &[u64], steps: usize) -> Step {
    let timeout = ch.one_of(timeouts);
    let len = ch.one_of(&[100usize, 2000]);
    let options = NodeOptions {
        query_min_timeout_ms: timeout,
        query_max_timeout_ms: timeout,
        query_wave_len: 2,
        ..Default::default()
    };
    let roundtrip = ch.one_of(&[None, Some(50)]);
    let a = RldpSim::new(0, options, None);
    let mut cast = Cast::new(1);
    cast.puppets[0].introduce(&a.sim);
    let (rldp, local, peer) = (a.rldp.clone(), a.sim.id(), cast.puppets[0].id());
    let query = filler(1, len);
    let task = tokio::spawn(async move { rldp.query(&local, &peer, query, roundtrip).await });
    world::settle().await;
    let mut sent = symbols(&mut cast).await;
    ensure!(!sent.is_empty(), "nothing sent", "");
    let transfer = sent[0].transfer;
    let answer = harness::rldpkit::parts(negate(transfer), &answer_payload([1; 32], &filler(2, 60_000)), 0..70);

    let mut last = Instant::now();
    let mut confirmed = 0u32;
    let mut updates = 0u64;
    let mut receiving = false;
    let mut script = Vec::new();
    for i in 0..=steps {
        let limit = |confirmed: u32, updates: u64, receiving: bool| {
            timeout + timeout * if receiving { updates } else { confirmed as u64 } / 100
        };
        let limit = limit(confirmed, updates, receiving);
        let (wait, news) = match i == steps {
            true => (limit + 60, News::Other),
            false => {
                let wait = [0, timeout / 2, limit - 20, limit + 60][ch.choose(4)];
                if wait > limit {
                    (wait, News::Other)
                } else {
                    (
                        wait,
                        ch.one_of(&[
                            News::Confirm,
                            News::Old,
                            News::Complete,
                            News::Symbol,
                            News::Symbols,
                            News::Repeated,
                            News::Other,
                        ]),
                    )
                }
            }
        };
        script.push((wait, news));
        ch.note(|| format!("{wait} ms, limit {limit}, then {news:?}"));
        let until = last + Duration::from_millis(wait);
        loop {
            let ended = task.is_finished();
            let passed = last.elapsed().as_millis() as u64;
            ensure!(!ended || passed > limit, "early end", "after {passed} of {limit} ms, {script:?}");
            ensure!(ended || passed <= limit + 40, "late end", "after {passed} instead of {limit} ms, {script:?}");
            if ended {
                let res = task.await.unwrap();
                ensure!(matches!(res, Ok((None, _))), "wrong answer", "{:?}", res.map(|(answer, _)| answer.is_some()));
                ch.visit(hash_of(&(timeout, len, format!("{script:?}"))));
                ch.observe((i, receiving, confirmed, updates));
                return Ok(());
            }
            if Instant::now() >= until {
                break;
            }
            world::advance(WAVE).await;
            sent.extend(symbols(&mut cast).await);
        }
        ch.step();
        let seqno = sent.iter().map(|part| part.seqno).max().unwrap();
        let message = match news {
            News::Confirm => RldpMsg::Confirm { transfer, part: 0, seqno },
            News::Old => RldpMsg::Confirm { transfer, part: 0, seqno: confirmed },
            News::Complete => RldpMsg::Complete { transfer, part: 0 },
            News::Symbol => RldpMsg::Part(answer[updates as usize].clone()),
            News::Symbols => {
                for part in &answer[updates as usize..][..11] {
                    let message = RldpMsg::Part(part.clone());
                    cast.puppets[0].say(&a.sim, vec![Msg::Custom(message.to_bytes())]).await;
                }
                updates += 11;
                RldpMsg::Part(answer[updates as usize].clone())
            }
            News::Repeated => RldpMsg::Part(answer[0].clone()),
            News::Other => RldpMsg::Confirm {
                transfer: [7; 32],
                part: 0,
                seqno: 1,
            },
        };
        let is_new = match news {
            News::Confirm => {
                let is_new = !receiving && seqno > confirmed;
                confirmed = confirmed.max(seqno);
                is_new
            }
            News::Complete => !std::mem::replace(&mut receiving, true),
            News::Symbol | News::Symbols | News::Repeated => {
                receiving = true;
                updates += 1;
                true
            }
            News::Old | News::Other => false,
        };
        cast.puppets[0].say(&a.sim, vec![Msg::Custom(message.to_bytes())]).await;
        // It is noticed with the next wave
        world::advance(WAVE).await;
        sent.extend(symbols(&mut cast).await);
        if is_new {
            last = Instant::now() - WAVE;
        }
    }
    Err(Stop::violation("late end", format!("{script:?}")))
}

async fn symbols(cast: &mut Cast) -> Vec<Part> {
    let heard = cast.listen().await;
    let parts = heard.into_iter().filter_map(|heard| match heard.message {
        Msg::Custom(data) => match RldpMsg::parse(&data) {
            Some(RldpMsg::Part(part)) => Some(part),
            _ => None,
        },
        _ => None,
    });
    parts.collect()
}

/// Only the right answer is an answer
async fn answers(ch: &mut Chooser<'_>) -> Step {
    let options = NodeOptions {
        query_min_timeout_ms: 300,
        query_max_timeout_ms: 300,
        ..Default::default()
    };
    let a = RldpSim::new(0, options, None);
    let mut cast = Cast::new(1);
    cast.puppets[0].introduce(&a.sim);
    let (rldp, local, peer) = (a.rldp.clone(), a.sim.id(), cast.puppets[0].id());
    let query = filler(1, ch.one_of(&[4usize, 700, 3000]));
    let data = query.clone();
    let task = tokio::spawn(async move { rldp.query(&local, &peer, data, None).await });
    world::settle().await;
    let mut assembler = Assembler::default();
    let mut message = None;
    let mut transfer = None;
    for part in symbols(&mut cast).await {
        ensure!(*transfer.get_or_insert(part.transfer) == part.transfer, "wrong transfer", "");
        message = message.or(assembler.add(&part));
    }
    let Some(message) = message else {
        return Err(Stop::violation("wrong query", "it can't be read from the first wave"));
    };
    let transfer = transfer.unwrap();
    ensure!(message.len() > 36, "wrong query", "{} bytes", message.len());
    let query_id: [u8; 32] = message[4..36].try_into().unwrap();
    ensure!(
        message == query_payload_with_timeout(&message, query_id, options.max_answer_size as u64, &query),
        "wrong query",
        "{message:?}"
    );

    let len = ch.one_of(&[0usize, 1, 4, 7, 8, 500, 2000]);
    let data = filler(5, len);
    let flipped = |i: usize| {
        let mut id = query_id;
        id[i] ^= 1;
        id
    };
    let (name, payload) = match ch.choose(8) {
        0 => ("right", answer_payload(query_id, &data)),
        1 => ("id of another query", answer_payload(flipped(0), &data)),
        2 => ("id of another query", answer_payload(flipped(31), &data)),
        3 => ("id of another query", answer_payload([0; 32], &data)),
        4 => ("negated id", answer_payload(negate(query_id), &data)),
        5 => ("query", query_payload(query_id, 1000, &data)),
        6 => ("only a part", {
            let mut payload = answer_payload(query_id, &data);
            payload.truncate(payload.len() - 4);
            payload
        }),
        _ => ("bytes", [vec![1; 36], data.clone()].concat()),
    };
    let (place, id) = match ch.choose(4) {
        0 => ("right", negate(transfer)),
        1 => ("own", transfer),
        2 => ("other", transfer.map(|b| b ^ 0x7f)),
        _ => ("other", [0x11; 32]),
    };
    ch.note(|| format!("{name} with {len} bytes in {place} transfer"));
    ch.step();
    let symbol_count = payload.len().div_ceil(SYMBOL) as u32;
    for part in harness::rldpkit::parts(id, &payload, 0..symbol_count) {
        cast.puppets[0].say(&a.sim, vec![Msg::Custom(RldpMsg::Part(part).to_bytes())]).await;
    }
    for _ in 0..100 {
        world::advance(WAVE).await;
        symbols(&mut cast).await;
    }
    ensure!(task.is_finished(), "late end", "{name} in {place} transfer");
    let res = task.await.unwrap();
    let ok = match &res {
        Ok((Some(got), _)) => name == "right" && place == "right" && *got == data,
        _ => name != "right" || place != "right",
    };
    ensure!(
        ok,
        "wrong answer",
        "{name} with {len} bytes in {place} transfer: {:?}",
        res.map(|(answer, _)| answer.map(|answer| answer.len()))
    );
    // A query in another transfer is a query
    let is_query = name == "query" && place == "other" && len >= 4;
    let delivered = a.events();
    ensure!(
        delivered.len() == usize::from(is_query) && delivered.iter().all(|event| event.data == data),
        "wrong delivery",
        "{name} with {len} bytes in {place} transfer: {} events of the asking node",
        delivered.len()
    );
    ch.visit(hash_of(&(name, place, len, query.len())));
    ch.observe((name, place, res.is_ok()));
    Ok(())
}

/// Query with the timeout of the original
fn query_payload_with_timeout(original: &[u8], id: [u8; 32], max: u64, data: &[u8]) -> Vec<u8> {
    let mut payload = query_payload(id, max, data);
    if payload.len() >= 48 && original.len() >= 48 {
        payload[44..48].copy_from_slice(&original[44..48]);
    }
    payload
}

/// Which datagrams of a big transfer are lost
#[derive(Debug, Clone, Copy, PartialEq)]
enum Loss {
    Nothing,
    Range(usize, usize),
    Every(usize),
    /// Confirmations too
    BothEvery(usize),
    Confirmations(usize),
    ConfirmationsAndRange(usize, usize, usize),
}

async fn parts(ch: &mut Chooser<'_>, sizes: &[(usize, usize)], losses: &[Loss]) -> Step {
    let (query_len, answer_len) = ch.one_of(sizes);
    let loss = ch.one_of(losses);
    let delay = ch.one_of(&[0u64, 1500]);
    let options = NodeOptions {
        // Confirmations of the next part are not earlier
        query_min_timeout_ms: 500 + delay * 3,
        ..Default::default()
    };
    let (a, b) = pair(options, Some(answer_len)).await;
    let query = payload(QUERY, 1, query_len);
    let task = a.query(&b, &query, None);
    // Direction of the data
    let data_from = if query_len > answer_len { world::port(0) } else { world::port(1) };
    let mut counts = [0usize; 2];
    // Packets in the opposite direction are slow
    let mut slow: std::collections::VecDeque<(Instant, Datagram)> = Default::default();
    let mut waits = 0;
    loop {
        world::settle().await;
        let sent = world::take_sent();
        if task.is_finished() {
            break;
        }
        if sent.is_empty() {
            world::advance(WAVE).await;
            waits += 1;
            ensure!(waits < 3000, "stuck", "{counts:?} packets, {loss:?}, {waits} waves");
        }
        for datagram in sent {
            let is_data = datagram.from == data_from;
            let n = counts[is_data as usize];
            counts[is_data as usize] += 1;
            ch.step();
            let lost = match loss {
                Loss::Nothing => false,
                Loss::Range(from, to) => is_data && (from..to).contains(&n),
                Loss::Every(every) => is_data && n % every == every - 1,
                Loss::BothEvery(every) => n % every == every - 1,
                Loss::Confirmations(to) => !is_data && n < to,
                Loss::ConfirmationsAndRange(confirmations, from, to) => {
                    !is_data && n < confirmations || is_data && (from..to).contains(&n)
                }
            };
            if lost {
                continue;
            }
            if !is_data && delay > 0 {
                slow.push_back((Instant::now() + Duration::from_millis(delay), datagram));
            } else {
                world::deliver(&datagram).await;
            }
        }
        while slow.front().is_some_and(|(due, _)| *due <= Instant::now()) {
            let (_, datagram) = slow.pop_front().unwrap();
            world::deliver(&datagram).await;
        }
    }
    ch.note(|| format!("{loss:?}: {counts:?} packets, {waits} waves"));
    let res = match task.await.unwrap() {
        Ok((res, _)) => res,
        Err(e) => return Err(Stop::violation("failed query", format!("{loss:?}: {e}"))),
    };
    ch.observe((counts, res.is_some()));
    ch.visit(hash_of(&(query_len, answer_len, counts)));
    let events = b.events();
    ensure!(
        events.len() <= 1 && events.iter().all(|event| event.data == query),
        "wrong delivery",
        "{:?} bytes are delivered, {loss:?}",
        events.iter().map(|event| event.data.len()).collect::<Vec<_>>()
    );
    ensure!(
        res == Some(answer_of(&query, answer_len)),
        "wrong answer",
        "{:?} bytes instead of {answer_len}, {loss:?}, {counts:?} packets",
        res.map(|res| res.len())
    );
    Ok(())
}

fn main() {
    let _ = answer_to;
    check_main("C19", |ctx| {
        ctx.assume("AES and SHA-256 are ideal, other datagrams of the network are those of the explored transfers");
        let sizes = [
            (4usize, 0usize),
            (4, 1),
            (700, 700),
            (716, 728),
            (717, 729),
            (4, 3000),
            (3000, 4),
            (9000, 9000),
        ];
        let bound = ctx.tiered(2, 3);
        ctx.explore(
            Suite {
                name: "patterns".to_owned(),
                about: format!("a query and its answer of {} sizes, every pattern of {bound} lost, duplicated, late or very late packets", sizes.len()),
                bound,
            },
            |ch| world::run(1, patterns(ch, &sizes, NodeOptions::default())),
        );
        let bound = ctx.tiered(2, 3);
        ctx.explore(
            Suite {
                name: "together".to_owned(),
                about: format!("three queries at the same time in both directions, every pattern of {bound} packets"),
                bound,
            },
            |ch| world::run(1, together(ch, NodeOptions::default())),
        );
        let lens = [(4, 4), (2000, 2000), (4, 20_000), (20_000, 4)];
        let moments = ctx.tiered(14, 60);
        ctx.explore(
            Suite {
                name: "blackouts".to_owned(),
                about: format!("nothing passes in one or both directions after any of the first {moments} packets, subscribers do not answer, 8 timeouts"),
                bound: 0,
            },
            |ch| world::run(1, blackouts(ch, &lens, moments)),
        );
        let steps = ctx.tiered(2, 3);
        let timeouts = ctx.tiered(&[300][..], &[300, 1000]);
        ctx.explore(
            Suite {
                name: "timing".to_owned(),
                about: format!("{steps} times new and old confirmations, completions, symbols after 4 pauses around the timeout"),
                bound: 0,
            },
            |ch| world::run(1, timing(ch, timeouts, steps)),
        );
        ctx.explore(
            Suite {
                name: "answers".to_owned(),
                about: "right answers and answers to other queries, in the right and in other transfers".to_owned(),
                bound: 0,
            },
            |ch| world::run(1, answers(ch)),
        );
        // Sizes around the limits of the parts, with headers of 52 and 40 bytes
        let mut sizes = vec![(SLICE - 52, 4), (SLICE - 48, 4), (4, SLICE - 40), (4, SLICE - 36)];
        let mut losses = vec![
            Loss::Nothing,
            Loss::Range(0, 2),
            Loss::Range(1000, 1030),
            Loss::Range(2600, 2606),
            Loss::Every(50),
            Loss::BothEvery(7),
            Loss::ConfirmationsAndRange(120, 1000, 1010),
        ];
        sizes.extend([
            (SLICE - 56, 4),
            (2 * SLICE - 52, 4),
            (2 * SLICE - 48, 4),
            (4, 2 * SLICE - 40),
            (4, 3 * SLICE),
            (SLICE + 5000, SLICE + 5000),
        ]);
        losses.extend([
            Loss::Range(2605, 2640),
            Loss::Every(3),
            Loss::BothEvery(3),
            Loss::Confirmations(100),
            Loss::Confirmations(300),
            Loss::ConfirmationsAndRange(300, 900, 1100),
            Loss::ConfirmationsAndRange(240, 2000, 2300),
        ]);
        if ctx.is_thorough() {
            losses.extend((0..260).map(|i| Loss::Range(i * 20, i * 20 + 7)));
            losses.extend((0..100).map(|i| Loss::ConfirmationsAndRange(i * 3, i * 10, i * 10 + 5)));
            losses.extend((2..20).map(Loss::Every));
            losses.extend((4..20).map(Loss::BothEvery));
        }
        ctx.explore(
            Suite {
                name: "parts".to_owned(),
                about: format!("{} sizes of several parts, {} patterns of losses, fast and slow confirmations", sizes.len(), losses.len()),
                bound: 0,
            },
            |ch| world::run(1, parts(ch, &sizes, &losses)),
        );
    })
}
