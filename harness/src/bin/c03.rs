//! C03: reassembly of split messages is exact, bounded and terminates

use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;
use std::time::Duration;

use everscale_network::adnl::verif_api::Transfer;
use everscale_network::adnl::NodeOptions;
use harness::nodes::*;
use harness::puppet::*;
use harness::sched::{run_threads, Body};
use harness::util::hash_of;
use harness::{check_main, ensure, world, Chooser, Step, Suite};
use sha2::Digest;

fn hash(data: &[u8]) -> [u8; 32] {
    sha2::Sha256::digest(data).into()
}

/// Any parts, checks that nothing but the message is ever produced
fn hostile(ch: &mut Chooser<'_>, depth: usize) -> Step {
    let message = b"abcd".to_vec();
    let id = hash(&message);
    let total = ch.one_of(&[4usize, 3, 5, 0, 1]);
    let transfer = Transfer::new(total);
    let mut produced = 0;
    let mut first: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
    for _ in 0..depth {
        let offset = ch.one_of(&[0usize, 1, 2, 3, 4, 5, u32::MAX as usize]);
        let len = ch.choose(6);
        let genuine = ch.flag();
        let data: Vec<u8> = if genuine {
            message.iter().skip(offset).take(len).copied().collect()
        } else {
            vec![b'x'; len]
        };
        ch.note(|| format!("{} bytes at {offset}, genuine: {genuine}, total {total}", data.len()));
        ch.step();
        let known = first.contains_key(&offset);
        let res = transfer.add_part(offset, data.clone(), &id);
        ch.observe((res.is_ok(), res.as_ref().ok().map(|r| r.is_some())));
        if known {
            ensure!(
                matches!(res, Ok(None)),
                "duplicate part",
                "a duplicate of offset {offset} gives {:?}",
                res.map(|r| r.map(|r| r.len())).map_err(|e| e.to_string())
            );
        } else if !data.is_empty() {
            first.insert(offset, data);
        }
        match res {
            Ok(Some(data)) => {
                ensure!(
                    data == message && total == message.len(),
                    "wrong message",
                    "{data:?} is produced for a total of {total}"
                );
                produced += 1;
                ensure!(produced == 1, "message produced twice", "produced {produced} times");
            }
            Ok(None) => {}
            // The owner forgets the transfer
            Err(_) => {
                if produced == 0 {
                    return Ok(());
                }
            }
        }
        ch.visit(hash_of(&(total, &first, produced)));
    }
    Ok(())
}

/// Ways to cut the message into parts
fn tilings(len: usize, max_parts: usize) -> Vec<Vec<(usize, usize)>> {
    fn go(at: usize, len: usize, left: usize, cur: &mut Vec<(usize, usize)>, out: &mut Vec<Vec<(usize, usize)>>) {
        if at == len {
            out.push(cur.clone());
            return;
        }
        if left == 0 {
            return;
        }
        for size in 1..=len - at {
            cur.push((at, size));
            go(at + size, len, left - 1, cur, out);
            cur.pop();
        }
    }
    let mut out = Vec::new();
    go(0, len, max_parts, &mut Vec::new(), &mut out);
    out
}

/// Parts of one tiling with duplicates (the same or other bytes) and empty parts
fn honest(ch: &mut Chooser<'_>, len: usize, extra: usize) -> Step {
    let message: Vec<u8> = (1..=len as u8).collect();
    let id = hash(&message);
    let tiling = ch.one_of(&tilings(len, 4));
    let transfer = Transfer::new(len);
    let mut have = BTreeSet::new();
    let mut produced = false;
    for _ in 0..tiling.len() + extra {
        let (offset, size) = ch.one_of(&tiling);
        let known = have.contains(&offset);
        // A duplicate can be anything
        let data = match if known { ch.choose(4) } else { ch.choose(2) } {
            0 => message[offset..offset + size].to_vec(),
            1 => vec![],
            2 => vec![0xff; size],
            _ => vec![0xff; size + 1],
        };
        ch.note(|| format!("{} bytes at {offset}", data.len()));
        ch.step();
        let empty = data.is_empty();
        let res = transfer.add_part(offset, data, &id);
        if !empty {
            have.insert(offset);
        }
        let complete = have.len() == tiling.len();
        match res {
            Ok(Some(data)) => {
                ensure!(!produced, "message produced twice", "produced again");
                ensure!(complete && data == message, "wrong message", "{data:?} is produced");
                produced = true;
            }
            Ok(None) => {}
            Err(e) => ensure!(
                produced,
                "good part rejected",
                "a part at {offset} gives an error: {e}"
            ),
        }
        ensure!(
            produced == complete,
            "complete message is not produced",
            "all parts of {tiling:?} are there, but there is no message"
        );
        ch.visit(hash_of(&(&tiling, &have, produced)));
    }
    ch.observe(produced);
    Ok(())
}

fn concurrent(ch: &mut Chooser<'_>, threads: &[Vec<(usize, &[u8])>], message: &[u8]) -> Step {
    let id = hash(message);
    let transfer = Transfer::new(message.len());
    let results = Mutex::new(Vec::new());
    let bodies = threads
        .iter()
        .map(|parts| {
            let (transfer, results) = (&transfer, &results);
            Box::new(move || {
                for (offset, data) in parts {
                    let res = transfer.add_part(*offset, data.to_vec(), &id);
                    results.lock().unwrap().push(res.map_err(|e| e.to_string()));
                }
            }) as Body<'_>
        })
        .collect();
    run_threads(ch, bodies, &Default::default())?;
    let results = results.into_inner().unwrap();
    ch.observe(format!("{results:?}"));
    ch.note(|| format!("{results:?}"));
    let produced: Vec<_> = results.iter().flatten().flatten().collect();
    ensure!(
        produced.len() == 1,
        "concurrent message count",
        "the message is produced {} times: {results:?}",
        produced.len()
    );
    ensure!(
        produced[0] == message,
        "wrong message",
        "{:?} is produced",
        produced[0]
    );
    Ok(())
}

/// Transfers of a real node, one second steps
async fn timeouts(ch: &mut Chooser<'_>, depth: usize) -> Step {
    const TIMEOUT: u64 = 3;
    let options = NodeOptions {
        transfer_timeout_sec: TIMEOUT,
        ..Default::default()
    };
    let (a, b) = pair(options);
    establish(&a, &b).await;
    let data = [payload(MESSAGE, 1, 2500), payload(MESSAGE, 2, 1500)];
    let mut packets = Vec::new();
    for data in &data {
        a.send(&b, data).unwrap();
        world::settle().await;
        packets.push(world::take_sent());
    }
    assert_eq!((packets[0].len(), packets[1].len()), (3, 2));

    #[derive(Default, Clone, Hash)]
    struct State {
        have: BTreeSet<usize>,
        last: u64,
        /// The state can be forgotten at any time
        stale: bool,
    }
    let mut model = [State::default(), State::default()];
    let mut now = 0u64;
    for _ in 0..depth {
        match ch.choose(6) {
            0 => {
                now += 1;
                ch.note(|| format!("second {now}"));
                world::advance(Duration::from_secs(1)).await;
            }
            n => {
                let (m, i) = [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1)][n - 1];
                ch.note(|| format!("part {i} of message {m}"));
                world::deliver(&packets[m][i]).await;
                let got: Vec<_> = b.events().into_iter().map(|e| e.data).collect();
                let state = &mut model[m];
                let age = now - state.last;
                if !state.have.is_empty() && age >= 2 * TIMEOUT {
                    // Must be forgotten
                    *state = State::default();
                } else if !state.have.is_empty() && age >= TIMEOUT {
                    state.stale = true;
                }
                state.have.insert(i);
                state.last = now;
                let complete = state.have.len() == packets[m].len();
                if state.stale {
                    // Old parts were either forgotten or not
                    if got.is_empty() {
                        if complete {
                            return Ok(());
                        }
                    } else {
                        ensure!(
                            complete && got == [data[m].clone()],
                            "wrong message",
                            "{} messages are produced",
                            got.len()
                        );
                        *state = State::default();
                    }
                } else {
                    ensure!(
                        got == if complete { vec![data[m].clone()] } else { vec![] },
                        if complete { "transfer forgotten too early" } else { "wrong message" },
                        "{} messages after {} of {} parts",
                        got.len(),
                        state.have.len(),
                        packets[m].len()
                    );
                    if complete {
                        *state = State::default();
                    }
                }
            }
        }
        ch.step();
        let known = b.node.metrics().incoming_transfers_len;
        let must: usize = model
            .iter()
            .filter(|s| !s.have.is_empty() && now - s.last < TIMEOUT && !s.stale)
            .count();
        let may: usize = model
            .iter()
            .filter(|s| !s.have.is_empty() && now - s.last < 2 * TIMEOUT)
            .count();
        ensure!(
            known >= must,
            "transfer forgotten too early",
            "{known} transfers are known instead of at least {must}"
        );
        ensure!(
            known <= may,
            "transfer is not forgotten",
            "{known} transfers are known instead of at most {may}"
        );
        ch.visit(hash_of(&(&model[0], &model[1], now)));
    }
    world::advance(Duration::from_secs(2 * TIMEOUT)).await;
    let left = b.node.metrics().incoming_transfers_len;
    ensure!(left == 0, "transfer is not forgotten", "{left} transfers are left");
    Ok(())
}

fn main() {
    check_main("C03", |ctx| {
        ctx.assume("the transfer timeout is measured in whole seconds and checked once per timeout");
        let depth = ctx.tiered(3, 4);
        ctx.explore(
            Suite {
                name: "hostile".to_owned(),
                about: format!(
                    "all sequences of {depth} parts: 7 offsets x 6 lengths x genuine or other bytes, 5 announced sizes"
                ),
                bound: 0,
            },
            |ch| hostile(ch, depth),
        );
        let (len, extra) = ctx.tiered((5, 2), (6, 3));
        ctx.explore(
            Suite {
                name: "honest".to_owned(),
                about: format!(
                    "all sequences of parts of every cut of {len} bytes into up to 4 parts with up to {extra} \
                    duplicates (same, empty, other, longer)"
                ),
                bound: 0,
            },
            |ch| honest(ch, len, extra),
        );
        let message = b"abcdef";
        let bound = ctx.tiered(3, 4);
        let scenarios: [(&str, Vec<Vec<(usize, &[u8])>>); 5] = [
            ("two parts", vec![vec![(0, &b"abc"[..])], vec![(3, b"def")]]),
            (
                "three parts",
                vec![vec![(0, &b"ab"[..])], vec![(2, b"cd")], vec![(4, b"ef")]],
            ),
            (
                "copies",
                vec![vec![(0, &b"abc"[..]), (3, b"def")], vec![(0, b"abc"), (3, b"def")]],
            ),
            (
                "copies in another order",
                vec![vec![(0, &b"abc"[..]), (3, b"def")], vec![(3, b"def"), (0, b"abc")]],
            ),
            (
                "empty parts",
                vec![vec![(0, &b"abc"[..]), (0, b"")], vec![(3, b""), (3, b"def")]],
            ),
        ];
        for (name, threads) in &scenarios {
            ctx.explore(
                Suite {
                    name: format!("concurrent {name}"),
                    about: format!("interleavings of {} threads, up to {bound} preemptions", threads.len()),
                    bound,
                },
                |ch| concurrent(ch, threads, message),
            );
        }
        let depth = ctx.tiered(6, 8);
        ctx.explore(
            Suite {
                name: "timeouts".to_owned(),
                about: format!(
                    "all sequences of {depth} steps: any packet of two split messages or one second, timeout 3 s, \
                    on a real node"
                ),
                bound: 0,
            },
            |ch| world::run(1, timeouts(ch, depth)),
        );
        // Long gaps need longer sequences
        ctx.explore(
            Suite {
                name: "gaps".to_owned(),
                about: "a split message is sent completely, then again in two pieces, with every gap of 0 to 7 \
                    seconds between the three"
                    .to_owned(),
                bound: 0,
            },
            |ch| world::run(1, gaps(ch)),
        );
        let cases = ctx.tiered([(4, 1), (2, 2)], [(5, 1), (3, 2)]);
        for (depth, peers) in cases {
            ctx.explore(
                Suite {
                    name: format!("retries of {peers}"),
                    about: format!(
                        "all sequences of {depth} parts of one message, genuine, damaged, overlapping, with holes or \
                        with other sizes, of {peers} peers, each of which then sends the message, on a real node"
                    ),
                    bound: 0,
                },
                |ch| world::run(1, retries(ch, depth, peers)),
            );
        }
    })
}

async fn gaps(ch: &mut Chooser<'_>) -> Step {
    const TIMEOUT: u64 = 3;
    let (a, b) = pair(NodeOptions {
        transfer_timeout_sec: TIMEOUT,
        ..Default::default()
    });
    establish(&a, &b).await;
    let data = payload(MESSAGE, 1, 2500);
    a.send(&b, &data).unwrap();
    world::settle().await;
    let packets = world::take_sent();
    let mut now = 0;
    let mut have = BTreeSet::new();
    let mut last = 0;
    let steps: Vec<Vec<usize>> = vec![vec![0, 1, 2], vec![0], vec![1], vec![2]];
    let mut stale = false;
    for (n, step) in steps.iter().enumerate() {
        if n > 0 {
            let gap = ch.choose(8) as u64;
            ch.note(|| format!("{gap} seconds pass"));
            for _ in 0..gap {
                world::advance(Duration::from_secs(1)).await;
            }
            now += gap;
        }
        for i in step {
            if !have.is_empty() && now - last >= 2 * TIMEOUT {
                have.clear();
                stale = false;
            } else if !have.is_empty() && now - last >= TIMEOUT {
                stale = true;
            }
            ch.note(|| format!("part {i}"));
            ch.step();
            have.insert(*i);
            last = now;
            world::deliver(&packets[*i]).await;
            let got = b.events().len();
            if stale {
                return Ok(());
            }
            let expected = usize::from(have.len() == packets.len());
            ensure!(
                got == expected,
                "transfer forgotten too early",
                "{got} messages are delivered instead of {expected}"
            );
            if expected > 0 {
                have.clear();
            }
            ch.visit(hash_of(&(n, &have, last, now)));
        }
    }
    ch.observe(&have);
    Ok(())
}

/// Sets of parts which fail don't prevent others from being put together
async fn retries(ch: &mut Chooser<'_>, depth: usize, peers: usize) -> Step {
    const TIMEOUT: u64 = 3;
    const TILE: usize = 12;
    let node = Sim::new(
        0,
        NodeOptions {
            transfer_timeout_sec: TIMEOUT,
            ..Default::default()
        },
    );
    let mut puppets: Vec<_> = (0..peers).map(|i| Puppet::new(7 + i as u8, 6 + i)).collect();
    for puppet in &mut puppets {
        puppet.introduce(&node);
    }
    let data = payload(MESSAGE, 5, 24);
    let message = tl_proto::serialize(everscale_network::proto::adnl::Message::Custom { data: &data });
    let (len, id) = (message.len(), hash(&message));
    assert!(len > 2 * TILE && len <= 3 * TILE);
    let tiles = [(0, TILE), (TILE, 2 * TILE), (2 * TILE, len)];

    /// The transfer as the specification has it
    struct Model {
        total: usize,
        parts: BTreeMap<usize, Vec<u8>>,
    }
    let mut models: Vec<Option<Model>> = (0..peers).map(|_| None).collect();

    const OPS: usize = 10;
    let mut steps: Vec<(usize, usize, bool)> = Vec::new();
    for _ in 0..depth {
        let op = ch.choose(OPS);
        let who = ch.choose(peers);
        steps.push((who, op, false));
    }
    let explored = steps.len();
    // Then the honest sender tries again
    for who in 0..peers {
        steps.extend((0..3).map(|tile| (who, tile, true)));
    }
    let mut delivered_at_last = vec![0; peers];
    for (n, (who, op, last)) in steps.into_iter().enumerate() {
        if n == explored && models.iter().any(|model| model.is_some()) {
            world::advance(Duration::from_secs(2 * TIMEOUT + 1)).await;
            models.iter_mut().for_each(|model| *model = None);
        }
        let (offset, bytes, total) = match op {
            0..=2 => (tiles[op].0, message[tiles[op].0..tiles[op].1].to_vec(), len),
            3 => (0, vec![1; TILE], len),
            4 => (2 * TILE, vec![1; len - 2 * TILE], len),
            // Too much of it
            5 => (2 * TILE, message[2 * TILE..].iter().copied().chain([0; 4]).collect(), len),
            // Overlaps the next one
            6 => (TILE, message[TILE..2 * TILE + 4].to_vec(), len),
            // Leaves a hole
            7 => (TILE + 4, message[TILE + 4..2 * TILE + 4].to_vec(), len),
            8 => (0, message[..TILE].to_vec(), TILE),
            _ => (0, message[..TILE].to_vec(), len + 8),
        };
        ch.note(|| format!("peer {who}: {} bytes at {offset} of {total} (kind {op})", bytes.len()));
        let packet = puppets[who].honest(vec![Msg::Part {
            hash: id,
            total: total as u32,
            offset: offset as u32,
            data: bytes.clone(),
        }]);
        puppets[who].deliver(&node, &packet).await;
        ch.step();

        let model = models[who].get_or_insert_with(|| Model {
            total,
            parts: BTreeMap::new(),
        });
        let mut expected = 0;
        if let std::collections::btree_map::Entry::Vacant(entry) = model.parts.entry(offset) {
            entry.insert(bytes);
            let received: usize = model.parts.values().map(|part| part.len()).sum();
            if received >= model.total {
                // The parts are in order, so they are put together without holes
                let mut whole = Vec::new();
                for (offset, part) in &model.parts {
                    if *offset == whole.len() {
                        whole.extend_from_slice(part);
                    }
                }
                expected = usize::from(received == model.total && whole == message);
                models[who] = None;
            }
        }
        let events = node.events();
        ensure!(
            events.len() == expected && events.iter().all(|e| e.data == data),
            if expected > 0 { "tiles produce nothing" } else { "wrong message" },
            "{} messages are delivered instead of {expected}",
            events.len()
        );
        if last {
            delivered_at_last[who] += events.len();
        }
        let known = node.node.metrics().incoming_transfers_len;
        let open = models.iter().filter(|model| model.is_some()).count();
        ensure!(
            known == open,
            if known > open { "failed transfer is kept" } else { "transfer is lost" },
            "{known} transfers are known instead of {open}"
        );
        let state: Vec<_> = models
            .iter()
            .map(|model| model.as_ref().map(|m| (m.total, m.parts.clone())))
            .collect();
        ch.visit(hash_of(&(state, &delivered_at_last)));
    }
    ensure!(
        delivered_at_last.iter().all(|n| *n == 1),
        "message is lost after a failed transfer",
        "after it the message is delivered {delivered_at_last:?} times"
    );
    ch.observe(&delivered_at_last);
    Ok(())
}
