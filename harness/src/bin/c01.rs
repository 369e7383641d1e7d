//! C01: replayed packets are processed at most once

use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

use everscale_network::adnl::NodeOptions;
use everscale_network::util::verif_api::PacketsHistory;
use harness::nodes::*;
use harness::sched::{self, run_threads, Body};
use harness::util::hash_of;
use harness::{check_main, ensure, world, Chooser, Ctx, Step, Suite};

/// A packet which is at most this far below the highest one must be accepted
const WINDOW: u64 = 256;

/// What the history has to remember
#[derive(Default, Hash)]
struct Model {
    seen: BTreeSet<u64>,
    max: u64,
}

impl Model {
    fn deliver(&mut self, history: &PacketsHistory, seqno: u64) -> Step {
        let accepted = history.deliver_packet(seqno);
        self.check(seqno, accepted)?;
        ensure!(
            history.seqno() == self.max,
            "highest seqno",
            "highest seqno is {} instead of {} after {seqno}",
            history.seqno(),
            self.max
        );
        Ok(())
    }

    fn check(&mut self, seqno: u64, accepted: bool) -> Step {
        if self.seen.contains(&seqno) {
            ensure!(
                !accepted,
                "accepted twice",
                "packet {seqno} is accepted again, highest is {}",
                self.max
            );
        } else if seqno + WINDOW >= self.max {
            ensure!(
                accepted,
                "rejected new",
                "new packet {seqno} is rejected, highest is {}",
                self.max
            );
        }
        if accepted {
            self.seen.insert(seqno);
            self.max = self.max.max(seqno);
        }
        Ok(())
    }
}

fn alphabet(base: u64) -> Vec<u64> {
    [
        0u64, 1, 2, 62, 63, 64, 65, 127, 128, 191, 192, 254, 255, 256, 257, 319, 320, 383, 384, 447, 448,
        510, 511, 512, 513, 600, 767, 768, 769, 1023, 1024, 1025,
    ]
    .iter()
    .map(|s| base + s)
    .filter(|s| *s > 0)
    .collect()
}

fn sequences(ctx: &mut Ctx) {
    let depth = ctx.tiered(3, 4);
    for (name, base) in [
        ("start", 0u64),
        ("32 bits", (1 << 32) - 512),
        ("62 bits", (1 << 62) - 512),
    ] {
        let seqnos = alphabet(base);
        ctx.explore(
            Suite {
                name: format!("sequences {name}"),
                about: format!(
                    "all sequences of {depth} deliveries of {} seqnos from {base} around block boundaries, \
                    each one followed by a replay of everything seen",
                    seqnos.len()
                ),
                bound: 0,
            },
            |ch| {
                let history = PacketsHistory::for_recv();
                let mut model = Model::default();
                for _ in 0..depth {
                    let seqno = ch.one_of(&seqnos);
                    ch.note(|| format!("deliver {seqno}"));
                    model.deliver(&history, seqno)?;
                    ch.step();
                    ch.visit(hash_of(&model));
                }
                for seqno in model.seen.clone() {
                    model.deliver(&history, seqno)?;
                }
                Ok(())
            },
        );
    }

    // Long histories: what was delivered is chosen by a pattern, then probes
    let probes = ctx.tiered(2, 3);
    ctx.explore(
        Suite {
            name: "long histories".to_owned(),
            about: format!(
                "up to 1300 deliveries in 9 patterns and 12 lengths (in order, reversed blocks, every n-th), \
                {probes} probes at every distance class from the highest seqno, optional reset before"
            ),
            bound: 0,
        },
        |ch| {
            let history = PacketsHistory::for_recv();
            let mut model = Model::default();
            let base = ch.one_of(&[0u64, 255, (1 << 48) - 300]);
            if ch.flag() {
                // Another life before
                let mut old = Model::default();
                for s in [1, 2, 255, 256, 700] {
                    old.deliver(&history, base + s)?;
                }
                history.reset();
                ensure!(
                    history.seqno() == 0,
                    "reset seqno",
                    "seqno is {} after the reset",
                    history.seqno()
                );
                ch.note(|| "deliver 1, 2, 255, 256, 700 and reset".to_owned());
            }
            let len = ch.one_of(&[1u64, 2, 63, 64, 65, 255, 256, 257, 511, 512, 513, 1300]);
            let pattern = ch.choose(9);
            let seqnos: Vec<u64> = match pattern {
                0 => (1..=len).collect(),
                1 => (1..=len).filter(|s| s % 2 == 0).collect(),
                2 => (1..=len).filter(|s| s % 64 == 0).collect(),
                3 => (1..=len).filter(|s| s % 255 == 1).collect(),
                4 => (0..len).map(|i| 1 + (i ^ 1)).collect(),
                5 => (0..len).map(|i| 1 + (i ^ 63)).collect(),
                6 => (0..len).map(|i| 1 + (i ^ 127)).collect(),
                7 => (1..=len).map(|s| s * 257).collect(),
                _ => (1..=len).filter(|s| s % 3 == 0).collect(),
            };
            for seqno in seqnos {
                model.deliver(&history, base + seqno)?;
                ch.step();
            }
            ch.note(|| format!("pattern {pattern} of length {len} from {base}"));
            ch.visit(hash_of(&model));
            for _ in 0..probes {
                let at = ch.choose(18) as i64;
                let distance = [
                    -1i64, 0, 1, 2, 63, 64, 65, 127, 128, 191, 192, 254, 255, 256, 257, 511, 512, -256,
                ][at as usize];
                let seqno = model.max as i64 - distance;
                if seqno <= 0 {
                    continue;
                }
                ch.note(|| format!("probe {seqno}"));
                model.deliver(&history, seqno as u64)?;
                ch.visit(hash_of(&model));
            }
            // Everything which is still near has to be remembered
            for seqno in model.max.saturating_sub(600).max(1)..=model.max {
                model.deliver(&history, seqno)?;
                model.deliver(&history, seqno)?;
            }
            Ok(())
        },
    );
}

fn sender(ctx: &mut Ctx) {
    let bound = ctx.tiered(3, 5);
    ctx.explore(
        Suite {
            name: "sender".to_owned(),
            about: format!(
                "interleavings of 3 threads taking 2 sequence numbers each, up to {bound} preemptions: \
                all are distinct and growing for each thread"
            ),
            bound,
        },
        |ch| {
            let history = PacketsHistory::for_send();
            let taken = Mutex::new(vec![Vec::new(); 3]);
            let bodies = (0..3)
                .map(|i| {
                    let (history, taken) = (&history, &taken);
                    Box::new(move || {
                        for _ in 0..2 {
                            let seqno = history.bump_seqno();
                            taken.lock().unwrap()[i].push(seqno);
                        }
                    }) as Body<'_>
                })
                .collect();
            run_threads(ch, bodies, &Default::default())?;
            let taken = taken.into_inner().unwrap();
            ch.observe(&taken);
            ch.note(|| format!("taken: {taken:?}"));
            let mut all: Vec<u64> = taken.iter().flatten().copied().collect();
            ensure!(
                taken.iter().all(|t| t[0] < t[1]),
                "sender order",
                "numbers of one thread do not grow: {taken:?}"
            );
            all.sort_unstable();
            ensure!(
                all == (1..=6).collect::<Vec<_>>(),
                "sender unique",
                "sent numbers are not unique: {taken:?}"
            );
            Ok(())
        },
    );
}

fn concurrent(ctx: &mut Ctx) {
    let bound = ctx.tiered(2, 3);
    // Delivered before, deliveries of each thread
    let scenarios: Vec<(&str, Vec<u64>, Vec<Vec<u64>>)> = vec![
        ("copies", vec![], vec![vec![5], vec![5], vec![5]]),
        ("copies in order", (1..=250).collect(), vec![vec![251, 252], vec![251, 252]]),
        ("copies swapped", (1..=250).collect(), vec![vec![251, 252], vec![252, 251]]),
        ("copies over a boundary", (1..=254).collect(), vec![vec![255, 256], vec![256, 255]]),
        ("shift of the window", (1..=255).collect(), vec![vec![256], vec![255, 254], vec![256]]),
        ("old copies at the shift", (200..=600).collect(), vec![vec![768], vec![600, 512], vec![601]]),
        ("jump of the window", (1..=300).collect(), vec![vec![1000], vec![1000], vec![301]]),
        ("two jumps", vec![], vec![vec![300, 600], vec![600, 300]]),
    ];
    for (name, before, threads) in &scenarios {
        ctx.explore(
            Suite {
                name: format!("concurrent {name}"),
                about: format!(
                    "interleavings of concurrent deliveries {threads:?} after {} others, up to {bound} preemptions",
                    before.len()
                ),
                bound,
            },
            |ch| concurrent_body(ch, before, threads),
        );
    }

    ctx.explore(
        Suite {
            name: "concurrent reset".to_owned(),
            about: format!(
                "interleavings of a reset with deliveries by two threads, up to {bound} preemptions"
            ),
            bound,
        },
        |ch| {
            let history = PacketsHistory::for_recv();
            for seqno in 1..=300 {
                history.deliver_packet(seqno);
            }
            let accepted = Mutex::new(BTreeMap::<u64, u32>::new());
            let mut bodies: Vec<Body<'_>> = vec![Box::new(|| history.reset())];
            for seqnos in [[3u64, 4], [4, 3]] {
                let (history, accepted) = (&history, &accepted);
                bodies.push(Box::new(move || {
                    for seqno in seqnos {
                        if history.deliver_packet(seqno) {
                            *accepted.lock().unwrap().entry(seqno).or_default() += 1;
                        }
                    }
                }));
            }
            run_threads(ch, bodies, &Default::default())?;
            let accepted = accepted.into_inner().unwrap();
            ch.observe(&accepted);
            ch.note(|| format!("accepted: {accepted:?}"));
            for seqno in [3, 4] {
                let n = accepted.get(&seqno).copied().unwrap_or_default();
                // Both were delivered before the reset
                ensure!(
                    n <= 1,
                    "accepted twice around reset",
                    "packet {seqno} is accepted {n} times after one reset"
                );
                let again = history.deliver_packet(seqno);
                ensure!(
                    again == (n == 0),
                    "state after concurrent reset",
                    "packet {seqno} was accepted {n} times and then {again}"
                );
            }
            // The history goes on
            let mut model = Model::default();
            model.seen.extend([3, 4]);
            model.max = 4;
            for seqno in [1, 2, 5, 256, 5, 1, 600, 600] {
                model.check(seqno, history.deliver_packet(seqno))?;
            }
            Ok(())
        },
    );
}

fn concurrent_body(ch: &mut Chooser<'_>, before: &[u64], threads: &[Vec<u64>]) -> Step {
    let history = PacketsHistory::for_recv();
    let mut model = Model::default();
    for seqno in before {
        model.deliver(&history, *seqno)?;
    }
    let accepted = Mutex::new(BTreeMap::<u64, u32>::new());
    let watched = Mutex::new(Vec::new());
    let mut bodies: Vec<Body<'_>> = Vec::new();
    for seqnos in threads {
        let (history, accepted, watched) = (&history, &accepted, &watched);
        bodies.push(Box::new(move || {
            for seqno in seqnos {
                if history.deliver_packet(*seqno) {
                    *accepted.lock().unwrap().entry(*seqno).or_default() += 1;
                    // Whoever looks after that sees at least this packet
                    let highest = history.seqno();
                    watched.lock().unwrap().push((*seqno, highest));
                }
            }
        }));
    }
    run_threads(ch, bodies, &Default::default())?;
    let accepted = accepted.into_inner().unwrap();
    let watched = watched.into_inner().unwrap();
    ch.observe((&accepted, &watched));
    ch.note(|| format!("accepted: {accepted:?}, highest seen: {watched:?}"));

    let all: BTreeSet<u64> = threads.iter().flatten().copied().collect();
    let max = all.iter().copied().chain([model.max]).max().unwrap();
    for (seqno, highest) in watched {
        ensure!(
            highest >= seqno,
            "highest seqno",
            "highest is {highest} right after {seqno} was accepted"
        );
    }
    for seqno in all {
        let n = accepted.get(&seqno).copied().unwrap_or_default();
        if model.seen.contains(&seqno) {
            ensure!(n == 0, "accepted twice", "{seqno} is accepted again");
        } else {
            ensure!(n <= 1, "accepted twice", "{seqno} is accepted {n} times");
            ensure!(
                n == 1 || seqno + WINDOW < max,
                "rejected new",
                "{seqno} is never accepted, highest is {max}"
            );
        }
    }
    model.seen.extend(accepted.keys());
    model.max = model.seen.iter().copied().max().unwrap_or_default();
    ensure!(
        history.seqno() == model.max,
        "highest seqno",
        "highest is {} instead of {}",
        history.seqno(),
        model.max
    );
    // Everything near is still remembered exactly
    for seqno in model.max.saturating_sub(WINDOW).max(1)..=model.max + 2 {
        model.deliver(&history, seqno)?;
    }
    Ok(())
}

fn nodes(ctx: &mut Ctx) {
    let messages = ctx.tiered(3, 3);
    let copies = ctx.tiered(2, 3);
    for (name, established, priority) in [
        ("handshakes", false, true),
        ("priority channel", true, true),
        ("ordinary channel", true, false),
    ] {
        ctx.explore(
            Suite {
                name: format!("node {name}"),
                about: format!(
                    "{messages} messages of one node over {name}, every sequence of {} deliveries of their \
                    packets: each message is processed once",
                    messages + copies
                ),
                bound: 0,
            },
            |ch| {
                world::run(1, async {
                    let options = NodeOptions {
                        packet_history_enabled: true,
                        force_use_priority_channels: priority,
                        ..Default::default()
                    };
                    let (a, b) = pair(options);
                    if established {
                        establish(&a, &b).await;
                    }
                    let sent: Vec<Vec<u8>> =
                        (0..messages).map(|i| payload(MESSAGE, 77 + i as u64, 16)).collect();
                    for data in &sent {
                        a.send(&b, data).unwrap();
                    }
                    world::settle().await;
                    let packets = world::take_sent();
                    assert_eq!(packets.len(), messages);
                    let mut delivered = BTreeSet::new();
                    for _ in 0..messages + copies {
                        let i = ch.choose(messages);
                        ch.note(|| format!("packet {i} arrives"));
                        ch.step();
                        world::deliver(&packets[i]).await;
                        let got: Vec<_> = b.events().into_iter().map(|e| e.data).collect();
                        let expected = if delivered.insert(i) {
                            vec![sent[i].clone()]
                        } else {
                            vec![]
                        };
                        ensure!(
                            got == expected,
                            "node delivery",
                            "packet {i} gave {} messages instead of {}",
                            got.len(),
                            expected.len()
                        );
                        ch.visit(hash_of(&(i, &delivered)));
                    }
                    Ok(())
                })
            },
        );
    }

    // The two flows do not disturb each other and survive thousands of packets
    let rounds = ctx.tiered(400, 1500);
    ctx.explore(
        Suite {
            name: "node long run".to_owned(),
            about: format!(
                "{rounds} messages with a copy of every packet repeated 1, 2, 64, 255 or 256 packets later"
            ),
            bound: 0,
        },
        |ch| {
            let lag = ch.one_of(&[0usize, 1, 2, 64, 255, 256]);
            let priority = ch.flag();
            world::run(1, async {
                let (a, b) = pair(NodeOptions {
                    packet_history_enabled: true,
                    force_use_priority_channels: priority,
                    ..Default::default()
                });
                establish(&a, &b).await;
                let mut packets = Vec::new();
                for i in 0..rounds {
                    let data = payload(MESSAGE, i, 16);
                    a.send(&b, &data).unwrap();
                    world::settle().await;
                    packets.extend(world::take_sent());
                    world::deliver(packets.last().unwrap()).await;
                    let got = b.events();
                    ensure!(
                        got.len() == 1 && got[0].data == data,
                        "node delivery",
                        "message {i} was delivered {} times",
                        got.len()
                    );
                    if packets.len() > lag {
                        world::deliver(&packets[packets.len() - 1 - lag]).await;
                        ensure!(
                            b.events().is_empty(),
                            "node replay",
                            "copy of the packet {} back is processed",
                            lag
                        );
                    }
                    ch.step();
                }
                ch.observe((lag, priority));
                ch.visit(hash_of(&(lag, priority)));
                Ok(())
            })
        },
    );
}

fn main() {
    check_main("C01", |ctx| {
        ctx.assume("sequence number 0 is never sent (the first one is 1)");
        ctx.assume("interleavings are sequentially consistent");
        let _ = sched::point;
        sequences(ctx);
        sender(ctx);
        concurrent(ctx);
        nodes(ctx);
    })
}
