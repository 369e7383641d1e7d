//! C18: DHT peers are scored and retired consistently

use std::time::Duration;

use everscale_network::adnl::NodeOptions;
use everscale_network::dht;
use everscale_network::proto;
use futures_util::StreamExt;
use harness::dhtkit::*;
use harness::puppet::Msg;
use harness::util::hash_of;
use harness::world::{self, START};
use harness::{check_main, ensure, Chooser, Step, Suite};

#[derive(Debug, Clone, Copy, PartialEq)]
enum Reply {
    Right,
    /// Cannot be parsed
    Wrong,
    Silence,
}

/// Lets the peers reply to everything that is asked until nothing more is asked.
/// Returns who was asked
async fn reply(cast: &mut Cast, node: &DhtSim, how: &[Reply]) -> Vec<usize> {
    let mut asked = Vec::new();
    loop {
        let heard = cast.listen().await;
        let mut quiet = true;
        for heard in heard {
            let Msg::Query { id, data } = heard.message else {
                continue;
            };
            quiet = false;
            asked.push(heard.by);
            let answer = match how[heard.by] {
                Reply::Silence => continue,
                Reply::Wrong => vec![1, 2, 3, 4],
                Reply::Right => answer(&data),
            };
            cast.puppets[heard.by]
                .say(&node.sim, vec![Msg::Answer { id, data: answer }])
                .await;
        }
        if quiet {
            return asked;
        }
    }
}

/// What an honest DHT node which knows nothing answers
fn answer(query: &[u8]) -> Vec<u8> {
    let mut query = query;
    let mut offset = 0;
    if <proto::rpc::DhtQuery<'_> as tl_proto::TlRead>::read_from(query, &mut offset).is_ok() {
        query = &query[offset..];
    }
    if let Ok(proto::rpc::DhtPing { random_id }) = tl_proto::deserialize(query) {
        return tl_proto::serialize(proto::dht::Pong { random_id });
    }
    if tl_proto::deserialize::<proto::rpc::DhtFindNode<'_>>(query).is_ok() {
        return nodes_answer(&[]);
    }
    if tl_proto::deserialize::<proto::rpc::DhtFindValue<'_>>(query).is_ok() {
        return not_found(&[]);
    }
    if tl_proto::deserialize::<proto::rpc::DhtStore<'_>>(query).is_ok() {
        return tl_proto::serialize(proto::dht::Stored);
    }
    panic!("unexpected query");
}

async fn histories(ch: &mut Chooser<'_>, depth: usize, peers: usize, basic: bool) -> Step {
    let threshold = if basic { 5 } else { ch.one_of(&[0usize, 1, 5]) };
    let options = dht::NodeOptions {
        bad_peer_threshold: threshold,
        ..Default::default()
    };
    let node = DhtSim::new(0, NodeOptions::default(), options);
    let mut cast = Cast::new(peers);
    for puppet in &cast.puppets {
        node.learn(puppet).unwrap();
    }
    let mut penalties = vec![0usize; peers];
    let mut version = START;
    for i in 0..depth {
        let state = hash_of(&(threshold, &penalties));
        ch.visit(state);
        // Penalties are not visible, so sequences of the basic operations are never cut short
        if !basic {
            ch.prune(state, (depth - i) as u32)?;
        }
        let who = ch.choose(peers);
        let op = if basic { ch.one_of(&[0, 5]) } else { ch.choose(9) };
        let replies = match op {
            0..=4 => [Reply::Right, Reply::Wrong, Reply::Silence].as_slice(),
            _ => &[Reply::Right],
        };
        let mut how = vec![Reply::Right; peers];
        how[who] = ch.one_of(replies);
        // A garbage answer is an answer to those who only look for values
        if how[who] == Reply::Wrong && (matches!(op, 3 | 4) || basic) {
            return ch.skip();
        }
        ch.step();
        ch.note(|| format!("penalties {penalties:?}, threshold {threshold}: peer {who} in operation {op}, {:?}", how[who]));
        let id = cast.puppets[who].id();
        let dht = node.dht.clone();
        let mut score = |who: usize, reply: Reply| {
            penalties[who] = match reply {
                Reply::Right => penalties[who].saturating_sub(1),
                _ => penalties[who] + 2,
            }
        };
        match op {
            // Questions to one peer
            0..=3 => {
                let task = tokio::spawn(async move {
                    match op {
                        0 => dht.ping(&id).await.is_ok_and(|pong| pong),
                        1 => dht.query_dht_nodes(&id, 5, false).await.is_ok(),
                        2 => dht.query_dht_nodes(&id, 5, true).await.is_ok(),
                        _ => {
                            let key = [7u8; 32];
                            dht.entry(&key, "name")
                                .value_from::<tl_proto::BoxedWrapper<proto::adnl::AddressList>>(&id)
                                .await
                                .is_ok()
                        }
                    }
                });
                let asked = reply(&mut cast, &node, &how).await;
                ensure!(asked == [who], "asked", "{asked:?} are asked instead of {who}");
                world::advance(Duration::from_secs(20)).await;
                reply(&mut cast, &node, &how).await;
                assert!(task.is_finished());
                score(who, how[who]);
            }
            // Lookup
            4 => {
                let bad: Vec<_> = (0..peers).map(|i| penalties[i] > threshold).collect();
                let task = tokio::spawn(async move {
                    let key = [7u8; 32];
                    let mut values = dht
                        .entry(&key, "name")
                        .values::<tl_proto::BoxedWrapper<proto::adnl::AddressList>>();
                    while values.next().await.is_some() {}
                });
                let asked = reply(&mut cast, &node, &how).await;
                for who in 0..peers {
                    let count = asked.iter().filter(|i| **i == who).count();
                    ensure!(
                        count == !bad[who] as usize,
                        if bad[who] { "bad peer asked" } else { "good peer skipped" },
                        "peer {who} with the penalties {} and the threshold {threshold} is asked {count} times",
                        penalties[who]
                    );
                    if count == 1 {
                        penalties[who] = match how[who] {
                            Reply::Right => penalties[who].saturating_sub(1),
                            _ => penalties[who] + 2,
                        };
                    }
                }
                world::advance(Duration::from_secs(20)).await;
                assert!(task.is_finished());
                world::take_sent();
            }
            // Authentic announcement
            5 => {
                version += 1;
                let (key, index) = (cast.puppets[who].key, cast.puppets[who].index);
                let res = node.dht.add_dht_peer(dht_node(key, index, version));
                assert!(matches!(res, Ok(Some(_))));
                score(who, Reply::Right);
            }
            6 => {
                version += 1;
                let (key, index) = (cast.puppets[who].key, cast.puppets[who].index);
                let description = dht_node(key, index, version);
                let mut query = tl_proto::serialize(proto::rpc::DhtQuery {
                    node: description.as_equivalent_ref(),
                });
                query.extend(tl_proto::serialize(proto::rpc::DhtPing { random_id: 5 }));
                assert!(cast.ask(who, &node.sim, &query).await.is_some());
                score(who, Reply::Right);
            }
            // Forged announcement
            7 => {
                version += 1;
                let (key, index) = (cast.puppets[who].key, cast.puppets[who].index);
                let mut description = dht_node(key, index, version);
                description.version += 1;
                node.dht.add_dht_peer(description).ok();
            }
            // A query of the peer says nothing about its answers
            _ => {
                let query = tl_proto::serialize(proto::rpc::DhtPing { random_id: 5 });
                assert!(cast.ask(who, &node.sim, &query).await.is_some());
            }
        }
        for who in 0..peers {
            let bad = node.dht.is_bad_peer(&cast.puppets[who].id());
            ensure!(
                bad == (penalties[who] > threshold),
                if bad { "good peer retired" } else { "bad peer kept" },
                "peer {who} with the penalties {} and the threshold {threshold} is bad: {bad}",
                penalties[who]
            );
            ensure!(
                node.dht.iter_known_peers().any(|id| *id == cast.puppets[who].id()),
                "peer forgotten",
                "peer {who} is not known anymore"
            );
        }
        ch.observe(&penalties);
    }
    Ok(())
}

/// A store offers the value to everybody and scores them
async fn stores(ch: &mut Chooser<'_>) -> Step {
    let node = DhtSim::new(0, NodeOptions::default(), dht::NodeOptions::default());
    let mut cast = Cast::new(3);
    for puppet in &cast.puppets {
        node.learn(puppet).unwrap();
    }
    let how: Vec<_> = (0..3).map(|_| ch.one_of(&[Reply::Right, Reply::Silence])).collect();
    let rounds = 1 + ch.choose(4);
    for round in 0..rounds {
        ch.step();
        let value = signed_value(1, b"address", 0, world::now() + 100 + round as u32, b"data");
        let store = node.dht.store_value(value.as_equivalent_ref()).unwrap();
        let task = tokio::spawn(store);
        let mut asked = reply(&mut cast, &node, &how).await;
        asked.sort_unstable();
        ensure!(asked == [0, 1, 2], "asked", "{asked:?} are asked to store");
        world::advance(Duration::from_secs(20)).await;
        assert!(task.is_finished());
        world::take_sent();
        for who in 0..3 {
            let penalties = match how[who] {
                Reply::Right => 0,
                _ => 2 * (round + 1),
            };
            let bad = node.dht.is_bad_peer(&cast.puppets[who].id());
            ch.visit(hash_of(&(round, &penalties)));
            ensure!(
                bad == (penalties > 5),
                if bad { "good peer retired" } else { "bad peer kept" },
                "peer {who} with the penalties {penalties} is bad: {bad}"
            );
        }
    }
    ch.observe(rounds);
    Ok(())
}

/// A peer fails many times in a row, then it gets better until it is good again
async fn long(ch: &mut Chooser<'_>, most: usize) -> Step {
    let threshold = ch.one_of(&[0usize, 5, 2 * most - 1]);
    let options = dht::NodeOptions {
        bad_peer_threshold: threshold,
        ..Default::default()
    };
    let node = DhtSim::new(0, NodeOptions::default(), options);
    let cast = Cast::new(2);
    for puppet in &cast.puppets {
        node.learn(puppet).unwrap();
    }
    let failures = 1 + ch.choose(most);
    let failure = ch.one_of(&[Reply::Wrong, Reply::Silence]);
    let announced = ch.flag();
    let id = cast.puppets[0].id();
    let check = |penalties: usize| -> Step {
        let bad = node.dht.is_bad_peer(&id);
        ensure!(
            bad == (penalties > threshold),
            if bad { "good peer retired" } else { "bad peer kept" },
            "the peer with the penalties {penalties} and the threshold {threshold} is bad: {bad}, after {failures} failures"
        );
        ensure!(!node.dht.is_bad_peer(&cast.puppets[1].id()), "good peer retired", "the other one");
        Ok(())
    };
    let mut other = Cast::new(2);
    let mut ask = async |how: Reply| {
        let dht = node.dht.clone();
        let task = tokio::spawn(async move { dht.ping(&id).await.is_ok() });
        reply(&mut other, &node, &[how, Reply::Right]).await;
        world::advance(Duration::from_secs(20)).await;
        world::take_sent();
        assert!(task.is_finished());
    };
    for i in 1..=failures {
        ch.step();
        ask(failure).await;
        check(2 * i)?;
    }
    for penalties in (0..2 * failures).rev() {
        ch.step();
        if announced {
            let version = world::now();
            let (key, index) = (cast.puppets[0].key, cast.puppets[0].index);
            assert!(matches!(node.dht.add_dht_peer(dht_node(key, index, version)), Ok(Some(_))));
            world::advance(Duration::from_secs(1)).await;
        } else {
            ask(Reply::Right).await;
        }
        ch.visit(hash_of(&(threshold, failures, failure == Reply::Wrong, announced, penalties)));
        check(penalties)?;
    }
    ch.observe((threshold, failures));
    Ok(())
}

fn main() {
    check_main("C18", |ctx| {
        let depth = ctx.tiered(7, 10);
        ctx.explore(
            Suite {
                name: "one".to_owned(),
                about: format!("one peer, thresholds 0, 1 and 5, all sequences of {depth} operations"),
                bound: 0,
            },
            |ch| world::run(1, histories(ch, depth, 1, false)),
        );
        let depth = ctx.tiered(5, 7);
        ctx.explore(
            Suite {
                name: "two".to_owned(),
                about: format!("two peers, thresholds 0, 1 and 5, all sequences of {depth} operations"),
                bound: 0,
            },
            |ch| world::run(1, histories(ch, depth, 2, false)),
        );
        let depth = ctx.tiered(8, 11);
        ctx.explore(
            Suite {
                name: "basic".to_owned(),
                about: format!("one peer, threshold 5, all sequences of {depth} answers, timeouts and announcements"),
                bound: 0,
            },
            |ch| world::run(1, histories(ch, depth, 1, true)),
        );
        let most = ctx.tiered(8, 40);
        ctx.explore(
            Suite {
                name: "long".to_owned(),
                about: format!("1 to {most} failures in a row and then as many good actions as it takes, 3 thresholds"),
                bound: 0,
            },
            |ch| world::run(1, long(ch, most)),
        );
        ctx.explore(
            Suite {
                name: "stores".to_owned(),
                about: "up to 4 stores to 3 peers which answer or not".to_owned(),
                bound: 0,
            },
            |ch| world::run(1, stores(ch)),
        );
    })
}
