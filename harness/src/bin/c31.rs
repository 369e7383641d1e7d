//! C31: what is stored, announced or asked with the DHT API means the same on every node

use std::collections::BTreeSet;
use std::net::{Ipv4Addr, SocketAddrV4};
use std::time::Duration;

use everscale_network::adnl::NodeOptions;
use everscale_network::dht;
use everscale_network::proto;
use futures_util::StreamExt;
use harness::dhtkit::*;
use harness::nodes::*;
use harness::puppet::*;
use harness::util::hash_of;
use harness::{check_main, ensure, world, Chooser, Step, Suite};
use tl_proto::BoxedWrapper;

/// Data of the entries
type Data = BoxedWrapper<proto::adnl::AddressList>;

const DEFAULT_TTL: u32 = 100;

fn data(n: u32) -> proto::adnl::AddressList {
    proto::adnl::AddressList {
        address: None,
        version: n,
        reinit_date: 7,
        expire_at: 0,
    }
}

fn options(ttl: u32) -> dht::NodeOptions {
    dht::NodeOptions {
        value_ttl_sec: ttl,
        ..Default::default()
    }
}

/// Nodes and who knows whom
fn network(links: &[(usize, usize)], count: usize, ttl: u32) -> Vec<DhtSim> {
    let nodes: Vec<_> = (0..count)
        .map(|i| DhtSim::new(i, NodeOptions::default(), options(ttl)))
        .collect();
    for (a, b) in links {
        nodes[*a].dht.add_dht_peer(nodes[*b].description(world::START)).unwrap();
    }
    nodes
}

/// Delivers everything until the task ends
async fn finish<T>(task: tokio::task::JoinHandle<T>) -> Result<T, harness::Stop> {
    for _ in 0..100 {
        world::flush().await;
        if task.is_finished() {
            return Ok(task.await.unwrap());
        }
        world::advance(Duration::from_millis(100)).await;
    }
    Err(harness::Stop::violation("endless operation", "it doesn't end in 10 seconds"))
}

/// The writer, a keeper in the middle and the reader, which may know the others or only the keeper
const TOPOLOGIES: [&[(usize, usize)]; 3] = [
    &[(0, 1), (1, 0), (1, 2), (2, 1)],
    &[(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)],
    // Nobody knows the writer and the reader
    &[(0, 1), (2, 1)],
];

const NAMES: [&str; 3] = ["address", "x", "a longer name with spaces and ünïcode"];
const INDEXES: [u32; 3] = [0, 1, 15];

async fn entries(ch: &mut Chooser<'_>) -> Step {
    let nodes = network(TOPOLOGIES[ch.deviate(3)], 3, DEFAULT_TTL);
    let (writer, keeper, reader) = (&nodes[0], &nodes[1], &nodes[2]);
    // The owner is not necessarily the node itself
    let owner = [writer.sim.key(), 77][ch.deviate(2)];
    let key = std::sync::Arc::new(everscale_network::adnl::Key::from_bytes(secret(owner)));
    let id = short_id(owner);
    let name = ch.deviate(NAMES.len());
    let index = ch.deviate(INDEXES.len());
    let now = world::now();
    let expiry = ch.deviate(8);
    let until = match expiry {
        0 => now + DEFAULT_TTL,
        7 => u32::MAX,
        1 => now + 1,
        2 => now + 600,
        3 => now + 2,
        4 => now + 100_000,
        5 => now,
        _ => now - 1,
    };
    let method = ch.deviate(4);
    let by_other_id = ch.deviate(2) == 1;
    let entry_id = if by_other_id { short_id(78) } else { id };
    ch.note(|| {
        format!(
            "owner {owner}, name {name}, index {}, until now + {}, stored in the way {method}, foreign id: {by_other_id}",
            INDEXES[index],
            until as i64 - now as i64
        )
    });
    let bytes = tl_proto::serialize_as_boxed(data(5));
    let entry = writer
        .dht
        .entry(&entry_id, NAMES[name])
        .with_key_index(INDEXES[index]);
    let entry = match method % 2 {
        0 => entry.with_data(BoxedWrapper(data(5))),
        _ => entry.with_data_raw(&bytes),
    };
    let entry = match expiry {
        0 => entry,
        1 | 2 => entry.with_ttl(until - now),
        7 => entry.with_ttl(u32::MAX),
        _ => entry.expire_at(until),
    };
    let mut expected = signed_value(owner, NAMES[name].as_bytes(), INDEXES[index], until, &bytes);
    if by_other_id {
        expected.key.key.id = *entry_id.as_slice();
        sign_key(&mut expected, owner);
        sign_value(&mut expected, owner);
    }
    let valid = until > now && !by_other_id;
    ch.step();
    let stored = match method {
        0 | 1 => match entry.sign_and_store(&key) {
            Ok(store) => {
                finish(tokio::spawn(async move { store.await })).await?;
                true
            }
            Err(_) => false,
        },
        2 => {
            let value = entry.sign(&key);
            ensure!(
                tl_proto::serialize(&value) == tl_proto::serialize(&expected),
                "wrong value",
                "the builder makes {value:?} instead of {expected:?}"
            );
            match writer.dht.store_value(value.as_equivalent_ref()) {
                Ok(store) => {
                    finish(tokio::spawn(async move { store.await })).await?;
                    true
                }
                Err(_) => false,
            }
        }
        _ => {
            // Signed here and stored by somebody else
            let value = entry.sign(&key);
            let mut cast = Cast::new(1);
            cast.store(0, &keeper.sim, &value).await
        }
    };
    ensure!(
        stored == valid,
        "wrong result of the store",
        "the store of a value which is valid: {valid} succeeded: {stored}"
    );
    // Then it is read under this key or another one
    let wait = match ch.deviate(3) {
        0 => 0,
        1 => until.saturating_sub(now + 1).min(1_000_000),
        _ => until.saturating_sub(now).min(1_000_000),
    };
    world::advance(Duration::from_secs(wait as u64)).await;
    let (mut read_id, mut read_name, mut read_index) = (entry_id, NAMES[name], INDEXES[index]);
    let other_key = ch.deviate(4);
    match other_key {
        0 => {}
        1 => read_id = short_id(79),
        2 => read_name = NAMES[(name + 1) % NAMES.len()],
        _ => read_index = INDEXES[(index + 1) % INDEXES.len()],
    }
    let how = ch.deviate(2);
    let dht = reader.dht.clone();
    let from = keeper.sim.id();
    let name_read = read_name;
    let found = finish(tokio::spawn(async move {
        let entry = dht.entry(&read_id, name_read).with_key_index(read_index);
        match how {
            0 => entry.values::<Data>().collect::<Vec<_>>().await,
            _ => entry.value_from::<Data>(&from).await.ok().flatten().into_iter().collect(),
        }
    }))
    .await?;
    let readable = valid && other_key == 0 && world::now() < until;
    ch.observe((readable, found.len()));
    ch.visit(hash_of(&(owner, name, index, expiry, method, wait, other_key, how)));
    ensure!(
        !readable || !found.is_empty(),
        "value is not found",
        "it is valid for {} more seconds",
        until as i64 - world::now() as i64
    );
    ensure!(
        readable || found.is_empty(),
        "value is found",
        "read under another key: {other_key}, valid {valid}, {} s after the expiry",
        world::now() as i64 - until as i64
    );
    for (key, BoxedWrapper(found)) in found {
        ensure!(
            tl_proto::serialize(&key) == tl_proto::serialize(&expected.key) && tl_proto::serialize_as_boxed(found) == bytes,
            "another value is found",
            "under {key:?}"
        );
    }
    Ok(())
}

/// Announced addresses of several owners, at several times
async fn addresses(ch: &mut Chooser<'_>, depth: usize, ttl: u32) -> Step {
    let topology = ch.choose(TOPOLOGIES.len());
    let nodes = network(TOPOLOGIES[topology], 3, ttl);
    let all = [
        world::addr(40),
        SocketAddrV4::new(Ipv4Addr::new(255, 255, 255, 254), 65535),
        SocketAddrV4::new(Ipv4Addr::new(1, 0, 0, 1), 1),
    ];
    let owners = [1u8, 3];
    // Announcements and until when they are valid
    let mut model: [Vec<(SocketAddrV4, u32)>; 2] = Default::default();
    for _ in 0..depth {
        match ch.choose(all.len() * 2 + 2) {
            n if n < all.len() * 2 => {
                let (who, addr) = (n % 2, all[n / 2]);
                if ttl == u32::MAX && !model[who].is_empty() {
                    // Nothing ends later than that
                    return ch.skip();
                }
                ch.note(|| format!("{who} announces {addr}"));
                // Two values of one second would be equally new
                world::advance(Duration::from_secs(1)).await;
                let node = &nodes[who * 2];
                assert_eq!(node.sim.key(), owners[who]);
                let key = node.sim.node.key_by_tag(0).unwrap().clone();
                let dht = node.dht.clone();
                let until = world::now().saturating_add(ttl);
                let res = finish(tokio::spawn(async move { dht.store_address(&key, addr).await })).await?;
                ensure!(matches!(res, Ok(true)), "wrong result of the announcement", "{res:?}");
                model[who].push((addr, until));
            }
            n => {
                let pause = [1, ttl.min(100_000) as u64 - 1][n - all.len() * 2];
                ch.note(|| format!("{pause} s pass"));
                world::advance(Duration::from_secs(pause)).await;
            }
        }
        ch.step();
        for who in 0..2 {
            // The other one and the one in the middle look for it
            for reader in [2 - who * 2, 1] {
                let (dht, id) = (nodes[reader].dht.clone(), short_id(owners[who]));
                let at = world::now();
                let found = finish(tokio::spawn(async move { dht.find_address(&id).await })).await?;
                // Nodes which were unknown to the owner can have an older one
                let newest = model[who].last().filter(|(_, until)| *until > at);
                let found = match found {
                    Ok((addr, id)) => {
                        ensure!(id == full_id(owners[who]), "wrong owner", "{id:?}");
                        Some(addr)
                    }
                    Err(_) => None,
                };
                let right = match topology {
                    1 => found == newest.map(|(addr, _)| *addr),
                    // Nobody asks itself, and the one in the middle may know nobody
                    _ if reader == 1 && found.is_none() => true,
                    _ => match found {
                        None => newest.is_none(),
                        Some(found) => model[who].iter().any(|(addr, until)| *addr == found && *until > at),
                    },
                };
                ensure!(
                    right,
                    "wrong address",
                    "{reader} finds {found:?} of {who} at {at}, announced: {:?}",
                    model[who]
                );
            }
        }
        let state: Vec<Vec<_>> = model
            .iter()
            .map(|m| m.iter().map(|(a, u)| (*a, u.saturating_sub(world::now()))).collect())
            .collect();
        ch.visit(hash_of(&(topology, state)));
        ch.observe((model[0].len(), model[1].len()));
    }
    Ok(())
}

/// Announced members of overlays
async fn members(ch: &mut Chooser<'_>, depth: usize) -> Step {
    let nodes = network(TOPOLOGIES[1], 3, DEFAULT_TTL);
    let mut entered: [BTreeSet<u8>; 2] = Default::default();
    let mut known: BTreeSet<u8> = BTreeSet::new();
    for _ in 0..depth {
        // Members are the nodes themselves
        let (who, op) = (ch.choose(2) * 2, ch.choose(3));
        let node = &nodes[who];
        let key = node.sim.key();
        let dht = node.dht.clone();
        match op {
            0 | 1 => {
                ch.note(|| format!("{who} enters the overlay {op}"));
                let id = overlay(1 + op as u8);
                let member = overlay_node(key, &id.compute_short_id(), world::now());
                let res = finish(tokio::spawn(async move {
                    dht.store_overlay_node(&id, member.as_equivalent_ref()).await
                }))
                .await?;
                ensure!(matches!(res, Ok(true)), "wrong result of the announcement", "{res:?}");
                entered[op].insert(key);
            }
            _ => {
                ch.note(|| format!("{who} announces its address"));
                let own = node.sim.node.key_by_tag(0).unwrap().clone();
                let addr = world::addr(who);
                let res = finish(tokio::spawn(async move { dht.store_address(&own, addr).await })).await?;
                ensure!(matches!(res, Ok(true)), "wrong result of the announcement", "{res:?}");
                known.insert(key);
            }
        }
        world::advance(Duration::from_secs(1)).await;
        ch.step();
        for n in 0..2 {
            let dht = nodes[1].dht.clone();
            let id = overlay(1 + n as u8).compute_short_id();
            let found = finish(tokio::spawn(async move { dht.find_overlay_nodes(&id).await })).await?;
            let found = match found {
                Ok(found) => found,
                Err(e) => return Err(harness::Stop::violation("failed search", e.to_string())),
            };
            let mut keys = BTreeSet::new();
            for (addr, member) in &found {
                let key = [1u8, 3].into_iter().find(|key| public_key(*key) == member.id);
                ensure!(
                    is_valid_overlay_node(member, &id) && key.is_some_and(|key| *addr == world::addr(key as usize - 1)),
                    "wrong member",
                    "{member:?} at {addr}"
                );
                ensure!(keys.insert(key.unwrap()), "member twice", "{found:?}");
            }
            let expected: BTreeSet<u8> = entered[n].intersection(&known).copied().collect();
            ensure!(
                keys == expected,
                "wrong members",
                "the members of the overlay {n} are {keys:?} instead of {expected:?}"
            );
        }
        ch.visit(hash_of(&(&entered, &known)));
        ch.observe((entered[0].len(), entered[1].len(), known.len()));
    }
    Ok(())
}

/// Requests to one peer which answers in various ways
async fn requests(ch: &mut Chooser<'_>) -> Step {
    let node = DhtSim::new(0, NodeOptions::default(), options(DEFAULT_TTL));
    let mut cast = Cast::new(3);
    node.learn(&cast.puppets[0]);
    let id = cast.puppets[0].id();
    let dht = node.dht.clone();
    let op = ch.choose(3);
    let (k, store_self) = (ch.one_of(&[0u32, 1, 10]), op == 2);
    let task = tokio::spawn(async move {
        match op {
            0 => dht.ping(&id).await.map(|pong| (pong, Vec::new())),
            _ => dht
                .query_dht_nodes(&id, k, store_self)
                .await
                .map(|nodes| (true, nodes)),
        }
    });
    let mut heard = cast.listen().await;
    heard.retain(|heard| !matches!(heard.message, Msg::Create { .. }));
    let [Heard { by: 0, message: Msg::Query { id, data } }] = &heard[..] else {
        return Err(harness::Stop::violation("wrong request", format!("{heard:?}")));
    };
    ch.step();
    let count = ch.choose(3);
    let nodes: Vec<_> = (1..=count).map(|i| dht_node(10 + i as u8, 5 + i, world::START)).collect();
    let request = match op {
        0 => {
            let ping: proto::rpc::DhtPing = match tl_proto::deserialize(data) {
                Ok(ping) => ping,
                Err(_) => return Err(harness::Stop::violation("wrong request", "not a ping")),
            };
            Some(ping.random_id)
        }
        _ => {
            let local = *node.sim.id().as_slice();
            let find = bytes_of(proto::rpc::DhtFindNode { key: &local, k });
            let prefix = bytes_of(proto::rpc::DhtQuery {
                node: node.description(world::START).as_equivalent_ref(),
            });
            let ok = match store_self {
                false => *data == find,
                // The description is made anew, so only its owner is compared
                true => data.ends_with(&find) && data.len() == prefix.len() + find.len() && data[..4] == prefix[..4],
            };
            ensure!(ok, "wrong request", "{data:?}");
            if store_self {
                let own: Result<NodeOwned, _> = tl_proto::deserialize(&data[4..data.len() - find.len()]);
                ensure!(
                    own.as_ref().is_ok_and(|own| own.id == public_key(node.sim.key())
                        && is_signed(&own.id, &node_bytes(own), &own.signature)
                        && tl_proto::serialize(&own.addr_list.address) == tl_proto::serialize(node.description(1).addr_list.address)),
                    "wrong description",
                    "{own:?}"
                );
            }
            None
        }
    };
    let kind = ch.choose(5);
    let answer = match (kind, request) {
        (0, Some(random_id)) => Some(tl_proto::serialize(proto::dht::Pong { random_id })),
        (1, Some(random_id)) => Some(tl_proto::serialize(proto::dht::Pong {
            random_id: random_id ^ [1, 1 << 63, u64::MAX][count],
        })),
        (0, None) => Some(nodes_answer(&nodes)),
        (1, None) => Some(nodes_answer(&[])),
        (2, _) => Some(bytes_of(proto::dht::Stored)),
        (3, _) => Some(Vec::new()),
        _ => None,
    };
    if let Some(data) = answer {
        cast.puppets[0].say(&node.sim, vec![Msg::Answer { id: *id, data }]).await;
    } else {
        world::advance(Duration::from_secs(6)).await;
    }
    ensure!(task.is_finished(), "endless request", "the answer is of the kind {kind}");
    let res = task.await.unwrap();
    ch.note(|| format!("request {op}, answer {kind}: {res:?}"));
    let ok = match (kind, &res) {
        (0 | 1, Ok((true, found))) if op > 0 => {
            tl_proto::serialize(found) == tl_proto::serialize(if kind == 0 { &nodes[..] } else { &[] }.to_vec())
        }
        (0, Ok((pong, _))) => *pong,
        (1, Ok((pong, _))) => !pong,
        (2 | 3, Err(_)) => true,
        (4, Ok((pong, found))) => found.is_empty() && (op > 0 || !pong),
        _ => false,
    };
    ensure!(ok, "wrong result", "request {op}, answer {kind}: {res:?}");
    ch.visit(hash_of(&(op, k, kind, count)));
    ch.observe((op, kind, res.is_ok()));
    Ok(())
}

/// A node which introduces itself is known then, and others are not
async fn introductions(ch: &mut Chooser<'_>, depth: usize) -> Step {
    let nodes = network(&[(0, 1), (2, 1)], 3, DEFAULT_TTL);
    let mut knows = [[false; 3]; 3];
    knows[0][1] = true;
    knows[2][1] = true;
    for _ in 0..depth {
        let who = ch.choose(2) * 2;
        let op = ch.choose(3);
        ch.note(|| format!("node {who}: operation {op}"));
        let dht = nodes[who].dht.clone();
        let keeper = nodes[1].sim.id();
        let res = finish(tokio::spawn(async move {
            match op {
                0 => dht.query_dht_nodes(&keeper, 10, false).await.map(|nodes| nodes.len()),
                1 => dht.query_dht_nodes(&keeper, 10, true).await.map(|nodes| nodes.len()),
                _ => dht.find_more_dht_nodes().await,
            }
        }))
        .await?;
        ensure!(res.is_ok(), "failed request", "{res:?}");
        if op == 1 {
            knows[1][who] = true;
        }
        ch.step();
        // Only the keeper can learn by these requests, except by a search
        for (i, node) in nodes.iter().enumerate() {
            for (j, other) in nodes.iter().enumerate() {
                let known = node.dht.iter_known_peers().any(|id| *id == other.sim.id());
                let may = op == 2 && i == who && i != j && knows[1][j];
                ensure!(
                    known == knows[i][j] || (known && may),
                    "wrong peers",
                    "node {i} knows {j}: {known} instead of {}",
                    knows[i][j]
                );
                knows[i][j] = known;
            }
        }
        ch.visit(hash_of(&knows));
        ch.observe(knows);
    }
    Ok(())
}

fn main() {
    check_main("C31", |ctx| {
        ctx.assume("datagrams between the nodes are neither lost nor reordered here, C17 covers that");
        let bound = ctx.tiered(4, 6);
        ctx.explore(
            Suite {
                name: "entries".to_owned(),
                about: "3 topologies of real nodes, owners, names, indexes, 8 expiry times, 4 ways to store, read \
                    under the same or another key at the moments around the expiry by streams and direct requests"
                    .to_owned(),
                bound,
            },
            |ch| world::run(1, entries(ch)),
        );
        let depth = ctx.tiered(3, 4);
        ctx.explore(
            Suite {
                name: "addresses".to_owned(),
                about: format!("all sequences of {depth} announcements of 2 owners and pauses, 3 topologies"),
                bound: 0,
            },
            |ch| world::run(1, addresses(ch, depth, DEFAULT_TTL)),
        );
        let depth = ctx.tiered(2, 3);
        ctx.explore(
            Suite {
                name: "validity".to_owned(),
                about: format!("all sequences of {depth} announcements and pauses if they are valid for an hour, or forever"),
                bound: 0,
            },
            |ch| {
                let ttl = ch.one_of(&[3600, u32::MAX]);
                world::run(1, addresses(ch, depth, ttl))
            },
        );
        let depth = ctx.tiered(4, 5);
        ctx.explore(
            Suite {
                name: "members".to_owned(),
                about: format!("all sequences of {depth} announcements of 2 members of 2 overlays and their addresses"),
                bound: 0,
            },
            |ch| world::run(1, members(ch, depth)),
        );
        ctx.explore(
            Suite {
                name: "requests".to_owned(),
                about: "pings and requests for nodes with 5 kinds of answers".to_owned(),
                bound: 0,
            },
            |ch| world::run(1, requests(ch)),
        );
        let depth = ctx.tiered(4, 6);
        ctx.explore(
            Suite {
                name: "introductions".to_owned(),
                about: format!("all sequences of {depth} requests of two nodes to a third one, with and without a description"),
                bound: 0,
            },
            |ch| world::run(1, introductions(ch, depth)),
        );
    })
}
