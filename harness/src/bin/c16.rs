//! C16: the routing table keeps valid peers and finds the closest

use std::collections::{BTreeMap, BTreeSet};

use bytes::Bytes;
use everscale_crypto::tl::PublicKeyOwned;
use everscale_network::adnl::{NodeIdShort, NodeOptions};
use everscale_network::dht;
use everscale_network::dht::verif_api::{get_affinity, Buckets};
use everscale_network::proto;
use harness::dhtkit::*;
use harness::nodes::short_id;
use harness::util::hash_of;
use harness::world::{self, START};
use harness::{check_main, ensure, Chooser, Step, Suite};

type Id = [u8; 32];

fn xor(a: &Id, b: &Id) -> Id {
    std::array::from_fn(|i| a[i] ^ b[i])
}

fn common_prefix(a: &Id, b: &Id) -> usize {
    xor(a, b)
        .iter()
        .position(|byte| *byte != 0)
        .map(|i| i * 8 + (a[i] ^ b[i]).leading_zeros() as usize)
        .unwrap_or(256)
}

/// Checks the answer of the node `local` which knows these peers
fn check_found(local: &Id, known: &BTreeSet<Id>, key: &Id, k: usize, found: &[Id]) -> Step {
    let own = xor(local, key);
    let candidates: Vec<_> = known.iter().filter(|id| xor(id, key) < own).collect();
    let distinct: BTreeSet<_> = found.iter().collect();
    ensure!(distinct.len() == found.len(), "duplicates", "found {} nodes, {} distinct", found.len(), distinct.len());
    ensure!(
        found.len() <= k,
        "too many",
        "found {} nodes instead of at most {k}",
        found.len()
    );
    for id in found {
        ensure!(known.contains(id), "unknown node", "found a node which is not known");
        ensure!(
            candidates.contains(&id),
            "far node",
            "found a node which is not closer than the asked node itself"
        );
    }
    ensure!(
        found.len() == k.min(candidates.len()),
        "too few",
        "found {} nodes, there are {} closer ones, at most {k} are requested",
        found.len(),
        candidates.len()
    );
    for id in found {
        for other in &candidates {
            if distinct.contains(other) || common_prefix(local, id) == common_prefix(local, other) {
                continue;
            }
            ensure!(
                xor(id, key) < xor(other, key),
                "closer node omitted",
                "a node of a farther class is found instead of a closer one"
            );
        }
    }
    Ok(())
}

/// Id with these bits in the positions
fn id_with(base: u8, positions: &[usize], bits: usize) -> Id {
    let mut id = [base; 32];
    for (i, position) in positions.iter().enumerate() {
        let mask = 0x80 >> (position % 8);
        if bits & (1 << i) != 0 {
            id[position / 8] |= mask;
        } else {
            id[position / 8] &= !mask;
        }
    }
    id
}

/// All sets of peers in a small space of ids
fn find(ch: &mut Chooser<'_>, layouts: &[Vec<usize>]) -> Step {
    let positions = ch.one_of(layouts);
    let size = 1usize << positions.len();
    let local_bits = ch.one_of(&[0, size - 1, size / 2 - 1]);
    let base = ch.one_of(&[0u8, 0xa5]);
    let local = id_with(base, &positions, local_bits);
    let buckets = Buckets::new(&NodeIdShort::new(local));
    let mut known = BTreeSet::new();
    for bits in 0..size {
        if bits != local_bits && ch.flag() {
            let id = id_with(base, &positions, bits);
            let mut node = template().clone();
            node.id = PublicKeyOwned::Unencoded { data: id.to_vec() };
            buckets.insert(&NodeIdShort::new(id), node);
            known.insert(id);
        }
    }
    ch.visit(hash_of(&(&positions, local_bits, &known)));
    for key_bits in 0..size {
        let key = id_with(base, &positions, key_bits);
        let affinity = get_affinity(&local, &key) as usize;
        ensure!(
            affinity == common_prefix(&local, &key).min(255),
            "affinity",
            "{affinity} instead of {}",
            common_prefix(&local, &key)
        );
        for k in (0..=size).chain([u32::MAX as usize]) {
            ch.step();
            let found: Vec<Id> = buckets
                .find(key, k as u32)
                .nodes
                .iter()
                .map(|node| match &node.id {
                    PublicKeyOwned::Unencoded { data } => data.as_slice().try_into().unwrap(),
                    _ => unreachable!(),
                })
                .collect();
            check_found(&local, &known, &key, k, &found)?;
        }
    }
    ch.observe(known.len());
    Ok(())
}

fn template() -> &'static NodeOwned {
    static TEMPLATE: std::sync::OnceLock<NodeOwned> = std::sync::OnceLock::new();
    TEMPLATE.get_or_init(|| dht_node(10, 5, 1))
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Kind {
    Version(u32),
    /// Another description with the same version as the second one
    SameVersion,
    BadSignature,
    NoSignature,
    SignedByOther,
    ChangedVersion,
    ChangedAddress,
    Own,
    OwnAddress,
    Expired,
    FromFuture,
    NoAddress,
    BigPort,
    OtherKeyType,
}

impl Kind {
    /// Version of a valid description
    fn version(self) -> Option<u32> {
        match self {
            Kind::Version(version) => Some(version),
            Kind::SameVersion => Some(2),
            _ => None,
        }
    }
}

const KINDS: [Kind; 16] = [
    Kind::Version(1),
    Kind::Version(2),
    Kind::Version(3),
    Kind::SameVersion,
    Kind::BadSignature,
    Kind::NoSignature,
    Kind::SignedByOther,
    Kind::ChangedVersion,
    Kind::ChangedAddress,
    Kind::Own,
    Kind::OwnAddress,
    Kind::Expired,
    Kind::FromFuture,
    Kind::NoAddress,
    Kind::BigPort,
    Kind::OtherKeyType,
];

/// Description of the peer number `n`
fn describe(kind: Kind, n: u8) -> NodeOwned {
    let key = 10 + n;
    let index = 5 + n as usize;
    let mut node = dht_node(key, index, 100);
    match kind {
        Kind::Version(version) => {
            // Every version has another address
            node.version = version;
            node.addr_list.address.as_mut().unwrap().port += version * 10;
            sign_node(&mut node, key);
        }
        Kind::SameVersion => {
            node.version = 2;
            sign_node(&mut node, key);
        }
        Kind::BadSignature => {
            let mut signature = node.signature.to_vec();
            signature[40] ^= 1;
            node.signature = signature.into();
        }
        Kind::NoSignature => node.signature = Bytes::new(),
        Kind::SignedByOther => sign_node(&mut node, 99),
        Kind::ChangedVersion => node.version += 1,
        Kind::ChangedAddress => node.addr_list.address.as_mut().unwrap().port += 1,
        Kind::Own => node = dht_node(1, 3, 100),
        Kind::OwnAddress => node = dht_node(key, 0, 100),
        Kind::Expired => {
            node.addr_list.expire_at = START - 1;
            sign_node(&mut node, key);
        }
        Kind::FromFuture => {
            node.addr_list.reinit_date = START + 10_000;
            sign_node(&mut node, key);
        }
        Kind::NoAddress => {
            node.addr_list.address = None;
            sign_node(&mut node, key);
        }
        Kind::BigPort => {
            node.addr_list.address.as_mut().unwrap().port = 65536 + 10_000;
            sign_node(&mut node, key);
        }
        Kind::OtherKeyType => {
            node.id = PublicKeyOwned::Aes { key: [7; 32] };
            sign_node(&mut node, key);
        }
    }
    node
}

/// Descriptions which reach the node in different ways
async fn histories(ch: &mut Chooser<'_>, depth: usize) -> Step {
    let node = DhtSim::new(0, NodeOptions::default(), dht::NodeOptions::default());
    let mut cast = Cast::new(3);
    let mut model = BTreeMap::<u8, NodeOwned>::new();
    for _ in 0..depth {
        let kind = ch.one_of(&KINDS);
        let n = ch.choose(2) as u8;
        let description = describe(kind, n);
        let way = ch.choose(3);
        ch.note(|| format!("peer {n} is described by {kind:?} in the way {way}"));
        ch.step();
        match way {
            0 => {
                let res = node.dht.add_dht_peer(description.clone()).map_err(|e| e.to_string());
                let valid = kind.version().is_some();
                ensure!(
                    matches!(&res, Ok(Some(id)) if *id == short_id(10 + n)) == valid,
                    if valid { "valid peer refused" } else { "invalid peer accepted" },
                    "{kind:?}: {res:?}"
                );
            }
            1 => {
                let mut query = tl_proto::serialize(proto::rpc::DhtQuery {
                    node: description.as_equivalent_ref(),
                });
                query.extend(tl_proto::serialize(proto::rpc::DhtPing { random_id: 5 }));
                let answer = cast.ask(2, &node.sim, &query).await;
                if kind.version().is_some() {
                    let want = tl_proto::serialize(proto::dht::Pong { random_id: 5 });
                    ensure!(
                        answer.as_ref() == Some(&want),
                        "query not answered",
                        "{answer:?}"
                    );
                }
            }
            _ => {
                // From another DHT node which is asked for nodes
                assert!(node.learn(&cast.puppets[2]).is_some());
                let dht = node.dht.clone();
                let task = tokio::spawn(async move { dht.find_more_dht_nodes().await });
                let others = cast.puppets.len() - 1;
                for heard in cast.listen().await {
                    let harness::puppet::Msg::Query { id, .. } = heard.message else {
                        continue;
                    };
                    // The valid one follows the described one
                    let nodes = match heard.by == others {
                        true => vec![description.clone(), dht_node(40, 20, 1)],
                        false => Vec::new(),
                    };
                    let data = nodes_answer(&nodes);
                    cast.puppets[heard.by]
                        .say(&node.sim, vec![harness::puppet::Msg::Answer { id, data }])
                        .await;
                }
                // Peers which were moved to another address are silent
                world::advance(std::time::Duration::from_secs(10)).await;
                let res = task.await.unwrap().map_err(|e| e.to_string());
                let added = kind.version().is_some() as usize + 1;
                ensure!(
                    matches!(res, Ok(count) if count == added),
                    "search for nodes",
                    "the search for more nodes ends with {res:?} instead of {added}"
                );
                model.insert(2, dht_node(12, 7, START));
                model.insert(30, dht_node(40, 20, 1));
            }
        }
        if let Some(version) = kind.version() {
            match model.get(&n) {
                Some(old) if old.version >= version => {}
                _ => {
                    model.insert(n, description);
                }
            }
        }
        ch.visit(hash_of(&model.iter().map(|(n, d)| (*n, d.version)).collect::<Vec<_>>()));

        let known: BTreeSet<Id> = node.dht.iter_known_peers().map(|id| *id.as_slice()).collect();
        let want: BTreeSet<Id> = model.keys().map(|n| *short_id(10 + n).as_slice()).collect();
        ensure!(
            known == want && node.dht.iter_known_peers().count() == want.len(),
            "known peers",
            "{} peers are known instead of {}",
            known.len(),
            want.len()
        );
        let metrics = node.dht.metrics();
        ensure!(
            metrics.known_peers_len == want.len() && metrics.bucket_peer_count == want.len(),
            "known peers",
            "{metrics:?} instead of {} peers",
            want.len()
        );
        let local = *short_id(1).as_slice();
        // The opposite of a peer is a key which makes every other class visible
        let mut keys: Vec<Id> = want.iter().copied().collect();
        keys.push(local.map(|b| !b));
        keys.push(local);
        for (i, key) in keys.into_iter().enumerate() {
            for k in [1, 10] {
                let Some(found) = cast.find_node(2, &node.sim, &key, k).await else {
                    return Err(harness::Stop::violation("query not answered", "no answer to find node"));
                };
                let mut ids = Vec::new();
                for found in &found {
                    let id = tl_proto::hash(found.id.as_equivalent_ref());
                    ids.push(id);
                    let n = model.iter().find(|(n, _)| *short_id(10 + **n).as_slice() == id);
                    let Some((n, want)) = n else {
                        return Err(harness::Stop::violation("unknown node", format!("{found:?}")));
                    };
                    ensure!(
                        tl_proto::serialize(found.clone()) == tl_proto::serialize(want.clone()),
                        "stale description",
                        "peer {n} is described with the version {} instead of {}",
                        found.version,
                        want.version
                    );
                }
                check_found(&local, &want, &key, k as usize, &ids)?;
            }
            // The same peers are offered when a value is not found
            for k in [1, 5, 20].into_iter().take(if i == 0 { 3 } else { 0 }) {
                let res = cast.find_value(2, &node.sim, &key, k).await;
                let Some(Err(nodes)) = res else {
                    return Err(harness::Stop::violation("query not answered", "no answer to find value"));
                };
                let ids: BTreeSet<Id> =
                    nodes.iter().map(|node| tl_proto::hash(node.id.as_equivalent_ref())).collect();
                ensure!(
                    ids.len() == nodes.len() && nodes.len() == want.len().min(k as usize) && ids.is_subset(&want),
                    "nodes instead of the value",
                    "{} nodes are offered, {} distinct, {} known",
                    nodes.len(),
                    ids.len(),
                    want.len()
                );
            }
        }
        for k in [0, 21, u32::MAX] {
            let res = cast.find_value(2, &node.sim, &local, k).await;
            ensure!(res.is_none(), "limit of nodes", "{k} nodes are requested and the query is answered");
        }
    }
    ch.observe(model.len());
    Ok(())
}

/// Many peers with real ids
async fn crowd(ch: &mut Chooser<'_>, count: usize) -> Step {
    let node = DhtSim::new(0, NodeOptions::default(), dht::NodeOptions::default());
    let mut cast = Cast::new(1);
    let first = ch.choose(8) as u8;
    let mut known = BTreeSet::new();
    for i in 0..count as u8 {
        let key = 40 + first * 20 + i;
        node.dht.add_dht_peer(dht_node(key, 20 + i as usize, 1)).unwrap();
        known.insert(*short_id(key).as_slice());
    }
    let local = *short_id(1).as_slice();
    let key = match ch.choose(4) {
        0 => local,
        1 => local.map(|b| !b),
        2 => *known.iter().nth(ch.choose(known.len())).unwrap(),
        _ => [ch.choose(16) as u8 * 16; 32],
    };
    for k in 0..=count as u32 + 1 {
        ch.step();
        let Some(found) = cast.find_node(0, &node.sim, &key, k).await else {
            return Err(harness::Stop::violation("query not answered", "no answer to find node"));
        };
        let ids: Vec<Id> = found.iter().map(|f| tl_proto::hash(f.id.as_equivalent_ref())).collect();
        check_found(&local, &known, &key, k as usize, &ids)?;
        ch.visit(hash_of(&(&key, &ids)));
        ch.observe(ids.len());
    }
    Ok(())
}

fn main() {
    check_main("C16", |ctx| {
        let mut layouts = vec![
            vec![0, 1, 2],
            vec![6, 7, 8],
            vec![7, 8, 16],
            vec![0, 128, 255],
            vec![253, 254, 255],
        ];
        if ctx.is_thorough() {
            layouts.push(vec![0, 1, 2, 3]);
            layouts.push(vec![5, 7, 8, 255]);
        }
        ctx.explore(
            Suite {
                name: "find".to_owned(),
                about: format!(
                    "all sets of peers whose ids differ in 3 or 4 bits ({} layouts), all keys and counts",
                    layouts.len()
                ),
                bound: 0,
            },
            |ch| find(ch, &layouts),
        );
        let depth = ctx.tiered(2, 3);
        ctx.explore(
            Suite {
                name: "histories".to_owned(),
                about: format!(
                    "all sequences of {depth} descriptions of 15 kinds of two peers, added directly, by a query and \
                     by other nodes"
                ),
                bound: 0,
            },
            |ch| world::run(1, histories(ch, depth)),
        );
        ctx.explore(
            Suite {
                name: "crowd".to_owned(),
                about: "20 peers, 40 keys, all counts, over the network".to_owned(),
                bound: 0,
            },
            |ch| world::run(1, crowd(ch, 20)),
        );
    })
}
