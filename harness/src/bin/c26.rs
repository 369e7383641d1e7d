//! C26: overlay membership only admits valid, wanted members

use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

use bytes::Bytes;
use everscale_crypto::tl::PublicKeyOwned;
use everscale_network::adnl::{NodeIdFull, NodeIdShort, PeersSet};
use everscale_network::overlay::{BroadcastTarget, ExistingPeersFilter, IdShort, OverlayOptions};
use everscale_network::proto::overlay::{NodeOwned, NodesOwned};
use everscale_network::proto::rpc::OverlayGetRandomPeersOwned;
use everscale_network::verif::rng;
use harness::dhtkit::{
    is_valid_overlay_node, overlay, overlay_node, overlay_nodes_bytes, public_key, Cast,
};
use harness::nodes::short_id;
use harness::overlaykit::*;
use harness::puppet::{sign, Msg};
use harness::util::hash_of;
use harness::world::{self, START};
use harness::{check_main, ensure, Chooser, Step, Suite};

const SELF: u8 = 1;

fn id_of(node: &NodeOwned) -> Option<NodeIdShort> {
    NodeIdFull::try_from(node.id.as_equivalent_ref())
        .ok()
        .map(|id| id.compute_short_id())
}

/// Asks the node for its peers on behalf of the puppet
async fn ask_peers(cast: &mut Cast, who: usize, node: &OverlaySim, mine: &[NodeOwned]) -> Option<Vec<NodeOwned>> {
    let mut query = query_prefix(&node.id);
    query.extend(tl_proto::serialize(OverlayGetRandomPeersOwned {
        peers: NodesOwned { nodes: mine.iter().cloned().collect() },
    }));
    let answer = cast.ask(who, &node.sim, &query).await?;
    let nodes: NodesOwned = tl_proto::deserialize_as_boxed(&answer).ok()?;
    Some(nodes.nodes.into_iter().collect())
}

/// Lets the node exchange peers with the puppet which answers with `theirs`.
/// Returns what the node sent and what it got
async fn exchange(
    cast: &mut Cast,
    who: usize,
    node: &OverlaySim,
    theirs: &[NodeOwned],
    filter: Option<Box<dyn ExistingPeersFilter>>,
) -> Result<(Vec<NodeOwned>, Vec<NodeIdShort>), harness::Stop> {
    let peer = cast.puppets[who].id();
    let (overlay, adnl) = (node.overlay.clone(), node.sim.node.clone());
    let task = tokio::spawn(async move {
        match filter {
            Some(filter) => overlay.exchange_random_peers_ext(&adnl, &peer, None, &*filter).await,
            None => overlay.exchange_random_peers(&adnl, &peer, None).await,
        }
    });
    let mut sent = None;
    for heard in cast.listen().await {
        let Msg::Query { id, data } = heard.message else {
            continue;
        };
        let query = data.strip_prefix(query_prefix(&node.id).as_slice());
        ensure!(query.is_some() && heard.by == who, "wrong query", "{data:?} to {}", heard.by);
        let query: OverlayGetRandomPeersOwned = tl_proto::deserialize(query.unwrap()).unwrap();
        sent = Some(query.peers.nodes.into_iter().collect());
        let data = overlay_nodes_bytes(theirs);
        cast.puppets[who].say(&node.sim, vec![Msg::Answer { id, data }]).await;
    }
    world::settle().await;
    ensure!(task.is_finished(), "no exchange", "the answer is ignored");
    let got = task.await.unwrap();
    ensure!(
        sent.is_some() && matches!(got, Ok(Some(_))),
        "no exchange",
        "{:?}",
        got.map_err(|e| e.to_string())
    );
    Ok((sent.unwrap(), got.unwrap().unwrap()))
}

/// Entries with a single difference from a valid one
fn variants(id: &IdShort, other: &IdShort) -> Vec<(String, NodeOwned)> {
    let valid = overlay_node(10, id, START);
    let mut out = vec![("valid".to_owned(), valid.clone())];
    let mut add = |name: &str, f: &dyn Fn(&mut NodeOwned)| {
        let mut node = valid.clone();
        f(&mut node);
        out.push((name.to_owned(), node));
    };
    add("id of another peer", &|n| n.id = public_key(11));
    add("own id", &|n| n.id = public_key(SELF));
    add("unencoded id", &|n| n.id = PublicKeyOwned::Unencoded { data: vec![1; 32] });
    add("aes id", &|n| n.id = PublicKeyOwned::Aes { key: [7; 32] });
    add("overlay id", &|n| n.id = PublicKeyOwned::Overlay { name: vec![1; 32] });
    add("another overlay", &|n| n.overlay = *other.as_slice());
    add("no overlay", &|n| n.overlay = [0; 32]);
    for version in [0, START - 1, START + 1, u32::MAX] {
        add(&format!("version {version}"), &|n| n.version = version);
    }
    for i in 0..64 {
        add(&format!("bit in byte {i} of the signature"), &|n| {
            let mut signature = n.signature.to_vec();
            signature[i] ^= 1 << (i % 8);
            n.signature = signature.into();
        });
    }
    for len in [0usize, 1, 32, 63, 65, 128] {
        add(&format!("signature of {len} bytes"), &|n| {
            let mut signature = n.signature.to_vec();
            signature.resize(len, 0);
            n.signature = signature.into();
        });
    }
    // Signed, but something else
    add("signed by another peer", &|n| {
        n.signature = Bytes::copy_from_slice(&sign(11, &to_sign(short_id(10).as_slice(), id, START)))
    });
    add("signed for another overlay", &|n| {
        n.signature = Bytes::copy_from_slice(&sign(10, &to_sign(short_id(10).as_slice(), other, START)))
    });
    add("signed for another id", &|n| {
        n.signature = Bytes::copy_from_slice(&sign(10, &to_sign(short_id(11).as_slice(), id, START)))
    });
    add("signed without a constructor", &|n| {
        let bytes = to_sign(short_id(10).as_slice(), id, START);
        n.signature = Bytes::copy_from_slice(&sign(10, &bytes[4..]))
    });
    // Valid ones
    for version in [0, START - 1_000_000, START + 1_000_000, u32::MAX] {
        out.push((format!("valid with version {version}"), overlay_node(10, id, version)));
    }
    out.push(("own".to_owned(), overlay_node(SELF, id, START + 5)));
    out.push(("valid in another overlay".to_owned(), overlay_node(10, other, START)));
    out
}

fn to_sign(id: &[u8; 32], overlay: &IdShort, version: u32) -> Vec<u8> {
    let tag = tl_id("overlay.node.toSign id:adnl.id.short overlay:int256 version:int = overlay.node.ToSign");
    [&tag.to_le_bytes()[..], id, overlay.as_slice(), &version.to_le_bytes()].concat()
}

/// Every entry in every way it can reach the node
async fn entries(ch: &mut Chooser<'_>) -> Step {
    let (id, other) = (overlay(1).compute_short_id(), overlay(2).compute_short_id());
    let node = OverlaySim::public(0, &id, OverlayOptions::default());
    let mut cast = Cast::new(3);
    for puppet in &cast.puppets {
        puppet.introduce(&node.sim);
    }
    let variants = variants(&id, &other);
    let (name, entry) = &variants[ch.choose(variants.len())];
    let way = ch.choose(6);
    ch.note(|| format!("{name}, way {way}"));
    ch.step();
    ch.visit(hash_of(&(name, way)));
    let valid = is_valid_overlay_node(entry, &id) && id_of(entry) != Some(short_id(SELF));
    // It is validly signed, so it has to be exactly what was put together here
    let peer = id_of(entry);
    // A valid neighbour in the list is not affected by the entry
    let friend = overlay_node(11, &id, START);
    let friend_id = short_id(11);
    let with_friend = way % 2 == 1;
    let list: Vec<NodeOwned> = match with_friend {
        true => vec![entry.clone(), friend.clone()],
        false => vec![entry.clone()],
    };
    let mut expected = BTreeSet::new();
    if valid {
        expected.insert(peer.unwrap());
    }
    if with_friend {
        expected.insert(friend_id);
    }
    let adnl = &node.sim.node;
    let got: BTreeSet<NodeIdShort> = match way {
        0 => {
            let res = node.overlay.add_public_peer(adnl, world::addr(5), entry.as_equivalent_ref());
            ensure!(!valid || matches!(res, Ok(Some(_))), "valid entry rejected", "{name}");
            res.ok().flatten().into_iter().collect()
        }
        1 => {
            let list = list.iter().enumerate().map(|(i, n)| (world::addr(5 + i), n.as_equivalent_ref()));
            let res = node.overlay.add_public_peers(adnl, list);
            ensure!(res.is_ok(), "valid entries rejected", "{name}: {:?}", res.map_err(|e| e.to_string()));
            res.unwrap().into_iter().collect()
        }
        2 | 3 => {
            let answer = ask_peers(&mut cast, 2, &node, &list).await;
            ensure!(answer.is_some(), "no answer", "to a query with {name}");
            let mut got = BTreeSet::new();
            for (key, node) in node.overlay.take_new_peers() {
                ensure!(
                    tl_proto::hash(key.0.as_equivalent_ref()) == tl_proto::hash(node.id.as_equivalent_ref())
                        && is_valid_overlay_node(&node, &id),
                    "wrong entry",
                    "{node:?} under {:?}",
                    key.0
                );
                got.insert(id_of(&node).unwrap());
            }
            ensure!(node.overlay.take_new_peers().is_empty(), "entry returned twice", "{name}");
            got
        }
        _ => exchange(&mut cast, 2, &node, &list, None).await?.1.into_iter().collect(),
    };
    ch.observe(&got);
    ensure!(
        got == expected,
        if valid { "valid entry rejected" } else { "invalid entry accepted" },
        "{name} in way {way}: {got:?} instead of {expected:?}"
    );
    // Only the first two ways make a member of it
    for peer in [short_id(10), short_id(11), short_id(SELF)] {
        let member = way < 2 && expected.contains(&peer);
        ensure!(
            node.overlay.is_known_peer(&peer) == member && node.overlay.is_active_public_peer(&peer) == member,
            "wrong membership",
            "{peer} after {name} in way {way}"
        );
    }
    let listed = ask_peers(&mut cast, 2, &node, &[]).await;
    check_list(&id, listed.as_deref(), &|peer, version| {
        way < 2 && expected.contains(peer) && version == if *peer == friend_id { START } else { entry.version }
    })?;
    Ok(())
}

/// Exchanges with all lists of two known members, a stranger, the node itself and an invalid
/// entry, with all filters
async fn filters(ch: &mut Chooser<'_>) -> Step {
    let mut cast = Cast::new(3);
    let id = overlay(1).compute_short_id();
    let node = OverlaySim::public(0, &id, OverlayOptions::default());
    for puppet in &cast.puppets {
        puppet.introduce(&node.sim);
    }
    for (i, key) in [10u8, 11].into_iter().enumerate() {
        let entry = overlay_node(key, &id, START);
        let res = node.overlay.add_public_peer(&node.sim.node, world::addr(5 + i), entry.as_equivalent_ref());
        ensure!(matches!(res, Ok(Some(_))), "valid entry rejected", "of {key}");
    }
    let removed = ch.flag();
    if removed {
        node.overlay.remove_public_peer(&short_id(11));
    }
    let entries = [
        overlay_node(10, &id, START),
        overlay_node(11, &id, START + 1),
        overlay_node(15, &id, START),
        overlay_node(SELF, &id, START),
        overlay_node(16, &overlay(2).compute_short_id(), START),
    ];
    let mut list = Vec::new();
    for entry in entries {
        if ch.flag() {
            list.push(entry);
        }
    }
    // All which are valid and not of the node itself
    let valid = |n: &NodeOwned| is_valid_overlay_node(n, &id) && id_of(n) != Some(short_id(SELF));
    let mut expected: Vec<NodeIdShort> = list.iter().filter(|n| valid(n)).map(|n| id_of(n).unwrap()).collect();
    let exclude: Vec<NodeIdShort> = [10, 15].into_iter().map(short_id).collect();
    let kind = ch.choose(6);
    let filter: Option<Box<dyn ExistingPeersFilter>> = match kind {
        0 => {
            expected.retain(|peer| !node.overlay.is_known_peer(peer));
            None
        }
        1 => Some(Box::new(())),
        2 => Some(Box::new(false)),
        3 => {
            expected.clear();
            Some(Box::new(true))
        }
        4 => {
            expected.retain(|peer| !exclude.contains(peer));
            Some(Box::new(exclude.iter().copied().collect::<std::collections::HashSet<_>>()))
        }
        _ => {
            expected.retain(|peer| !exclude.contains(peer));
            Some(Box::new(exclude.iter().copied().collect::<dashmap::DashSet<_>>()))
        }
    };
    ch.step();
    ch.note(|| format!("{} entries with the filter {kind}, removed: {removed}", list.len()));
    let (sent, got) = exchange(&mut cast, 2, &node, &list, filter).await?;
    ch.visit(hash_of(&(kind, removed, &got)));
    ch.observe(&got);
    ensure!(got == expected, "result of an exchange", "{got:?} instead of {expected:?}");
    check_list(&id, Some(&sent), &|peer, version| {
        version == START && (*peer == short_id(10) || *peer == short_id(11) && !removed)
    })?;
    // Nobody joins by that
    ensure!(
        !node.overlay.is_known_peer(&short_id(15)) && !node.overlay.is_known_peer(&short_id(16)),
        "wrong membership",
        "after an exchange"
    );
    Ok(())
}

/// The list which is handed out
fn check_list(id: &IdShort, list: Option<&[NodeOwned]>, allowed: &dyn Fn(&NodeIdShort, u32) -> bool) -> Step<Vec<NodeIdShort>> {
    ensure!(list.is_some(), "no answer", "to a query for peers");
    let list = list.unwrap();
    for node in list {
        ensure!(is_valid_overlay_node(node, id), "invalid entry handed out", "{node:?}");
    }
    let ids: Vec<NodeIdShort> = list.iter().map(|n| id_of(n).unwrap()).collect();
    let unique: BTreeSet<NodeIdShort> = ids.iter().copied().collect();
    ensure!(unique.len() == ids.len(), "entry handed out twice", "{ids:?}");
    ensure!(unique.contains(&short_id(SELF)), "own entry is missing", "{ids:?}");
    for (peer, node) in ids.iter().zip(list) {
        ensure!(
            *peer == short_id(SELF) || allowed(peer, node.version),
            "unwanted entry handed out",
            "{peer} with version {} is handed out in {ids:?}",
            node.version
        );
    }
    Ok(ids)
}

#[derive(Debug, Default, Clone, Hash)]
struct Model {
    /// Newest versions of the peers which were added
    known: BTreeMap<u8, u32>,
    removed: BTreeSet<u8>,
    /// Newest versions of received entries
    received: BTreeMap<u8, u32>,
}

impl Model {
    fn active(&self) -> BTreeSet<u8> {
        self.known.keys().filter(|k| !self.removed.contains(k)).copied().collect()
    }
}

struct Scope {
    depth: usize,
    peers: usize,
    neighbours: &'static [u32],
    /// Number of random words which are explored
    words: usize,
}

/// Runs the body with the random words
async fn with_words<T>(words: Vec<u64>, body: impl std::future::Future<Output = T>) -> T {
    let mut words = words.into_iter();
    rng::set_source(Some(Box::new(move || words.next().unwrap_or(0))));
    let res = body.await;
    rng::set_source(None);
    res
}

async fn histories(ch: &mut Chooser<'_>, scope: &Scope) -> Step {
    let id = overlay(1).compute_short_id();
    let max_neighbours = ch.one_of(scope.neighbours);
    let options = OverlayOptions {
        max_neighbours,
        ..Default::default()
    };
    let node = OverlaySim::public(0, &id, options);
    // The last one is not a member
    let mut cast = Cast::new(scope.peers + 1);
    let outsider = scope.peers;
    cast.puppets[outsider].introduce(&node.sim);
    let mut model = Model::default();
    for step in 0..scope.depth {
        ch.step();
        let words: Vec<u64> = (0..scope.words)
            .map(|_| ch.one_of(&[0u64, 1 << 31, 0xffff_ffff]))
            .collect();
        let who = ch.choose(scope.peers);
        let key = 10 + who as u8;
        let version = START + ch.choose(2) as u32;
        let adnl = node.sim.node.clone();
        let addr = world::addr(5 + who);
        match ch.choose(7) {
            0 => {
                ch.note(|| format!("add {who} with version {version}"));
                let entry = overlay_node(key, &id, version);
                let fresh = !model.active().contains(&key);
                let res = with_words(words, async {
                    node.overlay.add_public_peer(&adnl, addr, entry.as_equivalent_ref())
                })
                .await;
                ensure!(
                    matches!(&res, Ok(Some(p)) if *p == short_id(key)) || !fresh && matches!(&res, Ok(None)),
                    "valid entry rejected",
                    "{:?}",
                    res.map_err(|e| e.to_string())
                );
                let known = model.known.entry(key).or_default();
                *known = version.max(*known);
                model.removed.remove(&key);
            }
            1 => {
                if version > START || scope.peers < 2 {
                    return ch.skip();
                }
                ch.note(|| format!("add everyone but {who}"));
                let entries: Vec<_> = (0..scope.peers)
                    .filter(|i| *i != who)
                    .map(|i| (world::addr(5 + i), overlay_node(10 + i as u8, &id, START)))
                    .collect();
                let res = with_words(words, async {
                    let entries = entries.iter().map(|(addr, node)| (*addr, node.as_equivalent_ref()));
                    node.overlay.add_public_peers(&adnl, entries)
                })
                .await;
                ensure!(res.is_ok(), "valid entry rejected", "{:?}", res.map_err(|e| e.to_string()));
                for i in (0..scope.peers).filter(|i| *i != who) {
                    let key = 10 + i as u8;
                    model.known.entry(key).or_insert(START);
                    model.removed.remove(&key);
                }
            }
            2 => {
                if version > START || !model.known.contains_key(&key) {
                    return ch.skip();
                }
                ch.note(|| format!("remove {who}"));
                let res = with_words(words, async { node.overlay.remove_public_peer(&short_id(key)) }).await;
                let expected = model.active().contains(&key);
                ensure!(res == expected, "result of a removal", "{res} instead of {expected}");
                model.removed.insert(key);
            }
            3 => {
                ch.note(|| format!("a query with {who}, version {version}"));
                let entry = overlay_node(key, &id, version);
                let list = [overlay_node(SELF, &id, version), entry];
                let listed = with_words(words, ask_peers(&mut cast, outsider, &node, &list)).await;
                check_list(&id, listed.as_deref(), &|peer, version| {
                    model.active().iter().any(|k| short_id(*k) == *peer && model.known[k] == version)
                })?;
                let received = model.received.entry(key).or_default();
                *received = version.max(*received);
            }
            4 => {
                if who > 0 || version > START {
                    return ch.skip();
                }
                ch.note(|| "received entries are read".to_owned());
                check_received(&node, &mut model, &id)?;
            }
            5 => {
                if version > START {
                    return ch.skip();
                }
                ch.note(|| format!("exchange, {who} is returned"));
                let theirs = [overlay_node(key, &id, START), overlay_node(SELF, &id, START + 7)];
                let (sent, got) = with_words(words, exchange(&mut cast, outsider, &node, &theirs, None)).await?;
                check_list(&id, Some(&sent), &|peer, version| {
                    model.active().iter().any(|k| short_id(*k) == *peer && model.known[k] == version)
                })?;
                let new = !model.known.contains_key(&key);
                let expected = if new { vec![short_id(key)] } else { vec![] };
                ensure!(got == expected, "result of an exchange", "{got:?} instead of {expected:?}");
            }
            _ => {
                if who > 0 || version > START {
                    return ch.skip();
                }
                ch.note(|| "neighbours are updated".to_owned());
                with_words(words, world::advance(Duration::from_secs(62))).await;
            }
        }
        ch.visit(hash_of(&(&model, max_neighbours, step)));
        let active = model.active();
        ch.note(|| format!("  known {:?}, active {active:?}", model.known));
        // What the node says about each of them
        for i in 0..scope.peers {
            let key = 10 + i as u8;
            let (known, is_active) = (model.known.contains_key(&key), active.contains(&key));
            ensure!(
                node.overlay.is_known_peer(&short_id(key)) == known
                    && node.overlay.is_active_public_peer(&short_id(key)) == is_active,
                "wrong membership",
                "peer {i}: known {known}, active {is_active}"
            );
        }
        ensure!(!node.overlay.is_known_peer(&short_id(SELF)), "own entry is known", "");
        let cached = PeersSet::with_capacity(16);
        node.overlay.write_cached_peers(16, &cached);
        let cached: BTreeSet<NodeIdShort> = cached.iter().copied().collect();
        let expected: BTreeSet<NodeIdShort> = active.iter().map(|k| short_id(*k)).collect();
        ensure!(cached == expected, "wrong known peers", "{cached:?} instead of {expected:?}");
        let metrics = node.overlay.metrics();
        ensure!(
            metrics.neighbours <= max_neighbours.max(1) as usize && metrics.known_peers == model.known.len(),
            "wrong metrics",
            "{metrics:?}"
        );
        let listed = ask_peers(&mut cast, outsider, &node, &[]).await;
        let listed = check_list(&id, listed.as_deref(), &|peer, version| {
            active.iter().any(|k| short_id(*k) == *peer && model.known[k] == version)
        })?;
        // Everyone fits into the list
        let wanted = expected.len().min(max_neighbours.max(1) as usize).min(4);
        ensure!(
            listed.len() == 1 + wanted,
            "peers are missing",
            "{listed:?} instead of {wanted} of {expected:?}"
        );

        // Broadcasts go only to them
        let data = vec![step as u8; 8];
        let info = node.overlay.broadcast(&node.sim.node, data, None, BroadcastTarget::RandomNeighbours);
        let mut heard = BTreeSet::new();
        for heard_by in cast.listen().await {
            if let Msg::Custom(_) = heard_by.message {
                heard.insert(cast.puppets[heard_by.by].id());
            }
        }
        ensure!(heard.is_subset(&expected), "removed peer is a neighbour", "broadcast is sent to {heard:?}");
        let wanted = expected.len().min(max_neighbours.max(1) as usize);
        ensure!(
            heard.len() == wanted && info.recipient_count == wanted,
            "peers are missing",
            "broadcast is sent to {heard:?} instead of {wanted} of {expected:?}"
        );
    }
    check_received(&node, &mut model, &id)?;
    ch.observe(hash_of(&model));
    Ok(())
}

fn check_received(node: &OverlaySim, model: &mut Model, id: &IdShort) -> Step {
    let mut got = BTreeMap::new();
    for (_, entry) in node.overlay.take_new_peers() {
        ensure!(is_valid_overlay_node(&entry, id), "invalid entry received", "{entry:?}");
        let key = (1..30).find(|k| id_of(&entry) == Some(short_id(*k))).unwrap();
        got.insert(key, entry.version);
    }
    let expected = std::mem::take(&mut model.received);
    ensure!(got == expected, "wrong received entries", "{got:?} instead of {expected:?}");
    Ok(())
}

fn main() {
    check_main("C26", |ctx| {
        ctx.explore(
            Suite {
                name: "entries".to_owned(),
                about: "an entry with every single-field difference from a valid one, in each of six ways into the node".to_owned(),
                bound: 0,
            },
            |ch| world::run(1, entries(ch)),
        );
        ctx.explore(
            Suite {
                name: "filters".to_owned(),
                about: "exchanges with all lists of known members, a stranger, the node itself and an invalid entry, and all kinds of filters".to_owned(),
                bound: 0,
            },
            |ch| world::run(1, filters(ch)),
        );
        let scope = Scope {
            depth: ctx.tiered(3, 4),
            peers: 3,
            neighbours: &[1, 2, 200],
            words: 0,
        };
        ctx.explore(
            Suite {
                name: "histories".to_owned(),
                about: format!("all sequences of {} additions, removals, exchanges, reads and updates with 3 peers", scope.depth),
                bound: 0,
            },
            |ch| world::run(1, histories(ch, &scope)),
        );
    })
}
