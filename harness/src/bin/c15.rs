//! C15: DHT lookups return only authentic values of the requested key

use std::collections::BTreeMap;
use std::net::SocketAddrV4;
use std::time::Duration;

use everscale_crypto::tl::PublicKeyOwned;
use everscale_network::adnl::NodeOptions;
use everscale_network::dht;
use everscale_network::proto;
use futures_util::StreamExt;
use harness::dhtkit::*;
use harness::nodes::{full_id, short_id};
use harness::puppet::Msg;
use harness::util::hash_of;
use harness::world;
use harness::{check_main, ensure, Chooser, Step, Suite};
use tl_proto::BoxedWrapper;

const OWNER: u8 = 60;
const OTHER: u8 = 61;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Kind {
    /// The value of the owner
    Honest,
    /// An earlier value of the owner
    Older,
    NotFound,
    /// Valid description of another peer
    OtherPeer,
    /// Description of another peer which is not valid
    InvalidPeer,
    /// Valid value of another owner
    OtherOwner,
    /// The key names the owner but is signed by another one
    Impostor,
    OtherName,
    OtherIndex,
    ChangedData,
    ChangedTtl,
    KeySignedByOther,
    ValueSignedByOther,
    Unsigned,
    Anybody,
    AnybodySigned,
    OverlayRule,
    OverlayImpostor,
    Expired,
    ExpiresNow,
    /// The owner has signed something else
    OtherType,
    /// The owner has signed an address list which is not valid anymore
    OutdatedList,
    NoAddress,
    Garbage,
    OtherAnswer,
    Silence,
}

const KINDS: [Kind; 26] = [
    Kind::Honest,
    Kind::Older,
    Kind::NotFound,
    Kind::OtherPeer,
    Kind::InvalidPeer,
    Kind::OtherOwner,
    Kind::Impostor,
    Kind::OtherName,
    Kind::OtherIndex,
    Kind::ChangedData,
    Kind::ChangedTtl,
    Kind::KeySignedByOther,
    Kind::ValueSignedByOther,
    Kind::Unsigned,
    Kind::Anybody,
    Kind::AnybodySigned,
    Kind::OverlayRule,
    Kind::OverlayImpostor,
    Kind::Expired,
    Kind::ExpiresNow,
    Kind::OtherType,
    Kind::OutdatedList,
    Kind::NoAddress,
    Kind::Garbage,
    Kind::OtherAnswer,
    Kind::Silence,
];

fn list(index: usize) -> proto::adnl::AddressList {
    let addr = world::addr(index);
    proto::adnl::AddressList {
        address: Some(proto::adnl::Address::from(&addr)),
        version: world::START,
        reinit_date: world::START,
        expire_at: 0,
    }
}

fn data(list: proto::adnl::AddressList) -> Vec<u8> {
    tl_proto::serialize_as_boxed(list)
}

const HONEST: usize = 30;
const OLDER: usize = 31;
const FORGED: usize = 32;

/// Answer of such a peer. `now` is the same for an execution
fn make_answer(kind: Kind, now: u32) -> Option<Vec<u8>> {
    let ttl = now + 600;
    let forged = data(list(FORGED));
    let value = match kind {
        Kind::Honest => signed_value(OWNER, b"address", 0, ttl, &data(list(HONEST))),
        Kind::Older => signed_value(OWNER, b"address", 0, ttl - 100, &data(list(OLDER))),
        Kind::NotFound => return Some(not_found(&[])),
        Kind::OtherPeer => return Some(not_found(&[dht_node(70, 40, 1)])),
        Kind::InvalidPeer => {
            let mut expired = dht_node(71, 41, 1);
            expired.addr_list.expire_at = 1;
            sign_node(&mut expired, 71);
            let mut forged = dht_node(72, 41, 1);
            forged.version = 2;
            let mut other = dht_node(72, 41, 1);
            other.id = PublicKeyOwned::Aes { key: [1; 32] };
            return Some(not_found(&[expired, forged, other]));
        }
        Kind::OtherOwner => signed_value(OTHER, b"address", 0, ttl, &forged),
        Kind::Impostor => {
            let mut value = draft(public_key(OTHER), b"address", 0, ttl, &forged);
            value.key.key.id = *short_id(OWNER).as_slice();
            sign_key(&mut value, OTHER);
            sign_value(&mut value, OTHER);
            value
        }
        Kind::OtherName => signed_value(OWNER, b"addresses", 0, ttl, &forged),
        Kind::OtherIndex => signed_value(OWNER, b"address", 1, ttl, &forged),
        Kind::ChangedData => {
            let mut value = signed_value(OWNER, b"address", 0, ttl, &data(list(HONEST)));
            value.value = forged.into();
            value
        }
        Kind::ChangedTtl => {
            let mut value = signed_value(OWNER, b"address", 0, now - 1, &forged);
            value.ttl = ttl;
            value
        }
        Kind::KeySignedByOther => {
            let mut value = draft(public_key(OWNER), b"address", 0, ttl, &forged);
            sign_key(&mut value, OTHER);
            sign_value(&mut value, OWNER);
            value
        }
        Kind::ValueSignedByOther => {
            let mut value = draft(public_key(OWNER), b"address", 0, ttl, &forged);
            sign_key(&mut value, OWNER);
            sign_value(&mut value, OTHER);
            value
        }
        Kind::Unsigned => draft(public_key(OWNER), b"address", 0, ttl, &forged),
        Kind::Anybody | Kind::AnybodySigned => {
            let mut value = draft(public_key(OWNER), b"address", 0, ttl, &forged);
            value.key.update_rule = UpdateRule::Anybody;
            if kind == Kind::AnybodySigned {
                sign_key(&mut value, OTHER);
                sign_value(&mut value, OTHER);
            }
            value
        }
        Kind::OverlayRule => {
            let mut value = draft(public_key(OWNER), b"address", 0, ttl, &forged);
            value.key.update_rule = UpdateRule::OverlayNodes;
            value
        }
        Kind::OverlayImpostor => {
            let mut value = draft(overlay_key(&overlay(1)), b"address", 0, ttl, &forged);
            value.key.update_rule = UpdateRule::OverlayNodes;
            value.key.key.id = *short_id(OWNER).as_slice();
            value
        }
        Kind::Expired => signed_value(OWNER, b"address", 0, now - 1, &forged),
        Kind::ExpiresNow => signed_value(OWNER, b"address", 0, now, &forged),
        Kind::OtherType => signed_value(OWNER, b"address", 0, ttl, b"some text"),
        Kind::OutdatedList => {
            let mut list = list(FORGED);
            list.expire_at = now - 1;
            signed_value(OWNER, b"address", 0, ttl, &data(list))
        }
        Kind::NoAddress => {
            let mut list = list(FORGED);
            list.address = None;
            signed_value(OWNER, b"address", 0, ttl, &data(list))
        }
        Kind::Garbage => return Some(vec![0x55; 40]),
        Kind::OtherAnswer => return Some(nodes_answer(&[dht_node(70, 40, 1)])),
        Kind::Silence => return None,
    };
    Some(found(&value))
}

fn answer(kind: Kind, now: u32) -> Option<Vec<u8>> {
    type Cache = BTreeMap<(Kind, u32), Option<Vec<u8>>>;
    thread_local! {
        static CACHE: std::cell::RefCell<Cache> = Default::default();
    }
    CACHE.with(|cache| {
        cache
            .borrow_mut()
            .entry((kind, now))
            .or_insert_with(|| make_answer(kind, now))
            .clone()
    })
}

/// Queries which are not answered yet
async fn questions(cast: &mut Cast) -> Vec<(usize, [u8; 32], Vec<u8>)> {
    cast.listen()
        .await
        .into_iter()
        .filter_map(|heard| match heard.message {
            Msg::Query { id, data } => Some((heard.by, id, data)),
            _ => None,
        })
        .collect()
}

fn parse_question(data: &[u8]) -> Option<[u8; 32]> {
    let proto::rpc::DhtFindValue { key, .. } = tl_proto::deserialize(data).ok()?;
    Some(*key)
}

type List = BoxedWrapper<proto::adnl::AddressList>;

fn address_of(list: &proto::adnl::AddressList) -> Option<usize> {
    let address = list.address?;
    (address.port as usize).checked_sub(10_000)
}

async fn lookups(ch: &mut Chooser<'_>, peers: usize) -> Step {
    let node = DhtSim::new(0, NodeOptions::default(), dht::NodeOptions::default());
    let mut cast = Cast::new(peers);
    for puppet in &cast.puppets {
        node.learn(puppet).unwrap();
    }
    let now = world::now();
    let kinds: Vec<_> = (0..peers).map(|_| ch.one_of(&KINDS)).collect();
    let method = ch.choose(4);
    let owner = short_id(OWNER);
    let dht = node.dht.clone();
    let mut asked_peers: Vec<usize> = (0..peers).collect();
    let task = match method {
        0 | 1 => tokio::spawn(async move {
            let entry = dht.entry(&owner, "address");
            let mut values = entry.values::<List>();
            if method == 1 {
                values = values.use_new_peers(true);
            }
            let mut res = Vec::new();
            while let Some((key, BoxedWrapper(list))) = values.next().await {
                res.push((key, list));
            }
            Ok(res)
        }),
        2 => {
            let who = ch.choose(peers);
            asked_peers = vec![who];
            let id = cast.puppets[who].id();
            tokio::spawn(async move {
                let entry = dht.entry(&owner, "address");
                let res = entry.value_from::<List>(&id).await;
                res.map(|value| value.into_iter().map(|(key, BoxedWrapper(list))| (key, list)).collect())
            })
        }
        _ => tokio::spawn(async move {
            dht.find_address(&owner).await.map(|(addr, id)| {
                assert_eq!(id, full_id(OWNER));
                let list = proto::adnl::AddressList {
                    address: Some(proto::adnl::Address::from(&addr)),
                    version: 0,
                    reinit_date: 0,
                    expire_at: 0,
                };
                let mut value = draft(public_key(OWNER), b"address", 0, 0, &[]);
                sign_key(&mut value, OWNER);
                vec![(value.key, list)]
            })
        }),
    };
    let key = storage_key(&draft(public_key(OWNER), b"address", 0, 0, &[]).key.key);
    let mut pending = questions(&mut cast).await;
    ensure!(
        pending.len() == asked_peers.len(),
        "asked",
        "{} peers are asked instead of {}",
        pending.len(),
        asked_peers.len()
    );
    // The order of the answers
    let mut order = Vec::new();
    while !pending.is_empty() {
        let (who, id, question) = pending.remove(ch.choose(pending.len()));
        ensure!(
            parse_question(&question) == Some(key),
            "other question",
            "peer {who} is asked something else"
        );
        ch.step();
        order.push(who);
        if let Some(data) = answer(kinds[who], now) {
            cast.puppets[who].say(&node.sim, vec![Msg::Answer { id, data }]).await;
        }
    }
    // Silent peers are only waited for
    world::advance(Duration::from_secs(10)).await;
    world::take_sent();
    ensure!(task.is_finished(), "endless lookup", "the lookup has not ended, the peers are {kinds:?}");
    let res = task.await.unwrap().map_err(|e: anyhow::Error| e.to_string());
    ch.note(|| format!("method {method}: {kinds:?} in the order {order:?}: {res:?}"));

    let authentic = |kind: Kind| match kind {
        Kind::Honest => Some(HONEST),
        Kind::Older => Some(OLDER),
        _ => None,
    };
    // Lists which were signed by the owner, valid or not
    let signed = |kind: Kind| match kind {
        Kind::OutdatedList => Some(Some(FORGED)),
        Kind::NoAddress => Some(None),
        kind => authentic(kind).map(Some),
    };
    let got: Result<Vec<Option<usize>>, String> = match &res {
        Ok(values) => {
            for (value_key, _) in values {
                ensure!(
                    storage_key(&value_key.key) == key
                        && tl_proto::serialize(value_key.id.clone()) == tl_proto::serialize(public_key(OWNER)),
                    "other key",
                    "the value has the key {value_key:?}, the peers are {kinds:?}"
                );
            }
            Ok(values.iter().map(|(_, list)| address_of(list)).collect())
        }
        Err(e) => Err(e.clone()),
    };
    ch.observe(&got);
    ch.visit(hash_of(&(&kinds, method, &got)));
    match method {
        0 | 1 => {
            let mut want: Vec<_> = order.iter().filter_map(|who| signed(kinds[*who])).collect();
            let mut got = match got {
                Ok(got) => got,
                Err(e) => return Err(harness::Stop::violation("failed lookup", e)),
            };
            want.sort_unstable();
            got.sort_unstable();
            let extra = got.len() > want.len();
            ensure!(
                got == want,
                if extra { "forged value" } else { "wrong values" },
                "found {got:?} instead of {want:?}, the peers are {kinds:?}"
            );
        }
        2 => {
            let want = signed(kinds[asked_peers[0]]);
            let got = got.unwrap_or_default();
            ensure!(
                got == want.into_iter().collect::<Vec<_>>(),
                if want.is_none() { "forged value" } else { "value hidden" },
                "found {got:?} instead of {want:?}, the peer is {:?}",
                kinds[asked_peers[0]]
            );
        }
        _ => {
            let want: Vec<_> = order.iter().filter_map(|who| authentic(kinds[*who])).collect();
            match got {
                Ok(got) => ensure!(
                    got.len() == 1 && want.first().copied() == got[0],
                    "forged address",
                    "found {got:?} instead of {:?}, the peers are {kinds:?}",
                    want.first()
                ),
                Err(e) => ensure!(
                    want.is_empty(),
                    "address hidden",
                    "not found: {e}, the peers are {kinds:?}"
                ),
            }
        }
    }
    // Peers are learned from answers only if they are valid
    let learned = node.dht.iter_known_peers().count() - peers;
    let offered = asked_peers.iter().any(|who| kinds[*who] == Kind::OtherPeer);
    // A lookup of an address may end before that
    ensure!(
        learned == offered as usize || (method == 3 && learned == 0),
        "learned peers",
        "{learned} peers are learned, the peers are {kinds:?}"
    );
    Ok(())
}

/// Every flipped bit of an honest answer
async fn bits(ch: &mut Chooser<'_>) -> Step {
    let node = DhtSim::new(0, NodeOptions::default(), dht::NodeOptions::default());
    let mut cast = Cast::new(1);
    node.learn(&cast.puppets[0]).unwrap();
    let now = world::now();
    let is_overlay = ch.flag();
    let id = overlay(1);
    let short = id.compute_short_id();
    let original = match is_overlay {
        false => answer(Kind::Honest, now).unwrap(),
        true => found(&overlay_value(&id, &[overlay_node(62, &short, 5)], now + 600)),
    };
    let byte = ch.choose(original.len());
    let bit = ch.choose(9);
    let mut data = original.clone();
    match bit {
        8 => data.truncate(byte),
        bit => data[byte] ^= 1 << bit,
    }
    let dht = node.dht.clone();
    let task = tokio::spawn(async move {
        let mut res = Vec::new();
        if is_overlay {
            let mut values = dht
                .entry(&short, "nodes")
                .values::<BoxedWrapper<proto::overlay::NodesOwned>>();
            while let Some((key, BoxedWrapper(nodes))) = values.next().await {
                let valid = nodes.nodes.iter().all(|node| is_valid_overlay_node(node, &short));
                res.push((key, valid));
            }
        } else {
            let owner = short_id(OWNER);
            let mut values = dht.entry(&owner, "address").values::<List>();
            while let Some((key, BoxedWrapper(list))) = values.next().await {
                let valid = tl_proto::serialize(list) == tl_proto::serialize(self::list(HONEST));
                res.push((key, valid));
            }
        }
        res
    });
    let pending = questions(&mut cast).await;
    let (who, query_id, question) = &pending[0];
    let key = parse_question(question).unwrap();
    let answer = Msg::Answer { id: *query_id, data };
    cast.puppets[*who].say(&node.sim, vec![answer]).await;
    ch.step();
    world::advance(Duration::from_secs(10)).await;
    ensure!(task.is_finished(), "endless lookup", "the lookup has not ended");
    let res = task.await.unwrap();
    ch.observe(res.len());
    ch.visit(hash_of(&(is_overlay, byte, res.len())));
    for (value_key, valid) in res {
        ensure!(
            valid && storage_key(&value_key.key) == key,
            "forged value",
            "the change {bit} of byte {byte} is not noticed"
        );
    }
    Ok(())
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Members {
    Valid,
    /// With one which is not
    Mixed,
    /// A forged one after many valid ones
    Long,
    OtherOverlay,
    Forged,
    Signed,
    Anybody,
    OtherKey,
    /// Valid, but under the name of another owner
    OwnKey,
    Expired,
    NotFound,
    Silence,
}

const MEMBERS: [Members; 12] = [
    Members::Valid,
    Members::Mixed,
    Members::Long,
    Members::OtherOverlay,
    Members::Forged,
    Members::Signed,
    Members::Anybody,
    Members::OtherKey,
    Members::OwnKey,
    Members::Expired,
    Members::NotFound,
    Members::Silence,
];

const MEMBER: u8 = OWNER;
const LIAR: u8 = OTHER;

fn members(kind: Members, now: u32) -> Option<Vec<u8>> {
    let id = overlay(1);
    let short = id.compute_short_id();
    let other = overlay(2).compute_short_id();
    let ttl = now + 600;
    let valid = overlay_node(MEMBER, &short, 5);
    let mut forged = overlay_node(LIAR, &short, 5);
    forged.version = 6;
    let value = match kind {
        Members::Valid => overlay_value(&id, &[valid], ttl),
        Members::Mixed => overlay_value(&id, &[forged, valid], ttl),
        Members::Long => {
            let mut nodes = vec![valid; 9];
            nodes.push(forged);
            overlay_value(&id, &nodes, ttl)
        }
        Members::OtherOverlay => overlay_value(&id, &[overlay_node(LIAR, &other, 5)], ttl),
        Members::Forged => overlay_value(&id, &[forged], ttl),
        Members::Signed => {
            let mut value = overlay_value(&id, &[forged], ttl);
            value.key.id = public_key(LIAR);
            value.key.update_rule = UpdateRule::Signature;
            sign_key(&mut value, LIAR);
            sign_value(&mut value, LIAR);
            value
        }
        Members::Anybody => {
            let mut value = overlay_value(&id, &[forged], ttl);
            value.key.update_rule = UpdateRule::Anybody;
            value
        }
        Members::OtherKey => {
            let liar = overlay_node(LIAR, &other, 5);
            overlay_value(&overlay(2), &[liar], ttl)
        }
        Members::OwnKey => {
            // Signed by its owner, but not an overlay
            let nodes = overlay_nodes_bytes(&[forged]);
            signed_value(LIAR, b"nodes", 0, ttl, &nodes)
        }
        Members::Expired => overlay_value(&id, &[overlay_node(LIAR, &short, 5)], now - 1),
        Members::NotFound => return Some(not_found(&[])),
        Members::Silence => return None,
    };
    Some(found(&value))
}

async fn overlays(ch: &mut Chooser<'_>, peers: usize) -> Step {
    let node = DhtSim::new(0, NodeOptions::default(), dht::NodeOptions::default());
    let mut cast = Cast::new(peers);
    for puppet in &cast.puppets {
        node.learn(puppet).unwrap();
    }
    let now = world::now();
    let kinds: Vec<_> = (0..peers).map(|_| ch.one_of(&MEMBERS)).collect();
    let addresses: Vec<_> = (0..peers)
        .map(|_| ch.one_of(&[Kind::Honest, Kind::NotFound, Kind::ChangedData, Kind::OtherOwner]))
        .collect();
    let id = overlay(1).compute_short_id();
    let dht = node.dht.clone();
    let task = tokio::spawn(async move { dht.find_overlay_nodes(&id).await });
    let nodes_key = storage_key(&overlay_value(&overlay(1), &[], 0).key.key);
    let member_key = storage_key(&signed_value(MEMBER, b"address", 0, 0, &[]).key.key);
    let liar_key = storage_key(&signed_value(LIAR, b"address", 0, 0, &[]).key.key);
    let mut rounds = 0;
    while !task.is_finished() {
        let pending = questions(&mut cast).await;
        if pending.is_empty() {
            world::advance(Duration::from_millis(1100)).await;
        }
        rounds += 1;
        ensure!(
            rounds < 60,
            "endless lookup",
            "the lookup does not end, the peers are {kinds:?} {addresses:?}"
        );
        for (who, query_id, question) in pending {
            ch.step();
            let key = parse_question(&question).unwrap();
            let data = if key == nodes_key {
                members(kinds[who], now)
            } else if key == member_key {
                answer(addresses[who], now)
            } else {
                assert!(key == liar_key);
                Some(found(&signed_value(LIAR, b"address", 0, now + 600, &self::data(list(FORGED)))))
            };
            if let Some(data) = data {
                cast.puppets[who]
                    .say(&node.sim, vec![Msg::Answer { id: query_id, data }])
                    .await;
            }
        }
    }
    let res: Vec<(SocketAddrV4, _)> = match task.await.unwrap() {
        Ok(res) => res,
        Err(e) => return Err(harness::Stop::violation("failed lookup", e.to_string())),
    };
    ch.note(|| format!("{kinds:?} {addresses:?}: {res:?}"));
    ch.observe(res.len());
    ch.visit(hash_of(&(&kinds, &addresses, res.len())));
    for (address, found) in &res {
        ensure!(
            is_valid_overlay_node(found, &id),
            "forged member",
            "found {found:?}, the peers are {kinds:?}"
        );
        ensure!(
            *address == world::addr(HONEST) && tl_proto::hash(found.id.as_equivalent_ref()) == *short_id(MEMBER).as_slice(),
            "forged address",
            "found {found:?} at {address}, the peers are {kinds:?} {addresses:?}"
        );
    }
    let possible = kinds.contains(&Members::Valid) && addresses.contains(&Kind::Honest);
    ensure!(
        res.len() <= 1 && (!res.is_empty() || !possible),
        "members",
        "found {} members, the peers are {kinds:?} {addresses:?}",
        res.len()
    );
    Ok(())
}

fn main() {
    check_main("C15", |ctx| {
        ctx.assume("forging Ed25519 signatures and SHA-256 collisions are infeasible");
        let peers = ctx.tiered(2, 3);
        ctx.explore(
            Suite {
                name: "lookups".to_owned(),
                about: format!(
                    "lookups of values and addresses in 4 ways, {peers} peers with each of 26 answers, in every order"
                ),
                bound: 0,
            },
            |ch| world::run(1, lookups(ch, peers)),
        );
        ctx.explore(
            Suite {
                name: "bits".to_owned(),
                about: "every flipped bit and truncation of an answer with a signed value and with overlay nodes"
                    .to_owned(),
                bound: 0,
            },
            |ch| world::run(1, bits(ch)),
        );
        ctx.explore(
            Suite {
                name: "overlays".to_owned(),
                about: format!("search for overlay members, {peers} peers with 11 answers and 4 answers with addresses"),
                bound: 0,
            },
            |ch| world::run(1, overlays(ch, peers)),
        );
    })
}
