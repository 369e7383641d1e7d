//! C13: the DHT storage only holds values their owners may store

use std::collections::BTreeMap;

use bytes::Bytes;
use everscale_crypto::tl::PublicKeyOwned;
use everscale_network::adnl::NodeOptions;
use everscale_network::dht;
use everscale_network::dht::verif_api::{Storage, StorageOptions};
use everscale_network::overlay::IdShort;
use everscale_network::proto;
use harness::dhtkit::*;
use harness::util::hash_of;
use harness::world::{self, START};
use harness::{check_main, ensure, Chooser, Step, Suite};

fn storage(max_key_name_len: usize, max_key_index: u32) -> Storage {
    Storage::new(StorageOptions {
        max_key_name_len,
        max_key_index,
    })
}

/// Stored value under the key, as the storage shows it
fn get(storage: &Storage, key: &[u8; 32]) -> Option<ValueOwned> {
    storage.get_ref(key).map(|v| v.clone())
}

/// Valid overlay nodes of the value, the newest of each
fn members(value: &ValueOwned, overlay: &IdShort) -> Option<BTreeMap<Vec<u8>, Vec<u8>>> {
    let nodes: proto::overlay::NodesOwned = tl_proto::deserialize_as_boxed(&value.value).ok()?;
    let mut res = BTreeMap::<Vec<u8>, (u32, Vec<u8>)>::new();
    for node in nodes.nodes {
        if is_valid_overlay_node(&node, overlay) {
            let id = tl_proto::serialize(node.id.as_equivalent_ref());
            let bytes = tl_proto::serialize(node.clone());
            match res.get(&id) {
                Some((version, _)) if *version >= node.version => {}
                _ => {
                    res.insert(id, (node.version, bytes));
                }
            }
        }
    }
    Some(res.into_iter().map(|(id, (_, bytes))| (id, bytes)).collect())
}

/// Everything in the value, valid or not
fn all_nodes(value: &ValueOwned) -> Vec<(Vec<u8>, Vec<u8>)> {
    let nodes: proto::overlay::NodesOwned = tl_proto::deserialize_as_boxed(&value.value).unwrap();
    let mut res: Vec<_> = nodes
        .nodes
        .into_iter()
        .map(|n| (tl_proto::serialize(n.id.as_equivalent_ref()), tl_proto::serialize(n)))
        .collect();
    res.sort();
    res
}

/// What the storage must hold after it was given the value when it was empty. `None` if nothing
enum Expected {
    Nothing,
    Same,
    Members(BTreeMap<Vec<u8>, Vec<u8>>),
}

fn expected(value: &ValueOwned, max_name: usize, max_index: u32, now: u32) -> Expected {
    let key = &value.key;
    if value.ttl <= now
        || key.key.name.len() > max_name
        || key.key.idx > max_index
        || key.key.id != tl_proto::hash(key.id.as_equivalent_ref())
    {
        return Expected::Nothing;
    }
    match key.update_rule {
        UpdateRule::Anybody => Expected::Nothing,
        UpdateRule::Signature => {
            if is_signed(&key.id, &key_bytes(value), &key.signature)
                && is_signed(&key.id, &value_bytes(value), &value.signature)
            {
                Expected::Same
            } else {
                Expected::Nothing
            }
        }
        UpdateRule::OverlayNodes => {
            let overlay_id = IdShort::new(key.key.id);
            if !matches!(key.id, PublicKeyOwned::Overlay { .. })
                || key.key.name != "nodes"
                || key.key.idx != 0
                || !key.signature.is_empty()
                || !value.signature.is_empty()
            {
                return Expected::Nothing;
            }
            match members(value, &overlay_id) {
                Some(members) if !members.is_empty() => Expected::Members(members),
                _ => Expected::Nothing,
            }
        }
    }
}

/// Gives the value to the storage and compares what it holds then
fn offer(
    ch: &mut Chooser<'_>,
    storage: &Storage,
    value: &ValueOwned,
    limits: (usize, u32),
    before: Option<&ValueOwned>,
    context: &str,
) -> Step {
    let key = storage_key(&value.key.key);
    let want = expected(value, limits.0, limits.1, world::now());
    let res = storage.insert(value.as_equivalent_ref());
    let stored = get(storage, &key);
    let was = before.filter(|b| storage_key(&b.key.key) == key);
    ch.step();
    ch.observe((res.is_ok(), stored.is_some()));
    match want {
        Expected::Nothing => {
            ensure!(
                !matches!(res, Ok(true)),
                "invalid value accepted",
                "{context}: the storage says that it has stored the value"
            );
            ensure!(
                match (&stored, was) {
                    (None, None) => true,
                    (Some(stored), Some(was)) => same_value(stored, was),
                    _ => false,
                },
                "invalid value stored",
                "{context}: the storage holds {stored:?}"
            );
            ensure!(
                storage.len() == before.is_some() as usize,
                "invalid value stored",
                "{context}: the storage holds {} values",
                storage.len()
            );
        }
        Expected::Same => {
            ensure!(
                matches!(res, Ok(true)),
                "valid value rejected",
                "{context}: {res:?}"
            );
            ensure!(
                matches!(&stored, Some(stored) if same_value(stored, value)),
                "other value stored",
                "{context}: the storage holds {stored:?} instead of {value:?}"
            );
        }
        Expected::Members(members) => {
            ensure!(
                matches!(res, Ok(true)),
                "valid value rejected",
                "{context}: {res:?}"
            );
            let Some(stored) = stored else {
                return Err(harness::Stop::violation(
                    "valid value rejected",
                    format!("{context}: nothing is stored"),
                ));
            };
            let nodes = all_nodes(&stored);
            let want: Vec<_> = members.into_iter().collect();
            ensure!(
                nodes == want,
                "overlay nodes",
                "{context}: {} nodes are stored instead of {} valid ones, or they differ",
                nodes.len(),
                want.len()
            );
            let mut rest = stored.clone();
            rest.value = value.value.clone();
            ensure!(
                same_value(&rest, value),
                "other value stored",
                "{context}: the storage holds {stored:?} instead of {value:?}"
            );
        }
    }
    Ok(())
}

const OWNER: u8 = 1;
const OTHER: u8 = 2;

/// Fields of a signed value which differ from the usual ones
fn signed(ch: &mut Chooser<'_>) -> Step {
    world::reset(1);
    let now = START;
    let limits = [(127usize, 15u32), (7, 0), (0, u32::MAX)][ch.choose(3)];
    let name_len = [limits.0.min(7), 0, limits.0, limits.0 + 1, 300][ch.deviate(5)];
    let name: Vec<u8> = b"address".iter().copied().cycle().take(name_len).collect();
    let idx = [0, limits.1, limits.1.saturating_add(1), u32::MAX][ch.deviate(4)];
    let ttl = [now + 3600, 0, now - 1, now, now + 1, u32::MAX][ch.deviate(6)];
    let data = [&b"some data"[..], b"", &[7; 5000]][ch.deviate(3)];

    let mut value = draft(public_key(OWNER), &name, idx, ttl, data);
    match ch.deviate(6) {
        0 => {}
        1 => value.key.id = PublicKeyOwned::Overlay { name: b"some overlay".to_vec() },
        2 => value.key.id = PublicKeyOwned::Aes { key: [3; 32] },
        3 => value.key.id = PublicKeyOwned::Unencoded { data: vec![1; 32] },
        4 => {
            value.key.id = PublicKeyOwned::Ed25519 { key: [0xff; 32] };
        }
        _ => value.key.id = public_key(OTHER),
    }
    let hash = tl_proto::hash(value.key.id.as_equivalent_ref());
    value.key.key.id = match ch.deviate(4) {
        0 => hash,
        1 => tl_proto::hash(public_key(OTHER).as_equivalent_ref()),
        2 => [0; 32],
        _ => {
            let mut id = hash;
            id[31] ^= 1;
            id
        }
    };
    value.key.update_rule =
        [UpdateRule::Signature, UpdateRule::Anybody, UpdateRule::OverlayNodes][ch.deviate(3)];

    match ch.deviate(8) {
        0 => sign_key(&mut value, OWNER),
        1 => {}
        2 => sign_key(&mut value, OTHER),
        3 => {
            // Signature of another key of the owner
            let mut other = value.clone();
            other.key.key.name = Bytes::from_static(b"another");
            sign_key(&mut other, OWNER);
            value.key.signature = other.key.signature;
        }
        4 => {
            let mut other = value.clone();
            other.key.update_rule = UpdateRule::Anybody;
            sign_key(&mut other, OWNER);
            value.key.signature = other.key.signature;
        }
        5 => value.key.signature = Bytes::from_static(&[0; 64]),
        6 => {
            sign_key(&mut value, OWNER);
            value.key.signature = value.key.signature.slice(..63);
        }
        _ => {
            sign_key(&mut value, OWNER);
            let mut signature = value.key.signature.to_vec();
            signature.push(0);
            value.key.signature = signature.into();
        }
    }
    match ch.deviate(9) {
        0 => sign_value(&mut value, OWNER),
        1 => {}
        2 => sign_value(&mut value, OTHER),
        3 => {
            let mut other = value.clone();
            other.value = Bytes::from_static(b"other data");
            sign_value(&mut other, OWNER);
            value.signature = other.signature;
        }
        4 => {
            let mut other = value.clone();
            other.ttl = other.ttl.wrapping_sub(1);
            sign_value(&mut other, OWNER);
            value.signature = other.signature;
        }
        5 => {
            // As if the key was not signed
            let mut other = value.clone();
            other.key.signature = Bytes::new();
            sign_value(&mut other, OWNER);
            value.signature = other.signature;
        }
        6 => value.signature = Bytes::from_static(&[0; 64]),
        7 => value.signature = value.key.signature.clone(),
        _ => {
            sign_value(&mut value, OWNER);
            value.signature = value.signature.slice(..63);
        }
    }
    // Changes after everything is signed
    match ch.deviate(7) {
        0 => {}
        1 => value.ttl = value.ttl.wrapping_add(1),
        2 => value.value = Bytes::from_static(b"changed"),
        3 => value.key.key.idx = value.key.key.idx.wrapping_add(1) % 3,
        4 => value.key.key.name = Bytes::from_static(b"changed"),
        5 => value.key.update_rule = UpdateRule::Signature,
        _ => value.key.id = public_key(OWNER),
    }

    let storage = storage(limits.0, limits.1);
    // The owner may have stored something before
    let before = match ch.deviate(2) {
        0 => None,
        _ => Some(signed_value(OWNER, &name[..name_len.min(limits.0)], 0, now + 60, b"before")),
    };
    if let Some(before) = &before {
        assert!(storage.insert(before.as_equivalent_ref()).unwrap());
    }
    if matches!(&before, Some(before) if storage_key(&before.key.key) == storage_key(&value.key.key)
        && before.ttl >= value.ttl && value.ttl > now)
    {
        // Which of them is kept is a question of freshness
        return ch.skip();
    }
    ch.visit(hash_of(&tl_proto::serialize(value.clone())));
    offer(ch, &storage, &value, limits, before.as_ref(), "field")
}

/// Every single bit and every truncation
fn bits(ch: &mut Chooser<'_>) -> Step {
    world::reset(1);
    let now = START;
    let overlay_id = overlay(1);
    let short = overlay_id.compute_short_id();
    let original = match ch.choose(2) {
        0 => signed_value(OWNER, b"address", 3, now + 600, b"some data"),
        _ => overlay_value(
            &overlay_id,
            &[overlay_node(3, &short, 5), overlay_node(4, &short, 6)],
            now + 600,
        ),
    };
    let bytes = tl_proto::serialize(original.clone());
    let byte = ch.choose(bytes.len());
    let how = ch.choose(9);
    let mut bytes = bytes;
    match how {
        8 => bytes.truncate(byte),
        bit => bytes[byte] ^= 1 << bit,
    }
    ch.visit(hash_of(&bytes));
    let Ok(value) = tl_proto::deserialize::<proto::dht::Value<'_>>(&bytes) else {
        ch.step();
        ch.observe("not parsed");
        return Ok(());
    };
    let value = value.as_equivalent_owned();
    let storage = storage(127, 15);
    offer(ch, &storage, &value, (127, 15), None, &format!("byte {byte}, change {how}"))
}

/// Values of overlays
fn overlays(ch: &mut Chooser<'_>, max_nodes: usize) -> Step {
    world::reset(1);
    let now = START;
    let id = overlay(1);
    let short = id.compute_short_id();
    let other = overlay(2).compute_short_id();
    let count = ch.choose(max_nodes + 1);
    let mut nodes = Vec::new();
    // Also after others
    for key in 0..ch.one_of(&[0, 4, 9]) {
        nodes.push(overlay_node(20 + key, &short, 5));
    }
    for _ in 0..count {
        nodes.push(match ch.choose(9) {
            0 => overlay_node(3, &short, 5),
            1 => overlay_node(3, &short, 6),
            2 => overlay_node(4, &short, 5),
            3 => {
                let mut node = overlay_node(4, &short, 5);
                node.version = 7;
                node
            }
            4 => overlay_node(4, &other, 9),
            5 => {
                // Signed for another overlay
                let mut node = overlay_node(4, &other, 9);
                node.overlay = *short.as_slice();
                node
            }
            6 => {
                // Signed by somebody else
                let mut node = overlay_node(3, &short, 9);
                node.id = public_key(4);
                node
            }
            7 => {
                let mut node = overlay_node(3, &short, 9);
                node.id = PublicKeyOwned::Unencoded { data: vec![5; 32] };
                node
            }
            _ => {
                let mut node = overlay_node(5, &short, 9);
                node.signature = Bytes::new();
                node
            }
        });
    }
    let mut value = overlay_value(&id, &nodes, now + 600);
    match ch.deviate(9) {
        0 => {}
        1 => value.key.key.name = Bytes::from_static(b"node"),
        2 => value.key.key.idx = 1,
        3 => value.key.key.id = *other.as_slice(),
        4 => {
            value.key.id = overlay_key(&overlay(2));
            value.key.key.id = *other.as_slice();
        }
        5 => {
            value.key.id = public_key(3);
            value.key.key.id = tl_proto::hash(value.key.id.as_equivalent_ref());
        }
        6 => {
            let mut bytes = value.value.to_vec();
            bytes.truncate(bytes.len() - 4);
            value.value = bytes.into();
        }
        7 => {
            let mut bytes = value.value.to_vec();
            bytes[4] = bytes[4].wrapping_add(1);
            value.value = bytes.into();
        }
        _ => value.value = Bytes::new(),
    }
    match ch.deviate(4) {
        0 => {}
        1 => value.key.signature = Bytes::from_static(&[1; 64]),
        2 => value.signature = Bytes::from_static(&[1; 64]),
        _ => sign_value(&mut value, 3),
    }
    match ch.deviate(3) {
        0 => {}
        1 => value.key.update_rule = UpdateRule::Anybody,
        _ => value.key.update_rule = UpdateRule::Signature,
    }
    ch.visit(hash_of(&tl_proto::serialize(value.clone())));
    let storage = storage(127, 15);
    offer(ch, &storage, &value, (127, 15), None, "overlay")
}

/// Peers store and find values over the network
async fn network(ch: &mut Chooser<'_>, depth: usize) -> Step {
    let node = DhtSim::new(0, NodeOptions::default(), dht::NodeOptions::default());
    let mut cast = Cast::new(2);
    let now = world::now();
    let id = overlay(1);
    let short = id.compute_short_id();
    let mut forged = signed_value(OWNER, b"address", 0, now + 900, b"forged");
    forged.value = Bytes::from_static(b"changed");
    let mut foreign = draft(public_key(OWNER), b"address", 0, now + 950, b"foreign");
    sign_key(&mut foreign, OTHER);
    sign_value(&mut foreign, OTHER);
    let mut anybody = draft(public_key(OWNER), b"address", 0, now + 950, b"anybody");
    anybody.key.update_rule = UpdateRule::Anybody;
    sign_key(&mut anybody, OWNER);
    sign_value(&mut anybody, OWNER);
    let mut bad_node = overlay_node(4, &short, 50);
    bad_node.version = 51;
    let values = [
        signed_value(OWNER, b"address", 0, now + 600, b"first"),
        signed_value(OWNER, b"address", 0, now + 700, b"second"),
        signed_value(OWNER, b"address", 1, now + 600, b"other index"),
        signed_value(OTHER, b"address", 0, now + 600, b"other owner"),
        signed_value(OWNER, b"addres", 0, now + 600, &[9; 600]),
        forged,
        foreign,
        anybody,
        overlay_value(&id, &[overlay_node(3, &short, 5), bad_node.clone()], now + 600),
        overlay_value(&id, &[bad_node], now + 600),
    ];
    let valid = [true, true, true, true, true, false, false, false, true, false];

    let mut model = BTreeMap::<[u8; 32], usize>::new();
    for _ in 0..depth {
        let i = ch.choose(values.len());
        let value = &values[i];
        let key = storage_key(&value.key.key);
        let accepted = cast.store(ch.choose(2), &node.sim, value).await;
        ch.note(|| format!("value {i} is stored: {accepted}"));
        ch.step();
        ensure!(
            accepted == valid[i],
            if valid[i] { "valid value rejected" } else { "invalid value accepted" },
            "value {i} is stored: {accepted}"
        );
        if valid[i] {
            let newer = match model.get(&key) {
                Some(j) => values[*j].ttl < value.ttl,
                None => true,
            };
            if newer {
                model.insert(key, i);
            }
        }
        ch.visit(hash_of(&format!("{model:?}")));
        for value in &values {
            let key = storage_key(&value.key.key);
            let res = cast.find_value(1, &node.sim, &key, 6).await;
            match model.get(&key) {
                None => ensure!(
                    matches!(res, Some(Err(_))),
                    "value from nowhere",
                    "nothing was stored, but found {res:?}"
                ),
                Some(8) => {
                    let Some(Ok(found)) = res else {
                        return Err(harness::Stop::violation("value lost", "overlay nodes are not found"));
                    };
                    let nodes = all_nodes(&found);
                    let want: Vec<_> = members(&values[8], &short).unwrap().into_iter().collect();
                    ensure!(nodes == want, "overlay nodes", "found {} nodes", nodes.len());
                }
                Some(j) => ensure!(
                    matches!(&res, Some(Ok(found)) if same_value(found, &values[*j])),
                    "other value found",
                    "stored {:?}, found {res:?}",
                    values[*j]
                ),
            }
        }
    }
    Ok(())
}

fn main() {
    check_main("C13", |ctx| {
        ctx.assume("forging Ed25519 signatures and SHA-256 collisions are infeasible");
        ctx.explore(
            Suite {
                name: "signed".to_owned(),
                about: "a valid signed value with every combination of up to this number of invalid or unusual fields, \
                        before and after signing, with 3 sets of limits"
                    .to_owned(),
                bound: ctx.tiered(3, 4),
            },
            signed,
        );
        ctx.explore(
            Suite {
                name: "bits".to_owned(),
                about: "every flipped bit and every truncation of a signed value and of overlay nodes".to_owned(),
                bound: 0,
            },
            bits,
        );
        let nodes = ctx.tiered(2, 3);
        ctx.explore(
            Suite {
                name: "overlays".to_owned(),
                about: format!("up to {nodes} nodes of 9 kinds, invalid keys, rules and signatures"),
                bound: ctx.tiered(2, 3),
            },
            |ch| overlays(ch, nodes),
        );
        let depth = ctx.tiered(2, 3);
        ctx.explore(
            Suite {
                name: "network".to_owned(),
                about: format!("all sequences of {depth} stores of 10 values by two peers, and lookups after each"),
                bound: 0,
            },
            |ch| world::run(1, network(ch, depth)),
        );
    })
}
