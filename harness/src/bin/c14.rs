//! C14: stored DHT values are fresh

use std::collections::BTreeMap;
use std::time::Duration;

use everscale_network::adnl::NodeOptions;
use everscale_network::dht;
use everscale_network::dht::verif_api::{Storage, StorageOptions};
use everscale_network::proto;
use harness::dhtkit::*;
use harness::sched::{run_threads, Body};
use harness::util::hash_of;
use harness::world::{self, START};
use harness::{check_main, ensure, Chooser, Step, Suite};

fn storage() -> Storage {
    Storage::new(StorageOptions {
        max_key_name_len: 127,
        max_key_index: 15,
    })
}

fn get(storage: &Storage, key: &[u8; 32]) -> Option<ValueOwned> {
    storage.get_ref(key).map(|v| v.clone())
}

const OWNER: u8 = 1;

/// Values by (key, ttl, variant). Signatures are slow, so they are made once
fn value(key: u8, ttl: u32, variant: u8) -> ValueOwned {
    thread_local! {
        static CACHE: std::cell::RefCell<BTreeMap<(u8, u32, u8), ValueOwned>> = Default::default();
    }
    CACHE.with(|cache| {
        cache
            .borrow_mut()
            .entry((key, ttl, variant))
            .or_insert_with(|| signed_value(OWNER, b"address", key as u32, START + ttl, &[variant; 5]))
            .clone()
    })
}

fn histories(ch: &mut Chooser<'_>, depth: usize) -> Step {
    world::reset(1);
    let storage = storage();
    let mut clock = 0u32;
    // Unexpired and expired values with their variants
    let mut model = BTreeMap::<u8, (u32, u8)>::new();
    for i in 0..depth {
        let state = hash_of(&(clock, &model));
        ch.visit(state);
        ch.prune(state, (depth - i) as u32)?;
        let op = ch.choose(12);
        ch.step();
        match op {
            0..=9 => {
                let (key, ttl, variant) = match op {
                    8 => (1, 2, 0),
                    9 => (1, 4, 0),
                    _ => (0, 1 + (op as u32 / 2), (op % 2) as u8),
                };
                let value = value(key, ttl, variant);
                let res = storage.insert(value.as_equivalent_ref());
                let newer = !matches!(model.get(&key), Some((old, _)) if *old >= ttl);
                let stored = ttl > clock && newer;
                ch.note(|| format!("at {clock} store key {key} until {ttl} variant {variant}: {res:?}"));
                if stored {
                    model.insert(key, (ttl, variant));
                }
                ensure!(
                    matches!(res, Ok(true)) == stored,
                    "result of the store",
                    "at {clock} the value until {ttl} is stored: {res:?}"
                );
            }
            10 => {
                clock += 1;
                world::shift_clock(1);
                ch.note(|| format!("the time is {clock}"));
            }
            _ => {
                storage.gc();
                ch.note(|| "garbage collection".to_owned());
                model.retain(|_, (ttl, _)| *ttl > clock);
                ensure!(
                    storage.len() == model.len(),
                    "garbage",
                    "at {clock} {} values are left after the collection, {} of them are current",
                    storage.len(),
                    model.len()
                );
            }
        }
        for key in 0..2 {
            let current = model.get(&key).filter(|(ttl, _)| *ttl > clock);
            let stored = get(&storage, &storage_key(&value(key, 1, 0).key.key));
            let want = current.map(|(ttl, variant)| value(key, *ttl, *variant));
            ensure!(
                match (&stored, &want) {
                    (None, None) => true,
                    (Some(a), Some(b)) => same_value(a, b),
                    _ => false,
                },
                match (&stored, &want) {
                    (None, _) => "value lost",
                    (_, None) => "expired value returned",
                    _ => "other value returned",
                },
                "at {clock} the storage returns {stored:?} instead of {want:?}"
            );
        }
        ch.observe(model.len());
    }
    Ok(())
}

/// Node 0 or 1 of the overlay
fn member(n: u8, version: u32) -> proto::overlay::NodeOwned {
    overlay_node(3 + n, &overlay(1).compute_short_id(), version)
}

fn nodes_value(nodes: &[(u8, u32)], ttl: u32) -> ValueOwned {
    type Cache = BTreeMap<(Vec<(u8, u32)>, u32), ValueOwned>;
    thread_local! {
        static CACHE: std::cell::RefCell<Cache> = Default::default();
    }
    CACHE.with(|cache| {
        cache
            .borrow_mut()
            .entry((nodes.to_vec(), ttl))
            .or_insert_with(|| {
                let nodes: Vec<_> = nodes.iter().map(|(n, v)| member(*n, *v)).collect();
                overlay_value(&overlay(1), &nodes, START + ttl)
            })
            .clone()
    })
}

fn nodes_of(value: &ValueOwned) -> Vec<(u8, u32)> {
    let nodes: proto::overlay::NodesOwned = tl_proto::deserialize_as_boxed(&value.value).unwrap();
    let mut res: Vec<_> = nodes
        .nodes
        .iter()
        .map(|node| {
            let n = (0..3)
                .find(|n| tl_proto::serialize(public_key(3 + n)) == tl_proto::serialize(node.id.clone()))
                .unwrap();
            (n, node.version)
        })
        .collect();
    res.sort_unstable();
    res
}

const SETS: [&[(u8, u32)]; 6] = [
    &[(0, 1)],
    &[(0, 2)],
    &[(1, 1)],
    &[(0, 1), (1, 2)],
    &[(0, 3), (0, 1)],
    &[(2, 1), (0, 1), (1, 1)],
];

/// What the nodes of the overlay become
fn merge(nodes: &mut BTreeMap<u8, u32>, new: &[(u8, u32)]) {
    for (n, version) in new {
        let entry = nodes.entry(*n).or_default();
        *entry = (*entry).max(*version);
    }
}

fn overlays(ch: &mut Chooser<'_>, depth: usize) -> Step {
    world::reset(1);
    let storage = storage();
    let mut clock = 0u32;
    let mut model: Option<(u32, BTreeMap<u8, u32>)> = None;
    let key = storage_key(&nodes_value(SETS[0], 1).key.key);
    for i in 0..depth {
        let state = hash_of(&(clock, &model));
        ch.visit(state);
        ch.prune(state, (depth - i) as u32)?;
        let op = ch.choose(SETS.len() * 3 + 2);
        ch.step();
        if op < SETS.len() * 3 {
            let ttl = 2 + (op / SETS.len()) as u32;
            let set = SETS[op % SETS.len()];
            let value = nodes_value(set, ttl);
            let res = storage.insert(value.as_equivalent_ref());
            ch.note(|| format!("at {clock} store {set:?} until {ttl}: {res:?}"));
            let stored = match &mut model {
                _ if ttl <= clock => false,
                Some((old, _)) if *old > clock && *old > ttl => false,
                Some((old, nodes)) if *old > clock => {
                    *old = ttl;
                    merge(nodes, set);
                    true
                }
                model => {
                    let mut nodes = BTreeMap::new();
                    merge(&mut nodes, set);
                    *model = Some((ttl, nodes));
                    true
                }
            };
            ensure!(
                matches!(res, Ok(true)) == stored,
                "result of the store",
                "at {clock} the nodes until {ttl} are stored: {res:?}, there was {model:?}"
            );
        } else if op == SETS.len() * 3 {
            clock += 1;
            world::shift_clock(1);
            ch.note(|| format!("the time is {clock}"));
        } else {
            storage.gc();
            ch.note(|| "garbage collection".to_owned());
            model = model.filter(|(ttl, _)| *ttl > clock);
            ensure!(
                storage.len() == model.is_some() as usize,
                "garbage",
                "at {clock} {} values are left after the collection",
                storage.len()
            );
        }
        let stored = get(&storage, &key).map(|v| (v.ttl - START, nodes_of(&v)));
        let want = model
            .as_ref()
            .filter(|(ttl, _)| *ttl > clock)
            .map(|(ttl, nodes)| (*ttl, nodes.iter().map(|(n, v)| (*n, *v)).collect::<Vec<_>>()));
        ensure!(
            stored == want,
            match (&stored, &want) {
                (None, _) => "value lost",
                (_, None) => "expired value returned",
                _ => "other nodes returned",
            },
            "at {clock} the storage returns {stored:?} instead of {want:?}"
        );
        ch.observe(want.is_some());
    }
    Ok(())
}

/// The node itself forgets what is outdated
async fn lifetime(ch: &mut Chooser<'_>) -> Step {
    let interval = ch.one_of(&[1000u64, 5000, 10_000]);
    let options = dht::NodeOptions {
        storage_gc_interval_ms: interval,
        ..Default::default()
    };
    let node = DhtSim::new(0, NodeOptions::default(), options);
    let mut cast = Cast::new(1);
    let now = world::now();
    let lifetimes: Vec<u32> = (0..2).map(|_| ch.one_of(&[1, 2, 9, 11, 14])).collect();
    let values: Vec<_> = lifetimes
        .iter()
        .enumerate()
        .map(|(i, ttl)| signed_value(OWNER, b"address", i as u32, now + ttl, b"data"))
        .collect();
    for value in &values {
        assert!(cast.store(0, &node.sim, value).await);
    }
    for second in 1..=26u32 {
        world::advance(Duration::from_secs(1)).await;
        ch.step();
        let mut alive = 0;
        let mut may_remain = 0;
        for (value, ttl) in values.iter().zip(&lifetimes) {
            // All limits which are allowed
            let k = [1, 6, 20][second as usize % 3];
            let res = cast.find_value(0, &node.sim, &storage_key(&value.key.key), k).await;
            let found = matches!(&res, Some(Ok(found)) if same_value(found, value));
            ensure!(
                found == (second < *ttl),
                if found { "expired value returned" } else { "value lost" },
                "after {second} s the value for {ttl} s is found: {res:?}"
            );
            alive += (second < *ttl) as usize;
            may_remain += (second as u64 * 1000 <= *ttl as u64 * 1000 + interval) as usize;
        }
        let len = node.dht.metrics().storage_len;
        ch.visit(hash_of(&(second, len, alive)));
        ensure!(
            len >= alive && len <= may_remain,
            "garbage",
            "after {second} s {len} values are stored, {alive} of them are current, interval {interval} ms"
        );
    }
    ch.observe(interval);
    Ok(())
}

fn races(ch: &mut Chooser<'_>) -> Step {
    world::reset(1);
    let storage = storage();
    let kind = ch.choose(7);
    let key = storage_key(&value(0, 1, 0).key.key);
    let overlay_key = storage_key(&nodes_value(SETS[0], 1).key.key);
    let put = |v: ValueOwned| -> Body<'_> {
        let storage = &storage;
        Box::new(move || {
            storage.insert(v.as_equivalent_ref()).unwrap();
        })
    };
    let gc = || -> Body<'_> {
        let storage = &storage;
        Box::new(move || storage.gc())
    };
    let seen = std::cell::RefCell::new(Vec::new());
    let read = |n: usize| -> Body<'_> {
        let (storage, seen, key) = (&storage, &seen, &key);
        Box::new(move || {
            for _ in 0..n {
                let ttl = get(storage, key).map(|v| v.ttl - START);
                seen.borrow_mut().push(ttl);
            }
        })
    };
    let bodies = match kind {
        0 => vec![put(value(0, 2, 0)), put(value(0, 3, 0)), put(value(0, 4, 1))],
        1 => vec![put(value(0, 4, 0)), put(value(0, 3, 0)), read(3)],
        2 => {
            storage.insert(value(0, 2, 0).as_equivalent_ref()).unwrap();
            world::shift_clock(2);
            vec![put(value(0, 3, 0)), gc(), put(value(0, 4, 0)), gc()]
        }
        3 => vec![
            put(nodes_value(&[(0, 1)], 3)),
            put(nodes_value(&[(1, 1)], 3)),
            put(nodes_value(&[(0, 2)], 3)),
        ],
        4 => {
            storage.insert(nodes_value(&[(2, 1)], 2).as_equivalent_ref()).unwrap();
            vec![
                put(nodes_value(&[(0, 1)], 4)),
                put(nodes_value(&[(1, 1), (0, 2)], 4)),
                gc(),
            ]
        }
        5 => {
            storage.insert(nodes_value(&[(2, 1)], 2).as_equivalent_ref()).unwrap();
            world::shift_clock(2);
            vec![
                put(nodes_value(&[(0, 1)], 4)),
                gc(),
                put(nodes_value(&[(1, 1)], 4)),
            ]
        }
        _ => vec![put(value(0, 3, 0)), put(value(0, 3, 1)), read(3)],
    };
    run_threads(ch, bodies, &Default::default())?;
    let stored = get(&storage, &key).map(|v| v.ttl - START);
    let nodes = get(&storage, &overlay_key).map(|v| nodes_of(&v));
    let want = match kind {
        0 | 1 | 2 => Some(4),
        6 => Some(3),
        _ => None,
    };
    let want_nodes = match kind {
        3 => Some(vec![(0, 2), (1, 1)]),
        4 => Some(vec![(0, 2), (1, 1), (2, 1)]),
        5 => Some(vec![(0, 1), (1, 1)]),
        _ => None,
    };
    let seen = seen.into_inner();
    ch.observe(format!("{seen:?}"));
    ch.visit(hash_of(&(kind, format!("{seen:?}"))));
    ensure!(
        stored == want,
        "older value won",
        "the value ends at {stored:?} instead of {want:?}"
    );
    ensure!(
        nodes == want_nodes,
        "overlay nodes",
        "the nodes are {nodes:?} instead of {want_nodes:?}"
    );
    ensure!(
        seen.windows(2).all(|w| w[0] <= w[1]),
        "freshness moved back",
        "the reader has seen {seen:?}"
    );
    Ok(())
}

fn main() {
    check_main("C14", |ctx| {
        ctx.assume("interleavings are sequentially consistent");
        let depth = ctx.tiered(8, 11);
        ctx.explore(
            Suite {
                name: "histories".to_owned(),
                about: format!(
                    "all sequences of {depth} stores of signed values under two keys with 4 expiration times, \
                     seconds and collections"
                ),
                bound: 0,
            },
            |ch| histories(ch, depth),
        );
        let depth = ctx.tiered(6, 8);
        ctx.explore(
            Suite {
                name: "overlays".to_owned(),
                about: format!(
                    "all sequences of {depth} stores of 6 sets of overlay nodes with 3 expiration times, \
                     seconds and collections"
                ),
                bound: 0,
            },
            |ch| overlays(ch, depth),
        );
        ctx.explore(
            Suite {
                name: "lifetime".to_owned(),
                about: "a DHT node with two values of 5 lifetimes, watched every second for 26 s, 3 intervals \
                        of collection"
                    .to_owned(),
                bound: 0,
            },
            |ch| world::run(1, lifetime(ch)),
        );
        ctx.explore(
            Suite {
                name: "races".to_owned(),
                about: "stores, collections and reads of one key in up to 4 threads".to_owned(),
                bound: ctx.tiered(5, 9),
            },
            races,
        );
    })
}
