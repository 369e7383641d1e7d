//! C17: Iterative DHT lookups and stores are complete and terminate

use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

use everscale_network::adnl::NodeOptions;
use everscale_network::dht;
use everscale_network::proto;
use futures_util::StreamExt;
use harness::dhtkit::*;
use harness::nodes::{full_id, short_id};
use harness::puppet::Msg;
use harness::util::{hash_of, permutations};
use harness::world;
use harness::{check_main, ensure, Chooser, Step, Suite};
use tl_proto::BoxedWrapper;

const OWNER: u8 = 60;
/// Queries which may run at the same time
const PARALLEL: usize = 5;
const TIMEOUT: u64 = 1000;

type List = BoxedWrapper<proto::adnl::AddressList>;

fn list(index: usize) -> proto::adnl::AddressList {
    proto::adnl::AddressList {
        address: Some(proto::adnl::Address::from(&world::addr(index))),
        version: world::START,
        reinit_date: world::START,
        expire_at: 0,
    }
}

/// Right value for this key
fn value(name: &str, index: usize) -> ValueOwned {
    type Cache = BTreeMap<(String, usize), ValueOwned>;
    thread_local! {
        static CACHE: std::cell::RefCell<Cache> = Default::default();
    }
    CACHE.with(|cache| {
        cache
            .borrow_mut()
            .entry((name.to_owned(), index))
            .or_insert_with(|| {
                let data = tl_proto::serialize_as_boxed(list(index));
                signed_value(OWNER, name.as_bytes(), 0, world::START + 5000, &data)
            })
            .clone()
    })
}

fn key_of(name: &str) -> [u8; 32] {
    storage_key(&draft(public_key(OWNER), name.as_bytes(), 0, 0, &[]).key.key)
}

/// Number of equal bits at the beginning
fn affinity(a: &[u8; 32], b: &[u8; 32]) -> usize {
    let bit = |bytes: &[u8; 32], i: usize| bytes[i / 8] >> (7 - i % 8) & 1;
    (0..256).take_while(|&i| bit(a, i) == bit(b, i)).count().min(255)
}

/// Whether exactly the closest of the candidates are chosen: the class which is the closest one as
/// a whole, then others up to the limit
fn is_closest(key: &[u8; 32], chosen: &[[u8; 32]], candidates: &[[u8; 32]], limit: Option<usize>) -> bool {
    let limit = limit.unwrap_or(usize::MAX);
    let mut all: Vec<_> = candidates.iter().map(|id| affinity(key, id)).collect();
    all.sort_unstable_by_key(|affinity| std::cmp::Reverse(*affinity));
    let top = all.iter().filter(|a| **a == all[0]).count();
    all.truncate(limit.max(top));
    let mut got: Vec<_> = chosen.iter().map(|id| affinity(key, id)).collect();
    got.sort_unstable_by_key(|affinity| std::cmp::Reverse(*affinity));
    got == all
}

#[derive(Debug)]
struct Question {
    who: usize,
    id: [u8; 32],
    data: Vec<u8>,
}

async fn questions(cast: &mut Cast) -> Vec<Question> {
    cast.listen()
        .await
        .into_iter()
        .filter_map(|heard| match heard.message {
            Msg::Query { id, data } => Some(Question {
                who: heard.by,
                id,
                data,
            }),
            _ => None,
        })
        .collect()
}

fn lookup_key(data: &[u8]) -> Option<[u8; 32]> {
    let proto::rpc::DhtFindValue { key, .. } = tl_proto::deserialize(data).ok()?;
    Some(*key)
}

fn stored_value(data: &[u8]) -> Option<ValueOwned> {
    let proto::rpc::DhtStore { value } = tl_proto::deserialize(data).ok()?;
    Some(value.as_equivalent_owned())
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Kind {
    Value,
    NotFound,
    Garbage,
    Silence,
    /// Knows other peers: bits of new ones
    Offers(u8),
}

fn puppet_node(cast: &Cast, who: usize) -> NodeOwned {
    let puppet = &cast.puppets[who];
    type Cache = BTreeMap<(u8, usize), NodeOwned>;
    thread_local! {
        static CACHE: std::cell::RefCell<Cache> = Default::default();
    }
    CACHE.with(|cache| {
        cache
            .borrow_mut()
            .entry((puppet.key, puppet.index))
            .or_insert_with(|| dht_node(puppet.key, puppet.index, world::START))
            .clone()
    })
}

fn learn(node: &DhtSim, cast: &Cast, who: usize) {
    let id = node.dht.add_dht_peer(puppet_node(cast, who)).unwrap();
    assert_eq!(id, Some(cast.puppets[who].id()));
}

fn answer(cast: &Cast, kind: Kind, known: usize, value: &ValueOwned) -> Option<Vec<u8>> {
    Some(match kind {
        Kind::Value => found(value),
        Kind::NotFound => not_found(&[]),
        Kind::Garbage => vec![0x55; 40],
        Kind::Silence => return None,
        Kind::Offers(bits) => {
            let nodes: Vec<_> = (0..8)
                .filter(|i| bits & (1 << i) != 0)
                .map(|i| puppet_node(cast, known + i))
                .collect();
            not_found(&nodes)
        }
    })
}

#[derive(Clone, Copy)]
struct Mode {
    batch_len: usize,
    full: bool,
    use_new: bool,
}

impl Mode {
    fn limit(&self) -> Option<usize> {
        (!self.full).then_some(self.batch_len)
    }
}

struct Lookup {
    node: DhtSim,
    cast: Cast,
    task: tokio::task::JoinHandle<Vec<proto::adnl::AddressList>>,
    key: [u8; 32],
    value: ValueOwned,
}

fn start(mode: Mode, name: &str, order: &[usize], total: usize) -> Lookup {
    let options = dht::NodeOptions {
        default_value_batch_len: mode.batch_len,
        query_timeout_ms: TIMEOUT,
        ..Default::default()
    };
    let node = DhtSim::new(0, NodeOptions::default(), options);
    let cast = Cast::new(total);
    for who in order {
        learn(&node, &cast, *who);
    }
    let dht = node.dht.clone();
    let entry_name = name.to_owned();
    let task = tokio::spawn(async move {
        let owner = short_id(OWNER);
        let mut values = dht.entry(&owner, &entry_name).values::<List>();
        if mode.full {
            values = values.use_full_batch();
        }
        values = values.use_new_peers(mode.use_new);
        let mut res = Vec::new();
        while let Some((_, BoxedWrapper(list))) = values.next().await {
            res.push(list);
        }
        res
    });
    Lookup {
        node,
        cast,
        task,
        key: key_of(name),
        value: value(name, 30),
    }
}

/// Answers of all kinds in every order
async fn answers(ch: &mut Chooser<'_>, known: usize, new: usize) -> Step {
    let mode = match ch.choose(6) {
        0 => Mode { batch_len: 5, full: false, use_new: false },
        1 => Mode { batch_len: 5, full: false, use_new: true },
        2 => Mode { batch_len: 1, full: false, use_new: false },
        3 => Mode { batch_len: 1, full: false, use_new: true },
        4 => Mode { batch_len: 1, full: true, use_new: false },
        _ => Mode { batch_len: 1, full: true, use_new: true },
    };
    let total = known + new;
    let order: Vec<_> = (0..known).collect();
    let mut lookup = start(mode, "address", &order, total);
    let offers: Vec<_> = (1..1u8 << new).map(Kind::Offers).collect();
    let basic = [Kind::NotFound, Kind::Value, Kind::Silence, Kind::Garbage];
    let all: Vec<_> = basic.iter().chain(&offers).copied().collect();
    let kinds: Vec<_> = (0..known).map(|_| ch.one_of(&all)).collect();
    // New peers behave as they like when they are asked
    let new_kinds = [Kind::Value, Kind::NotFound, Kind::Silence, Kind::Offers((1 << new) - 1)];

    let ids: Vec<_> = (0..total).map(|who| *lookup.cast.puppets[who].id().as_slice()).collect();
    let mut pending: Vec<Question> = Vec::new();
    let mut asked: Vec<usize> = Vec::new();
    let mut learned: BTreeSet<usize> = (0..known).collect();
    // Those who may be asked next
    let mut fresh: Vec<usize> = order;
    let mut values = 0;
    let mut time = Duration::ZERO;
    loop {
        let more = questions(&mut lookup.cast).await;
        let chosen: Vec<_> = more.iter().map(|question| ids[question.who]).collect();
        let candidates: Vec<_> = fresh.iter().map(|who| ids[*who]).collect();
        ensure!(
            more.iter().all(|question| fresh.contains(&question.who))
                && if candidates.is_empty() { chosen.is_empty() } else { is_closest(&lookup.key, &chosen, &candidates, mode.limit()) },
            "asked",
            "{:?} are asked of {fresh:?}, after {asked:?}, the peers are {kinds:?}",
            more.iter().map(|question| question.who).collect::<Vec<_>>()
        );
        fresh.clear();
        for question in more {
            ensure!(lookup_key(&question.data) == Some(lookup.key), "wrong question", "{question:?}");
            ensure!(!asked.contains(&question.who), "asked twice", "{} is asked again", question.who);
            asked.push(question.who);
            pending.push(question);
        }
        if pending.is_empty() {
            break;
        }
        ensure!(pending.len() <= PARALLEL, "parallel", "{} queries at once", pending.len());
        ensure!(!lookup.task.is_finished(), "early end", "{} are still asked", pending.len());
        ch.step();
        let vocal: Vec<_> = (0..pending.len())
            .filter(|i| kinds.get(pending[*i].who) != Some(&Kind::Silence))
            .collect();
        if vocal.is_empty() {
            // All of them time out
            world::advance(Duration::from_millis(TIMEOUT + 100)).await;
            time += Duration::from_millis(TIMEOUT + 100);
            pending.clear();
            continue;
        }
        let question = pending.remove(ch.one_of(&vocal));
        let who = question.who;
        let kind = match kinds.get(who) {
            Some(kind) => *kind,
            None => ch.one_of(&new_kinds),
        };
        ch.note(|| format!("{who}: {kind:?}"));
        match answer(&lookup.cast, kind, known, &lookup.value) {
            Some(data) => {
                let answer = Msg::Answer { id: question.id, data };
                lookup.cast.puppets[who].say(&lookup.node.sim, vec![answer]).await;
            }
            None => {
                world::advance(Duration::from_millis(TIMEOUT + 100)).await;
                time += Duration::from_millis(TIMEOUT + 100);
                // Everybody who is late is dropped
                pending.clear();
            }
        }
        if let Kind::Offers(bits) = kind {
            for i in 0..new {
                if bits & (1 << i) != 0 && learned.insert(known + i) && mode.use_new {
                    fresh.push(known + i);
                }
            }
        }
        values += (kind == Kind::Value) as usize;
        ch.visit(hash_of(&(&kinds, &asked, values, pending.len())));
    }
    world::settle().await;
    ensure!(lookup.task.is_finished(), "endless lookup", "the peers are {kinds:?}, {time:?} later");
    let res = lookup.task.await.unwrap();
    ch.observe((asked.len(), res.len()));
    ensure!(
        res.len() == values && res.iter().all(|res| tl_proto::serialize(res) == tl_proto::serialize(list(30))),
        "hidden value",
        "{} values of {values} are found",
        res.len()
    );
    Ok(())
}

/// The closest known peers are asked
async fn closest(ch: &mut Chooser<'_>, orders: &[Vec<usize>], names: usize) -> Step {
    let name = format!("name {}", ch.choose(names));
    let order = ch.one_of(orders);
    let mode = Mode {
        batch_len: ch.one_of(&[1, 2, 3, 4]),
        full: false,
        use_new: false,
    };
    let total = order.len();
    let mut lookup = start(mode, &name, &order, total);
    let ids: Vec<_> = (0..total).map(|who| *lookup.cast.puppets[who].id().as_slice()).collect();
    let mut asked = Vec::new();
    loop {
        let more = questions(&mut lookup.cast).await;
        if more.is_empty() {
            break;
        }
        for question in more {
            ch.step();
            asked.push(ids[question.who]);
            let answer = Msg::Answer { id: question.id, data: not_found(&[]) };
            lookup.cast.puppets[question.who].say(&lookup.node.sim, vec![answer]).await;
        }
    }
    let distinct: BTreeSet<_> = asked.iter().collect();
    ensure!(distinct.len() == asked.len(), "asked twice", "a peer is asked again");
    let classes = |ids: &[[u8; 32]]| ids.iter().map(|id| affinity(&lookup.key, id)).collect::<Vec<_>>();
    ensure!(
        is_closest(&lookup.key, &asked, &ids, mode.limit()),
        "not the closest",
        "the asked peers have {:?} equal bits, the known ones {:?} in order {order:?}, the limit is {:?}",
        classes(&asked),
        classes(&ids),
        mode.limit()
    );
    ensure!(lookup.task.is_finished(), "endless lookup", "everybody has answered");
    ch.observe(asked.len());
    ch.visit(hash_of(&(classes(&ids), order, mode.batch_len)));
    Ok(())
}

/// More peers than may be asked at once
async fn parallel(ch: &mut Chooser<'_>, known: usize) -> Step {
    let mode = Mode { batch_len: 5, full: true, use_new: true };
    let order: Vec<_> = (0..known).collect();
    let mut lookup = start(mode, "address", &order, known);
    let kinds: Vec<_> = (0..known)
        .map(|_| ch.one_of(&[Kind::NotFound, Kind::Value, Kind::Silence]))
        .collect();
    let mut pending: Vec<Question> = Vec::new();
    let mut asked = BTreeSet::new();
    let mut values = 0;
    let mut waits = 0;
    loop {
        for question in questions(&mut lookup.cast).await {
            ensure!(asked.insert(question.who), "asked twice", "{} is asked again", question.who);
            pending.push(question);
        }
        ensure!(pending.len() <= PARALLEL, "parallel", "{} queries at once", pending.len());
        if pending.is_empty() {
            break;
        }
        ch.step();
        let vocal: Vec<_> = (0..pending.len())
            .filter(|i| kinds[pending[*i].who] != Kind::Silence)
            .collect();
        if vocal.is_empty() {
            ensure!(waits < known, "slow", "{waits} timeouts for {known} peers");
            waits += 1;
            world::advance(Duration::from_millis(TIMEOUT + 100)).await;
            pending.clear();
            continue;
        }
        let question = pending.remove(vocal[ch.deviate(vocal.len())]);
        let kind = kinds[question.who];
        values += (kind == Kind::Value) as usize;
        let data = answer(&lookup.cast, kind, known, &lookup.value).unwrap();
        let answer = Msg::Answer { id: question.id, data };
        lookup.cast.puppets[question.who].say(&lookup.node.sim, vec![answer]).await;
        ch.visit(hash_of(&(&kinds, &asked, values, pending.len())));
    }
    world::settle().await;
    ensure!(asked.len() == known, "not asked", "{} of {known} peers are asked", asked.len());
    ensure!(lookup.task.is_finished(), "endless lookup", "the peers are {kinds:?}");
    let res = lookup.task.await.unwrap();
    ch.observe(res.len());
    ensure!(res.len() == values, "hidden value", "{} values of {values} are found", res.len());
    Ok(())
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Keeper {
    /// Stores and finds the value
    Honest,
    /// Finds another value of the same owner
    Stale,
    /// Says that it has stored the value but does not find it
    Liar,
    /// Stores the value but does not confirm it
    Shy,
    /// Knows somebody who has it
    Directs,
    Garbage,
    Silence,
}

const KEEPERS: [Keeper; 7] = [
    Keeper::Honest,
    Keeper::Stale,
    Keeper::Liar,
    Keeper::Shy,
    Keeper::Directs,
    Keeper::Garbage,
    Keeper::Silence,
];

async fn stores(ch: &mut Chooser<'_>, known: usize) -> Step {
    let options = dht::NodeOptions {
        query_timeout_ms: TIMEOUT,
        // It limits the check only
        default_value_batch_len: if ch.flag() { 1 } else { 5 },
        ..Default::default()
    };
    let node = DhtSim::new(0, NodeOptions::default(), options);
    // The last one is not known
    let mut cast = Cast::new(known + 1);
    for who in 0..known {
        learn(&node, &cast, who);
    }
    let kinds: Vec<_> = (0..known).map(|_| ch.one_of(&KEEPERS)).collect();
    let reverse = ch.flag();
    let method = ch.choose(5);
    let dht = node.dht.clone();
    let key = node.sim.node.key_by_tag(0).unwrap().clone();
    let overlay_id = overlay(1);
    let short = overlay_id.compute_short_id();
    let member = overlay_node(OWNER, &short, 5);
    let stored_member = member.clone();
    let task = tokio::spawn(async move {
        match method {
            0 => dht.store_address(&key, world::addr(30)).await.map(Some),
            1 => dht
                .store_overlay_node(&overlay_id, stored_member.as_equivalent_ref())
                .await
                .map(Some),
            2 => {
                let value = value("address", 30);
                dht.store_value(value.as_equivalent_ref()).unwrap().await;
                Ok(None)
            }
            3 | 4 => {
                let value = value("address", 30);
                let store = dht
                    .store_value(value.as_equivalent_ref())
                    .unwrap()
                    .then_check(|_, BoxedWrapper(found): List| {
                        Ok(tl_proto::serialize(found) == tl_proto::serialize(list(30)))
                    });
                match method {
                    3 => store.await.map(Some),
                    _ => store.check_all().await.map(Some),
                }
            }
            _ => unreachable!(),
        }
    });
    let own = node.sim.key();
    let stale = |now: u32| match method {
        0 => {
            let data = tl_proto::serialize_as_boxed(list(31));
            signed_value(own, b"address", 0, now + 100, &data)
        }
        1 => overlay_value(&overlay(1), &[overlay_node(61, &short, 5)], now + 100),
        _ => value("address", 31),
    };
    let now = world::now();
    let mut offered: Vec<Option<ValueOwned>> = vec![None; known + 1];
    let mut asked = BTreeSet::new();
    let mut right = false;
    let mut waits = 0;
    while !task.is_finished() {
        let mut more = questions(&mut cast).await;
        if more.is_empty() {
            if task.is_finished() {
                break;
            }
            waits += 1;
            ensure!(waits < 2 * (known + 2), "endless store", "{waits} timeouts, the peers are {kinds:?}");
            world::advance(Duration::from_millis(TIMEOUT + 100)).await;
            continue;
        }
        if reverse {
            more.reverse();
        }
        for question in more {
            ch.step();
            let who = question.who;
            let kind = kinds.get(who).copied();
            let data = if let Some(value) = stored_value(&question.data) {
                ensure!(who < known && offered[who].is_none(), "offered twice", "{who} is offered the value again");
                ensure!(asked.is_empty(), "early check", "checked before everybody is offered the value");
                offered[who] = Some(value);
                match kind {
                    Some(Keeper::Shy | Keeper::Silence) => None,
                    Some(Keeper::Garbage) => Some(vec![0x55; 40]),
                    _ => Some(tl_proto::serialize(proto::dht::Stored)),
                }
            } else {
                ensure!(asked.insert(who), "asked twice", "{who} is asked again");
                ensure!(method != 2, "needless check", "nobody wants to find the value");
                let value = offered.iter().flatten().next().unwrap();
                ensure!(
                    lookup_key(&question.data) == Some(storage_key(&value.key.key)),
                    "wrong question",
                    "another key is searched"
                );
                match kind {
                    Some(Keeper::Honest | Keeper::Shy) | None => {
                        right = true;
                        Some(found(value))
                    }
                    Some(Keeper::Stale) => Some(found(&stale(now))),
                    Some(Keeper::Liar) => Some(not_found(&[])),
                    Some(Keeper::Directs) => Some(not_found(&[puppet_node(&cast, known)])),
                    Some(Keeper::Garbage) => Some(vec![0x55; 40]),
                    Some(Keeper::Silence) => None,
                }
            };
            if let Some(data) = data {
                cast.puppets[who]
                    .say(&node.sim, vec![Msg::Answer { id: question.id, data }])
                    .await;
            }
        }
        ch.visit(hash_of(&(method, &kinds, asked.len(), waits, right)));
    }
    let offered_to = offered.iter().filter(|value| value.is_some()).count();
    ensure!(offered_to == known, "not offered", "{offered_to} of {known} peers are offered the value");
    let first = offered[0].clone().unwrap();
    ensure!(
        offered.iter().flatten().all(|value| same_value(value, &first)),
        "different values",
        "peers are offered different values"
    );
    let is_right = match method {
        0 => {
            let mut list = list(30);
            let sent: Result<List, _> = tl_proto::deserialize(&first.value);
            // Chosen by the node
            let sent = sent.unwrap().0;
            list.version = sent.version;
            list.reinit_date = sent.reinit_date;
            first.key.id == public_key(own)
                && first.ttl == now + dht::NodeOptions::default().value_ttl_sec
                && tl_proto::serialize(sent) == tl_proto::serialize(list)
                && is_signed(&first.key.id, &key_bytes(&first), &first.key.signature)
                && is_signed(&first.key.id, &value_bytes(&first), &first.signature)
        }
        1 => {
            let ttl = now + dht::NodeOptions::default().value_ttl_sec;
            same_value(&first, &overlay_value(&overlay(1), &[member], ttl))
        }
        _ => same_value(&first, &value("address", 30)),
    };
    ensure!(is_right, "wrong value", "peers are offered {first:?}");
    let res = task.await.unwrap();
    ch.observe(format!("{res:?}"));
    let expected = (method != 2).then_some(right);
    ensure!(
        matches!(&res, Ok(res) if *res == expected),
        "wrong result",
        "{res:?} instead of {expected:?}, the peers are {kinds:?}"
    );
    // The value is kept locally too
    let local = cast.find_value(known, &node.sim, &storage_key(&first.key.key), 5).await;
    ensure!(
        matches!(&local, Some(Ok(local)) if same_value(local, &first)),
        "not stored locally",
        "{local:?}"
    );
    Ok(())
}

/// Search for the members of an overlay
async fn members(ch: &mut Chooser<'_>, known: usize, rounds: usize) -> Step {
    let options = dht::NodeOptions {
        query_timeout_ms: TIMEOUT,
        ..Default::default()
    };
    let node = DhtSim::new(0, NodeOptions::default(), options);
    let mut cast = Cast::new(known);
    for who in 0..known {
        learn(&node, &cast, who);
    }
    let id = overlay(1);
    let short = id.compute_short_id();
    let keys = [60u8, 61];
    let now = world::now();
    let nodes_key = storage_key(&overlay_value(&id, &[], 0).key.key);
    let address_value = |key: u8| {
        let data = tl_proto::serialize_as_boxed(list(key as usize));
        signed_value(key, b"address", 0, now + 600, &data)
    };
    let address_keys = keys.map(|key| storage_key(&address_value(key).key.key));
    // Members whose addresses each peer knows
    let addresses: Vec<_> = (0..known).map(|_| ch.choose(4)).collect();
    let dht = node.dht.clone();
    let task = tokio::spawn(async move { dht.find_overlay_nodes(&short).await });
    let mut received = BTreeSet::new();
    let mut searches = vec![0usize; known];
    let mut waits = 0;
    loop {
        let more = questions(&mut cast).await;
        if more.is_empty() {
            if task.is_finished() {
                break;
            }
            waits += 1;
            ensure!(waits < 20, "endless search", "the addresses are known as {addresses:?}");
            world::advance(Duration::from_millis(TIMEOUT + 100)).await;
            continue;
        }
        for question in more {
            ch.step();
            let who = question.who;
            let key = lookup_key(&question.data).unwrap();
            let data = if key == nodes_key {
                searches[who] += 1;
                ensure!(searches[who] < 10, "endless search", "{who} is asked again and again");
                // 0 to 3 are members, 4 is silence. Peers do not change their mind forever
                let bits = if searches[who] <= rounds { ch.choose(5) } else { 3 };
                ch.note(|| format!("{who} knows the members {bits:b}"));
                match bits {
                    4 => None,
                    0 => Some(not_found(&[])),
                    bits => {
                        let nodes: Vec<_> = (0..2)
                            .filter(|i| bits & (1 << i) != 0)
                            .map(|i| {
                                received.insert(i);
                                overlay_node(keys[i], &short, 5)
                            })
                            .collect();
                        Some(found(&overlay_value(&id, &nodes, now + 600)))
                    }
                }
            } else {
                let i = address_keys.iter().position(|other| *other == key).unwrap();
                ensure!(received.contains(&i), "wrong question", "address of an unknown member");
                match addresses[who] & (1 << i) != 0 {
                    true => Some(found(&address_value(keys[i]))),
                    false => Some(not_found(&[])),
                }
            };
            if let Some(data) = data {
                cast.puppets[who]
                    .say(&node.sim, vec![Msg::Answer { id: question.id, data }])
                    .await;
            }
        }
        ch.visit(hash_of(&(&addresses, &received, &searches)));
    }
    let mut res: Vec<_> = task
        .await
        .unwrap()
        .unwrap()
        .into_iter()
        .map(|(address, node)| {
            let i = keys.iter().position(|key| node.id == public_key(*key)).unwrap();
            (i, address)
        })
        .collect();
    res.sort_unstable();
    ch.observe(&res);
    let known_addresses = addresses.iter().fold(0, |all, bits| all | bits);
    let expected: Vec<_> = received
        .iter()
        .filter(|i| known_addresses & (1 << **i) != 0)
        .map(|i| (*i, world::addr(keys[*i] as usize)))
        .collect();
    ensure!(
        res == expected,
        "wrong members",
        "{res:?} instead of {expected:?}, the addresses are known as {addresses:?}"
    );
    Ok(())
}

fn main() {
    check_main("C17", |ctx| {
        let _ = full_id(OWNER);
        let (known, new) = ctx.tiered((2, 2), (3, 2));
        ctx.explore(
            Suite {
                name: "answers".to_owned(),
                about: format!("lookups in 6 modes, {known} known peers with each of 7 behaviours, {new} new ones with each of 4, in every order of answers"),
                bound: 0,
            },
            |ch| world::run(1, answers(ch, known, new)),
        );
        let known = ctx.tiered(5, 6);
        let names = ctx.tiered(8, 12);
        let orders = permutations(known);
        ctx.explore(
            Suite {
                name: "closest".to_owned(),
                about: format!("4 batch lengths, {names} keys, {known} known peers learned in every order"),
                bound: 0,
            },
            |ch| world::run(1, closest(ch, &orders, names)),
        );
        let known = ctx.tiered(6, 7);
        let bound = ctx.tiered(1, 2);
        ctx.explore(
            Suite {
                name: "parallel".to_owned(),
                about: format!("lookups with {known} peers with each of 3 behaviours, up to {bound} answers out of order"),
                bound,
            },
            |ch| world::run(1, parallel(ch, known)),
        );
        let known = ctx.tiered(3, 4);
        ctx.explore(
            Suite {
                name: "stores".to_owned(),
                about: format!("5 ways to store a value, {known} peers with each of 7 behaviours"),
                bound: 0,
            },
            |ch| world::run(1, stores(ch, known)),
        );
        let known = ctx.tiered(2, 3);
        let rounds = ctx.tiered(2, 2);
        ctx.explore(
            Suite {
                name: "members".to_owned(),
                about: format!("search for the members of an overlay, {known} peers which know some of 2 members and addresses, {rounds} times different answers"),
                bound: 0,
            },
            |ch| world::run(1, members(ch, known, rounds)),
        );
    })
}
