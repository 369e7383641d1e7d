//! C27: overlay traffic stays within its overlay

use std::borrow::Cow;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

use everscale_network::adnl::{Key, NodeIdShort, NodeOptions as AdnlOptions};
use everscale_network::overlay::{self, IdShort, Overlay, OverlayOptions};
use everscale_network::{proto, rldp};
use everscale_network::{QueryConsumingResult, QuerySubscriber, SubscriberContext};
use harness::dhtkit::{overlay, overlay_nodes_bytes, Cast};
use harness::nodes::*;
use harness::overlaykit::*;
use harness::puppet::Msg;
use harness::rldpkit::{answer_payload, parts, query_payload, Assembler, RldpMsg};
use harness::sched::{self, run_threads, Body};
use harness::util::{filler, hash_of};
use harness::world::{self, START};
use harness::{check_main, ensure, Chooser, Step, Suite};

/// Overlays which can be added and one which never is
const OVERLAYS: [u8; 3] = [1, 2, 3];
const ADDABLE: usize = 2;

fn id(n: u8) -> IdShort {
    overlay(n).compute_short_id()
}

/// What a subscriber was asked
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
struct Call {
    subscriber: usize,
    peer: NodeIdShort,
    constructor: u32,
    query: Vec<u8>,
}

type Calls = Arc<Mutex<Vec<Call>>>;

/// Subscriber of an overlay. The first byte of the constructor tells it what to do
struct Service {
    number: usize,
    calls: Calls,
}

const TAG_SILENT: u32 = 0x5e55_0001;
const TAG_REJECTED: u32 = 0x5e55_0002;
const TAG_FAILING: u32 = 0x5e55_0003;
const TAG_EMPTY: u32 = 0x5e55_0004;
const TAG_USUAL: u32 = 0x5e55_0005;

impl Service {
    fn answer(number: usize, query: &[u8]) -> Option<Vec<u8>> {
        match u32::from_le_bytes(query[..4].try_into().unwrap()) {
            TAG_SILENT | TAG_REJECTED | TAG_FAILING => None,
            TAG_EMPTY => Some(Vec::new()),
            _ => Some([&[number as u8, 0xa5, 0x5a, 0xff][..], query].concat()),
        }
    }
}

#[async_trait::async_trait]
impl QuerySubscriber for Service {
    async fn try_consume_query<'a>(
        &self,
        ctx: SubscriberContext<'a>,
        constructor: u32,
        query: Cow<'a, [u8]>,
    ) -> anyhow::Result<QueryConsumingResult<'a>> {
        self.calls.lock().unwrap().push(Call {
            subscriber: self.number,
            peer: *ctx.peer_id,
            constructor,
            query: query.to_vec(),
        });
        match constructor {
            TAG_REJECTED => Ok(QueryConsumingResult::Rejected(query)),
            TAG_FAILING => anyhow::bail!("failed"),
            _ => Ok(QueryConsumingResult::Consumed(Self::answer(self.number, &query))),
        }
    }
}

/// What the node was told
#[derive(Default)]
struct Model {
    /// Key of the node in the overlay
    overlays: BTreeMap<u8, u8>,
    subscribers: BTreeMap<u8, usize>,
}

/// What a query leads to
#[derive(Debug, PartialEq, Clone)]
enum Expected {
    /// It is not for overlays
    Foreign,
    Nothing,
    Members(u8),
    Service { number: usize, query: Vec<u8> },
}

impl Model {
    fn query(&self, query: &[u8]) -> Expected {
        let tag = query_prefix(&id(1))[..4].to_vec();
        let Some(rest) = query.strip_prefix(tag.as_slice()) else {
            return Expected::Foreign;
        };
        if rest.len() < 36 {
            return Expected::Nothing;
        }
        let (to, query) = rest.split_at(32);
        let Some(n) = OVERLAYS.into_iter().find(|n| id(*n).as_slice() == to) else {
            return Expected::Nothing;
        };
        if query[..4] == random_peers_query()[..4] {
            return match self.overlays.contains_key(&n) && query == random_peers_query() {
                true => Expected::Members(n),
                false => Expected::Nothing,
            };
        }
        match self.subscribers.get(&n) {
            Some(number) => Expected::Service {
                number: *number,
                query: query.to_vec(),
            },
            None => Expected::Nothing,
        }
    }
}

fn random_peers_query() -> Vec<u8> {
    let mut query = tl_id("overlay.getRandomPeers peers:overlay.nodes = overlay.Nodes")
        .to_le_bytes()
        .to_vec();
    query.extend(0u32.to_le_bytes());
    query
}

/// Node with overlays and remote peers
struct Env {
    sim: Sim,
    node: Arc<overlay::Node>,
    rldp: Arc<rldp::Node>,
    cast: Cast,
    model: Model,
    calls: Calls,
    added: BTreeMap<u8, Arc<Overlay>>,
    services: usize,
    queries: u8,
}

impl Env {
    fn new(index: usize) -> Self {
        let sim = Sim::build_stopped(index, &[index as u8 + 1, 91], AdnlOptions::default(), None);
        let node = overlay::Node::new(sim.node.clone(), 0).unwrap();
        let rldp = rldp::Node::new(sim.node.clone(), vec![node.query_subscriber()], Default::default()).unwrap();
        sim.start();
        let cast = Cast::new(2);
        for puppet in &cast.puppets {
            puppet.introduce(&sim);
        }
        Self {
            sim,
            node,
            rldp,
            cast,
            model: Default::default(),
            calls: Default::default(),
            added: Default::default(),
            services: 0,
            queries: 0,
        }
    }

    fn add_overlay(&mut self, n: u8, public: bool) -> Step {
        let options = OverlayOptions::default();
        let (overlay, is_new) = match public {
            true => self.node.add_public_overlay(&id(n), options),
            false => {
                let key = self.sim.node.key_by_tag(1).unwrap().clone();
                self.node.add_private_overlay(&id(n), key, &[short_id(10)], options)
            }
        };
        ensure!(
            is_new != self.added.contains_key(&n),
            "wrong result of adding",
            "overlay {n} is added: {is_new}"
        );
        ensure!(*overlay.id() == id(n), "wrong overlay", "{} instead of {n}", overlay.id());
        match self.added.get(&n) {
            Some(known) => ensure!(Arc::ptr_eq(known, &overlay), "overlay replaced", "overlay {n}"),
            None => {
                self.added.insert(n, overlay);
                self.model.overlays.insert(n, if public { self.sim.key() } else { 91 });
            }
        }
        Ok(())
    }

    fn add_subscriber(&mut self, n: u8) -> Step {
        let service = Service {
            number: self.services,
            calls: self.calls.clone(),
        };
        let is_new = self.node.add_overlay_subscriber(id(n), Arc::new(service));
        ensure!(
            is_new != self.model.subscribers.contains_key(&n),
            "wrong result of adding",
            "subscriber of overlay {n} is added: {is_new}"
        );
        self.model.subscribers.entry(n).or_insert(self.services);
        self.services += 1;
        Ok(())
    }

    /// Answer to the query
    async fn ask(&mut self, query: &[u8], over_rldp: bool) -> Option<Vec<u8>> {
        if !over_rldp {
            return self.cast.ask(0, &self.sim, query).await;
        }
        self.queries += 1;
        let query_id = [self.queries; 32];
        let transfer = [self.queries ^ 0x80; 32];
        let payload = query_payload(query_id, 10_000, query);
        for part in parts(transfer, &payload, 0..payload.len().div_ceil(768) as u32) {
            let message = Msg::Custom(RldpMsg::Part(part).to_bytes());
            self.cast.puppets[0].say(&self.sim, vec![message]).await;
        }
        let mut assembler = Assembler::default();
        for heard in self.cast.listen().await {
            let Msg::Custom(data) = heard.message else { continue };
            let Some(RldpMsg::Part(part)) = RldpMsg::parse(&data) else { continue };
            let answer_transfer = part.transfer;
            if let Some(payload) = assembler.add(&part) {
                let done = RldpMsg::Complete { transfer: answer_transfer, part: 0 };
                self.cast.puppets[0].say(&self.sim, vec![Msg::Custom(done.to_bytes())]).await;
                let empty = answer_payload(query_id, b"");
                assert_eq!(payload[..36], empty[..36]);
                let message: proto::rldp::Message<'_> = tl_proto::deserialize(&payload).unwrap();
                match message {
                    proto::rldp::Message::Answer { data, .. } => return Some(data.to_vec()),
                    _ => unreachable!(),
                }
            }
        }
        None
    }

    async fn check_query(&mut self, what: &str, query: &[u8], over_rldp: bool) -> Step<Expected> {
        let expected = self.model.query(query);
        let answer = self.ask(query, over_rldp).await;
        let calls = std::mem::take(&mut *self.calls.lock().unwrap());
        let events = self.sim.events();
        match &expected {
            Expected::Service { number, query } => {
                let call = Call {
                    subscriber: *number,
                    peer: short_id(10),
                    constructor: u32::from_le_bytes(query[..4].try_into().unwrap()),
                    query: query.clone(),
                };
                ensure!(
                    calls == [call],
                    match calls.as_slice() {
                        [] => "query not handled",
                        [call] if call.subscriber != *number => "wrong subscriber",
                        [_] => "wrong query",
                        _ => "query handled several times",
                    },
                    "{what}: {calls:?} instead of {number}"
                );
                ensure!(
                    answer == Service::answer(*number, query),
                    "wrong answer",
                    "{what}: {answer:?}"
                );
            }
            other => {
                ensure!(calls.is_empty(), "foreign query handled", "{what}: {calls:?}");
                match other {
                    Expected::Members(n) => {
                        let key = self.model.overlays[n];
                        let Some(answer) = answer else {
                            ensure!(false, "query not handled", "{what} is not answered");
                            unreachable!();
                        };
                        let nodes: proto::overlay::Nodes<'_> = match tl_proto::deserialize_as_boxed(&answer) {
                            Ok(nodes) => nodes,
                            Err(e) => {
                                ensure!(false, "wrong answer", "{what}: {e}");
                                unreachable!();
                            }
                        };
                        let own: Vec<_> = nodes
                            .nodes
                            .iter()
                            .map(|n| (tl_proto::hash(n.id), *n.overlay))
                            .collect();
                        ensure!(
                            own == [(*short_id(key).as_slice(), *id(*n).as_slice())],
                            "wrong members",
                            "{what}: {own:?}"
                        );
                    }
                    // Somebody else may answer it
                    Expected::Foreign => {
                        let right = over_rldp || answer.is_some() == (events.len() == 1);
                        ensure!(
                            right && events.iter().all(|e| e.data == query),
                            "foreign query changed",
                            "{what}: {events:?}"
                        );
                    }
                    _ => ensure!(answer.is_none(), "foreign query answered", "{what}: {answer:?}"),
                }
            }
        }
        Ok(expected)
    }

    /// Sends the message and checks who got it
    async fn check_message(&mut self, what: &str, message: &[u8]) -> Step<bool> {
        let to = self.added.keys().copied().find(|n| {
            matches!(Broadcast::parse(&id(*n), message), Some(Broadcast::Short(b)) if b.is_signed(&b.data))
        });
        self.cast.puppets[1]
            .say(&self.sim, vec![Msg::Custom(message.to_vec())])
            .await;
        self.cast.listen().await;
        for (n, overlay) in &self.added {
            let mut count = 0;
            while overlay.metrics().received_broadcasts_data_len > 0 {
                let info = overlay.wait_for_broadcast().await;
                count += 1;
                let right = match Broadcast::parse(&id(*n), message) {
                    Some(Broadcast::Short(b)) => b.data == info.data,
                    _ => false,
                };
                ensure!(
                    right && info.from == short_id(20),
                    "wrong message",
                    "{what}: {} bytes from {}",
                    info.data.len(),
                    info.from
                );
            }
            ensure!(
                count == (to == Some(*n)) as usize,
                if count == 0 { "message not handled" } else { "foreign message handled" },
                "{what}: overlay {n} gets {count} messages"
            );
        }
        self.sim.events();
        Ok(to.is_some())
    }

    async fn check_all(&mut self, step: usize, over_rldp: bool) -> Step {
        for n in OVERLAYS {
            for (k, tag) in [TAG_USUAL, TAG_REJECTED].into_iter().enumerate() {
                let query = [query_prefix(&id(n)), payload(tag, step as u64, 8 + k)].concat();
                self.check_query(&format!("query to {n}"), &query, over_rldp).await?;
            }
            let query = [query_prefix(&id(n)), random_peers_query()].concat();
            self.check_query(&format!("peers of {n}"), &query, over_rldp).await?;
            let message = Short::new(20, &[n, step as u8], START).to_bytes(&id(n));
            self.check_message(&format!("message to {n}"), &message).await?;
            let known = self.node.get_overlay(&id(n));
            ensure!(
                known.is_ok() == self.added.contains_key(&n),
                "wrong set of overlays",
                "overlay {n}"
            );
        }
        let query = payload(QUERY, step as u64, 12);
        self.check_query("usual query", &query, over_rldp).await?;
        let ids: Vec<IdShort> = self.node.metrics().map(|(id, _)| id).collect();
        ensure!(
            ids.len() == self.added.len() && self.added.keys().all(|n| ids.contains(&id(*n))),
            "wrong set of overlays",
            "{ids:?}"
        );
        Ok(())
    }
}

/// Overlays and subscribers are added in every order
async fn histories(ch: &mut Chooser<'_>, depth: usize) -> Step {
    let mut env = Env::new(0);
    let over_rldp = ch.flag();
    env.check_all(0, over_rldp).await?;
    for step in 1..=depth {
        ch.step();
        let n = OVERLAYS[ch.choose(ADDABLE)];
        match ch.choose(3) {
            0 => {
                ch.note(|| format!("public overlay {n}"));
                env.add_overlay(n, true)?
            }
            1 => {
                ch.note(|| format!("private overlay {n}"));
                env.add_overlay(n, false)?
            }
            _ => {
                ch.note(|| format!("subscriber of {n}"));
                env.add_subscriber(n)?
            }
        }
        env.check_all(step, over_rldp).await?;
        ch.visit(hash_of(&(&env.model.overlays, &env.model.subscribers)));
    }
    ch.observe((env.added.len(), &env.model.subscribers));
    Ok(())
}

/// Overlays and subscribers which are used by the inputs
fn full_env(ch: &mut Chooser<'_>) -> Step<Env> {
    let mut env = Env::new(0);
    match ch.choose(3) {
        0 => {
            env.add_overlay(1, true)?;
            env.add_overlay(2, false)?;
            env.add_subscriber(1)?;
            env.add_subscriber(2)?;
        }
        1 => {
            env.add_subscriber(2)?;
            env.add_overlay(1, true)?;
        }
        _ => {
            env.add_subscriber(1)?;
            env.add_overlay(2, true)?;
        }
    }
    Ok(env)
}

fn flips(bytes: &[u8], len: usize) -> Vec<(String, Vec<u8>)> {
    let mut out = Vec::new();
    for i in 0..len * 8 {
        let mut changed = bytes.to_vec();
        changed[i / 8] ^= 1 << (i % 8);
        out.push((format!("bit {i}"), changed));
    }
    for n in 0..bytes.len() {
        out.push((format!("first {n} bytes"), bytes[..n].to_vec()));
    }
    out
}

fn queries(long: bool) -> Vec<(String, Vec<u8>)> {
    let prefix = query_prefix(&id(1));
    let usual = [prefix.clone(), payload(TAG_USUAL, 1, 13)].concat();
    let mut menu = vec![("usual".to_owned(), usual.clone())];
    menu.extend(flips(&usual, 40));
    for tag in [TAG_SILENT, TAG_REJECTED, TAG_FAILING, TAG_EMPTY] {
        menu.push((format!("{tag:x}"), [prefix.clone(), payload(tag, 1, 9)].concat()));
    }
    for len in (4..if long { 70 } else { 24 }).chain([253, 254, 255, 256, 600, 767, 768, 769, 2000]) {
        menu.push((format!("{len} bytes"), [prefix.clone(), payload(TAG_USUAL, 3, len)].concat()));
    }
    // Other queries inside
    let schemes = [
        "overlay.getRandomPeers peers:overlay.nodes = overlay.Nodes",
        "dht.ping random_id:long = dht.Pong",
        "dht.getSignedAddressList = dht.Node",
        "dht.findValue key:int256 k:int = dht.ValueResult",
        "dht.store value:dht.value = dht.Stored",
        "adnl.ping value:long = adnl.Pong",
        "overlay.message overlay:int256 = overlay.Message",
        "overlay.query overlay:int256 = True",
    ];
    for scheme in schemes {
        for len in [0, 4, 8, 40] {
            let inner = [tl_id(scheme).to_le_bytes().to_vec(), filler(1, len)].concat();
            menu.push((format!("{scheme} {len}"), [prefix.clone(), inner].concat()));
        }
    }
    for inner in OVERLAYS {
        let nested = [query_prefix(&id(inner)), payload(TAG_USUAL, 5, 8)].concat();
        menu.push((format!("query to {inner}"), [prefix.clone(), nested.clone()].concat()));
        menu.push((format!("only query to {inner}"), nested.clone()));
        let nested = [query_prefix(&id(inner)), random_peers_query()].concat();
        menu.push((format!("peers of {inner}"), [prefix.clone(), nested.clone()].concat()));
        menu.push((format!("only peers of {inner}"), nested));
        let message = [message_prefix(&id(inner)), payload(TAG_USUAL, 5, 8)].concat();
        menu.push((format!("message to {inner}"), message.clone()));
        menu.push((format!("inner message to {inner}"), [prefix.clone(), message].concat()));
        menu.push((format!("only prefix of {inner}"), query_prefix(&id(inner))));
    }
    let members = overlay_nodes_bytes(&[]);
    menu.push(("nodes".to_owned(), [prefix, members].concat()));
    menu
}

async fn inputs(ch: &mut Chooser<'_>, menu: &[(String, Vec<u8>)]) -> Step {
    let mut env = full_env(ch)?;
    let over_rldp = ch.flag();
    let (name, query) = &menu[ch.choose(menu.len())];
    // Such packets are sent in parts
    if query.len() > 1000 && !over_rldp {
        return ch.skip();
    }
    ch.step();
    ch.note(|| name.clone());
    let res = env.check_query(name, query, over_rldp).await?;
    ch.visit(hash_of(&(name, over_rldp)));
    ch.observe(matches!(res, Expected::Service { .. }));
    env.check_all(1, over_rldp).await
}

async fn messages(ch: &mut Chooser<'_>, menu: &[(String, Vec<u8>)]) -> Step {
    let mut env = full_env(ch)?;
    let (name, message) = &menu[ch.choose(menu.len())];
    ch.step();
    ch.note(|| name.clone());
    let res = env.check_message(name, message).await?;
    ch.visit(hash_of(name));
    ch.observe(res);
    env.check_all(1, false).await
}

fn message_menu() -> Vec<(String, Vec<u8>)> {
    let usual = Short::new(20, b"content", START).to_bytes(&id(1));
    let mut menu = vec![("usual".to_owned(), usual.clone())];
    menu.extend(flips(&usual, 44));
    for n in OVERLAYS {
        menu.push((format!("to {n}"), Short::new(20, b"content", START).to_bytes(&id(n))));
        menu.push((format!("prefix of {n}"), message_prefix(&id(n))));
        menu.push((format!("inner message to {n}"), [message_prefix(&id(1)), Short::new(20, b"content", START).to_bytes(&id(n))].concat()));
        menu.push((format!("query to {n}"), [query_prefix(&id(n)), usual[36..].to_vec()].concat()));
    }
    menu
}

/// Queries and messages which a member sends reach the same overlay of another one
async fn outgoing(ch: &mut Chooser<'_>, lens: &[usize]) -> Step {
    let mut a = Env::new(0);
    let mut b = Env::new(1);
    let from = OVERLAYS[ch.choose(2)];
    for env in [&mut a, &mut b] {
        env.add_overlay(1, true)?;
        env.add_overlay(2, true)?;
        env.add_subscriber(1)?;
        env.add_subscriber(2)?;
    }
    a.sim.add(&b.sim);
    b.sim.add(&a.sim);
    if ch.flag() {
        establish(&a.sim, &b.sim).await;
    }
    let len = ch.one_of(lens);
    let tag = ch.one_of(&[TAG_USUAL, TAG_REJECTED, TAG_EMPTY, TAG_SILENT]);
    let query = payload(tag, len as u64, len);
    ch.step();
    ch.visit(hash_of(&(from, len, tag)));
    let kind = ch.choose(4);
    let (x, to) = (a.added[&from].clone(), b.sim.id());
    if kind == 3 {
        // It has to look like a message
        let broadcast = Short::new(20, &query, START).to_bytes(&id(from));
        let inner = &broadcast[36..];
        let key = ch.flag();
        if key {
            x.send_message(&a.sim.node, &short_id(10), inner).unwrap();
            let heard = a.cast.listen().await.into_iter();
            let heard: Vec<Vec<u8>> = heard
                .filter_map(|h| match h.message {
                    Msg::Custom(data) => Some(data),
                    _ => None,
                })
                .collect();
            ensure!(heard == [broadcast], "wrong message sent", "{} messages", heard.len());
        } else {
            x.send_message(&a.sim.node, &to, inner).unwrap();
            world::flush().await;
            for (n, overlay) in &b.added {
                let count = overlay.metrics().received_broadcasts_data_len;
                ensure!(count == (*n == from) as usize, "foreign message handled", "{n} gets {count} messages");
                if count == 1 {
                    let data = overlay.wait_for_broadcast().await.data;
                    ensure!(data == query, "wrong message", "{} bytes instead of {len}", data.len());
                }
            }
        }
        return Ok(());
    }
    let adnl = a.sim.node.clone();
    let rldp = a.rldp.clone();
    let raw = RawQuery(query.clone());
    let task = tokio::spawn(async move {
        match kind {
            0 => x.adnl_query(&adnl, &to, raw, None).await,
            1 => x.rldp_query(&rldp, &to, raw, None).await.map(|(answer, _)| answer),
            _ => {
                let prefix = x.query_prefix().to_vec();
                let data = [prefix, raw.0].concat();
                adnl.query_raw(x.overlay_key().id(), &to, data.into(), None).await
            }
        }
    });
    world::flush().await;
    for _ in 0..600 {
        if task.is_finished() {
            break;
        }
        world::advance(std::time::Duration::from_millis(100)).await;
        world::flush().await;
    }
    ensure!(task.is_finished(), "query not finished", "{len} bytes");
    let answer = task.await.unwrap().ok().flatten();
    let calls = std::mem::take(&mut *b.calls.lock().unwrap());
    let number = b.model.subscribers[&from];
    ensure!(
        calls.len() == 1
            && calls[0].subscriber == number
            && calls[0].query == query
            && calls[0].peer == a.sim.id(),
        "wrong query",
        "{calls:?}"
    );
    let right = Service::answer(number, &query);
    // An answer which is not a boxed object is not what a query of this kind returns
    ensure!(
        answer == right || kind == 0 && right.as_ref().is_some_and(|r| r.len() < 4),
        "wrong answer",
        "{answer:?} to {len} bytes"
    );
    ensure!(a.calls.lock().unwrap().is_empty(), "foreign query handled", "own query");
    ch.observe(answer.is_some());
    Ok(())
}

struct RawQuery(Vec<u8>);

impl tl_proto::TlWrite for RawQuery {
    type Repr = tl_proto::Boxed;

    fn max_size_hint(&self) -> usize {
        self.0.len()
    }

    fn write_to<P: tl_proto::TlPacket>(&self, packet: &mut P) {
        packet.write_raw_slice(&self.0);
    }
}

/// The same overlay is added by several threads
fn threads(ch: &mut Chooser<'_>, kinds: &[u8]) -> Step {
    world::reset(1);
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .unwrap();
    let guard = rt.enter();
    let adnl = Sim::build_stopped(0, &[1], AdnlOptions::default(), None).node;
    let node = overlay::Node::new(adnl, 0).unwrap();
    let key = Arc::new(Key::from_bytes(secret(91)));
    let results: std::cell::RefCell<Vec<(Option<Arc<Overlay>>, bool)>> = Default::default();
    let mut bodies: Vec<Body<'_>> = Vec::new();
    for kind in kinds {
        let (node, key, results) = (&node, &key, &results);
        bodies.push(Box::new(move || {
            sched::point();
            let res = match kind {
                0 => {
                    let (overlay, is_new) = node.add_public_overlay(&id(1), Default::default());
                    (Some(overlay), is_new)
                }
                1 => {
                    let (overlay, is_new) = node.add_private_overlay(&id(1), key.clone(), &[], Default::default());
                    (Some(overlay), is_new)
                }
                2 => {
                    let service = Service { number: 0, calls: Default::default() };
                    (None, node.add_overlay_subscriber(id(1), Arc::new(service)))
                }
                _ => {
                    let other = node.add_public_overlay(&id(2), Default::default());
                    assert!(other.1);
                    return;
                }
            };
            results.borrow_mut().push(res);
        }));
    }
    let res = run_threads(ch, bodies, &Default::default());
    drop(guard);
    res?;
    let results = results.into_inner();
    for overlays in [true, false] {
        let of: Vec<_> = results.iter().filter(|(o, _)| o.is_some() == overlays).collect();
        let new = of.iter().filter(|(_, is_new)| *is_new).count();
        ensure!(new == of.len().min(1), "added twice", "{new} of {} are new", of.len());
        ensure!(
            of.windows(2).all(|w| match (&w[0].0, &w[1].0) {
                (Some(a), Some(b)) => Arc::ptr_eq(a, b),
                _ => true,
            }),
            "overlay replaced",
            "different overlays with the same id"
        );
    }
    if let Some((Some(overlay), _)) = results.iter().find(|(o, _)| o.is_some()) {
        let known = node.get_overlay(&id(1));
        ensure!(
            known.is_ok_and(|o| Arc::ptr_eq(&o, overlay)),
            "overlay replaced",
            "another overlay is used"
        );
    }
    let order: Vec<bool> = results.iter().map(|(_, is_new)| *is_new).collect();
    ch.observe(&order);
    ch.visit(hash_of(&order));
    drop(rt);
    Ok(())
}

fn main() {
    check_main("C27", |ctx| {
        let depth = ctx.tiered(3, 5);
        ctx.explore(
            Suite {
                name: "histories".to_owned(),
                about: format!("all sequences of {depth} additions of public and private overlays and subscribers, with traffic to each overlay after every step over ADNL and RLDP"),
                bound: 0,
            },
            |ch| world::run(1, histories(ch, depth)),
        );
        let menu = queries(ctx.is_thorough());
        ctx.explore(
            Suite {
                name: "queries".to_owned(),
                about: format!("{} queries: all changed bits of the prefix, all truncations, other queries inside, followed by traffic to each overlay", menu.len()),
                bound: 0,
            },
            |ch| world::run(1, inputs(ch, &menu)),
        );
        let menu = message_menu();
        ctx.explore(
            Suite {
                name: "messages".to_owned(),
                about: format!("{} messages: all changed bits of the prefix, all truncations, followed by traffic to each overlay", menu.len()),
                bound: 0,
            },
            |ch| world::run(1, messages(ch, &menu)),
        );
        let lens: Vec<usize> = match ctx.is_thorough() {
            true => (4..70).chain(240..260).chain([700, 768, 769, 1000, 1024, 5000]).collect(),
            false => vec![4, 5, 8, 253, 254, 700, 5000],
        };
        ctx.explore(
            Suite {
                name: "outgoing".to_owned(),
                about: format!("queries and messages of {} sizes between the overlays of two nodes", lens.len()),
                bound: 0,
            },
            |ch| world::run(1, outgoing(ch, &lens)),
        );
        let bound = ctx.tiered(3, 5);
        for kinds in [vec![0, 0], vec![0, 1], vec![2, 2], vec![0, 1, 3], vec![0, 2, 2, 1]] {
            ctx.explore(
                Suite {
                    name: format!("threads {kinds:?}"),
                    about: format!("overlays and subscribers are added concurrently, up to {bound} preemptions"),
                    bound,
                },
                |ch| threads(ch, &kinds),
            );
        }
    })
}
