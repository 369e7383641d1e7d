//! C32: layers which are combined with a builder all serve their users

use std::borrow::Cow;
use std::net::{Ipv6Addr, SocketAddr, SocketAddrV6};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use anyhow::Result;
use everscale_network::adnl::{self, Key, NewPeerContext, NodeIdShort, PeerFilter};
use everscale_network::overlay::{self, BroadcastTarget, IdShort, Overlay};
use everscale_network::{
    dht, proto, rldp, MessageSubscriber, NetworkBuilder, QueryConsumingResult, QuerySubscriber,
    SubscriberContext,
};
use harness::dhtkit::*;
use harness::nodes::*;
use harness::util::hash_of;
use harness::{check_main, ensure, world, Chooser, Step, Stop, Suite};

/// First bytes of a query over RLDP
const RLDP_QUERY: u32 = 0x1511_0010;
/// First bytes of a query in an overlay
const OVERLAY_QUERY: u32 = 0x1511_0011;

/// Application which only takes what starts with its tags
struct App {
    tags: Vec<u32>,
    seen: Mutex<Vec<(NodeIdShort, NodeIdShort, Vec<u8>)>>,
}

impl App {
    fn new(tags: &[u32]) -> Arc<Self> {
        Arc::new(Self {
            tags: tags.to_vec(),
            seen: Mutex::default(),
        })
    }

    fn take(&self) -> Vec<(NodeIdShort, NodeIdShort, Vec<u8>)> {
        std::mem::take(&mut self.seen.lock().unwrap())
    }

    fn push(&self, ctx: SubscriberContext<'_>, data: &[u8]) {
        self.seen.lock().unwrap().push((*ctx.local_id, *ctx.peer_id, data.to_vec()));
    }
}

#[async_trait::async_trait]
impl QuerySubscriber for App {
    async fn try_consume_query<'a>(
        &self,
        ctx: SubscriberContext<'a>,
        constructor: u32,
        query: Cow<'a, [u8]>,
    ) -> Result<QueryConsumingResult<'a>> {
        if !self.tags.contains(&constructor) {
            return Ok(QueryConsumingResult::Rejected(query));
        }
        self.push(ctx, &query);
        Ok(QueryConsumingResult::Consumed(Some(answer_to(&query))))
    }
}

#[async_trait::async_trait]
impl MessageSubscriber for App {
    async fn try_consume_custom<'a>(
        &self,
        ctx: SubscriberContext<'a>,
        constructor: u32,
        data: &'a [u8],
    ) -> Result<bool> {
        if !self.tags.contains(&constructor) {
            return Ok(false);
        }
        self.push(ctx, data);
        Ok(true)
    }
}

struct Gate(bool);

impl PeerFilter for Gate {
    fn check(&self, _: NewPeerContext, _: std::net::SocketAddrV4, _: &NodeIdShort) -> bool {
        self.0
    }
}

/// Layers in the order in which they are added
const CHAINS: &[&str] = &[
    "adnl",
    "adnl dht",
    "adnl rldp",
    "adnl dht rldp",
    "adnl rldp dht",
    "adnl rldp overlay",
    "adnl dht rldp overlay",
    "adnl rldp dht overlay",
    "adnl rldp overlay dht",
];

const ADDRESSES: &[&str] = &[
    "a string",
    "an address",
    "many addresses",
    "any port",
    "garbage",
    "no address",
    "IPv6",
];

struct Config {
    chain: usize,
    address: usize,
    /// Where the subscribers of the user are added, if they are
    queries: Option<usize>,
    messages: Option<usize>,
    /// Number of subscribers of the RLDP which don't know the query and whether the last one does
    rldp_others: usize,
    rldp_app: bool,
    dht_tag: usize,
    overlay_tag: usize,
    filter: Option<bool>,
}

impl Config {
    fn full() -> Self {
        Self {
            chain: 6,
            address: 0,
            queries: Some(0),
            messages: Some(0),
            rldp_others: 0,
            rldp_app: true,
            dht_tag: 1,
            overlay_tag: 2,
            filter: None,
        }
    }

    fn has(&self, layer: &str) -> bool {
        CHAINS[self.chain].split(' ').any(|l| l == layer)
    }

    fn is_valid(&self) -> bool {
        self.address < 4
            && (!self.has("dht") || self.dht_tag < 3)
            && (!self.has("overlay") || self.overlay_tag < 3)
    }
}

/// A node with the identities `key`, `key + 1`, `key + 2`
struct Stack {
    key: u8,
    index: usize,
    adnl: Arc<adnl::Node>,
    dht: Option<Arc<dht::Node>>,
    rldp: Option<Arc<rldp::Node>>,
    overlay: Option<Arc<overlay::Node>>,
    apps: Apps,
}

struct Apps {
    query: Arc<App>,
    message: Arc<App>,
    rldp: Arc<App>,
    others: Vec<Arc<App>>,
    overlay: Arc<App>,
}

fn adnl_options() -> adnl::NodeOptions {
    adnl::NodeOptions {
        query_default_timeout_ms: 2345,
        ..Default::default()
    }
}

fn dht_options() -> dht::NodeOptions {
    dht::NodeOptions {
        value_ttl_sec: 77,
        ..Default::default()
    }
}

fn rldp_options() -> rldp::NodeOptions {
    rldp::NodeOptions {
        max_peer_queries: 3,
        query_max_timeout_ms: 1000,
        query_wave_len: 4,
        query_wave_interval_ms: 50,
        ..Default::default()
    }
}

fn build(key: u8, index: usize, config: &Config) -> Result<Stack> {
    let keys = [key, key + 1, key + 2];
    let apps = Apps {
        query: App::new(&[QUERY]),
        message: App::new(&[MESSAGE]),
        rldp: App::new(&[RLDP_QUERY]),
        others: (0..config.rldp_others).map(|_| App::new(&[REJECTED])).collect(),
        overlay: App::new(&[OVERLAY_QUERY]),
    };
    let mut over_rldp: Vec<Arc<dyn QuerySubscriber>> = Vec::new();
    over_rldp.extend(apps.others.iter().map(|app| app.clone() as Arc<dyn QuerySubscriber>));
    if config.rldp_app {
        over_rldp.push(apps.rldp.clone());
    }
    let addr = SocketAddr::V4(world::addr(index));
    let next = SocketAddr::V4(world::addr(index + 5));
    let v6 = SocketAddr::V6(SocketAddrV6::new(Ipv6Addr::LOCALHOST, 1234, 0, 0));

    macro_rules! base {
        ($addr:expr) => {
            match config.filter {
                None => NetworkBuilder::with_adnl($addr, keystore(&keys), adnl_options()),
                Some(accept) => NetworkBuilder::with_adnl_ext(
                    $addr,
                    keystore(&keys),
                    adnl_options(),
                    Arc::new(Gate(accept)),
                ),
            }
        };
    }
    let base = match config.address {
        0 => base!(addr.to_string()),
        1 => base!(world::addr(index)),
        2 => base!(&[addr, next, v6][..]),
        3 => base!((*world::addr(index).ip(), 0u16)),
        4 => base!("nonsense"),
        5 => base!(&[][..] as &[SocketAddr]),
        _ => base!(v6),
    };
    macro_rules! user {
        ($builder:expr, $pos:expr) => {{
            let mut builder = $builder;
            if config.queries == Some($pos) {
                builder = builder.with_query_subscriber(apps.query.clone());
            }
            if config.messages == Some($pos) {
                builder = builder.with_message_subscriber(apps.message.clone());
            }
            builder
        }};
    }
    macro_rules! rldp {
        ($builder:expr) => {
            // Without subscribers both ways mean the same
            match over_rldp.is_empty() {
                true => $builder.with_rldp(rldp_options()),
                false => $builder.with_rldp_ext(rldp_options(), std::mem::take(&mut over_rldp)),
            }
        };
    }
    let base = user!(base, 0);
    let (dht_tag, overlay_tag) = (config.dht_tag, config.overlay_tag);
    let (adnl, dht, rldp, overlay) = match config.chain {
        0 => (base.build()?, None, None, None),
        1 => {
            let (adnl, dht) = user!(base.with_dht(dht_tag, dht_options()), 1).build()?;
            (adnl, Some(dht), None, None)
        }
        2 => {
            let (adnl, rldp) = user!(rldp!(base), 1).build()?;
            (adnl, None, Some(rldp), None)
        }
        3 => {
            let builder = user!(base.with_dht(dht_tag, dht_options()), 1);
            let (adnl, dht, rldp) = user!(rldp!(builder), 2).build()?;
            (adnl, Some(dht), Some(rldp), None)
        }
        4 => {
            let builder = user!(rldp!(base), 1);
            let (adnl, rldp, dht) = user!(builder.with_dht(dht_tag, dht_options()), 2).build()?;
            (adnl, Some(dht), Some(rldp), None)
        }
        5 => {
            let builder = user!(rldp!(base), 1);
            let (adnl, rldp, overlay) = user!(builder.with_overlay(overlay_tag), 2).build()?;
            (adnl, None, Some(rldp), Some(overlay))
        }
        6 => {
            let builder = user!(base.with_dht(dht_tag, dht_options()), 1);
            let builder = user!(rldp!(builder), 2);
            let (adnl, dht, rldp, overlay) = user!(builder.with_overlay(overlay_tag), 3).build()?;
            (adnl, Some(dht), Some(rldp), Some(overlay))
        }
        7 => {
            let builder = user!(rldp!(base), 1);
            let builder = user!(builder.with_dht(dht_tag, dht_options()), 2);
            let (adnl, rldp, dht, overlay) = user!(builder.with_overlay(overlay_tag), 3).build()?;
            (adnl, Some(dht), Some(rldp), Some(overlay))
        }
        _ => {
            let builder = user!(rldp!(base), 1);
            let builder = user!(builder.with_overlay(overlay_tag), 2);
            let (adnl, rldp, overlay, dht) = user!(builder.with_dht(dht_tag, dht_options()), 3).build()?;
            (adnl, Some(dht), Some(rldp), Some(overlay))
        }
    };
    Ok(Stack {
        key,
        index,
        adnl,
        dht,
        rldp,
        overlay,
        apps,
    })
}

impl Stack {
    fn id(&self, tag: usize) -> NodeIdShort {
        short_id(self.key + tag as u8)
    }

    fn key(&self, tag: usize) -> Arc<Key> {
        self.adnl.key_by_tag(tag).unwrap().clone()
    }

    /// Makes all identities of the other node known to all own ones
    fn meet(&self, other: &Stack) -> bool {
        let mut res = true;
        for i in 0..3 {
            for j in 0..3 {
                res &= self
                    .adnl
                    .add_peer(
                        NewPeerContext::Dht,
                        &self.id(i),
                        &other.id(j),
                        other.adnl.socket_addr(),
                        full_id(other.key + j as u8),
                    )
                    .unwrap();
            }
        }
        res
    }

    /// Enters the first overlay with the other node and the second, public one
    fn join(&self, ids: &[IdShort; 2], tag: usize, neighbour: NodeIdShort) -> Option<(Arc<Overlay>, Arc<Overlay>)> {
        let overlays = self.overlay.as_ref()?;
        let private = overlays
            .add_private_overlay(&ids[0], self.key(tag), &[neighbour], Default::default())
            .0;
        let public = overlays.add_public_overlay(&ids[1], Default::default()).0;
        assert!(overlays.add_overlay_subscriber(ids[0], self.apps.overlay.clone()));
        Some((private, public))
    }
}

async fn finish<T>(task: tokio::task::JoinHandle<T>) -> Result<T, Stop> {
    for _ in 0..150 {
        deliver_all().await;
        if task.is_finished() {
            return Ok(task.await.unwrap());
        }
        world::advance(Duration::from_millis(100)).await;
    }
    Err(Stop::violation("endless operation", "it doesn't end in 15 seconds"))
}

/// Like `world::flush`, but addresses of the senders are those which were assigned to them
async fn deliver_all() {
    loop {
        world::settle().await;
        let sent = world::take_sent();
        if sent.is_empty() {
            return;
        }
        for datagram in sent {
            let from = SENDERS.with(|s| {
                let senders = s.borrow();
                senders.iter().find(|addr| addr.port() == datagram.from).copied()
            });
            if let Some(from) = from {
                everscale_network::verif::net::deliver(datagram.to.port(), from, datagram.data);
                world::settle().await;
            }
        }
    }
}

thread_local! {
    static SENDERS: std::cell::RefCell<Vec<std::net::SocketAddrV4>> = std::cell::RefCell::default();
}

/// What the client tries
const OPS: &[&str] = &[
    "query", "message", "node ping", "ping", "search", "rldp query", "overlay query", "overlay rldp query",
    "broadcast", "long broadcast", "members",
];

struct Pair<'a> {
    config: &'a Config,
    server: &'a Stack,
    client: &'a Stack,
    server_overlays: Option<(Arc<Overlay>, Arc<Overlay>)>,
    client_overlays: (Arc<Overlay>, Arc<Overlay>),
    rounds: u64,
}

impl Pair<'_> {
    fn broadcast_source(&self, key: u8, tag: usize) -> NodeIdShort {
        short_id(key + tag as u8)
    }

    /// One request of the client, which is answered exactly if there is a layer for it
    async fn try_op(&mut self, op: usize) -> Step {
        self.rounds += 1;
        let seed = self.rounds;
        let config = self.config;
        let (server, client) = (self.server, self.client);
        match OPS[op] {
            "query" => {
                for tag in 0..3 {
                    let query = payload(QUERY, seed + tag as u64, 20);
                    let (adnl, local, peer) = (client.adnl.clone(), client.id(0), server.id(tag));
                    let data = bytes::Bytes::copy_from_slice(&query);
                    let res = finish(tokio::spawn(async move { adnl.query_raw(&local, &peer, data, None).await })).await?;
                    let expected = config.queries.map(|_| answer_to(&query));
                    ensure!(
                        matches!(&res, Ok(answer) if *answer == expected),
                        "wrong answer to a query",
                        "{res:?} instead of {expected:?}"
                    );
                    let seen = server.apps.query.take();
                    ensure!(
                        seen.len() == expected.iter().count()
                            && seen.iter().all(|s| *s == (server.id(tag), client.id(0), query.clone())),
                        "wrong query of the user",
                        "{seen:?}"
                    );
                }
            }
            "message" => {
                for (tag, len) in [(0, 12), (2, 3000)] {
                    let message = payload(MESSAGE, seed, len);
                    client
                        .adnl
                        .send_custom_message(&client.id(1), &server.id(tag), &message)
                        .map_err(|e| Stop::violation("message is not sent", e.to_string()))?;
                    deliver_all().await;
                    let seen = server.apps.message.take();
                    let expected: Vec<_> = config
                        .messages
                        .iter()
                        .map(|_| (server.id(tag), client.id(1), message.clone()))
                        .collect();
                    ensure!(seen == expected, "wrong messages of the user", "{} instead of {}", seen.len(), expected.len());
                }
            }
            "node ping" => {
                let (adnl, local, peer) = (client.adnl.clone(), client.id(0), server.id(0));
                let res: Result<Option<proto::adnl::Pong>> = finish(tokio::spawn(async move {
                    adnl.query(&local, &peer, proto::rpc::AdnlPing { value: seed }, None).await
                }))
                .await?;
                ensure!(
                    matches!(&res, Ok(Some(pong)) if pong.value == seed),
                    "node does not answer to a ping",
                    "{:?}",
                    res.map(|pong| pong.map(|pong| pong.value))
                );
            }
            "ping" => {
                let dht = client.dht.clone().unwrap();
                let peer = server.id(config.dht_tag % 3);
                let res = finish(tokio::spawn(async move { dht.ping(&peer).await })).await?;
                ensure!(
                    matches!(&res, Ok(ok) if *ok == config.has("dht")),
                    "wrong result of a DHT ping",
                    "{res:?}"
                );
                if let Some(dht) = server.dht.clone() {
                    let peer = client.id(1);
                    ensure!(*dht.key().id() == server.id(config.dht_tag), "wrong identity in the DHT", "{}", dht.key().id());
                    let res = finish(tokio::spawn(async move { dht.ping(&peer).await })).await?;
                    ensure!(matches!(&res, Ok(true)), "ping of the node's DHT is not answered", "{res:?}");
                }
            }
            "search" => {
                // Values go both ways
                let (Some(there), Some(here)) = (server.dht.clone(), client.dht.clone()) else {
                    return Ok(());
                };
                for (from, to, key) in [(&here, &there, client.key + 1), (&there, &here, server.key + config.dht_tag as u8)] {
                    let entry = proto::adnl::AddressList {
                        address: None,
                        version: seed as u32,
                        reinit_date: 7,
                        expire_at: 0,
                    };
                    let (store, find) = (from.clone(), to.clone());
                    let name = format!("name {seed}");
                    let known = name.clone();
                    let id = *short_id(key).as_slice();
                    let res = finish(tokio::spawn(async move {
                        let key = store.key().clone();
                        let ok = store
                            .entry(&id, &name)
                            .with_data(tl_proto::BoxedWrapper(entry))
                            .sign_and_store(&key)?
                            .then_check(|_, _: BoxedEntry| Ok(true))
                            .await;
                        anyhow::Ok(ok)
                    }))
                    .await?;
                    ensure!(res.is_ok(), "value is not stored", "{res:?}");
                    let res = finish(tokio::spawn(async move {
                        use futures_util::StreamExt;
                        let mut values = find.entry(&id, &known).values::<BoxedEntry>();
                        values.next().await.map(|(_, value)| value.0.version)
                    }))
                    .await?;
                    ensure!(res == Some(seed as u32), "value is not found", "{res:?}");
                }
            }
            "rldp query" => {
                let query = payload(RLDP_QUERY, seed, 5000);
                let (rldp, local, peer) = (client.rldp.clone().unwrap(), client.id(0), server.id(1));
                let data = query.clone();
                let res = finish(tokio::spawn(async move { rldp.query(&local, &peer, data, None).await })).await?;
                let expected = (config.has("rldp") && config.rldp_app).then(|| answer_to(&query));
                ensure!(
                    matches!(&res, Ok((answer, _)) if *answer == expected),
                    "wrong answer to an RLDP query",
                    "{:?}",
                    res.map(|(answer, _)| answer.map(|answer| answer.len()))
                );
                let seen = server.apps.rldp.take();
                ensure!(
                    seen.len() == expected.iter().count()
                        && seen.iter().all(|s| *s == (server.id(1), client.id(0), query.clone())),
                    "wrong RLDP query of the user",
                    "{} queries",
                    seen.len()
                );
                ensure!(
                    server.apps.others.iter().all(|app| app.take().is_empty()),
                    "wrong RLDP subscriber",
                    "it got a query which it doesn't know"
                );
                if let Some(rldp) = server.rldp.clone() {
                    let (local, peer) = (server.id(0), client.id(2));
                    let data = query.clone();
                    let res = finish(tokio::spawn(async move { rldp.query(&local, &peer, data, None).await })).await?;
                    ensure!(
                        matches!(&res, Ok((Some(answer), _)) if *answer == answer_to(&query)),
                        "RLDP query of the node is not answered",
                        "{:?}",
                        res.map(|(answer, _)| answer.map(|answer| answer.len()))
                    );
                    client.apps.rldp.take();
                }
            }
            "overlay query" | "overlay rldp query" => {
                let over_rldp = OPS[op] == "overlay rldp query";
                let query = payload(OVERLAY_QUERY, seed, 40);
                let there = server.id(config.overlay_tag % 3);
                let mut ways = vec![(self.client_overlays.0.clone(), client, server, there, config.has("overlay"))];
                if let Some((overlay, _)) = &self.server_overlays {
                    ways.push((overlay.clone(), server, client, client.id(2), true));
                }
                for (overlay, from, to, peer, answered) in ways {
                    let source = *overlay.overlay_key().id();
                    let (adnl, rldp) = (from.adnl.clone(), from.rldp.clone().unwrap());
                    let raw = tl_proto::OwnedRawBytes::<tl_proto::Boxed>::new(query.clone());
                    let res = finish(tokio::spawn(async move {
                        match over_rldp {
                            true => overlay.rldp_query(&rldp, &peer, raw, None).await.map(|(answer, _)| answer),
                            false => overlay.adnl_query(&adnl, &peer, raw, None).await,
                        }
                    }))
                    .await?;
                    let expected = answered.then(|| answer_to(&query));
                    ensure!(
                        matches!(&res, Ok(answer) if *answer == expected),
                        "wrong answer to an overlay query",
                        "over RLDP {over_rldp}: {res:?} instead of {expected:?}"
                    );
                    let seen = to.apps.overlay.take();
                    ensure!(
                        seen.len() == expected.iter().count()
                            && seen.iter().all(|s| *s == (peer, source, query.clone())),
                        "wrong overlay query of the user",
                        "{seen:?}"
                    );
                }
            }
            "broadcast" | "long broadcast" => {
                let len = if OPS[op] == "broadcast" { 100 } else { 5000 };
                let mut ways = vec![(self.client_overlays.0.clone(), client, self.server_overlays.as_ref().map(|o| o.0.clone()), 0)];
                if let Some((overlay, _)) = &self.server_overlays {
                    ways.push((overlay.clone(), server, Some(self.client_overlays.0.clone()), config.overlay_tag));
                }
                for (overlay, from, to, tag) in ways {
                    // The client names another source
                    let (source, expected) = match tag == 0 && from.key == client.key {
                        true => (Some(client.key(0)), self.broadcast_source(client.key, 0)),
                        false => (None, self.broadcast_source(from.key, tag)),
                    };
                    let data = payload(1, 2 * seed + from.index as u64, len);
                    overlay.broadcast(&from.adnl, data.clone(), source.as_ref(), BroadcastTarget::RandomNeighbours);
                    let receive = match to {
                        Some(to) => tokio::spawn(async move {
                            let res = tokio::time::timeout(Duration::from_secs(2), to.wait_for_broadcast()).await;
                            res.ok().map(|info| (info.data, info.from))
                        }),
                        None => tokio::spawn(async {
                            tokio::time::sleep(Duration::from_secs(2)).await;
                            None
                        }),
                    };
                    let got = finish(receive).await?;
                    let there = self.server_overlays.is_some();
                    let ok = match &got {
                        Some((bytes, id)) => there && *bytes == data && *id == expected,
                        None => !there,
                    };
                    ensure!(
                        ok,
                        "wrong broadcast",
                        "from node {}: {:?}",
                        from.index,
                        got.map(|(data, from)| (data.len(), from))
                    );
                }
            }
            _ => {
                let there = server.id(config.overlay_tag % 3);
                let (adnl, overlay) = (client.adnl.clone(), self.client_overlays.1.clone());
                let res = finish(tokio::spawn(async move { overlay.exchange_random_peers(&adnl, &there, None).await })).await?;
                let ok = match &res {
                    Ok(Some(peers)) => config.has("overlay") && *peers == [there],
                    Ok(None) => !config.has("overlay"),
                    Err(_) => false,
                };
                ensure!(ok, "wrong members", "{res:?}");
            }
        }
        Ok(())
    }
}

type BoxedEntry = tl_proto::BoxedWrapper<proto::adnl::AddressList>;

async fn combination(ch: &mut Chooser<'_>) -> Step {
    let chain = ch.choose(CHAINS.len());
    let positions = CHAINS[chain].split(' ').count();
    let mut config = Config {
        chain,
        ..Config::full()
    };
    let place = |n: usize| (n > 0).then(|| n - 1);
    config.queries = place(ch.choose(positions + 1));
    config.messages = place((config.queries.map_or(0, |n| n + 1) + ch.deviate(positions + 1)) % (positions + 1));
    config.address = ch.deviate(ADDRESSES.len());
    if config.has("dht") {
        config.dht_tag = [1, 0, 2, 7][ch.deviate(4)];
    }
    if config.has("rldp") {
        config.rldp_others = ch.deviate(3);
        config.rldp_app = ch.deviate(2) == 0;
    }
    if config.has("overlay") {
        config.overlay_tag = [2, 0, 1, 7][ch.deviate(4)];
    }
    config.filter = [None, Some(true), Some(false)][ch.deviate(3)];
    ch.note(|| {
        format!(
            "{}, {}, subscribers after {:?} and {:?}, RLDP {} {}, tags {} {}, filter {:?}",
            CHAINS[chain],
            ADDRESSES[config.address],
            config.queries,
            config.messages,
            config.rldp_others,
            config.rldp_app,
            config.dht_tag,
            config.overlay_tag,
            config.filter
        )
    });
    ch.visit(hash_of(&(
        (chain, config.address, config.queries, config.messages),
        (config.rldp_others, config.rldp_app, config.dht_tag, config.overlay_tag, config.filter),
    )));
    ch.step();

    let server = build(1, 0, &config);
    world::settle().await;
    ensure!(
        server.is_ok() == config.is_valid(),
        "wrong result of the builder",
        "{:?}",
        server.as_ref().map(|_| ()).map_err(|e| e.to_string())
    );
    let server = match server {
        Ok(server) => server,
        Err(_) => {
            drop(server);
            world::advance(Duration::from_secs(3600)).await;
            let tasks = tokio::runtime::Handle::current().metrics().num_alive_tasks();
            ensure!(tasks == 0, "failed builder leaves tasks behind", "{tasks} tasks");
            let alive = everscale_network::verif::net::deliver(world::port(0), world::addr(1), vec![0; 100]);
            ensure!(!alive, "failed builder leaves a socket behind", "it is open");
            ensure!(world::take_sent().is_empty(), "failed builder sends something", "");
            // The same place can be taken again
            let again = build(1, 0, &Config::full());
            ensure!(again.is_ok(), "builder fails after another one", "{:?}", again.err());
            ch.observe("failed");
            return Ok(());
        }
    };
    let addr = server.adnl.socket_addr();
    ensure!(
        addr.ip() == world::addr(0).ip()
            && match config.address {
                3 => addr.port() != 0,
                _ => addr.port() == world::port(0),
            },
        "wrong address of the node",
        "{addr}"
    );
    ensure!(
        server.adnl.options().query_default_timeout_ms == 2345
            && server.dht.as_ref().map_or(true, |dht| dht.options().value_ttl_sec == 77 && Arc::ptr_eq(dht.adnl(), &server.adnl))
            && server.rldp.as_ref().map_or(true, |rldp| rldp.options().max_peer_queries == 3 && Arc::ptr_eq(rldp.adnl(), &server.adnl))
            && server.overlay.as_ref().map_or(true, |overlay| Arc::ptr_eq(overlay.adnl(), &server.adnl)),
        "wrong options of the layers",
        ""
    );
    ensure!(
        server.adnl.start().is_err() && server.adnl.add_query_subscriber(server.apps.query.clone()).is_err(),
        "builder doesn't start the node",
        "it can be started after it"
    );

    let client = build(11, 1, &Config::full()).unwrap();
    SENDERS.with(|s| *s.borrow_mut() = vec![server.adnl.socket_addr(), client.adnl.socket_addr()]);
    let accepts = server.meet(&client);
    ensure!(
        accepts == (config.filter != Some(false)),
        "wrong filter",
        "peers are accepted: {accepts}"
    );
    assert!(client.meet(&server));
    if config.filter == Some(false) {
        // Nobody is served
        let (adnl, local, peer) = (client.adnl.clone(), client.id(0), server.id(0));
        let res: Result<Option<proto::adnl::Pong>> =
            finish(tokio::spawn(async move { adnl.query(&local, &peer, proto::rpc::AdnlPing { value: 1 }, None).await })).await?;
        ensure!(matches!(&res, Ok(None)), "filtered peer is served", "{:?}", res.map(|pong| pong.is_some()));
        ch.observe("filtered");
        return Ok(());
    }
    if let Some(dht) = &server.dht {
        let node = dht_node(client.key + 1, client.index, world::START);
        ensure!(dht.add_dht_peer(node).is_ok_and(|id| id == Some(client.id(1))), "DHT refuses a node", "");
        let node = dht_node_at(server.key + config.dht_tag as u8, server.adnl.socket_addr());
        client.dht.as_ref().unwrap().add_dht_peer(node).unwrap();
    }
    let ids = [overlay(1).compute_short_id(), overlay(2).compute_short_id()];
    let server_overlays = server.join(&ids, config.overlay_tag, client.id(2));
    let client_overlays = client.join(&ids, 2, server.id(config.overlay_tag % 3)).unwrap();

    let mut pair = Pair {
        config: &config,
        server: &server,
        client: &client,
        server_overlays,
        client_overlays,
        rounds: 0,
    };
    let first = ch.deviate(OPS.len());
    let back = ch.deviate(2) == 1;
    for i in 0..OPS.len() {
        let op = match back {
            false => (first + i) % OPS.len(),
            true => (first + OPS.len() - i) % OPS.len(),
        };
        ch.note(|| OPS[op].to_owned());
        pair.try_op(op).await?;
        ch.step();
    }
    // Nothing else came to the applications
    for stack in [&server, &client] {
        let apps = &stack.apps;
        let rest = [&apps.query, &apps.message, &apps.rldp, &apps.overlay]
            .into_iter()
            .chain(&apps.others)
            .map(|app| app.take().len())
            .sum::<usize>();
        ensure!(rest == 0, "something else came to the user", "{rest} events");
    }
    ch.observe((chain, config.queries, config.messages, config.rldp_app));
    Ok(())
}

/// Description of a node at any address
fn dht_node_at(key: u8, addr: std::net::SocketAddrV4) -> proto::dht::NodeOwned {
    let mut node = dht_node(key, 0, world::START);
    node.addr_list.address = Some(proto::adnl::Address::from(&addr));
    sign_node(&mut node, key);
    node
}

fn main() {
    check_main("C32", |ctx| {
        ctx.assume("the client is a node with all layers; datagrams between both are neither lost nor reordered here");
        let bound = ctx.tiered(1, 2);
        ctx.explore(
            Suite {
                name: "combinations".to_owned(),
                about: "9 orders of layers, subscribers of the user after any of them, addresses, key tags, filters, \
                    RLDP subscribers; then each kind of traffic of every layer in both directions, starting with any of 11"
                    .to_owned(),
                bound,
            },
            |ch| world::run(1, combination(ch)),
        );
    });
}
