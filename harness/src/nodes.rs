//! Real ADNL nodes with recording subscribers

use std::borrow::Cow;
use std::sync::{Arc, Mutex};

use anyhow::Result;
use everscale_network::adnl::{
    ComputeNodeIds, Keystore, NewPeerContext, Node, NodeIdFull, NodeIdShort, NodeOptions,
    PeerFilter,
};
use everscale_network::{
    MessageSubscriber, QueryConsumingResult, QuerySubscriber, SubscriberContext,
};

use crate::world;

/// What an application received
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Event {
    pub query: bool,
    pub local: NodeIdShort,
    pub peer: NodeIdShort,
    pub data: Vec<u8>,
}

/// First bytes of a query which is not answered
pub const SILENT: u32 = 0x1511_0001;
/// First bytes of a query which nobody accepts
pub const REJECTED: u32 = 0x1511_0002;
/// First bytes of a query on which the subscriber fails
pub const FAILING: u32 = 0x1511_0003;
/// First bytes of a usual query
pub const QUERY: u32 = 0x1511_0004;
/// First bytes of a usual message
pub const MESSAGE: u32 = 0x1511_0005;

/// Some bytes which start with the tag
pub fn payload(tag: u32, seed: u64, len: usize) -> Vec<u8> {
    let mut data = tag.to_le_bytes().to_vec();
    data.extend(crate::util::filler(seed, len.saturating_sub(4)));
    data.truncate(len);
    data
}

/// The only right answer to the query
pub fn answer_to(query: &[u8]) -> Vec<u8> {
    let mut answer = 0x1511_00ffu32.to_le_bytes().to_vec();
    answer.extend(query.iter().rev().map(|b| b ^ 0x5a));
    answer
}

pub type AnswerFn = Box<dyn Fn(&[u8]) -> Option<Vec<u8>> + Send + Sync>;

/// Application which remembers everything it was given
#[derive(Default)]
pub struct Recorder {
    pub events: Mutex<Vec<Event>>,
    pub answer: Option<AnswerFn>,
}

impl Recorder {
    pub fn take(&self) -> Vec<Event> {
        std::mem::take(&mut self.events.lock().unwrap())
    }

    fn push(&self, ctx: SubscriberContext<'_>, query: bool, data: &[u8]) {
        self.events.lock().unwrap().push(Event {
            query,
            local: *ctx.local_id,
            peer: *ctx.peer_id,
            data: data.to_vec(),
        });
    }
}

#[async_trait::async_trait]
impl MessageSubscriber for Recorder {
    async fn try_consume_custom<'a>(
        &self,
        ctx: SubscriberContext<'a>,
        _constructor: u32,
        data: &'a [u8],
    ) -> Result<bool> {
        self.push(ctx, false, data);
        Ok(true)
    }
}

#[async_trait::async_trait]
impl QuerySubscriber for Recorder {
    async fn try_consume_query<'a>(
        &self,
        ctx: SubscriberContext<'a>,
        constructor: u32,
        query: Cow<'a, [u8]>,
    ) -> Result<QueryConsumingResult<'a>> {
        if constructor == REJECTED {
            return Ok(QueryConsumingResult::Rejected(query));
        }
        // Leave pings to the node itself
        if constructor == everscale_network::proto::rpc::AdnlPing::TL_ID {
            return Ok(QueryConsumingResult::Rejected(query));
        }
        self.push(ctx, true, &query);
        if constructor == FAILING {
            anyhow::bail!("failed to process query");
        }
        let answer = match &self.answer {
            Some(f) => f(&query),
            None if constructor == SILENT => None,
            None => Some(answer_to(&query)),
        };
        Ok(QueryConsumingResult::Consumed(answer))
    }
}

/// Secret key of the identity
pub fn secret(key: u8) -> [u8; 32] {
    let mut bytes = [0x41; 32];
    bytes[0] = key;
    bytes[31] = key ^ 0x77;
    bytes
}

pub fn full_id(key: u8) -> NodeIdFull {
    ids(key).0
}

pub fn short_id(key: u8) -> NodeIdShort {
    ids(key).1
}

fn ids(key: u8) -> (NodeIdFull, NodeIdShort) {
    thread_local! {
        static IDS: std::cell::RefCell<std::collections::HashMap<u8, (NodeIdFull, NodeIdShort)>> =
            std::cell::RefCell::default();
    }
    IDS.with(|ids| {
        *ids.borrow_mut().entry(key).or_insert_with(|| {
            everscale_crypto::ed25519::SecretKey::from_bytes(secret(key)).compute_node_ids()
        })
    })
}

pub fn keystore(keys: &[u8]) -> Keystore {
    Keystore::builder()
        .with_tagged_keys(keys.iter().enumerate().map(|(tag, key)| (secret(*key), tag)))
        .unwrap()
        .build()
}

/// Node number `index` which owns the identities `keys`
pub struct Sim {
    pub index: usize,
    pub keys: Vec<u8>,
    pub node: Arc<Node>,
    pub app: Arc<Recorder>,
}

impl Sim {
    /// Usual started node with a single identity
    pub fn new(index: usize, options: NodeOptions) -> Self {
        Self::build(index, &[index as u8 + 1], options, None)
    }

    pub fn build(
        index: usize,
        keys: &[u8],
        options: NodeOptions,
        filter: Option<Arc<dyn PeerFilter>>,
    ) -> Self {
        let sim = Self::build_stopped(index, keys, options, filter);
        sim.start();
        sim
    }

    pub fn build_stopped(
        index: usize,
        keys: &[u8],
        options: NodeOptions,
        filter: Option<Arc<dyn PeerFilter>>,
    ) -> Self {
        let node = Node::new(world::addr(index), keystore(keys), options, filter).unwrap();
        Self {
            index,
            keys: keys.to_vec(),
            node,
            app: Default::default(),
        }
    }

    pub fn start(&self) {
        self.node.add_message_subscriber(self.app.clone()).unwrap();
        self.node.add_query_subscriber(self.app.clone()).unwrap();
        self.node.start().unwrap();
    }

    /// The first identity
    pub fn id(&self) -> NodeIdShort {
        short_id(self.keys[0])
    }

    pub fn key(&self) -> u8 {
        self.keys[0]
    }

    /// Makes the other node known
    pub fn add(&self, other: &Sim) -> bool {
        self.add_as(self.key(), other.key(), other.index)
    }

    pub fn add_as(&self, local: u8, key: u8, index: usize) -> bool {
        self.node
            .add_peer(
                NewPeerContext::Dht,
                &short_id(local),
                &short_id(key),
                world::addr(index),
                full_id(key),
            )
            .unwrap()
    }

    pub fn send(&self, to: &Sim, data: &[u8]) -> Result<()> {
        self.node.send_custom_message(&self.id(), &to.id(), data)
    }

    /// Starts a query in background
    pub fn query(
        &self,
        to: &Sim,
        data: &[u8],
        timeout: Option<u64>,
    ) -> tokio::task::JoinHandle<Result<Option<Vec<u8>>>> {
        let node = self.node.clone();
        let (local, peer) = (self.id(), to.id());
        let data = bytes::Bytes::copy_from_slice(data);
        tokio::spawn(async move { node.query_raw(&local, &peer, data, timeout).await })
    }

    pub fn events(&self) -> Vec<Event> {
        self.app.take()
    }
}

/// Two nodes which know each other
pub fn pair(options: NodeOptions) -> (Sim, Sim) {
    let a = Sim::new(0, options);
    let b = Sim::new(1, options);
    a.add(&b);
    b.add(&a);
    (a, b)
}

/// Exchanges messages until both sides use their channels. The events are dropped
pub async fn establish(a: &Sim, b: &Sim) {
    for i in 0..3 {
        a.send(b, &payload(MESSAGE, i, 8)).unwrap();
        world::flush().await;
        b.send(a, &payload(MESSAGE, i, 8)).unwrap();
        world::flush().await;
    }
    a.events();
    b.events();
}
