//! DHT values, nodes and requests made by the harness

use std::collections::HashMap;
use std::sync::Arc;

use bytes::Bytes;
use everscale_crypto::tl::PublicKeyOwned;
use everscale_network::adnl::{NodeIdShort, NodeOptions as AdnlOptions};
use everscale_network::dht;
use everscale_network::overlay::{IdFull, IdShort};
use everscale_network::proto;
use tl_proto::{BoxedConstructor, TlWrite};

use crate::nodes::{full_id, short_id, Sim};
use crate::puppet::{sign, Msg, Puppet};
use crate::world;

pub use proto::dht::{KeyDescriptionOwned, KeyOwned, NodeOwned, UpdateRule, ValueOwned};

pub fn public_key(key: u8) -> PublicKeyOwned {
    full_id(key).as_tl().as_equivalent_owned()
}

pub fn overlay_key(overlay: &IdFull) -> PublicKeyOwned {
    PublicKeyOwned::Overlay {
        name: overlay.as_slice().to_vec(),
    }
}

pub fn overlay(n: u8) -> IdFull {
    IdFull::for_workchain_overlay(n as i32, &[n; 32])
}

/// Value which is not signed yet
pub fn draft(owner: PublicKeyOwned, name: &[u8], idx: u32, ttl: u32, data: &[u8]) -> ValueOwned {
    ValueOwned {
        key: KeyDescriptionOwned {
            key: KeyOwned {
                id: tl_proto::hash(owner.as_equivalent_ref()),
                name: Bytes::copy_from_slice(name),
                idx,
            },
            id: owner,
            update_rule: UpdateRule::Signature,
            signature: Bytes::new(),
        },
        value: Bytes::copy_from_slice(data),
        ttl,
        signature: Bytes::new(),
    }
}

pub fn key_bytes(value: &ValueOwned) -> Vec<u8> {
    let mut key = value.key.clone();
    key.signature = Bytes::new();
    tl_proto::serialize_as_boxed(key)
}

pub fn value_bytes(value: &ValueOwned) -> Vec<u8> {
    let mut value = value.clone();
    value.signature = Bytes::new();
    tl_proto::serialize_as_boxed(value)
}

/// Signs the key description
pub fn sign_key(value: &mut ValueOwned, key: u8) {
    value.key.signature = Bytes::copy_from_slice(&sign(key, &key_bytes(value)));
}

/// Signs the value, including the signature of its key
pub fn sign_value(value: &mut ValueOwned, key: u8) {
    value.signature = Bytes::copy_from_slice(&sign(key, &value_bytes(value)));
}

/// Valid value of the owner
pub fn signed_value(owner: u8, name: &[u8], idx: u32, ttl: u32, data: &[u8]) -> ValueOwned {
    let mut value = draft(public_key(owner), name, idx, ttl, data);
    sign_key(&mut value, owner);
    sign_value(&mut value, owner);
    value
}

pub fn storage_key(key: &KeyOwned) -> [u8; 32] {
    tl_proto::hash_as_boxed(key.clone())
}

/// Whether this signature of the owner of the id is valid for these bytes
pub fn is_signed(id: &PublicKeyOwned, data: &[u8], signature: &[u8]) -> bool {
    let PublicKeyOwned::Ed25519 { key } = id else {
        return false;
    };
    match (everscale_crypto::ed25519::PublicKey::from_bytes(*key), signature.try_into()) {
        (Some(key), Ok(signature)) => key.verify_raw(data, signature),
        _ => false,
    }
}

pub fn overlay_node(key: u8, overlay: &IdShort, version: u32) -> proto::overlay::NodeOwned {
    let id = short_id(key);
    let to_sign = proto::overlay::NodeToSign {
        id: id.as_slice(),
        overlay: overlay.as_slice(),
        version,
    };
    proto::overlay::NodeOwned {
        id: public_key(key),
        overlay: *overlay.as_slice(),
        version,
        signature: Bytes::copy_from_slice(&sign(key, &tl_proto::serialize(to_sign))),
    }
}

/// Whether it is signed by its key for its overlay
pub fn is_valid_overlay_node(node: &proto::overlay::NodeOwned, overlay: &IdShort) -> bool {
    let PublicKeyOwned::Ed25519 { .. } = &node.id else {
        return false;
    };
    let id: [u8; 32] = tl_proto::hash(node.id.as_equivalent_ref());
    let to_sign = proto::overlay::NodeToSign {
        id: &id,
        overlay: overlay.as_slice(),
        version: node.version,
    };
    &node.overlay == overlay.as_slice()
        && is_signed(&node.id, &tl_proto::serialize(to_sign), &node.signature)
}

pub fn overlay_nodes_bytes(nodes: &[proto::overlay::NodeOwned]) -> Vec<u8> {
    tl_proto::serialize_as_boxed(proto::overlay::NodesOwned {
        nodes: nodes.iter().cloned().collect(),
    })
}

pub fn overlay_value(overlay: &IdFull, nodes: &[proto::overlay::NodeOwned], ttl: u32) -> ValueOwned {
    let mut value = draft(overlay_key(overlay), b"nodes", 0, ttl, &overlay_nodes_bytes(nodes));
    value.key.update_rule = UpdateRule::OverlayNodes;
    value
}

pub fn same_value(a: &ValueOwned, b: &ValueOwned) -> bool {
    tl_proto::serialize(a.clone()) == tl_proto::serialize(b.clone())
}

/// Valid description of a DHT node
pub fn dht_node(key: u8, index: usize, version: u32) -> NodeOwned {
    let addr = world::addr(index);
    let mut node = NodeOwned {
        id: public_key(key),
        addr_list: proto::adnl::AddressList {
            address: Some(proto::adnl::Address {
                ip: u32::from_be_bytes(addr.ip().octets()),
                port: addr.port() as u32,
            }),
            version,
            reinit_date: world::START,
            expire_at: 0,
        },
        version,
        signature: Bytes::new(),
    };
    sign_node(&mut node, key);
    node
}

pub fn node_bytes(node: &NodeOwned) -> Vec<u8> {
    let mut node = node.clone();
    node.signature = Bytes::new();
    tl_proto::serialize_as_boxed(node)
}

pub fn sign_node(node: &mut NodeOwned, key: u8) {
    node.signature = Bytes::copy_from_slice(&sign(key, &node_bytes(node)));
}

pub fn found(value: &ValueOwned) -> Vec<u8> {
    tl_proto::serialize(proto::dht::ValueResultOwned::ValueFound(
        value.clone().into_boxed(),
    ))
}

pub fn not_found(nodes: &[NodeOwned]) -> Vec<u8> {
    tl_proto::serialize(proto::dht::ValueResultOwned::ValueNotFound(
        proto::dht::NodesOwned { nodes: nodes.to_vec() },
    ))
}

pub fn nodes_answer(nodes: &[NodeOwned]) -> Vec<u8> {
    tl_proto::serialize_as_boxed(proto::dht::NodesOwned { nodes: nodes.to_vec() })
}

/// Node with a DHT
pub struct DhtSim {
    pub sim: Sim,
    pub dht: Arc<dht::Node>,
}

impl DhtSim {
    pub fn new(index: usize, adnl: AdnlOptions, options: dht::NodeOptions) -> Self {
        let sim = Sim::build_stopped(index, &[index as u8 + 1], adnl, None);
        let dht = dht::Node::new(sim.node.clone(), 0, options).unwrap();
        sim.start();
        Self { sim, dht }
    }

    pub fn description(&self, version: u32) -> NodeOwned {
        dht_node(self.sim.key(), self.sim.index, version)
    }

    /// Makes this peer known to the DHT
    pub fn learn(&self, puppet: &Puppet) -> Option<NodeIdShort> {
        let node = dht_node(puppet.key, puppet.index, world::START);
        self.dht.add_dht_peer(node).unwrap()
    }
}

/// Remote peers which are made by the harness
pub struct Cast {
    pub puppets: Vec<Puppet>,
    /// Incoming parts of messages
    parts: HashMap<[u8; 32], Vec<Option<u8>>>,
    next_query: u8,
}

/// Something a node sent to one of the peers
#[derive(Debug, Clone)]
pub struct Heard {
    pub by: usize,
    pub message: Msg,
}

impl Cast {
    /// Peers with the keys `10..`, at the addresses `5..`
    pub fn new(count: usize) -> Self {
        Self {
            puppets: (0..count)
                .map(|i| Puppet::new(10 + i as u8, 5 + i))
                .collect(),
            parts: Default::default(),
            next_query: 0,
        }
    }

    /// Everything the peers have received since the last call. Parts are put together
    pub async fn listen(&mut self) -> Vec<Heard> {
        world::settle().await;
        let mut heard = Vec::new();
        for datagram in world::take_sent() {
            let Some(by) = self
                .puppets
                .iter()
                .position(|p| world::port(p.index) == datagram.to.port())
            else {
                continue;
            };
            let Some(opened) = self.puppets[by].open(&datagram) else {
                continue;
            };
            for message in opened.messages {
                match message {
                    Msg::Part { hash, total, offset, data } => {
                        let all = self
                            .parts
                            .entry(hash)
                            .or_insert_with(|| vec![None; total as usize]);
                        for (i, byte) in data.iter().enumerate() {
                            all[offset as usize + i] = Some(*byte);
                        }
                        if all.iter().all(Option::is_some) {
                            let all = self.parts.remove(&hash).unwrap();
                            let bytes: Vec<u8> = all.into_iter().map(Option::unwrap).collect();
                            let message = tl_proto::deserialize(&bytes).unwrap();
                            heard.push(Heard { by, message: Msg::from_proto(&message) });
                        }
                    }
                    message => heard.push(Heard { by, message }),
                }
            }
        }
        heard
    }

    /// Sends the query and waits for the answer
    pub async fn ask(&mut self, who: usize, node: &Sim, data: &[u8]) -> Option<Vec<u8>> {
        self.next_query += 1;
        let id = [self.next_query; 32];
        self.puppets[who]
            .say(node, vec![Msg::Query { id, data: data.to_vec() }])
            .await;
        self.listen().await.into_iter().find_map(|heard| match heard.message {
            Msg::Answer { id: other, data } if other == id && heard.by == who => Some(data),
            _ => None,
        })
    }

    pub async fn store(&mut self, who: usize, node: &Sim, value: &ValueOwned) -> bool {
        let query = tl_proto::serialize(proto::rpc::DhtStore {
            value: value.as_equivalent_ref(),
        });
        let answer = self.ask(who, node, &query).await;
        answer == Some(tl_proto::serialize(proto::dht::Stored))
    }

    /// Value under the key, or other nodes
    pub async fn find_value(
        &mut self,
        who: usize,
        node: &Sim,
        key: &[u8; 32],
        k: u32,
    ) -> Option<Result<ValueOwned, Vec<NodeOwned>>> {
        let query = tl_proto::serialize(proto::rpc::DhtFindValue { key, k });
        let answer = self.ask(who, node, &query).await?;
        Some(parse_value_result(&answer))
    }

    pub async fn find_node(&mut self, who: usize, node: &Sim, key: &[u8; 32], k: u32) -> Option<Vec<NodeOwned>> {
        let query = tl_proto::serialize(proto::rpc::DhtFindNode { key, k });
        let answer = self.ask(who, node, &query).await?;
        let nodes: proto::dht::NodesOwned = tl_proto::deserialize_as_boxed(&answer).unwrap();
        Some(nodes.nodes)
    }
}

pub fn parse_value_result(answer: &[u8]) -> Result<ValueOwned, Vec<NodeOwned>> {
    match tl_proto::deserialize::<proto::dht::ValueResult<'_>>(answer).unwrap() {
        proto::dht::ValueResult::ValueFound(value) => Ok(value.0.as_equivalent_owned()),
        proto::dht::ValueResult::ValueNotFound(nodes) => Err(nodes.nodes),
    }
}

/// Bytes of any TL object
pub fn bytes_of<T: TlWrite>(object: T) -> Vec<u8> {
    tl_proto::serialize(object)
}
