//! Overlay nodes of the harness and broadcasts which are made without the code under test

use std::sync::Arc;

use everscale_crypto::tl::PublicKeyOwned;
use everscale_network::adnl::NodeOptions as AdnlOptions;
use everscale_network::overlay::{self, IdShort, IncomingBroadcastInfo, Overlay, OverlayOptions};
use everscale_network::proto;
use sha2::{Digest, Sha256};
use tl_proto::TlRead;
use tokio::task::JoinHandle;

use crate::dhtkit::{is_signed, public_key};
use crate::nodes::{short_id, Sim};
use crate::puppet::sign;

/// Signed on behalf of anyone
pub const ANY_SENDER: u32 = 1;

/// Id of a constructor
pub fn tl_id(constructor: &str) -> u32 {
    let mut crc = !0u32;
    for byte in constructor.bytes() {
        crc ^= byte as u32;
        for _ in 0..8 {
            crc = (crc >> 1) ^ (0xedb8_8320 & (crc & 1).wrapping_neg());
        }
    }
    !crc
}

fn sha(parts: &[&[u8]]) -> [u8; 32] {
    let mut hash = Sha256::new();
    for part in parts {
        hash.update(part);
    }
    hash.finalize().into()
}

fn key_id(key: &PublicKeyOwned) -> [u8; 32] {
    tl_proto::hash(key.as_equivalent_ref())
}

/// The first part of each message in the overlay
pub fn message_prefix(overlay: &IdShort) -> Vec<u8> {
    let mut data = tl_id("overlay.message overlay:int256 = overlay.Message").to_le_bytes().to_vec();
    data.extend(overlay.as_slice());
    data
}

/// The first part of each query in the overlay
pub fn query_prefix(overlay: &IdShort) -> Vec<u8> {
    let mut data = tl_id("overlay.query overlay:int256 = True").to_le_bytes().to_vec();
    data.extend(overlay.as_slice());
    data
}

pub const NO_CERTIFICATE: proto::overlay::Certificate<'static> =
    proto::overlay::Certificate::EmptyCertificate;

fn to_sign(hash: [u8; 32], date: u32) -> Vec<u8> {
    let id = tl_id("overlay.broadcast.toSign hash:int256 date:int = overlay.broadcast.ToSign");
    [&id.to_le_bytes()[..], &hash, &date.to_le_bytes()].concat()
}

/// Short broadcast
#[derive(Debug, Clone)]
pub struct Short {
    pub src: PublicKeyOwned,
    pub flags: u32,
    pub data: Vec<u8>,
    pub date: u32,
    pub signature: Vec<u8>,
}

impl Short {
    pub fn new(key: u8, data: &[u8], date: u32) -> Self {
        Self {
            src: public_key(key),
            flags: ANY_SENDER,
            data: data.to_vec(),
            date,
            signature: Vec::new(),
        }
        .signed(key)
    }

    /// What is signed if the content is `data`
    pub fn signed_bytes(&self, data: &[u8]) -> Vec<u8> {
        let id = tl_id("overlay.broadcast.id src:int256 data_hash:int256 flags:int = overlay.broadcast.Id");
        let src = match self.flags & ANY_SENDER {
            0 => key_id(&self.src),
            _ => [0; 32],
        };
        let hash = sha(&[&id.to_le_bytes(), &src, &sha(&[data]), &self.flags.to_le_bytes()]);
        to_sign(hash, self.date)
    }

    pub fn signed(mut self, key: u8) -> Self {
        self.signature = sign(key, &self.signed_bytes(&self.data)).to_vec();
        self
    }

    pub fn is_signed(&self, data: &[u8]) -> bool {
        is_signed(&self.src, &self.signed_bytes(data), &self.signature)
    }

    pub fn to_bytes(&self, overlay: &IdShort) -> Vec<u8> {
        let mut bytes = message_prefix(overlay);
        bytes.extend(tl_proto::serialize(proto::overlay::Broadcast::Broadcast(
            proto::overlay::OverlayBroadcast {
                src: self.src.as_equivalent_ref(),
                certificate: NO_CERTIFICATE,
                flags: self.flags,
                data: &self.data,
                date: self.date,
                signature: &self.signature,
            },
        )));
        bytes
    }
}

/// Packet of a long broadcast
#[derive(Debug, Clone)]
pub struct Fec {
    pub src: PublicKeyOwned,
    pub data_hash: [u8; 32],
    pub data_size: u32,
    pub flags: u32,
    pub data: Vec<u8>,
    pub seqno: u32,
    pub params: (u32, u32, u32),
    pub date: u32,
    pub signature: Vec<u8>,
}

impl Fec {
    fn params(&self) -> proto::rldp::RaptorQFecType {
        proto::rldp::RaptorQFecType {
            total_len: self.params.0,
            packet_len: self.params.1,
            packet_count: self.params.2,
        }
    }

    pub fn signed_bytes(&self) -> Vec<u8> {
        let id = tl_id("overlay.broadcastFec.id src:int256 type:int256 data_hash:int256 size:int flags:int = overlay.broadcastFec.Id");
        let part_id = tl_id("overlay.broadcastFec.partId broadcast_hash:int256 data_hash:int256 seqno:int = overlay.broadcastFec.PartId");
        let src = match self.flags & ANY_SENDER {
            0 => key_id(&self.src),
            _ => [0; 32],
        };
        let mut params = tl_id("fec.raptorQ data_size:int symbol_size:int symbols_count:int = fec.Type")
            .to_le_bytes()
            .to_vec();
        for value in [self.params.0, self.params.1, self.params.2] {
            params.extend(value.to_le_bytes());
        }
        let hash = sha(&[
            &id.to_le_bytes(),
            &src,
            &sha(&[&params]),
            &self.data_hash,
            &self.data_size.to_le_bytes(),
            &self.flags.to_le_bytes(),
        ]);
        let part = sha(&[
            &part_id.to_le_bytes(),
            &hash,
            &sha(&[&self.data]),
            &self.seqno.to_le_bytes(),
        ]);
        to_sign(part, self.date)
    }

    pub fn signed(mut self, key: u8) -> Self {
        self.signature = sign(key, &self.signed_bytes()).to_vec();
        self
    }

    pub fn is_signed(&self) -> bool {
        is_signed(&self.src, &self.signed_bytes(), &self.signature)
    }

    pub fn to_bytes(&self, overlay: &IdShort) -> Vec<u8> {
        let mut bytes = message_prefix(overlay);
        bytes.extend(tl_proto::serialize(proto::overlay::Broadcast::BroadcastFec(
            proto::overlay::OverlayBroadcastFec {
                src: self.src.as_equivalent_ref(),
                certificate: NO_CERTIFICATE,
                data_hash: &self.data_hash,
                data_size: self.data_size,
                flags: self.flags,
                data: &self.data,
                seqno: self.seqno,
                fec: self.params(),
                date: self.date,
                signature: &self.signature,
            },
        )));
        bytes
    }
}

/// Packets of a long broadcast of `content`, which is sent as `data`
pub fn fec_parts(key: u8, content: &[u8], data: &[u8], date: u32, seqnos: std::ops::Range<u32>) -> Vec<Fec> {
    crate::rldpkit::parts([0; 32], data, seqnos)
        .into_iter()
        .map(|part| {
            Fec {
                src: public_key(key),
                data_hash: sha(&[content]),
                data_size: data.len() as u32,
                flags: ANY_SENDER,
                data: part.data,
                seqno: part.seqno,
                params: (part.total_len, part.packet_len, part.packet_count),
                date,
                signature: Vec::new(),
            }
            .signed(key)
        })
        .collect()
}

/// Any message in an overlay
#[derive(Debug, Clone)]
pub enum Broadcast {
    Short(Short),
    Fec(Fec),
}

impl Broadcast {
    pub fn parse(overlay: &IdShort, message: &[u8]) -> Option<Self> {
        let data = message.strip_prefix(message_prefix(overlay).as_slice())?;
        let mut offset = 0;
        let broadcast = proto::overlay::Broadcast::read_from(data, &mut offset).ok()?;
        if offset != data.len() {
            return None;
        }
        match broadcast {
            proto::overlay::Broadcast::Broadcast(b) => Some(Broadcast::Short(Short {
                src: b.src.as_equivalent_owned(),
                flags: b.flags,
                data: b.data.to_vec(),
                date: b.date,
                signature: b.signature.to_vec(),
            })),
            proto::overlay::Broadcast::BroadcastFec(b) => Some(Broadcast::Fec(Fec {
                src: b.src.as_equivalent_owned(),
                data_hash: *b.data_hash,
                data_size: b.data_size,
                flags: b.flags,
                data: b.data.to_vec(),
                seqno: b.seqno,
                params: (b.fec.total_len, b.fec.packet_len, b.fec.packet_count),
                date: b.date,
                signature: b.signature.to_vec(),
            })),
            _ => None,
        }
    }
}

/// Broadcast as the application got it
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Received {
    pub from: everscale_network::adnl::NodeIdShort,
    pub data: Vec<u8>,
    pub packets: u32,
}

impl From<IncomingBroadcastInfo> for Received {
    fn from(info: IncomingBroadcastInfo) -> Self {
        Self {
            from: info.from,
            data: info.data,
            packets: info.packets,
        }
    }
}

/// Node with an overlay
pub struct OverlaySim {
    pub sim: Sim,
    pub overlays: Arc<overlay::Node>,
    pub id: IdShort,
    pub overlay: Arc<Overlay>,
    received: Arc<std::sync::Mutex<Vec<Received>>>,
    listener: JoinHandle<()>,
}

impl Drop for OverlaySim {
    fn drop(&mut self) {
        self.listener.abort();
    }
}

impl OverlaySim {
    /// Node `index` in the overlay with the neighbours which have the keys `peers`
    pub fn private(index: usize, id: &IdShort, peers: &[u8], options: OverlayOptions) -> Self {
        Self::build(index, id, options, |overlays, sim| {
            let key = sim.node.key_by_tag(0).unwrap().clone();
            let peers: Vec<_> = peers.iter().map(|key| short_id(*key)).collect();
            overlays.add_private_overlay(id, key, &peers, options).0
        })
    }

    pub fn public(index: usize, id: &IdShort, options: OverlayOptions) -> Self {
        Self::build(index, id, options, |overlays, _| overlays.add_public_overlay(id, options).0)
    }

    fn build(
        index: usize,
        id: &IdShort,
        _options: OverlayOptions,
        f: impl FnOnce(&overlay::Node, &Sim) -> Arc<Overlay>,
    ) -> Self {
        let sim = Sim::build_stopped(index, &[index as u8 + 1], AdnlOptions::default(), None);
        let overlays = overlay::Node::new(sim.node.clone(), 0).unwrap();
        let overlay = f(&overlays, &sim);
        sim.start();
        let received = Arc::new(std::sync::Mutex::new(Vec::new()));
        let listener = tokio::spawn({
            let (overlay, received) = (overlay.clone(), received.clone());
            async move {
                loop {
                    let info = overlay.wait_for_broadcast().await;
                    received.lock().unwrap().push(info.into());
                }
            }
        });
        Self {
            sim,
            overlays,
            id: *id,
            overlay,
            received,
            listener,
        }
    }

    /// Stops listening, so that others can
    pub fn mute(&self) {
        self.listener.abort();
    }

    /// Broadcasts the application got since the last call
    pub fn received(&self) -> Vec<Received> {
        std::mem::take(&mut *self.received.lock().unwrap())
    }
}
