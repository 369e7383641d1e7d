//! C28: wire formats round-trip and malformed input is rejected safely
//!
//! The reference is `Tl` and the `put_*` functions below: an encoder which is written after the TL
//! scheme and knows nothing about the derived or hand-written readers and writers.

use std::net::{Ipv4Addr, SocketAddrV4};

use everscale_crypto::tl::PublicKey;
use everscale_network::overlay::IdFull;
use everscale_network::proto::{adnl, dht, overlay, rldp, rpc};
use harness::overlaykit::tl_id;
use harness::util::{filler, hash_of};
use harness::{check_main, ensure, Chooser, Ctx, Step, Suite};
use sha2::{Digest, Sha256};
use tl_proto::{BoxedWrapper, TlRead, TlWrite};

/// Reference encoder
#[derive(Default, Clone)]
struct Tl(Vec<u8>);

impl Tl {
    fn id(&mut self, line: &str) -> &mut Self {
        self.int(tl_id(line))
    }

    fn int(&mut self, value: u32) -> &mut Self {
        self.0.extend(value.to_le_bytes());
        self
    }

    fn long(&mut self, value: u64) -> &mut Self {
        self.0.extend(value.to_le_bytes());
        self
    }

    fn hash(&mut self, value: &[u8; 32]) -> &mut Self {
        self.0.extend(value);
        self
    }

    fn raw(&mut self, value: &[u8]) -> &mut Self {
        self.0.extend(value);
        self
    }

    fn bytes(&mut self, value: &[u8]) -> &mut Self {
        let len = value.len();
        if len < 254 {
            self.0.push(len as u8);
        } else {
            self.0.push(254);
            self.0.extend(&(len as u32).to_le_bytes()[..3]);
        }
        self.0.extend(value);
        while self.0.len() % 4 != 0 {
            self.0.push(0);
        }
        self
    }
}

/// Ends a chain of calls
fn done(_: &mut Tl) {}

const PUB_ED: &str = "pub.ed25519 key:int256 = PublicKey";
const PUB_AES: &str = "pub.aes key:int256 = PublicKey";
const PUB_OVERLAY: &str = "pub.overlay name:bytes = PublicKey";
const PUB_UNENC: &str = "pub.unenc data:bytes = PublicKey";

const MSG_CREATE: &str = "adnl.message.createChannel key:int256 date:int = adnl.Message";
const MSG_CONFIRM: &str = "adnl.message.confirmChannel key:int256 peer_key:int256 date:int = adnl.Message";
const MSG_CUSTOM: &str = "adnl.message.custom data:bytes = adnl.Message";
const MSG_NOP: &str = "adnl.message.nop = adnl.Message";
const MSG_REINIT: &str = "adnl.message.reinit date:int = adnl.Message";
const MSG_QUERY: &str = "adnl.message.query query_id:int256 query:bytes = adnl.Message";
const MSG_ANSWER: &str = "adnl.message.answer query_id:int256 answer:bytes = adnl.Message";
const MSG_PART: &str =
    "adnl.message.part hash:int256 total_size:int offset:int data:bytes = adnl.Message";
const ADDR_UDP: &str = "adnl.address.udp ip:int port:int = adnl.Address";
const ADDR_LIST: &str =
    "adnl.addressList addrs:vector adnl.Address version:int reinit_date:int priority:int expire_at:int = adnl.AddressList";
const PONG: &str = "adnl.pong value:long = adnl.Pong";
const PING: &str = "adnl.ping value:long = adnl.Pong";
const PACKET: &str = "adnl.packetContents rand1:bytes flags:# from:flags.0?PublicKey from_short:flags.1?adnl.id.short message:flags.2?adnl.Message messages:flags.3?vector adnl.Message address:flags.4?adnl.addressList priority_address:flags.5?adnl.addressList seqno:flags.6?long confirm_seqno:flags.7?long recv_addr_list_version:flags.8?int recv_priority_addr_list_version:flags.9?int reinit_date:flags.10?int dst_reinit_date:flags.10?int signature:flags.11?bytes rand2:bytes = adnl.PacketContents";

const FEC: &str = "fec.raptorQ data_size:int symbol_size:int symbols_count:int = fec.Type";
const RLDP_PART: &str = "rldp.messagePart transfer_id:int256 fec_type:fec.Type part:int total_size:long seqno:int data:bytes = rldp.MessagePart";
const RLDP_CONFIRM: &str = "rldp.confirm transfer_id:int256 part:int seqno:int = rldp.MessagePart";
const RLDP_COMPLETE: &str = "rldp.complete transfer_id:int256 part:int = rldp.MessagePart";
const RLDP_MESSAGE: &str = "rldp.message id:int256 data:bytes = rldp.Message";
const RLDP_QUERY: &str =
    "rldp.query query_id:int256 max_answer_size:long timeout:int data:bytes = rldp.Message";
const RLDP_ANSWER: &str = "rldp.answer query_id:int256 data:bytes = rldp.Message";

const DHT_NODE: &str = "dht.node id:PublicKey addr_list:adnl.addressList version:int signature:bytes = dht.Node";
const DHT_NODES: &str = "dht.nodes nodes:vector dht.node = dht.Nodes";
const DHT_KEY: &str = "dht.key id:int256 name:bytes idx:int = dht.Key";
const DHT_RULE_SIGNATURE: &str = "dht.updateRule.signature = dht.UpdateRule";
const DHT_RULE_ANYBODY: &str = "dht.updateRule.anybody = dht.UpdateRule";
const DHT_RULE_OVERLAY: &str = "dht.updateRule.overlayNodes = dht.UpdateRule";
const DHT_DESCRIPTION: &str = "dht.keyDescription key:dht.key id:PublicKey update_rule:dht.UpdateRule signature:bytes = dht.KeyDescription";
const DHT_VALUE: &str = "dht.value key:dht.keyDescription value:bytes ttl:int signature:bytes = dht.Value";
const DHT_PONG: &str = "dht.pong random_id:long = dht.Pong";
const DHT_NOT_FOUND: &str = "dht.valueNotFound nodes:dht.nodes = dht.ValueResult";
const DHT_FOUND: &str = "dht.valueFound value:dht.Value = dht.ValueResult";
const DHT_STORED: &str = "dht.stored = dht.Stored";
const DHT_PING: &str = "dht.ping random_id:long = dht.Pong";
const DHT_STORE: &str = "dht.store value:dht.value = dht.Stored";
const DHT_FIND_NODE: &str = "dht.findNode key:int256 k:int = dht.Nodes";
const DHT_FIND_VALUE: &str = "dht.findValue key:int256 k:int = dht.ValueResult";
const DHT_GET_ADDRESS: &str = "dht.getSignedAddressList = dht.Node";
const DHT_QUERY: &str = "dht.query node:dht.node = True";

const OV_TO_SIGN: &str =
    "overlay.node.toSign id:adnl.id.short overlay:int256 version:int = overlay.node.ToSign";
const OV_NODES: &str = "overlay.nodes nodes:vector overlay.node = overlay.Nodes";
const OV_MESSAGE: &str = "overlay.message overlay:int256 = overlay.Message";
const OV_QUERY: &str = "overlay.query overlay:int256 = True";
const OV_RECEIVED: &str = "overlay.fec.received hash:int256 = overlay.Broadcast";
const OV_COMPLETED: &str = "overlay.fec.completed hash:int256 = overlay.Broadcast";
const OV_CERTIFICATE: &str = "overlay.certificate issued_by:PublicKey expire_at:int max_size:int signature:bytes = overlay.Certificate";
const OV_NO_CERTIFICATE: &str = "overlay.emptyCertificate = overlay.Certificate";
const OV_UNICAST: &str = "overlay.unicast data:bytes = overlay.Broadcast";
const OV_BROADCAST: &str = "overlay.broadcast src:PublicKey certificate:overlay.Certificate flags:int data:bytes date:int signature:bytes = overlay.Broadcast";
const OV_FEC: &str = "overlay.broadcastFec src:PublicKey certificate:overlay.Certificate data_hash:int256 data_size:int flags:int data:bytes seqno:int fec:fec.Type date:int signature:bytes = overlay.Broadcast";
const OV_FEC_SHORT: &str = "overlay.broadcastFecShort src:PublicKey certificate:overlay.Certificate broadcast_hash:int256 part_data_hash:int256 seqno:int signature:bytes = overlay.Broadcast";
const OV_NOT_FOUND: &str = "overlay.broadcastNotFound = overlay.Broadcast";
const OV_RANDOM_PEERS: &str = "overlay.getRandomPeers peers:overlay.nodes = overlay.Nodes";
const SHARD_OVERLAY: &str = "tonNode.shardPublicOverlayId workchain:int shard:long zero_state_file_hash:int256 = tonNode.ShardPublicOverlayId";
const CATCHAIN: &str = "catchain.firstblock unique_hash:int256 nodes:vector int256 = catchain.FirstBlock";

// Encoding of what was parsed
////////////////////////////////////////////////////////////////////////////////

fn put_key(w: &mut Tl, key: &PublicKey<'_>) {
    match key {
        PublicKey::Ed25519 { key } => w.id(PUB_ED).hash(key),
        PublicKey::Aes { key } => w.id(PUB_AES).hash(key),
        PublicKey::Overlay { name } => w.id(PUB_OVERLAY).bytes(name),
        PublicKey::Unencoded { data } => w.id(PUB_UNENC).bytes(data),
    };
}

fn put_message(w: &mut Tl, message: &adnl::Message<'_>) {
    use adnl::Message::*;
    match message {
        Answer { query_id, answer } => w.id(MSG_ANSWER).hash(query_id).bytes(answer),
        Custom { data } => w.id(MSG_CUSTOM).bytes(data),
        ConfirmChannel { key, peer_key, date } => {
            w.id(MSG_CONFIRM).hash(key).hash(peer_key).int(*date)
        }
        Part { hash, total_size, offset, data } => {
            w.id(MSG_PART).hash(hash).int(*total_size).int(*offset).bytes(data)
        }
        CreateChannel { key, date } => w.id(MSG_CREATE).hash(key).int(*date),
        Query { query_id, query } => w.id(MSG_QUERY).hash(query_id).bytes(query),
        Nop => w.id(MSG_NOP),
        Reinit { date } => w.id(MSG_REINIT).int(*date),
    };
}

fn put_addresses(w: &mut Tl, list: &adnl::AddressList) {
    w.int(list.address.is_some() as u32);
    if let Some(address) = &list.address {
        w.id(ADDR_UDP).int(address.ip).int(address.port);
    }
    w.int(list.version).int(list.reinit_date).int(0).int(list.expire_at);
}

fn put_fec(w: &mut Tl, fec: &rldp::RaptorQFecType) {
    w.id(FEC).int(fec.total_len).int(fec.packet_len).int(fec.packet_count);
}

fn put_dht_node(w: &mut Tl, node: &dht::Node<'_>) {
    put_key(w, &node.id);
    put_addresses(w, &node.addr_list);
    w.int(node.version).bytes(node.signature);
}

fn put_dht_key(w: &mut Tl, key: &dht::Key<'_>) {
    w.hash(key.id).bytes(key.name).int(key.idx);
}

fn put_rule(w: &mut Tl, rule: &dht::UpdateRule) {
    w.id(match rule {
        dht::UpdateRule::Anybody => DHT_RULE_ANYBODY,
        dht::UpdateRule::OverlayNodes => DHT_RULE_OVERLAY,
        dht::UpdateRule::Signature => DHT_RULE_SIGNATURE,
    });
}

fn put_description(w: &mut Tl, description: &dht::KeyDescription<'_>) {
    put_dht_key(w, &description.key);
    put_key(w, &description.id);
    put_rule(w, &description.update_rule);
    w.bytes(description.signature);
}

fn put_value(w: &mut Tl, value: &dht::Value<'_>) {
    put_description(w, &value.key);
    w.bytes(value.value).int(value.ttl).bytes(value.signature);
}

fn put_overlay_node(w: &mut Tl, node: &overlay::Node<'_>) {
    put_key(w, &node.id);
    w.hash(node.overlay).int(node.version).bytes(node.signature);
}

fn put_certificate(w: &mut Tl, certificate: &overlay::Certificate<'_>) {
    match certificate {
        overlay::Certificate::Certificate { issued_by, expire_at, max_size, signature } => {
            w.id(OV_CERTIFICATE);
            put_key(w, issued_by);
            w.int(*expire_at).int(*max_size).bytes(signature);
        }
        overlay::Certificate::EmptyCertificate => {
            w.id(OV_NO_CERTIFICATE);
        }
    }
}

fn put_broadcast(w: &mut Tl, broadcast: &overlay::Broadcast<'_>) {
    use overlay::Broadcast::*;
    match broadcast {
        Broadcast(b) => {
            w.id(OV_BROADCAST);
            put_key(w, &b.src);
            put_certificate(w, &b.certificate);
            w.int(b.flags).bytes(b.data).int(b.date).bytes(b.signature);
        }
        BroadcastFec(b) => {
            w.id(OV_FEC);
            put_key(w, &b.src);
            put_certificate(w, &b.certificate);
            w.hash(b.data_hash).int(b.data_size).int(b.flags).bytes(b.data).int(b.seqno);
            put_fec(w, &b.fec);
            w.int(b.date).bytes(b.signature);
        }
        BroadcastFecShort { src, certificate, broadcast_hash, part_data_hash, seqno, signature } => {
            w.id(OV_FEC_SHORT);
            put_key(w, src);
            put_certificate(w, certificate);
            w.hash(broadcast_hash).hash(part_data_hash).int(*seqno).bytes(signature);
        }
        BroadcastNotFound => {
            w.id(OV_NOT_FOUND);
        }
        FecCompleted { hash } => {
            w.id(OV_COMPLETED).hash(hash);
        }
        FecReceived { hash } => {
            w.id(OV_RECEIVED).hash(hash);
        }
        Unicast { data } => {
            w.id(OV_UNICAST).bytes(data);
        }
    }
}

// What the node makes of bytes
////////////////////////////////////////////////////////////////////////////////

struct Parsed {
    /// Reference encoding of the fields
    fields: Vec<u8>,
    /// What the node writes for the same value, by each of its writers
    written: Vec<Vec<u8>>,
    /// How many bytes were read
    read: usize,
}

fn parse<'a, T: TlRead<'a>>(data: &'a [u8]) -> Option<(T, usize)> {
    let mut offset = 0;
    let value = T::read_from(data, &mut offset).ok()?;
    Some((value, offset))
}

fn encode(f: impl FnOnce(&mut Tl)) -> Vec<u8> {
    let mut w = Tl::default();
    f(&mut w);
    w.0
}

fn written<T: TlWrite>(value: T) -> Vec<u8> {
    tl_proto::serialize(value)
}

macro_rules! probe {
    ($ty:ty, |$w:ident, $v:ident| $put:expr) => {
        |data: &[u8]| {
            let ($v, read) = parse::<$ty>(data)?;
            let fields = encode(|$w| {
                let $v = &$v;
                $put;
            });
            Some(Parsed {
                fields,
                written: vec![written(&$v)],
                read,
            })
        }
    };
    ($ty:ty, |$w:ident, $v:ident| $put:expr, $($other:expr),+) => {
        |data: &[u8]| {
            let ($v, read) = parse::<$ty>(data)?;
            let fields = encode(|$w| {
                let $v = &$v;
                $put;
            });
            let written = vec![written(&$v) $(, $other)+];
            Some(Parsed { fields, written, read })
        }
    };
}

type Probe = fn(&[u8]) -> Option<Parsed>;
type Make = fn(&mut Values<'_, '_>, &mut Tl);

/// Chooses values of fields. The default is different for each field
struct Values<'c, 'a> {
    ch: &'c mut Chooser<'a>,
    n: u32,
    thorough: bool,
}

const INTS: [u32; 5] = [0, 1, 0x7fff_ffff, 0x8000_0000, u32::MAX];
const LENS: [usize; 14] = [0, 1, 2, 3, 4, 6, 7, 252, 253, 254, 255, 256, 257, 1000];

impl Values<'_, '_> {
    fn unique(&mut self) -> u32 {
        self.n += 1;
        self.n
    }

    fn int(&mut self) -> u32 {
        let n = self.unique();
        match self.ch.deviate(INTS.len() + 1) {
            0 => 0x0102_0304u32.wrapping_mul(n) | 0x8000_0001,
            i => INTS[i - 1],
        }
    }

    fn long(&mut self) -> u64 {
        let n = self.unique() as u64;
        let all = [0u64, 1, 0xffff_ffff, 0x1_0000_0000, 1 << 63, u64::MAX];
        match self.ch.deviate(all.len() + 1) {
            0 => 0x0102_0304_0506_0708u64.wrapping_mul(n) | 1,
            i => all[i - 1],
        }
    }

    fn hash(&mut self) -> [u8; 32] {
        let n = self.unique();
        match self.ch.deviate(3) {
            0 => filler(n as u64, 32).try_into().unwrap(),
            1 => [0; 32],
            _ => [0xff; 32],
        }
    }

    fn bytes(&mut self) -> Vec<u8> {
        let n = self.unique() as u64;
        let lens = &LENS[..];
        match self.ch.deviate(lens.len() + 1 + self.thorough as usize) {
            0 => filler(n, 5),
            i if i > lens.len() => filler(n, 40_000),
            i => filler(n, lens[i - 1]),
        }
    }

    fn signature(&mut self) -> Vec<u8> {
        let n = self.unique() as u64;
        let len = [64, 0, 63, 65, 256];
        let i = self.ch.deviate(len.len());
        filler(n, len[i])
    }

    fn variant(&mut self, n: usize) -> usize {
        self.ch.deviate(n)
    }

    fn key(&mut self, w: &mut Tl) {
        match self.variant(4) {
            0 => w.id(PUB_ED).hash(&self.hash()),
            1 => w.id(PUB_AES).hash(&self.hash()),
            2 => w.id(PUB_OVERLAY).bytes(&self.bytes()),
            _ => w.id(PUB_UNENC).bytes(&self.bytes()),
        };
    }

    fn addresses(&mut self, w: &mut Tl) {
        match self.variant(2) {
            0 => w.int(1).id(ADDR_UDP).int(self.int()).int(self.int()),
            _ => w.int(0),
        };
        w.int(self.int()).int(self.int()).int(0).int(self.int());
    }

    fn fec(&mut self, w: &mut Tl) {
        w.id(FEC).int(self.int()).int(self.int()).int(self.int());
    }

    fn dht_node(&mut self, w: &mut Tl) {
        self.key(w);
        self.addresses(w);
        w.int(self.int()).bytes(&self.signature());
    }

    fn dht_nodes(&mut self, w: &mut Tl) {
        let n = [1, 0, 2, 5, 6, 10][self.variant(6)];
        w.int(n);
        for _ in 0..n {
            self.dht_node(w);
        }
    }

    fn dht_key(&mut self, w: &mut Tl) {
        w.hash(&self.hash()).bytes(&self.bytes()).int(self.int());
    }

    fn description(&mut self, w: &mut Tl) {
        self.dht_key(w);
        self.key(w);
        w.id([DHT_RULE_SIGNATURE, DHT_RULE_ANYBODY, DHT_RULE_OVERLAY][self.variant(3)]);
        w.bytes(&self.signature());
    }

    fn value(&mut self, w: &mut Tl) {
        self.description(w);
        w.bytes(&self.bytes()).int(self.int()).bytes(&self.signature());
    }

    fn overlay_node(&mut self, w: &mut Tl) {
        self.key(w);
        w.hash(&self.hash()).int(self.int()).bytes(&self.signature());
    }

    fn overlay_nodes(&mut self, w: &mut Tl) {
        let n = [1, 0, 2, 5, 6, 10][self.variant(6)];
        w.int(n);
        for _ in 0..n {
            self.overlay_node(w);
        }
    }

    fn certificate(&mut self, w: &mut Tl) {
        match self.variant(2) {
            0 => {
                w.id(OV_NO_CERTIFICATE);
            }
            _ => {
                w.id(OV_CERTIFICATE);
                self.key(w);
                w.int(self.int()).int(self.int()).bytes(&self.signature());
            }
        }
    }

    fn message(&mut self, kind: usize, w: &mut Tl) {
        match kind {
            0 => w.id(MSG_CUSTOM).bytes(&self.bytes()),
            1 => w.id(MSG_NOP),
            2 => w.id(MSG_QUERY).hash(&self.hash()).bytes(&self.bytes()),
            3 => w.id(MSG_ANSWER).hash(&self.hash()).bytes(&self.bytes()),
            4 => w.id(MSG_CREATE).hash(&self.hash()).int(self.int()),
            5 => w.id(MSG_CONFIRM).hash(&self.hash()).hash(&self.hash()).int(self.int()),
            6 => w
                .id(MSG_PART)
                .hash(&self.hash())
                .int(self.int())
                .int(self.int())
                .bytes(&self.bytes()),
            _ => w.id(MSG_REINIT).int(self.int()),
        };
    }
}

const MESSAGES: usize = 8;

struct Type {
    name: &'static str,
    make: Make,
    probe: Probe,
}

fn types() -> Vec<Type> {
    fn ty(name: &'static str, make: Make, probe: Probe) -> Type {
        Type { name, make, probe }
    }

    vec![
        ty("adnl.Message custom", |v, w| v.message(0, w), MESSAGE),
        ty("adnl.Message nop", |v, w| v.message(1, w), MESSAGE),
        ty("adnl.Message query", |v, w| v.message(2, w), MESSAGE),
        ty("adnl.Message answer", |v, w| v.message(3, w), MESSAGE),
        ty("adnl.Message create channel", |v, w| v.message(4, w), MESSAGE),
        ty("adnl.Message confirm channel", |v, w| v.message(5, w), MESSAGE),
        ty("adnl.Message part", |v, w| v.message(6, w), MESSAGE),
        ty("adnl.Message reinit", |v, w| v.message(7, w), MESSAGE),
        ty(
            "adnl.AddressList",
            |v, w| {
                w.id(ADDR_LIST);
                v.addresses(w)
            },
            probe!(BoxedWrapper<adnl::AddressList>, |w, v| {
                w.id(ADDR_LIST);
                put_addresses(w, &v.0)
            }),
        ),
        ty(
            "adnl.Address",
            |v, w| {
                w.id(ADDR_UDP).int(v.int()).int(v.int());
            },
            probe!(adnl::Address, |w, v| w.id(ADDR_UDP).int(v.ip).int(v.port)),
        ),
        ty(
            "adnl.Pong",
            |v, w| {
                w.id(PONG).long(v.long());
            },
            probe!(adnl::Pong, |w, v| w.id(PONG).long(v.value)),
        ),
        ty(
            "adnl.ping",
            |v, w| {
                w.id(PING).long(v.long());
            },
            probe!(rpc::AdnlPing, |w, v| w.id(PING).long(v.value)),
        ),
        ty(
            "rldp.Message message",
            |v, w| {
                w.id(RLDP_MESSAGE).hash(&v.hash()).bytes(&v.bytes());
            },
            RLDP,
        ),
        ty(
            "rldp.Message answer",
            |v, w| {
                w.id(RLDP_ANSWER).hash(&v.hash()).bytes(&v.bytes());
            },
            RLDP,
        ),
        ty(
            "rldp.Message query",
            |v, w| {
                w.id(RLDP_QUERY)
                    .hash(&v.hash())
                    .long(v.long())
                    .int(v.int())
                    .bytes(&v.bytes());
            },
            RLDP,
        ),
        ty(
            "rldp.MessagePart part",
            |v, w| {
                w.id(RLDP_PART).hash(&v.hash());
                v.fec(w);
                w.int(v.int()).long(v.long()).int(v.int()).bytes(&v.bytes());
            },
            RLDP_PARTS,
        ),
        ty(
            "rldp.MessagePart confirm",
            |v, w| {
                w.id(RLDP_CONFIRM).hash(&v.hash()).int(v.int()).int(v.int());
            },
            RLDP_PARTS,
        ),
        ty(
            "rldp.MessagePart complete",
            |v, w| {
                w.id(RLDP_COMPLETE).hash(&v.hash()).int(v.int());
            },
            RLDP_PARTS,
        ),
        ty("fec.Type", |v, w| v.fec(w), probe!(rldp::RaptorQFecType, |w, v| put_fec(w, v))),
        ty(
            "dht.Node",
            |v, w| {
                w.id(DHT_NODE);
                v.dht_node(w)
            },
            probe!(
                BoxedWrapper<dht::Node>,
                |w, v| {
                    w.id(DHT_NODE);
                    put_dht_node(w, &v.0)
                },
                tl_proto::serialize_as_boxed(v.0.as_equivalent_owned()),
                tl_proto::serialize_as_boxed(v.0.as_equivalent_owned().as_equivalent_ref())
            ),
        ),
        ty(
            "dht.Node owned",
            |v, w| {
                w.id(DHT_NODE);
                v.dht_node(w)
            },
            probe!(BoxedWrapper<dht::NodeOwned>, |w, v| {
                w.id(DHT_NODE);
                put_dht_node(w, &v.0.as_equivalent_ref())
            }),
        ),
        ty(
            "dht.Nodes",
            |v, w| {
                w.id(DHT_NODES);
                v.dht_nodes(w)
            },
            probe!(BoxedWrapper<dht::Nodes>, |w, v| {
                w.id(DHT_NODES).int(v.0.nodes.len() as u32);
                v.0.nodes.iter().for_each(|node| put_dht_node(w, node))
            }),
        ),
        ty(
            "dht.Nodes owned",
            |v, w| {
                w.id(DHT_NODES);
                v.dht_nodes(w)
            },
            probe!(BoxedWrapper<dht::NodesOwned>, |w, v| {
                w.id(DHT_NODES).int(v.0.nodes.len() as u32);
                v.0.nodes.iter().for_each(|node| put_dht_node(w, &node.as_equivalent_ref()))
            }),
        ),
        ty(
            "dht.Key",
            |v, w| {
                w.id(DHT_KEY);
                v.dht_key(w)
            },
            probe!(
                BoxedWrapper<dht::Key>,
                |w, v| {
                    w.id(DHT_KEY);
                    put_dht_key(w, &v.0)
                },
                tl_proto::serialize_as_boxed(v.0.as_equivalent_owned()),
                tl_proto::serialize_as_boxed(v.0.as_equivalent_owned().as_equivalent_ref())
            ),
        ),
        ty(
            "dht.KeyDescription",
            |v, w| {
                w.id(DHT_DESCRIPTION);
                v.description(w)
            },
            probe!(
                BoxedWrapper<dht::KeyDescription>,
                |w, v| {
                    w.id(DHT_DESCRIPTION);
                    put_description(w, &v.0)
                },
                tl_proto::serialize_as_boxed(v.0.as_equivalent_owned()),
                tl_proto::serialize_as_boxed(v.0.as_equivalent_owned().as_equivalent_ref())
            ),
        ),
        ty(
            "dht.Value",
            |v, w| {
                w.id(DHT_VALUE);
                v.value(w)
            },
            probe!(
                BoxedWrapper<dht::Value>,
                |w, v| {
                    w.id(DHT_VALUE);
                    put_value(w, &v.0)
                },
                tl_proto::serialize_as_boxed(v.0.as_equivalent_owned()),
                tl_proto::serialize_as_boxed(v.0.as_equivalent_owned().as_equivalent_ref())
            ),
        ),
        ty(
            "dht.Value owned",
            |v, w| {
                w.id(DHT_VALUE);
                v.value(w)
            },
            probe!(BoxedWrapper<dht::ValueOwned>, |w, v| {
                w.id(DHT_VALUE);
                put_value(w, &v.0.as_equivalent_ref())
            }),
        ),
        ty(
            "dht.ValueResult found",
            |v, w| {
                w.id(DHT_FOUND).id(DHT_VALUE);
                v.value(w)
            },
            value_result,
        ),
        ty(
            "dht.ValueResult not found",
            |v, w| {
                w.id(DHT_NOT_FOUND);
                v.dht_nodes(w)
            },
            value_result,
        ),
        ty(
            "dht.Pong",
            |v, w| {
                w.id(DHT_PONG).long(v.long());
            },
            probe!(dht::Pong, |w, v| w.id(DHT_PONG).long(v.random_id)),
        ),
        ty(
            "dht.Stored",
            |_, w| {
                w.id(DHT_STORED);
            },
            probe!(dht::Stored, |w, _v| w.id(DHT_STORED)),
        ),
        ty(
            "dht.ping",
            |v, w| {
                w.id(DHT_PING).long(v.long());
            },
            probe!(rpc::DhtPing, |w, v| w.id(DHT_PING).long(v.random_id)),
        ),
        ty(
            "dht.findNode",
            |v, w| {
                w.id(DHT_FIND_NODE).hash(&v.hash()).int(v.int());
            },
            probe!(rpc::DhtFindNode, |w, v| w.id(DHT_FIND_NODE).hash(v.key).int(v.k)),
        ),
        ty(
            "dht.findValue",
            |v, w| {
                w.id(DHT_FIND_VALUE).hash(&v.hash()).int(v.int());
            },
            probe!(rpc::DhtFindValue, |w, v| w.id(DHT_FIND_VALUE).hash(v.key).int(v.k)),
        ),
        ty(
            "dht.getSignedAddressList",
            |_, w| {
                w.id(DHT_GET_ADDRESS);
            },
            probe!(rpc::DhtGetSignedAddressList, |w, _v| w.id(DHT_GET_ADDRESS)),
        ),
        ty(
            "dht.store",
            |v, w| {
                w.id(DHT_STORE);
                v.value(w)
            },
            probe!(rpc::DhtStore, |w, v| {
                w.id(DHT_STORE);
                put_value(w, &v.value)
            }),
        ),
        ty(
            "dht.query",
            |v, w| {
                w.id(DHT_QUERY);
                v.dht_node(w)
            },
            probe!(rpc::DhtQuery, |w, v| {
                w.id(DHT_QUERY);
                put_dht_node(w, &v.node)
            }),
        ),
        ty(
            "overlay.Nodes",
            |v, w| {
                w.id(OV_NODES);
                v.overlay_nodes(w)
            },
            probe!(BoxedWrapper<overlay::Nodes>, |w, v| {
                w.id(OV_NODES).int(v.0.nodes.len() as u32);
                v.0.nodes.iter().for_each(|node| put_overlay_node(w, node))
            }),
        ),
        ty(
            "overlay.Nodes owned",
            |v, w| {
                w.id(OV_NODES);
                v.overlay_nodes(w)
            },
            probe!(
                BoxedWrapper<overlay::NodesOwned>,
                |w, v| {
                    w.id(OV_NODES).int(v.0.nodes.len() as u32);
                    v.0.nodes
                        .iter()
                        .for_each(|node| put_overlay_node(w, &node.as_equivalent_ref()))
                },
                encode(|w| {
                    w.id(OV_NODES).int(v.0.nodes.len() as u32);
                    for node in &v.0.nodes {
                        w.raw(&written(node.as_equivalent_ref().as_equivalent_owned()));
                    }
                })
            ),
        ),
        ty(
            "overlay.getRandomPeers",
            |v, w| {
                w.id(OV_RANDOM_PEERS);
                v.overlay_nodes(w)
            },
            probe!(rpc::OverlayGetRandomPeers, |w, v| {
                w.id(OV_RANDOM_PEERS).int(v.peers.nodes.len() as u32);
                v.peers.nodes.iter().for_each(|node| put_overlay_node(w, node))
            }),
        ),
        ty(
            "overlay.getRandomPeers owned",
            |v, w| {
                w.id(OV_RANDOM_PEERS);
                v.overlay_nodes(w)
            },
            probe!(rpc::OverlayGetRandomPeersOwned, |w, v| {
                w.id(OV_RANDOM_PEERS).int(v.peers.nodes.len() as u32);
                v.peers
                    .nodes
                    .iter()
                    .for_each(|node| put_overlay_node(w, &node.as_equivalent_ref()))
            }),
        ),
        ty(
            "overlay.message",
            |v, w| {
                w.id(OV_MESSAGE).hash(&v.hash());
            },
            probe!(overlay::Message, |w, v| w.id(OV_MESSAGE).hash(v.overlay)),
        ),
        ty(
            "overlay.query",
            |v, w| {
                w.id(OV_QUERY).hash(&v.hash());
            },
            probe!(rpc::OverlayQuery, |w, v| w.id(OV_QUERY).hash(v.overlay)),
        ),
        ty(
            "overlay.Broadcast simple",
            |v, w| {
                w.id(OV_BROADCAST);
                v.key(w);
                v.certificate(w);
                w.int(v.int()).bytes(&v.bytes()).int(v.int()).bytes(&v.signature());
            },
            BROADCAST,
        ),
        ty(
            "overlay.Broadcast fec",
            |v, w| {
                w.id(OV_FEC);
                v.key(w);
                v.certificate(w);
                w.hash(&v.hash())
                    .int(v.int())
                    .int(v.int())
                    .bytes(&v.bytes())
                    .int(v.int());
                v.fec(w);
                w.int(v.int()).bytes(&v.signature());
            },
            BROADCAST,
        ),
        ty(
            "overlay.Broadcast fec short",
            |v, w| {
                w.id(OV_FEC_SHORT);
                v.key(w);
                v.certificate(w);
                w.hash(&v.hash())
                    .hash(&v.hash())
                    .int(v.int())
                    .bytes(&v.signature());
            },
            BROADCAST,
        ),
        ty(
            "overlay.Broadcast not found",
            |_, w| {
                w.id(OV_NOT_FOUND);
            },
            BROADCAST,
        ),
        ty(
            "overlay.Broadcast fec completed",
            |v, w| {
                w.id(OV_COMPLETED).hash(&v.hash());
            },
            BROADCAST,
        ),
        ty(
            "overlay.Broadcast fec received",
            |v, w| {
                w.id(OV_RECEIVED).hash(&v.hash());
            },
            BROADCAST,
        ),
        ty(
            "overlay.Broadcast unicast",
            |v, w| {
                w.id(OV_UNICAST).bytes(&v.bytes());
            },
            BROADCAST,
        ),
    ]
}

const MESSAGE: Probe = probe!(adnl::Message, |w, v| put_message(w, v));

const RLDP: Probe = probe!(rldp::Message, |w, v| match v {
    rldp::Message::Message { id, data } => w.id(RLDP_MESSAGE).hash(id).bytes(data),
    rldp::Message::Answer { query_id, data } => w.id(RLDP_ANSWER).hash(query_id).bytes(data),
    rldp::Message::Query { query_id, max_answer_size, timeout, data } => w
        .id(RLDP_QUERY)
        .hash(query_id)
        .long(*max_answer_size)
        .int(*timeout)
        .bytes(data),
});

const RLDP_PARTS: Probe = probe!(rldp::MessagePart, |w, v| match v {
    rldp::MessagePart::MessagePart { transfer_id, fec_type, part, total_size, seqno, data } => {
        w.id(RLDP_PART).hash(transfer_id);
        put_fec(w, fec_type);
        w.int(*part).long(*total_size).int(*seqno).bytes(data)
    }
    rldp::MessagePart::Confirm { transfer_id, part, seqno } => {
        w.id(RLDP_CONFIRM).hash(transfer_id).int(*part).int(*seqno)
    }
    rldp::MessagePart::Complete { transfer_id, part } => {
        w.id(RLDP_COMPLETE).hash(transfer_id).int(*part)
    }
});

const BROADCAST: Probe = probe!(overlay::Broadcast, |w, v| put_broadcast(w, v));

fn value_result(data: &[u8]) -> Option<Parsed> {
    let (value, read) = parse::<dht::ValueResult<'_>>(data)?;
    let (fields, owned) = match value {
        dht::ValueResult::ValueFound(BoxedWrapper(value)) => (
            encode(|w| {
                w.id(DHT_FOUND).id(DHT_VALUE);
                put_value(w, &value)
            }),
            dht::ValueResultOwned::ValueFound(BoxedWrapper(value.as_equivalent_owned())),
        ),
        dht::ValueResult::ValueNotFound(nodes) => (
            encode(|w| {
                w.id(DHT_NOT_FOUND).int(nodes.nodes.len() as u32);
                for node in &nodes.nodes {
                    put_dht_node(w, &node.as_equivalent_ref());
                }
            }),
            dht::ValueResultOwned::ValueNotFound(nodes),
        ),
    };
    Some(Parsed {
        fields,
        written: vec![written(&owned)],
        read,
    })
}

// Checks
////////////////////////////////////////////////////////////////////////////////

fn short(data: &[u8]) -> String {
    match data.len() {
        0..=200 => hex::encode(data),
        n => format!("{}... ({n} bytes)", hex::encode(&data[..200])),
    }
}

/// A well-formed value
fn well_formed(ty: &Type, data: &[u8]) -> Step {
    let Some(parsed) = (ty.probe)(data) else {
        return Err(harness::Stop::violation(
            format!("rejected {}", ty.name),
            format!("{} is rejected: {}", ty.name, short(data)),
        ));
    };
    ensure!(
        parsed.read == data.len(),
        format!("length {}", ty.name),
        "{} bytes of {} were read: {}",
        parsed.read,
        data.len(),
        short(data)
    );
    ensure!(
        parsed.fields == data,
        format!("contents {}", ty.name),
        "{} is parsed to other contents: {} instead of {}",
        ty.name,
        short(&parsed.fields),
        short(data)
    );
    for written in parsed.written {
        ensure!(
            written == data,
            format!("written {}", ty.name),
            "{} is written as {} instead of {}",
            ty.name,
            short(&written),
            short(data)
        );
    }
    Ok(())
}

/// Anything: must not panic, what is accepted must be consistent
fn anything(ty: &Type, data: &[u8]) -> Step {
    let Some(parsed) = (ty.probe)(data) else {
        return Ok(());
    };
    ensure!(
        parsed.read <= data.len(),
        format!("read too much {}", ty.name),
        "{} bytes of {} were read: {}",
        parsed.read,
        data.len(),
        short(data)
    );
    well_formed(ty, &parsed.fields)
}

/// All forms of the bytes with a defect
fn defects(ch: &mut Chooser<'_>, data: &[u8], pairs: bool, mut f: impl FnMut(&[u8], bool) -> Step) -> Step {
    for len in 0..data.len() {
        f(&data[..len], true)?;
        ch.step();
    }
    for extra in 1..=8usize {
        for fill in [0u8, 0xff] {
            let mut data = data.to_vec();
            data.resize(data.len() + extra, fill);
            f(&data, false)?;
            ch.step();
        }
    }
    let mut copy = data.to_vec();
    for i in 0..copy.len() {
        for bit in 0..8 {
            copy[i] ^= 1 << bit;
            f(&copy, false)?;
            copy[i] ^= 1 << bit;
            ch.step();
        }
    }
    let words = data.len() / 4;
    let mut some: Vec<u32> = vec![
        0,
        1,
        2,
        3,
        words as u32,
        0x7fff_ffff,
        0x3fff_ffff,
        0x4000_0000,
        0x8000_0000,
        u32::MAX,
        0xffff_fefe,
        0x0000_00fe,
        0x0000_40fe,
        0x0001_00fe,
        0xffff_ff00,
        0xffff_fffd,
    ];
    // Beginnings of the other types in the place of this one
    some.extend(
        [
            PUB_ED, PUB_AES, PUB_OVERLAY, PUB_UNENC, MSG_CUSTOM, MSG_PART, MSG_NOP, MSG_CONFIRM, ADDR_UDP, FEC,
            OV_CERTIFICATE, OV_NO_CERTIFICATE, DHT_VALUE, DHT_NODES, DHT_RULE_ANYBODY,
        ]
        .map(tl_id),
    );
    for i in 0..words {
        let old: [u8; 4] = copy[i * 4..][..4].try_into().unwrap();
        for word in &some {
            copy[i * 4..][..4].copy_from_slice(&word.to_le_bytes());
            f(&copy, false)?;
            ch.step();
            if pairs {
                for j in i + 1..words.min(48) {
                    let old: [u8; 4] = copy[j * 4..][..4].try_into().unwrap();
                    for word in &some {
                        copy[j * 4..][..4].copy_from_slice(&word.to_le_bytes());
                        f(&copy, false)?;
                        ch.step();
                    }
                    copy[j * 4..][..4].copy_from_slice(&old);
                }
            }
        }
        copy[i * 4..][..4].copy_from_slice(&old);
    }
    Ok(())
}

fn values(ctx: &mut Ctx) {
    let bound = ctx.tiered(2, 3);
    let thorough = ctx.is_thorough();
    let all = types();
    ctx.explore(
        Suite {
            name: "values".to_owned(),
            about: format!(
                "{} kinds of values, up to {bound} fields differ from the default: all boundary values of integers, \
                lengths around all thresholds of the encoding, kinds of keys, sizes of lists, optional parts",
                all.len()
            ),
            bound,
        },
        |ch| {
            let ty = &all[ch.choose(all.len())];
            let mut w = Tl::default();
            (ty.make)(&mut Values { ch, n: 0, thorough }, &mut w);
            ch.note(|| format!("{}: {}", ty.name, short(&w.0)));
            ch.visit(hash_of(&w.0));
            well_formed(ty, &w.0)
        },
    );
    let bound = ctx.tiered(1, 2);
    ctx.explore(
        Suite {
            name: "defects".to_owned(),
            about: format!(
                "{} kinds of values, up to {bound} fields differ from the default, each one truncated at each byte, \
                extended, with each bit flipped and with 31 other words in the place of each word",
                all.len()
            ),
            bound,
        },
        |ch| {
            let ty = &all[ch.choose(all.len())];
            let mut w = Tl::default();
            (ty.make)(&mut Values { ch, n: 0, thorough: false }, &mut w);
            ch.note(|| format!("{}: {}", ty.name, short(&w.0)));
            if w.0.len() > 700 {
                // The same structure as of shorter ones
                return ch.skip();
            }
            ch.visit(hash_of(&w.0));
            let mut accepted = 0;
            let res = defects(ch, &w.0, false, |data, truncated| {
                accepted += (ty.probe)(data).is_some() as usize;
                if truncated {
                    ensure!(
                        (ty.probe)(data).is_none(),
                        format!("truncated {}", ty.name),
                        "{} is accepted: {}",
                        ty.name,
                        short(data)
                    );
                    Ok(())
                } else {
                    anything(ty, data)
                }
            });
            ch.observe(accepted);
            res
        },
    );
    ctx.explore(
        Suite {
            name: "pairs of defects".to_owned(),
            about: "the default value of each kind with any two words replaced by others".to_owned(),
            bound: 0,
        },
        |ch| {
            let ty = &all[ch.choose(all.len())];
            let mut w = Tl::default();
            (ty.make)(&mut Values { ch, n: 0, thorough: false }, &mut w);
            ch.note(|| format!("{}: {}", ty.name, short(&w.0)));
            ch.visit(hash_of(&w.0));
            defects(ch, &w.0, true, |data, _| anything(ty, data))
        },
    );
    ctx.explore(
        Suite {
            name: "one as another".to_owned(),
            about: "values of each kind are read as each other kind".to_owned(),
            bound: 1,
        },
        |ch| {
            let ty = &all[ch.choose(all.len())];
            let mut w = Tl::default();
            (ty.make)(&mut Values { ch, n: 0, thorough: false }, &mut w);
            ch.visit(hash_of(&w.0));
            for other in &all {
                ch.step();
                anything(other, &w.0)?;
                // Without the constructor and with a foreign one
                anything(other, &w.0[4..])?;
                let id = encode(|w| {
                    let mut trace = Vec::new();
                    let mut default = Chooser::new(&mut trace, 0, false);
                    (other.make)(&mut Values { ch: &mut default, n: 0, thorough: false }, w)
                });
                anything(other, &[&id[..4], &w.0[4..]].concat())?;
            }
            Ok(())
        },
    );
}

// Packets
////////////////////////////////////////////////////////////////////////////////

/// Fields of a packet in the order of the scheme
#[derive(Clone, Default)]
struct Fields {
    from: Option<Vec<u8>>,
    from_short: Option<[u8; 32]>,
    single: Option<Vec<u8>>,
    many: Option<Vec<Vec<u8>>>,
    address: Option<Vec<u8>>,
    priority_address: Option<Vec<u8>>,
    seqno: Option<u64>,
    confirm_seqno: Option<u64>,
    address_version: Option<u32>,
    priority_version: Option<u32>,
    reinit: Option<(u32, u32)>,
}

impl Fields {
    fn write(&self, rand1: &[u8], rand2: &[u8], signature: Option<&[u8]>) -> Vec<u8> {
        let flags = [
            self.from.is_some(),
            self.from_short.is_some(),
            self.single.is_some(),
            self.many.is_some(),
            self.address.is_some(),
            self.priority_address.is_some(),
            self.seqno.is_some(),
            self.confirm_seqno.is_some(),
            self.address_version.is_some(),
            self.priority_version.is_some(),
            self.reinit.is_some(),
            signature.is_some(),
        ]
        .iter()
        .enumerate()
        .fold(0, |flags, (i, set)| flags | (*set as u32) << i);

        let mut w = Tl::default();
        w.id(PACKET).bytes(rand1).int(flags);
        self.from.iter().for_each(|v| done(w.raw(v)));
        self.from_short.iter().for_each(|v| done(w.hash(v)));
        self.single.iter().for_each(|v| done(w.raw(v)));
        if let Some(many) = &self.many {
            w.int(many.len() as u32);
            many.iter().for_each(|v| done(w.raw(v)));
        }
        self.address.iter().for_each(|v| done(w.raw(v)));
        self.priority_address.iter().for_each(|v| done(w.raw(v)));
        self.seqno.iter().for_each(|v| done(w.long(*v)));
        self.confirm_seqno.iter().for_each(|v| done(w.long(*v)));
        self.address_version.iter().for_each(|v| done(w.int(*v)));
        self.priority_version.iter().for_each(|v| done(w.int(*v)));
        self.reinit.iter().for_each(|(a, b)| done(w.int(*a).int(*b)));
        signature.iter().for_each(|v| done(w.bytes(v)));
        w.bytes(rand2);
        w.0
    }

    /// What a reader gets to see
    fn visible(&self) -> Vec<u8> {
        let mut messages = Vec::new();
        messages.extend(self.single.clone());
        messages.extend(self.many.clone().into_iter().flatten());
        Fields {
            single: None,
            many: Some(messages),
            priority_address: None,
            address_version: None,
            priority_version: None,
            ..self.clone()
        }
        .write(&[], &[], None)
    }
}

/// What the reader has seen
fn seen(packet: &adnl::IncomingPacketContents<'_>) -> Vec<u8> {
    Fields {
        from: packet.from.as_ref().map(|key| encode(|w| put_key(w, key))),
        from_short: packet.from_short.copied(),
        single: None,
        many: Some(
            packet
                .messages
                .iter()
                .map(|message| encode(|w| put_message(w, message)))
                .collect(),
        ),
        address: packet.address.as_ref().map(|list| encode(|w| put_addresses(w, list))),
        seqno: packet.seqno,
        confirm_seqno: packet.confirm_seqno,
        reinit: packet.reinit_dates.map(|d| (d.local, d.target)),
        ..Default::default()
    }
    .write(&[], &[], None)
}

/// Message which is taken out of a packet together with the signature
struct Extracted {
    seen: Vec<u8>,
    signature: Option<Option<(Vec<u8>, [u8; 64])>>,
}

/// Parses a packet and extracts its signature, as the node does
///
/// There are guards on both sides of it
fn open(data: &[u8]) -> Result<Option<Extracted>, harness::Stop> {
    const GUARD: usize = 256;
    let mut buffer = vec![0xa5u8; data.len() + 2 * GUARD];
    buffer[GUARD..][..data.len()].copy_from_slice(data);
    let (seen, signature) = {
        let view = &buffer[GUARD..][..data.len()];
        match tl_proto::deserialize::<adnl::IncomingPacketContents<'_>>(view) {
            Ok(packet) => (seen(&packet), packet.signature),
            Err(_) => return Ok(None),
        }
    };
    ensure!(
        buffer[GUARD..][..data.len()] == *data,
        "changed by the reader",
        "packet is changed by its reader: {}",
        short(data)
    );
    let mut extracted = None;
    if let Some(signature) = signature {
        let packet = &mut buffer[GUARD..][..data.len()];
        let range = packet.as_ptr_range();
        // SAFETY: called once for the packet it was parsed from
        let res = unsafe { signature.extract(packet) };
        extracted = Some(match res {
            Some((rest, signature)) => {
                let rest_range = rest.as_ptr_range();
                ensure!(
                    rest_range.start >= range.start && rest_range.end <= range.end,
                    "out of bounds",
                    "contents without the signature are outside of the packet: {}",
                    short(data)
                );
                Some((rest.to_vec(), signature))
            }
            None => None,
        });
    }
    ensure!(
        buffer[..GUARD].iter().all(|b| *b == 0xa5) && buffer[GUARD + data.len()..].iter().all(|b| *b == 0xa5),
        "out of bounds",
        "bytes around the packet are changed: {}",
        short(data)
    );
    Ok(Some(Extracted {
        seen,
        signature: extracted,
    }))
}

fn check_packet(data: &[u8], fields: &Fields, rand: (&[u8], &[u8]), signature: Option<&[u8]>) -> Step {
    let Some(res) = open(data)? else {
        return Err(harness::Stop::violation(
            "packet rejected",
            format!("packet is rejected: {}", short(data)),
        ));
    };
    ensure!(
        res.seen == fields.visible(),
        "packet contents",
        "packet is parsed to other contents: {} instead of {} in {}",
        short(&res.seen),
        short(&fields.visible()),
        short(data)
    );
    match (res.signature, signature) {
        (None, None) => Ok(()),
        (Some(Some((rest, found))), Some(signature)) => {
            ensure!(
                found == signature,
                "signature",
                "another signature is extracted from {}",
                short(data)
            );
            let signed = fields.write(rand.0, rand.1, None);
            ensure!(
                rest == signed,
                "signed contents",
                "signature is checked for {} instead of {}",
                short(&rest),
                short(&signed)
            );
            Ok(())
        }
        (found, expected) => Err(harness::Stop::violation(
            "signature presence",
            format!(
                "signature {} {} in {}",
                match found {
                    None => "is not there",
                    Some(None) => "can't be extracted",
                    Some(Some(_)) => "is found",
                },
                match expected {
                    None => "without being there",
                    Some(_) => "while it is there",
                },
                short(data)
            ),
        )),
    }
}

fn message_bytes(kind: usize, len: usize, n: u64) -> Vec<u8> {
    let hash = |i: u64| -> [u8; 32] { filler(n * 10 + i, 32).try_into().unwrap() };
    let data = filler(n + 77, len);
    encode(|w| {
        match kind {
            0 => w.id(MSG_CUSTOM).bytes(&data),
            1 => w.id(MSG_NOP),
            2 => w.id(MSG_QUERY).hash(&hash(1)).bytes(&data),
            3 => w.id(MSG_ANSWER).hash(&hash(1)).bytes(&data),
            4 => w.id(MSG_CREATE).hash(&hash(1)).int(len as u32),
            5 => w.id(MSG_CONFIRM).hash(&hash(1)).hash(&hash(2)).int(len as u32),
            6 => w
                .id(MSG_PART)
                .hash(&hash(1))
                .int(2 * len as u32)
                .int(len as u32)
                .bytes(&data),
            _ => w.id(MSG_REINIT).int(len as u32),
        };
    })
}

fn key_bytes(kind: usize) -> Vec<u8> {
    encode(|w| {
        match kind {
            0 => w.id(PUB_ED).raw(&filler(900, 32)),
            1 => w.id(PUB_AES).raw(&filler(901, 32)),
            2 => w.id(PUB_OVERLAY).bytes(&filler(902, 33)),
            _ => w.id(PUB_UNENC).bytes(&filler(903, 300)),
        };
    })
}

fn address_bytes(count: u32, n: u32) -> Vec<u8> {
    encode(|w| {
        w.int(count);
        for i in 0..count {
            w.id(ADDR_UDP).int(0x0a00_0001 + n + i).int(3000 + n + i);
        }
        w.int(100 + n).int(200 + n).int(0).int(300 + n);
    })
}

fn packets(ctx: &mut Ctx) {
    // What the node writes
    let lens: &[usize] = ctx.tiered(&[5, 253, 254, 1000], &[0, 1, 2, 3, 4, 5, 252, 253, 254, 255, 256, 1000, 30000]);
    ctx.explore(
        Suite {
            name: "outgoing packets".to_owned(),
            about: format!(
                "each combination of the sender, the address, the dates, the signature, lengths of padding and \
                one or two messages of all kinds with {} lengths, values of the counters",
                lens.len()
            ),
            bound: 0,
        },
        |ch| {
            let (rand1, rand2) = match ch.flag() {
                false => (filler(1, 3), filler(2, 7)),
                true => (filler(1, 7), filler(2, 3)),
            };
            let len = ch.one_of(lens);
            let first = message_bytes(ch.choose(MESSAGES), len, 1);
            let second = match ch.choose(MESSAGES + 1) {
                0 => None,
                i => Some(message_bytes(i - 1, 300 - len.min(300), 2)),
            };
            let from = ch.flag();
            let address = ch.flag();
            let reinit = ch.flag().then_some((0x0102_0304, 0x0506_0708));
            let signature = ch.flag().then(|| filler(3, 64));
            let (seqno, confirm_seqno) = ch.one_of(&[(0x1122, 0x3344), (0, u64::MAX), (1 << 40, 0)]);
            let from: Option<[u8; 32]> = from.then(|| filler(900, 32).try_into().unwrap());

            let raw = [first.clone(), second.clone().unwrap_or_default()].concat();
            let data = tl_proto::serialize(adnl::OutgoingPacketContents {
                rand1: &rand1,
                from: from.as_ref().map(|key| PublicKey::Ed25519 { key }),
                messages: match second {
                    None => adnl::OutgoingMessages::Single(&raw),
                    Some(_) => adnl::OutgoingMessages::Pair(&raw),
                },
                address: adnl::AddressList {
                    address: address.then_some(adnl::Address {
                        ip: 0x0a00_0001,
                        port: 3000,
                    }),
                    version: 100,
                    reinit_date: 200,
                    expire_at: 300,
                },
                seqno,
                confirm_seqno,
                reinit_dates: reinit.map(|(local, target)| adnl::ReinitDates { local, target }),
                signature: signature.as_deref(),
                rand2: &rand2,
            });

            let fields = Fields {
                from: from.map(|_| key_bytes(0)),
                single: second.is_none().then(|| first.clone()),
                many: second.map(|second| vec![first, second]),
                address: Some(address_bytes(address as u32, 0)),
                seqno: Some(seqno),
                confirm_seqno: Some(confirm_seqno),
                reinit,
                ..Default::default()
            };
            let expected = fields.write(&rand1, &rand2, signature.as_deref());
            ch.note(|| short(&expected));
            ch.visit(hash_of(&expected));
            ensure!(
                data == expected,
                "packet written",
                "packet is written as {} instead of {}",
                short(&data),
                short(&expected)
            );
            check_packet(&data, &fields, (&rand1, &rand2), signature.as_deref())
        },
    );

    // What other nodes may write
    let rands: &[usize] = ctx.tiered(&[7, 0, 3, 15, 256], &[7, 0, 1, 2, 3, 4, 15, 31, 252, 253, 254, 255, 256, 1000]);
    ctx.explore(
        Suite {
            name: "incoming packets".to_owned(),
            about: format!(
                "all 4096 combinations of flags, up to 2 of: other kinds and numbers of messages, kinds of keys, \
                numbers of addresses, {} lengths of padding at each side",
                rands.len()
            ),
            bound: 2,
        },
        |ch| {
            let flags = ch.choose(1 << 12);
            let has = |i: usize| flags & (1 << i) != 0;
            if !has(2) && !has(3) {
                // There are no packets without messages
                return ch.skip();
            }
            let fields = Fields {
                from: has(0).then(|| key_bytes(ch.deviate(4))),
                from_short: has(1).then(|| filler(5, 32).try_into().unwrap()),
                single: has(2).then(|| message_bytes(ch.deviate(MESSAGES), 40, 1)),
                many: has(3).then(|| {
                    let count = [2, 1, 3, 5][ch.deviate(4)];
                    (0..count)
                        .map(|i| message_bytes(ch.deviate(MESSAGES), 30, 2 + i))
                        .collect()
                }),
                address: has(4).then(|| address_bytes([1, 0, 2][ch.deviate(3)], 0)),
                priority_address: has(5).then(|| address_bytes([1, 0, 2][ch.deviate(3)], 50)),
                seqno: has(6).then_some(0x0102_0304_0506_0708),
                confirm_seqno: has(7).then_some(0x1112_1314_1516_1718),
                address_version: has(8).then_some(0x2122_2324),
                priority_version: has(9).then_some(0x3132_3334),
                reinit: has(10).then_some((0x4142_4344, 0x5152_5354)),
            };
            let rand1 = filler(1, rands[ch.deviate(rands.len())]);
            let rand2 = filler(2, rands[ch.deviate(rands.len())]);
            let signature = has(11).then(|| filler(3, 64));
            let data = fields.write(&rand1, &rand2, signature.as_deref());
            ch.note(|| short(&data));
            ch.visit(hash_of(&data));

            // Only one of the addresses is kept by the reader
            let mut expected = fields.clone();
            if let Some(address) = &mut expected.address {
                if address[0] == 2 {
                    let mut kept = address_bytes(1, 0);
                    std::mem::swap(address, &mut kept);
                }
            }
            let Some(res) = open(&data)? else {
                return Err(harness::Stop::violation(
                    "packet rejected",
                    format!("packet with flags {flags:012b} is rejected: {}", short(&data)),
                ));
            };
            ensure!(
                res.seen == expected.visible(),
                "packet contents",
                "packet is parsed to other contents: {} instead of {} in {}",
                short(&res.seen),
                short(&expected.visible()),
                short(&data)
            );
            match (res.signature, signature) {
                (None, None) => Ok(()),
                (Some(Some((rest, found))), Some(signature)) => {
                    ensure!(
                        found[..] == signature,
                        "signature",
                        "another signature is extracted from {}",
                        short(&data)
                    );
                    let signed = fields.write(&rand1, &rand2, None);
                    ensure!(
                        rest == signed,
                        "signed contents",
                        "signature is checked for {} instead of {}",
                        short(&rest),
                        short(&signed)
                    );
                    Ok(())
                }
                _ => Err(harness::Stop::violation(
                    "signature presence",
                    format!("signature is lost or made up: {}", short(&data)),
                )),
            }
        },
    );

    let sets = ctx.tiered(4, 8);
    ctx.explore(
        Suite {
            name: "defective packets".to_owned(),
            about: format!(
                "{sets} sets of flags with all kinds of one or two messages, each packet truncated at each byte, \
                extended, with each bit flipped and other words in the place of each word"
            ),
            bound: 0,
        },
        |ch| {
            let flags = [0xcdd, 0x0d4, 0xffb, 0x804, 0xfff, 0x408, 0x80c, 0xc07][ch.choose(sets)];
            let has = |i: usize| flags & (1 << i) != 0;
            let kind = ch.choose(MESSAGES);
            let other = ch.choose(if has(3) { MESSAGES } else { 1 });
            let fields = Fields {
                from: has(0).then(|| key_bytes(0)),
                from_short: has(1).then(|| filler(5, 32).try_into().unwrap()),
                single: has(2).then(|| message_bytes(kind, 6, 1)),
                many: has(3).then(|| vec![message_bytes(kind, 6, 2), message_bytes(other, 5, 3)]),
                address: has(4).then(|| address_bytes(1, 0)),
                priority_address: has(5).then(|| address_bytes(1, 50)),
                seqno: has(6).then_some(5),
                confirm_seqno: has(7).then_some(6),
                address_version: has(8).then_some(7),
                priority_version: has(9).then_some(8),
                reinit: has(10).then_some((9, 10)),
            };
            let signature = has(11).then(|| filler(3, 64));
            let data = fields.write(&[1, 2, 3], &[1, 2, 3, 4, 5, 6, 7], signature.as_deref());
            ch.note(|| short(&data));
            ch.visit(hash_of(&data));
            let mut accepted = 0;
            let res = defects(ch, &data, false, |data, truncated| {
                let Some(res) = open(data)? else {
                    return Ok(());
                };
                accepted += 1;
                ensure!(
                    !truncated,
                    "truncated packet",
                    "packet is accepted: {}",
                    short(data)
                );
                if let Some(Some((rest, signature))) = res.signature {
                    // Nothing but the signature may be missing
                    let len = data.len() - 68;
                    ensure!(
                        rest.len() == len,
                        "signed length",
                        "signature is checked for {} bytes instead of {len}: {}",
                        rest.len(),
                        short(data)
                    );
                    let same = |a: usize| (0..a).filter(|i| rest[*i] != data[*i]).collect::<Vec<_>>();
                    let found = (0..=len).any(|at| {
                        data[at..].get(..68).is_some_and(|s| {
                            (s[0] == 64 && s[1..65] == signature)
                                || (s[..4] == [254, 64, 0, 0] && s[4..] == signature)
                        }) && rest[at..] == data[at + 68..]
                            && matches!(same(at).as_slice(), [i] if rest[*i] ^ data[*i] == 8)
                    });
                    ensure!(
                        found,
                        "signed contents",
                        "signature is checked for {} in {}",
                        short(&rest),
                        short(data)
                    );
                    match open(&rest)? {
                        Some(Extracted {
                            seen,
                            signature: None,
                        }) if seen == res.seen => {}
                        _ => {
                            return Err(harness::Stop::violation(
                                "signed fields",
                                format!("signature is checked for other fields: {} in {}", short(&rest), short(data)),
                            ))
                        }
                    }
                }
                Ok(())
            });
            ch.observe(accepted);
            res
        },
    );

    // Whatever size is allowed by UDP
    ctx.explore(
        Suite {
            name: "large packets".to_owned(),
            about: "packets of up to 65507 bytes with each flag around the signature".to_owned(),
            bound: 0,
        },
        |ch| {
            let total = ch.one_of(&[1024usize, 1500, 32_767, 32_768, 32_772, 65_000, 65_500]);
            let flags = ch.choose(8);
            let mut fields = Fields {
                from: (flags & 1 != 0).then(|| key_bytes(0)),
                seqno: Some(1),
                reinit: (flags & 2 != 0).then_some((9, 10)),
                ..Default::default()
            };
            let signature = (flags & 4 != 0).then(|| filler(3, 64));
            let rand2 = filler(2, ch.one_of(&[3usize, 7, 600]));
            let rest = fields.write(&[1, 2, 3], &rand2, signature.as_deref()).len();
            let len = (total - rest).saturating_sub(16);
            fields.single = Some(message_bytes(0, len, 1));
            let data = fields.write(&[1, 2, 3], &rand2, signature.as_deref());
            ch.note(|| format!("{} bytes", data.len()));
            ch.visit(hash_of(&data));
            check_packet(&data, &fields, (&[1, 2, 3], &rand2), signature.as_deref())
        },
    );
}

// The rest
////////////////////////////////////////////////////////////////////////////////

fn sha(data: &[u8]) -> [u8; 32] {
    Sha256::digest(data).into()
}

fn ids(ctx: &mut Ctx) {
    ctx.explore(
        Suite {
            name: "addresses".to_owned(),
            about: "socket addresses there and back: 9 values of each byte of the ip, 12 ports".to_owned(),
            bound: 0,
        },
        |ch| {
            let bytes = [0u8, 1, 10, 127, 128, 192, 224, 254, 255];
            let ip = [ch.one_of(&bytes), ch.one_of(&bytes), ch.one_of(&bytes), ch.one_of(&bytes)];
            for port in [0u16, 1, 80, 255, 256, 257, 0x7fff, 0x8000, 0x8001, 0xff00, 0xfffe, 0xffff] {
                ch.step();
                let addr = SocketAddrV4::new(Ipv4Addr::from(ip), port);
                let tl = adnl::Address::from(&addr);
                ensure!(
                    tl.ip == u32::from_be_bytes(ip) && tl.port == port as u32,
                    "address",
                    "{addr} is written as {tl:?}"
                );
                let back = SocketAddrV4::from(tl);
                ensure!(back == addr, "address", "{addr} is parsed as {back}");
            }
            ch.visit(hash_of(&ip));
            Ok(())
        },
    );
    ctx.explore(
        Suite {
            name: "ids and signed parts".to_owned(),
            about: "overlay ids of workchains and catchains, what is signed by members of overlays".to_owned(),
            bound: 2,
        },
        |ch| {
            let mut values = Values {
                ch,
                n: 0,
                thorough: false,
            };
            let (a, b) = (values.hash(), values.hash());
            let version = values.int();
            let signed = tl_proto::serialize(overlay::NodeToSign {
                id: &a,
                overlay: &b,
                version,
            });
            let expected = encode(|w| done(w.id(OV_TO_SIGN).hash(&a).hash(&b).int(version)));
            ensure!(
                signed == expected,
                "node to sign",
                "{} is signed instead of {}",
                short(&signed),
                short(&expected)
            );

            let workchain = values.int();
            let full = IdFull::for_workchain_overlay(workchain as i32, &a);
            let expected = encode(|w| done(w.id(SHARD_OVERLAY).int(workchain).long(1 << 63).hash(&a)));
            ensure!(
                *full.as_slice() == sha(&expected),
                "workchain overlay id",
                "id of the overlay of workchain {workchain} is {}",
                hex::encode(full.as_slice())
            );
            let expected = encode(|w| done(w.id(PUB_OVERLAY).bytes(full.as_slice())));
            let short_id = full.compute_short_id();
            ensure!(
                *short_id.as_slice() == sha(&expected),
                "short overlay id",
                "short id of the overlay is {}",
                hex::encode(short_id.as_slice())
            );

            let count = values.variant(6);
            let nodes: Vec<[u8; 32]> = (0..count).map(|_| values.hash()).collect();
            let full = IdFull::for_catchain_overlay(&b, nodes.iter());
            let expected = encode(|w| {
                w.id(CATCHAIN).hash(&b).int(count as u32);
                nodes.iter().for_each(|node| done(w.hash(node)));
            });
            ensure!(
                *full.as_slice() == sha(&expected),
                "catchain overlay id",
                "id of the overlay of a catchain of {count} is {}",
                hex::encode(full.as_slice())
            );
            ch.visit(hash_of(&expected));
            Ok(())
        },
    );
}

fn main() {
    check_main("C28", |ctx| {
        values(ctx);
        packets(ctx);
        ids(ctx);
    })
}
