//! A remote peer (honest or not) whose every packet is made by the harness

use everscale_crypto::ed25519;
use everscale_network::adnl::verif_api::{
    build_handshake_packet, parse_handshake_packet, Channel, ChannelCreationContext, PacketView,
};
use everscale_network::adnl::{Keystore, NodeIdShort};
use everscale_network::proto::adnl as proto;
use tl_proto::{TlPacket, TlWrite};

use crate::nodes::{full_id, keystore, secret, short_id, Sim};
use crate::world::{self, Datagram};

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Msg {
    Answer { id: [u8; 32], data: Vec<u8> },
    Custom(Vec<u8>),
    Confirm { key: [u8; 32], peer_key: [u8; 32], date: u32 },
    Part { hash: [u8; 32], total: u32, offset: u32, data: Vec<u8> },
    Create { key: [u8; 32], date: u32 },
    Query { id: [u8; 32], data: Vec<u8> },
    Nop,
    Reinit(u32),
}

impl Msg {
    pub fn to_bytes(&self) -> Vec<u8> {
        tl_proto::serialize(self.as_proto())
    }

    pub fn as_proto(&self) -> proto::Message<'_> {
        match self {
            Self::Answer { id, data } => proto::Message::Answer { query_id: id, answer: data },
            Self::Custom(data) => proto::Message::Custom { data },
            Self::Confirm { key, peer_key, date } => proto::Message::ConfirmChannel {
                key,
                peer_key,
                date: *date,
            },
            Self::Part { hash, total, offset, data } => proto::Message::Part {
                hash,
                total_size: *total,
                offset: *offset,
                data,
            },
            Self::Create { key, date } => proto::Message::CreateChannel { key, date: *date },
            Self::Query { id, data } => proto::Message::Query { query_id: id, query: data },
            Self::Nop => proto::Message::Nop,
            Self::Reinit(date) => proto::Message::Reinit { date: *date },
        }
    }

    pub fn from_proto(msg: &proto::Message<'_>) -> Self {
        match msg {
            proto::Message::Answer { query_id, answer } => Self::Answer {
                id: **query_id,
                data: answer.to_vec(),
            },
            proto::Message::Custom { data } => Self::Custom(data.to_vec()),
            proto::Message::ConfirmChannel { key, peer_key, date } => Self::Confirm {
                key: **key,
                peer_key: **peer_key,
                date: *date,
            },
            proto::Message::Part { hash, total_size, offset, data } => Self::Part {
                hash: **hash,
                total: *total_size,
                offset: *offset,
                data: data.to_vec(),
            },
            proto::Message::CreateChannel { key, date } => Self::Create {
                key: **key,
                date: *date,
            },
            proto::Message::Query { query_id, query } => Self::Query {
                id: **query_id,
                data: query.to_vec(),
            },
            proto::Message::Nop => Self::Nop,
            proto::Message::Reinit { date } => Self::Reinit(*date),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Signature {
    None,
    /// Valid signature by this key
    By(u8),
    /// Random bytes
    Garbage,
    /// All zeros
    Zero,
    /// Valid signature of another packet by this key
    Foreign(u8),
}

/// Contents of a packet
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Packet {
    pub from: Option<u8>,
    pub from_short: Option<NodeIdShort>,
    pub messages: Vec<Msg>,
    /// Ip, port, version, reinit date, expiration
    pub address: Option<(Option<(u32, u32)>, u32, u32, u32)>,
    pub seqno: Option<u64>,
    pub confirm_seqno: Option<u64>,
    pub reinit: Option<(u32, u32)>,
    pub signature: Signature,
    pub rand1: Vec<u8>,
    pub rand2: Vec<u8>,
}

impl Packet {
    /// Empty packet without anything optional
    pub fn empty() -> Self {
        Self {
            from: None,
            from_short: None,
            messages: vec![Msg::Nop],
            address: None,
            seqno: None,
            confirm_seqno: None,
            reinit: None,
            signature: Signature::None,
            rand1: vec![1, 2, 3],
            rand2: vec![4, 5, 6, 7, 8, 9, 10],
        }
    }

    fn write(&self, signature: Option<&[u8]>) -> Vec<u8> {
        let single = self.messages.len() == 1;
        let flags = self.from.is_some() as u32
            | (self.from_short.is_some() as u32) << 1
            | (single as u32) << 2
            | (!single as u32) << 3
            | (self.address.is_some() as u32) << 4
            | (self.seqno.is_some() as u32) << 6
            | (self.confirm_seqno.is_some() as u32) << 7
            | (self.reinit.is_some() as u32) << 10
            | (signature.is_some() as u32) << 11;
        let mut out: Vec<u8> = Vec::new();
        out.extend_from_slice(&packet_contents_id());
        self.rand1.as_slice().write_to(&mut out);
        out.write_u32(flags);
        if let Some(from) = self.from {
            full_id(from).as_tl().write_to(&mut out);
        }
        if let Some(id) = &self.from_short {
            out.extend_from_slice(id.as_slice());
        }
        if !single {
            out.write_u32(self.messages.len() as u32);
        }
        for message in &self.messages {
            out.extend_from_slice(&message.to_bytes());
        }
        if let Some((address, version, reinit, expire)) = &self.address {
            proto::AddressList {
                address: address.map(|(ip, port)| proto::Address { ip, port }),
                version: *version,
                reinit_date: *reinit,
                expire_at: *expire,
            }
            .write_to(&mut out);
        }
        if let Some(seqno) = self.seqno {
            out.write_u64(seqno);
        }
        if let Some(seqno) = self.confirm_seqno {
            out.write_u64(seqno);
        }
        if let Some((local, target)) = self.reinit {
            out.write_u32(local);
            out.write_u32(target);
        }
        if let Some(signature) = signature {
            signature.write_to(&mut out);
        }
        self.rand2.as_slice().write_to(&mut out);
        out
    }

    pub fn to_bytes(&self) -> Vec<u8> {
        let signature = match self.signature {
            Signature::None => return self.write(None),
            Signature::By(key) => sign(key, &self.write(None)),
            Signature::Foreign(key) => {
                let mut other = self.clone();
                other.seqno = Some(other.seqno.unwrap_or_default() + 1000);
                sign(key, &other.write(None))
            }
            Signature::Garbage => [0x5b; 64],
            Signature::Zero => [0; 64],
        };
        self.write(Some(&signature))
    }
}

/// Constructor, as the implementation writes it
fn packet_contents_id() -> [u8; 4] {
    let bytes = tl_proto::serialize(proto::OutgoingPacketContents {
        rand1: &[],
        from: None,
        messages: proto::OutgoingMessages::Single(&[]),
        address: proto::AddressList {
            address: None,
            version: 0,
            reinit_date: 0,
            expire_at: 0,
        },
        seqno: 0,
        confirm_seqno: 0,
        reinit_dates: None,
        signature: None,
        rand2: &[],
    });
    bytes[..4].try_into().unwrap()
}

pub fn sign(key: u8, data: &[u8]) -> [u8; 64] {
    let secret = ed25519::SecretKey::from_bytes(secret(key));
    let expanded = ed25519::ExpandedSecretKey::from(&secret);
    let public = ed25519::PublicKey::from(&expanded);
    expanded.sign_raw(data, &public)
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Via {
    Handshake,
    Ordinary,
    Priority,
}

/// Parsed packet from a real node
#[derive(Debug, Clone)]
pub struct Opened {
    pub via: Via,
    pub version: Option<u16>,
    pub messages: Vec<Msg>,
    pub seqno: Option<u64>,
    pub confirm_seqno: Option<u64>,
    pub reinit: Option<(u32, u32)>,
    pub address: Option<proto::AddressList>,
    pub to: NodeIdShort,
}

pub struct Puppet {
    pub key: u8,
    /// Number of the node at whose address it is
    pub index: usize,
    pub reinit: u32,
    pub seqno: u64,
    keystore: Keystore,
    pub channel_key: ed25519::KeyPair,
    pub channel: Option<Channel>,
}

impl Puppet {
    pub fn new(key: u8, index: usize) -> Self {
        Self {
            key,
            index,
            reinit: world::now(),
            seqno: 0,
            keystore: keystore(&[key]),
            channel_key: channel_key(key, 0),
            channel: None,
        }
    }

    pub fn id(&self) -> NodeIdShort {
        short_id(self.key)
    }

    /// Makes this peer known to the node
    pub fn introduce(&self, to: &Sim) {
        assert!(to.add_as(to.key(), self.key, self.index));
    }

    pub fn address(&self) -> (Option<(u32, u32)>, u32, u32, u32) {
        let addr = world::addr(self.index);
        let now = world::now();
        (
            Some((u32::from_be_bytes(addr.ip().octets()), addr.port() as u32)),
            now,
            self.reinit,
            now + 1000,
        )
    }

    /// What an honest node would send in a handshake
    pub fn honest(&mut self, messages: Vec<Msg>) -> Packet {
        self.seqno += 1;
        Packet {
            from: Some(self.key),
            from_short: None,
            messages,
            address: Some(self.address()),
            seqno: Some(self.seqno),
            confirm_seqno: Some(0),
            reinit: Some((self.reinit, 0)),
            signature: Signature::By(self.key),
            rand1: vec![1, 2, 3],
            rand2: vec![4, 5, 6, 7, 8, 9, 10],
        }
    }

    /// Puts the bytes of a packet into a handshake for the key
    pub fn seal_for(&self, to: u8, contents: &[u8], version: Option<u16>) -> Vec<u8> {
        let mut data = contents.to_vec();
        build_handshake_packet(&short_id(to), &full_id(to), &mut data, version);
        data
    }

    /// Delivers the packet as a handshake
    pub async fn deliver(&self, to: &Sim, packet: &Packet) {
        let data = self.seal_for(to.key(), &packet.to_bytes(), None);
        world::deliver_raw(world::port(to.index), world::port(self.index), data).await;
    }

    /// Delivers messages in an honest handshake
    pub async fn say(&mut self, to: &Sim, messages: Vec<Msg>) {
        let packet = self.honest(messages);
        self.deliver(to, &packet).await;
    }

    /// Packet for the channel
    pub fn channel_packet(&mut self, messages: Vec<Msg>) -> Packet {
        self.seqno += 1;
        Packet {
            messages,
            address: Some(self.address()),
            seqno: Some(self.seqno),
            confirm_seqno: Some(0),
            ..Packet::empty()
        }
    }

    pub fn seal_in_channel(&self, contents: &[u8], priority: bool, version: Option<u16>) -> Vec<u8> {
        let mut data = contents.to_vec();
        self.channel
            .as_ref()
            .expect("no channel")
            .encrypt(&mut data, priority, version);
        data
    }

    pub async fn deliver_in_channel(&self, to: &Sim, packet: &Packet, priority: bool) {
        let data = self.seal_in_channel(&packet.to_bytes(), priority, None);
        world::deliver_raw(world::port(to.index), world::port(self.index), data).await;
    }

    /// Creates the channel from the key of the node
    pub fn set_channel(&mut self, with: &NodeIdShort, peer_key: [u8; 32], date: u32) {
        self.channel = Some(Channel::new(
            self.id(),
            *with,
            &self.channel_key,
            ed25519::PublicKey::from_bytes(peer_key).unwrap(),
            date,
            ChannelCreationContext::ConfirmChannel,
        ));
    }

    /// Establishes the channel with the node
    pub async fn connect(&mut self, node: &Sim) {
        self.introduce(node);
        let create = Msg::Create {
            key: *self.channel_key.public_key.as_bytes(),
            date: world::now(),
        };
        self.say(node, vec![create]).await;
        // The key of the other side is in its next handshake
        node.node
            .send_custom_message(&node.id(), &self.id(), &[0; 4])
            .unwrap();
        world::settle().await;
        for datagram in world::take_sent() {
            if let Some(opened) = self.open(&datagram) {
                for message in opened.messages {
                    if let Msg::Confirm { key, date, .. } = message {
                        self.set_channel(&node.id(), key, date);
                    }
                }
            }
        }
        let packet = self.channel_packet(vec![Msg::Nop]);
        self.deliver_in_channel(node, &packet, false).await;
        assert!(self.channel.is_some());
    }

    /// Decrypts what was sent to this peer
    pub fn open(&self, datagram: &Datagram) -> Option<Opened> {
        self.open_bytes(&datagram.data)
    }

    pub fn open_bytes(&self, data: &[u8]) -> Option<Opened> {
        let mut copy = data.to_vec();
        let mut view = PacketView::from(copy.as_mut_slice());
        let parsed = if data.len() >= 96 {
            parse_handshake_packet(self.keystore.keys(), &mut view).ok()?
        } else {
            None
        };
        let (via, to, version) = match parsed {
            Some((to, version)) => (Via::Handshake, to, version),
            None => {
                let channel = self.channel.as_ref()?;
                let priority = if &data[..32] == channel.ordinary_channel_in_id() {
                    false
                } else if &data[..32] == channel.priority_channel_in_id() {
                    true
                } else {
                    return None;
                };
                let version = channel.decrypt(&mut view, priority).ok()?;
                let via = if priority { Via::Priority } else { Via::Ordinary };
                (via, self.id(), version)
            }
        };
        let packet: proto::IncomingPacketContents<'_> = tl_proto::deserialize(view.as_slice()).ok()?;
        Some(Opened {
            via,
            version,
            messages: packet.messages.iter().map(Msg::from_proto).collect(),
            seqno: packet.seqno,
            confirm_seqno: packet.confirm_seqno,
            reinit: packet.reinit_dates.map(|d| (d.local, d.target)),
            address: packet.address,
            to,
        })
    }
}

/// Channel key pair number `n` of the peer
pub fn channel_key(key: u8, n: u8) -> ed25519::KeyPair {
    let mut bytes = secret(key);
    bytes[1] = 0xc0;
    bytes[2] = n;
    ed25519::KeyPair::from(&ed25519::SecretKey::from_bytes(bytes))
}
