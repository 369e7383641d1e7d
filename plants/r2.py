import sys; sys.path.insert(0, '/verif'); sys.path.insert(0, '/verif/plants')
from mkplant import plant
from common import COMMON

plant('c02-lookalike', 'C02',
  'a channel packet without a version (one of 65536) whose checksum and first bytes look like those of a packet with a version',
  'such a packet stays garbled by the attempt to decrypt it as one with a version, so its message is lost',
  [('src/adnl/channel.rs',
    '''                // Otherwise restore data
                cipher.seek(0);
                cipher.apply_keystream(&mut buffer[EXT_DATA_RANGE]);
''',
    '''                // Otherwise treat it as an ordinary packet
''')],
  '''// in: adnl/mod.rs
use crate::adnl::channel::*;
use crate::adnl::packet_view::*;
use crate::adnl::*;
use everscale_crypto::ed25519;

fn key(n: u8) -> ed25519::KeyPair {
    ed25519::KeyPair::from(&ed25519::SecretKey::from_bytes([n; 32]))
}

fn id(n: u8) -> NodeIdShort {
    NodeIdFull::new(key(n).public_key).compute_short_id()
}

#[test]
fn every_packet_is_decrypted() {
    let (a, b) = (key(3), key(4));
    let context = ChannelCreationContext::ConfirmChannel;
    let from_a = Channel::new(id(1), id(2), &a, b.public_key, 1, context);
    let from_b = Channel::new(id(2), id(1), &b, a.public_key, 1, context);
    let mut lookalikes = 0;
    for n in 0..2_000_000u32 {
        let mut content = vec![0u8; 24];
        content[..4].copy_from_slice(&n.to_le_bytes());
        let mut packet = content.clone();
        from_a.encrypt(&mut packet, false, None);
        let mut xor = [0u8; 4];
        for (i, byte) in packet[..68].iter().enumerate() {
            xor[i % 4] ^= *byte;
        }
        if xor[0] != xor[2] || xor[1] != xor[3] {
            continue;
        }
        lookalikes += 1;
        let mut view = PacketView::from(packet.as_mut_slice());
        assert_eq!(from_b.decrypt(&mut view, false).expect("packet is lost"), None);
        assert_eq!(view.as_slice(), content);
        if lookalikes == 3 {
            return;
        }
    }
    panic!("only {lookalikes} packets");
}
''')

plant('c06-half-reset', 'C06',
  'a peer which restarts after packets were exchanged on the priority flow',
  'the priority history of received packets survives the restart, so the packets of the new incarnation are taken for old ones',
  [('src/adnl/peer.rs',
    '''                    self.receiver_state.history(false).reset();
                    self.receiver_state.history(true).reset();
''',
    '''                    self.receiver_state.history(false).reset();
''')],
  '''// in: adnl/mod.rs
use crate::adnl::*;
use std::net::{Ipv4Addr, SocketAddrV4};

#[test]
fn restart_forgets_both_flows() {
    let key = Key::from_bytes([7; 32]);
    let peer = peer::Peer::new(100, SocketAddrV4::new(Ipv4Addr::LOCALHOST, 1), *key.full_id());
    assert!(peer.try_reinit_sender(50).is_some());
    for priority in [false, true] {
        for seqno in 1..=600 {
            assert!(peer.receiver_state().history(priority).deliver_packet(seqno));
        }
    }
    assert!(peer.try_reinit_sender(60).is_some());
    for priority in [false, true] {
        for seqno in 1..=5 {
            assert!(
                peer.receiver_state().history(priority).deliver_packet(seqno),
                "packet {seqno} of the restarted peer, priority: {priority}"
            );
        }
    }
}
''')

plant('c08-empty-answer', 'C08',
  'a subscriber which answers a query with no bytes at all',
  'an empty answer is taken for no answer, so the asking side waits until its timeout',
  [('src/subscriber/mod.rs',
    'return Ok(QueryProcessingResult::Processed(answer))',
    'return Ok(QueryProcessingResult::Processed(answer.filter(|answer| !answer.is_empty())))')],
  COMMON + '''
struct Quiet;

#[async_trait::async_trait]
impl QuerySubscriber for Quiet {
    async fn try_consume_query<'a>(
        &self,
        _: SubscriberContext<'a>,
        _: u32,
        _: std::borrow::Cow<'a, [u8]>,
    ) -> anyhow::Result<QueryConsumingResult<'a>> {
        Ok(QueryConsumingResult::Consumed(Some(Vec::new())))
    }
}

#[tokio::test]
async fn empty_answer_arrives() {
    let (a, _, a_id, _) = node(1);
    let keystore = Keystore::builder().with_tagged_key([2; 32], 0).unwrap().build();
    let b = Node::new(
        SocketAddrV4::new(Ipv4Addr::LOCALHOST, free_port()),
        keystore,
        NodeOptions::default(),
        None,
    )
    .unwrap();
    b.add_query_subscriber(Arc::new(Quiet)).unwrap();
    let key = b.key_by_tag(0).unwrap().clone();
    a.start().unwrap();
    b.start().unwrap();
    assert!(a.add_peer(NewPeerContext::Dht, &a_id, key.id(), b.socket_addr(), *key.full_id()).unwrap());
    let mut answer = None;
    for _ in 0..3 {
        answer = a.query_raw(&a_id, key.id(), vec![1u8; 16].into(), Some(1500)).await.unwrap();
        if answer.is_some() {
            break;
        }
        tokio::time::sleep(Duration::from_millis(50)).await;
    }
    assert_eq!(answer, Some(Vec::new()));
}
''')

plant('c10-too-few-filled', 'C10',
  'a set is filled from another one of which several peers are excluded',
  'fewer peers are added than requested, though the other set has enough of them',
  [('src/adnl/peers_set.rs',
    'Some(peers) => amount as usize + peers.len(),',
    'Some(peers) => std::cmp::max(amount as usize, peers.len()),')],
  '''// in: adnl/mod.rs
use crate::adnl::*;
use crate::util::*;

#[test]
fn enough_of_them() {
    let other = PeersSet::with_capacity(10);
    for i in 0..8u8 {
        assert!(other.insert(NodeIdShort::new([i; 32])));
    }
    let except = FastDashSet::default();
    for i in 0..4u8 {
        except.insert(NodeIdShort::new([i; 32]));
    }
    for _ in 0..50 {
        let set = PeersSet::with_capacity(10);
        set.randomly_fill_from(&other, 4, Some(&except));
        assert_eq!(set.len(), 4);
        for i in 0..4u8 {
            assert!(!set.contains(&NodeIdShort::new([i; 32])));
        }
    }
}
''')

plant('c13-any-name', 'C13',
  'a list of overlay nodes which is stored under the key of the overlay with another name than "nodes"',
  'anybody can store lists of overlay nodes under arbitrary names',
  [('src/dht/storage.rs',
    'if value.key.key != required_key {',
    'if value.key.key.id != required_key.id || value.key.key.idx != required_key.idx {')],
  '''// in: dht/mod.rs
use crate::adnl;
use crate::dht::storage::*;
use crate::overlay;
use crate::proto;
use crate::util::now;
use tl_proto::BoxedConstructor;

#[test]
fn only_the_required_key() {
    let overlay_key = everscale_crypto::tl::PublicKey::Overlay { name: &[5; 32] };
    let id = tl_proto::hash(overlay_key);
    let overlay_id = overlay::IdShort::from(id);
    let key = adnl::Key::from_bytes([9; 32]);
    let version = now();
    let mut node = proto::overlay::Node {
        id: key.full_id().as_tl(),
        overlay: overlay_id.as_slice(),
        version,
        signature: &[],
    };
    let to_sign = proto::overlay::NodeToSign {
        id: key.id().as_slice(),
        overlay: overlay_id.as_slice(),
        version,
    };
    let signature = key.sign(to_sign);
    node.signature = &signature;
    let nodes = tl_proto::serialize(proto::overlay::Nodes { nodes: vec![node].into() }.as_boxed());
    for (name, allowed) in [("nodes", true), ("address", false), ("", false)] {
        let storage = Storage::new(StorageOptions {
            max_key_name_len: 127,
            max_key_index: 15,
        });
        let value = proto::dht::Value {
            key: proto::dht::KeyDescription {
                key: proto::dht::Key {
                    id: &id,
                    name: name.as_bytes(),
                    idx: 0,
                },
                id: overlay_key,
                update_rule: proto::dht::UpdateRule::OverlayNodes,
                signature: &[],
            },
            value: &nodes,
            ttl: now() + 100,
            signature: &[],
        };
        assert_eq!(storage.insert(value).is_ok(), allowed, "name {name:?}");
    }
}
''')

plant('c14-last-second', 'C14',
  'a lookup of a stored value within the very second at which it expires',
  'an expired value is returned for one more second',
  [('src/dht/storage.rs', 'Some(item) if item.ttl > now() => Some(item),', 'Some(item) if item.ttl >= now() => Some(item),')],
  '''// in: dht/mod.rs
use crate::adnl;
use crate::dht::storage::*;
use crate::proto;
use crate::util::now;
use tl_proto::BoxedConstructor;

#[test]
fn expired_value_is_not_returned() {
    let key = adnl::Key::from_bytes([9; 32]);
    let storage = Storage::new(StorageOptions {
        max_key_name_len: 127,
        max_key_index: 15,
    });
    let ttl = now() + 3;
    let mut description = proto::dht::KeyDescription {
        key: proto::dht::Key {
            id: key.id().as_slice(),
            name: b"test",
            idx: 0,
        },
        id: key.full_id().as_tl(),
        update_rule: proto::dht::UpdateRule::Signature,
        signature: &[],
    };
    let id = tl_proto::hash_as_boxed(description.key);
    let key_signature = key.sign(description.as_boxed());
    description.signature = &key_signature;
    let mut value = proto::dht::Value {
        key: description,
        value: &[1],
        ttl,
        signature: &[],
    };
    let signature = key.sign(value.as_boxed());
    value.signature = &signature;
    assert!(storage.insert(value).unwrap());
    assert!(storage.get_ref(&id).is_some());
    while now() < ttl {
        std::thread::sleep(std::time::Duration::from_millis(10));
    }
    // The second of the expiration has just begun
    assert!(storage.get_ref(&id).is_none());
}
''')

plant('c16-older-description', 'C16',
  'a description of a known DHT peer which is older than the known one, arriving after it',
  'an outdated description of a peer replaces the newer one in the routing table',
  [('src/dht/buckets.rs',
    'if entry.get().version < peer.version {',
    'if entry.get().version != peer.version {')],
  '''// in: dht/mod.rs
use crate::adnl;
use crate::dht::buckets::*;
use crate::proto;

#[test]
fn newest_description_stays() {
    let key = adnl::Key::from_bytes([9; 32]);
    let buckets = Buckets::new(&adnl::NodeIdShort::new([3; 32]));
    let node = |version: u32| proto::dht::NodeOwned {
        id: key.full_id().as_tl().as_equivalent_owned(),
        addr_list: proto::adnl::AddressList {
            address: None,
            version,
            reinit_date: 0,
            expire_at: 0,
        },
        version,
        signature: Vec::new().into(),
    };
    let mut newest = 0;
    for version in [10, 12, 11, 13, 5] {
        newest = newest.max(version);
        buckets.insert(key.id(), node(version));
        let found = buckets.find(*key.id().as_slice(), 10).nodes;
        let all: Vec<u32> = buckets.iter().flat_map(|b| b.iter().map(|n| n.version).collect::<Vec<_>>()).collect();
        assert_eq!(all, [newest], "after {version}, found {}", found.len());
    }
}
''')

plant('c19-silent-part', 'C19',
  'a message of several parts, where all replies which complete a part are lost',
  'symbols of the previous part are not answered any more, so the sender repeats that part until the timeout',
  [('src/rldp/incoming_transfer.rs',
    """            std::cmp::Ordering::Less => {
                tl_proto::serialize_into(
""",
    """            // Everybody knows that the previous part is complete
            std::cmp::Ordering::Less if message.part + 1 == self.part => return Ok(None),
            std::cmp::Ordering::Less => {
                tl_proto::serialize_into(
""")],
  '''// in: rldp/mod.rs
use crate::rldp::encoder::*;
use crate::rldp::incoming_transfer::*;

#[test]
fn complete_part_is_always_confirmed() {
    let data = vec![5u8; 2000];
    let mut transfer = IncomingTransfer::new([1; 32], 10_000);
    for repeated in [false, true, true] {
        let mut encoder = RaptorQEncoder::with_data(&data);
        let mut seqno = 0;
        let mut confirmed = false;
        for _ in 0..encoder.params().packet_count {
            let data = encoder.encode(&mut seqno).unwrap();
            let message = MessagePart {
                fec_type: *encoder.params(),
                part: 0,
                total_size: 5000,
                seqno,
                data,
            };
            seqno += 1;
            confirmed |= transfer.process_chunk(message).unwrap().is_some();
        }
        assert!(confirmed, "part which was received before: {repeated}");
    }
}
''')

plant('c20-shrinking-total', 'C20',
  'a transfer whose later packets announce a smaller total size than the first one',
  'parts which contradict the announced size of a transfer are accepted',
  [('src/rldp/incoming_transfer.rs',
    'Some(total_size) if total_size != message.total_size as usize => {',
    'Some(total_size) if total_size < message.total_size as usize => {')],
  '''// in: rldp/mod.rs
use crate::rldp::encoder::*;
use crate::rldp::incoming_transfer::*;

#[test]
fn total_size_does_not_change() {
    let data = vec![5u8; 2000];
    let mut encoder = RaptorQEncoder::with_data(&data);
    let mut transfer = IncomingTransfer::new([1; 32], 10_000);
    let mut seqno = 0;
    let mut part = |total_size: u64| {
        let data = encoder.encode(&mut seqno).unwrap();
        let message = MessagePart {
            fec_type: *encoder.params(),
            part: 0,
            total_size,
            seqno,
            data,
        };
        seqno += 1;
        message
    };
    assert!(transfer.process_chunk(part(2000)).is_ok());
    assert!(transfer.process_chunk(part(1999)).is_err());
    assert!(transfer.process_chunk(part(2001)).is_err());
    assert!(transfer.process_chunk(part(2000)).is_ok());
}
''')

plant('c21-wrapped-repair', 'C21',
  'more than 4096 symbols of one part, as when the receiver loses most of them',
  'repair symbols with high numbers repeat earlier ones and are announced under those numbers, so they add nothing',
  [('src/rldp/encoder.rs',
    '.repair_packets(*seqno, 1).pop()', '.repair_packets(*seqno & 0xfff, 1).pop()')],
  '''// in: rldp/mod.rs
use crate::rldp::decoder::*;
use crate::rldp::encoder::*;

#[test]
fn late_symbols_are_new_ones() {
    let data: Vec<u8> = (0..3000u32).map(|i| i as u8).collect();
    let mut encoder = RaptorQEncoder::with_data(&data);
    let mut decoder = RaptorQDecoder::with_params(*encoder.params()).unwrap();
    let count = encoder.params().packet_count;
    for _ in 0..count {
        encoder.encode(&mut 0).unwrap();
    }
    let mut repeated = 0;
    for i in count..count + 40 {
        let (mut a, mut b) = (i, i + 4096);
        let early = encoder.encode(&mut a).unwrap();
        let late = encoder.encode(&mut b).unwrap();
        repeated += usize::from(early == late);
        for (seqno, symbol) in [(a, early), (b, late)] {
            if let Some(got) = decoder.decode(seqno, symbol).unwrap() {
                assert_eq!(got, data);
            }
        }
    }
    assert!(repeated < 20, "{repeated} of 40 symbols are repeated");
}
''')

plant('c22-short-size', 'C22',
  'data of at least 65536 bytes which is compressed',
  'the size in the trailer is cut to 16 bits, so big compressed data is not recognized and arrives compressed',
  [('src/rldp/compression.rs',
    '(uncompressed as u32).to_be_bytes()', '(uncompressed as u16 as u32).to_be_bytes()')],
  '''
use crate::rldp::compression;

#[test]
fn every_size() {
    for len in [1000usize, 65535, 65536, 65537, 200_000] {
        let data: Vec<u8> = (0..len).map(|i| (i / 7) as u8).collect();
        let mut compressed = data.clone();
        compression::compress(&mut compressed).unwrap();
        assert_eq!(compression::decompress(&compressed), Some(data), "{len} bytes");
    }
}
''')

plant('c26-never-again', 'C26',
  'a public overlay peer which was removed from the overlay and later added again',
  'a peer which was added again stays ignored',
  [('src/overlay/overlay.rs', '        self.ignored_peers.remove(peer_id);\n', '')],
  COMMON + '''
#[tokio::test]
async fn added_again() {
    let (a, _, a_id, _) = node(1);
    let overlays = crate::overlay::Node::new(a.clone(), 0).unwrap();
    let id = crate::overlay::IdShort::from([4; 32]);
    let (overlay, _) = overlays.add_public_overlay(&id, Default::default());
    let peer = Key::from_bytes([9; 32]);
    let version = crate::util::now();
    let signature = peer.sign(crate::proto::overlay::NodeToSign {
        id: peer.id().as_slice(),
        overlay: id.as_slice(),
        version,
    });
    let description = || crate::proto::overlay::Node {
        id: peer.full_id().as_tl(),
        overlay: id.as_slice(),
        version,
        signature: &signature,
    };
    let addr = SocketAddrV4::new(Ipv4Addr::LOCALHOST, free_port());
    assert!(overlay.add_public_peer(&a, addr, description()).unwrap().is_some());
    assert!(overlay.is_active_public_peer(peer.id()));
    assert!(overlay.remove_public_peer(peer.id()));
    assert!(!overlay.is_active_public_peer(peer.id()));
    a.remove_peer(&a_id, peer.id()).unwrap();
    assert!(overlay.add_public_peer(&a, addr, description()).unwrap().is_some());
    assert!(overlay.is_active_public_peer(peer.id()));
}
''')

plant('c27-second-subscriber', 'C27',
  'a second subscriber for the queries of an overlay which already has one',
  'the refused second subscriber replaces the first one and gets its queries',
  [('src/overlay/node.rs',
    '''                entry.insert(subscriber);
                true
            }
            Entry::Occupied(_) => false,
''',
    '''                entry.insert(subscriber);
                true
            }
            Entry::Occupied(mut entry) => {
                entry.insert(subscriber);
                false
            }
''')],
  COMMON + '''
struct Answer(u8);

#[async_trait::async_trait]
impl QuerySubscriber for Answer {
    async fn try_consume_query<'a>(
        &self,
        _: SubscriberContext<'a>,
        _: u32,
        _: std::borrow::Cow<'a, [u8]>,
    ) -> anyhow::Result<QueryConsumingResult<'a>> {
        Ok(QueryConsumingResult::Consumed(Some(vec![self.0])))
    }
}

#[tokio::test]
async fn the_first_subscriber_stays() {
    use tl_proto::TlWrite;
    let (a, _, a_id, _) = node(1);
    let overlays = crate::overlay::Node::new(a.clone(), 0).unwrap();
    let id = crate::overlay::IdShort::from([4; 32]);
    assert!(overlays.add_overlay_subscriber(id, Arc::new(Answer(1))));
    assert!(!overlays.add_overlay_subscriber(id, Arc::new(Answer(2))));
    let mut query = Vec::new();
    crate::proto::rpc::OverlayQuery { overlay: id.as_slice() }.write_to(&mut query);
    let constructor = u32::from_le_bytes(query[..4].try_into().unwrap());
    query.extend_from_slice(&[1, 2, 3, 4, 5, 6, 7, 8]);
    let peer = NodeIdShort::new([8; 32]);
    let res = overlays
        .query_subscriber()
        .try_consume_query(
            SubscriberContext {
                adnl: &a,
                local_id: &a_id,
                peer_id: &peer,
            },
            constructor,
            query.into(),
        )
        .await
        .unwrap();
    match res {
        QueryConsumingResult::Consumed(answer) => assert_eq!(answer, Some(vec![1])),
        QueryConsumingResult::Rejected(_) => panic!("rejected"),
    }
}
''')

plant('c29-empty-datagram', 'C29',
  'an empty datagram from anybody',
  'a running node stops serving datagrams',
  [('src/adnl/node/receiver.rs',
    '''                    Ok((0, _)) => continue,
''',
    '''                    Ok((0, _)) => break,
''')],
  COMMON + '''
#[tokio::test]
async fn node_survives_an_empty_datagram() {
    let (a, _app, a_id, a_full) = node(1);
    let (b, _app_b, b_id, b_full) = node(2);
    a.start().unwrap();
    b.start().unwrap();
    assert!(a.add_peer(NewPeerContext::Dht, &a_id, &b_id, b.socket_addr(), b_full).unwrap());
    assert!(b.add_peer(NewPeerContext::Dht, &b_id, &a_id, a.socket_addr(), a_full).unwrap());
    let socket = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
    socket.send_to(&[], b.socket_addr()).unwrap();
    tokio::time::sleep(Duration::from_millis(200)).await;
    let mut answer = None;
    for _ in 0..10 {
        answer = a.query_raw(&a_id, &b_id, vec![1u8; 16].into(), Some(1000)).await.unwrap();
        if answer.is_some() {
            break;
        }
    }
    assert!(answer.is_some());
    a.shutdown();
    b.shutdown();
}
''')

plant('c30-skipped-part', 'C30',
  'a completion of a part which the sender has not reached, from a confused or hostile receiver',
  'the sender skips parts which were not received',
  [('src/rldp/outgoing_transfer.rs',
    '''        let _ = self
            .part
            .compare_exchange(part - 1, part, Ordering::Release, Ordering::Relaxed);
''',
    '''        self.part.fetch_max(part, Ordering::AcqRel);
''')],
  '''// in: rldp/mod.rs
use crate::rldp::outgoing_transfer::*;

#[test]
fn parts_follow_each_other() {
    let state = OutgoingTransferState::default();
    state.set_part(3);
    assert_eq!(state.part(), 0);
    state.set_part(1);
    assert_eq!(state.part(), 1);
    state.set_part(1);
    assert_eq!(state.part(), 1);
    state.set_part(2);
    assert_eq!(state.part(), 2);
}
''')
