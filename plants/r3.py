import sys; sys.path.insert(0, '/verif'); sys.path.insert(0, '/verif/plants')
from mkplant import plant
from common import COMMON

DHT = '''
use std::net::{Ipv4Addr, SocketAddrV4};
use std::sync::Arc;

use tl_proto::{BoxedConstructor, BoxedWrapper};

use crate::adnl;
use crate::dht;
use crate::proto;

fn dht_node(key: u8) -> (Arc<dht::Node>, proto::dht::NodeOwned) {
    let keystore = adnl::Keystore::builder().with_tagged_key([key; 32], 0).unwrap().build();
    let adnl = adnl::Node::new(
        SocketAddrV4::new(Ipv4Addr::LOCALHOST, 0),
        keystore,
        Default::default(),
        None,
    )
    .unwrap();
    let node = dht::Node::new(adnl.clone(), 0, Default::default()).unwrap();
    adnl.start().unwrap();
    let addr_list = adnl.build_address_list();
    let mut info = proto::dht::NodeOwned {
        id: node.key().full_id().as_tl().as_equivalent_owned(),
        version: addr_list.version,
        addr_list,
        signature: Default::default(),
    };
    info.signature = node.key().sign(info.as_boxed()).to_vec().into();
    (node, info)
}
'''

plant('c31-short-address', 'C31',
  'an address which was announced more than the validity of the addresses in packets ago, but less than the validity of DHT values',
  'the announced address is stored for an hour, but is not accepted by others after about a quarter of it',
  [('src/dht/node.rs',
    '''                    reinit_date: self.adnl.start_time(),
                    expire_at: 0,
''',
    '''                    reinit_date: self.adnl.start_time(),
                    expire_at: now() + self.adnl.options().address_list_timeout_sec,
''')],
  DHT + '''
#[tokio::test]
async fn address_is_valid_as_long_as_the_value() {
    let (a, a_info) = dht_node(1);
    let (b, b_info) = dht_node(2);
    assert!(a.add_dht_peer(b_info).unwrap().is_some());
    assert!(b.add_dht_peer(a_info).unwrap().is_some());
    a.store_address(a.key(), a.adnl().socket_addr()).await.unwrap();
    type List = BoxedWrapper<proto::adnl::AddressList>;
    let (_, BoxedWrapper(list)) = b
        .entry(a.key().id(), dht::KEY_ADDRESS)
        .value_from::<List>(a.key().id())
        .await
        .unwrap()
        .expect("not stored");
    let soon = crate::util::now() + a.options().value_ttl_sec - 120;
    assert!(list.expire_at == 0 || list.expire_at > soon, "expires too early");
}
''')

plant('c17-first-batch', 'C17',
  'a node which knows more peers than one batch',
  'values are offered only to the first few known peers instead of all of them',
  [('src/dht/futures.rs',
    '''            for &peer_id in self.dht.iter_known_peers() {
''',
    '''            let batch_len = self.dht.options().default_value_batch_len;
            for &peer_id in self.dht.iter_known_peers().take(batch_len) {
''')],
  DHT + '''
#[tokio::test]
async fn everyone_is_offered_the_value() {
    let (a, _) = dht_node(1);
    let mut others = Vec::new();
    for i in 2..10 {
        let (other, info) = dht_node(i);
        assert!(a.add_dht_peer(info).unwrap().is_some());
        others.push(other);
    }
    for _ in 0..3 {
        a.entry(a.key().id(), "name")
            .with_data_raw(&[1; 16])
            .sign_and_store(a.key())
            .unwrap()
            .await;
    }
    for other in &others {
        assert_eq!(other.metrics().storage_len, 1);
    }
}
''')

plant('c15-bad-hides', 'C15',
  'a peer which answers earlier than others and has only an outdated address list',
  'the lookup of the address gives up after the first value which can not be used, although another peer has a good one',
  [('src/dht/node.rs',
    '''                (Ok(addr), Ok(full_id)) => return Ok((addr, full_id)),
                _ => continue,
''',
    '''                (Ok(addr), Ok(full_id)) => return Ok((addr, full_id)),
                _ => break,
''')],
  DHT + '''
#[tokio::test]
async fn bad_list_does_not_hide_a_good_one() {
    let (a, _) = dht_node(1);
    let (b, b_info) = dht_node(2);
    let (c, c_info) = dht_node(3);
    assert!(a.add_dht_peer(b_info).unwrap().is_some());
    assert!(a.add_dht_peer(c_info).unwrap().is_some());
    let addr = SocketAddrV4::new(Ipv4Addr::new(1, 2, 3, 4), 5);
    for i in 0..20 {
        let owner = adnl::Key::from_bytes([100 + i; 32]);
        let (good, bad) = if i % 2 == 0 { (&b, &c) } else { (&c, &b) };
        for (node, expire_at) in [(good, 0), (bad, 1)] {
            let list = proto::adnl::AddressList {
                address: Some(proto::adnl::Address::from(&addr)),
                version: 1,
                reinit_date: 1,
                expire_at,
            };
            node.entry(owner.id(), dht::KEY_ADDRESS)
                .with_data(list.into_boxed())
                .sign_and_store(&owner)
                .unwrap()
                .only_locally();
        }
        let (found, _) = a.find_address(owner.id()).await.expect("not found");
        assert_eq!(found, addr);
    }
}
''')

plant('c18-capped', 'C18',
  'a peer which did not answer five queries or more in a row',
  'the penalty stops to grow, so such a peer is used again too early',
  [('src/dht/node.rs',
    '''                    *entry.get_mut() += 2;
''',
    '''                    // Silent peers should have a chance to return
                    *entry.get_mut() = std::cmp::min(*entry.get() + 2, 9);
''')],
  '''// in: dht/node.rs
use crate::adnl;
use std::net::{Ipv4Addr, SocketAddrV4};

#[tokio::test]
async fn every_failure_counts() {
    let keystore = adnl::Keystore::builder().with_tagged_key([1; 32], 0).unwrap().build();
    let adnl = adnl::Node::new(
        SocketAddrV4::new(Ipv4Addr::LOCALHOST, 0),
        keystore,
        Default::default(),
        None,
    )
    .unwrap();
    let node = super::Node::new(adnl, 0, Default::default()).unwrap();
    let peer = adnl::NodeIdShort::new([7; 32]);
    for _ in 0..8 {
        node.state.update_peer_status(&peer, false);
    }
    for _ in 0..10 {
        assert!(node.is_bad_peer(&peer));
        node.state.update_peer_status(&peer, true);
    }
    assert!(node.is_bad_peer(&peer));
    node.state.update_peer_status(&peer, true);
    assert!(!node.is_bad_peer(&peer));
}
''')

plant('c05-silent-reset', 'C05',
  'a peer which sends over the ordinary variant of the channel, while queries to it are not answered',
  'only priority packets keep the channel, so a channel which is in use is dropped',
  [('src/adnl/node/receiver.rs',
    '''            channel.reset_drop_timeout();
''',
    '''            if priority {
                channel.reset_drop_timeout();
            }
''')],
  '''// in: adnl/node/mod.rs
use crate::adnl::*;
use crate::subscriber::*;
use std::net::{Ipv4Addr, SocketAddrV4};
use std::sync::Arc;
use std::time::Duration;

struct App;

#[async_trait::async_trait]
impl MessageSubscriber for App {
    async fn try_consume_custom<'a>(&self, _: SubscriberContext<'a>, _: u32, _: &'a [u8]) -> anyhow::Result<bool> {
        Ok(true)
    }
}

#[async_trait::async_trait]
impl QuerySubscriber for App {
    async fn try_consume_query<'a>(
        &self,
        _: SubscriberContext<'a>,
        _: u32,
        _: std::borrow::Cow<'a, [u8]>,
    ) -> anyhow::Result<QueryConsumingResult<'a>> {
        Ok(QueryConsumingResult::Consumed(None))
    }
}

fn node(key: u8) -> Arc<Node> {
    let keystore = Keystore::builder().with_tagged_key([key; 32], 0).unwrap().build();
    let options = NodeOptions {
        force_use_priority_channels: false,
        channel_reset_timeout_sec: 1,
        ..Default::default()
    };
    let node = Node::new(SocketAddrV4::new(Ipv4Addr::LOCALHOST, 0), keystore, options, None).unwrap();
    node.add_message_subscriber(Arc::new(App)).unwrap();
    node.add_query_subscriber(Arc::new(App)).unwrap();
    node.start().unwrap();
    node
}

#[tokio::test]
async fn channel_in_use_is_kept() {
    let (a, b) = (node(1), node(2));
    let (a_key, b_key) = (a.key_by_tag(0).unwrap(), b.key_by_tag(0).unwrap());
    for (x, x_key, y, y_key) in [(&a, a_key, &b, b_key), (&b, b_key, &a, a_key)] {
        assert!(x
            .add_peer(NewPeerContext::Dht, x_key.id(), y_key.id(), y.socket_addr(), *y_key.full_id())
            .unwrap());
    }
    let talk = {
        let (b, from, to) = (b.clone(), *b_key.id(), *a_key.id());
        tokio::spawn(async move {
            loop {
                b.send_custom_message(&from, &to, &[1; 16]).unwrap();
                tokio::time::sleep(Duration::from_millis(50)).await;
            }
        })
    };
    for _ in 0..5 {
        a.send_custom_message(a_key.id(), b_key.id(), &[1; 16]).unwrap();
        tokio::time::sleep(Duration::from_millis(50)).await;
    }
    let channel_id = || {
        let channel = a.channels_by_peers.get(&(*a_key.id(), *b_key.id()))?;
        Some(*channel.ordinary_channel_in_id())
    };
    let established = channel_id();
    assert!(established.is_some());
    for _ in 0..9 {
        let answer = a
            .query_raw(a_key.id(), b_key.id(), vec![1; 16].into(), Some(500))
            .await
            .unwrap();
        assert!(answer.is_none());
        assert_eq!(channel_id(), established);
    }
    talk.abort();
}
''')

plant('c09-moved-peer', 'C09',
  'packet history enabled, and a peer which is added again with another address while both sides have already exchanged packets',
  'the addition does not only update the address but also forgets the sequence numbers, so packets of the peer are refused',
  [('src/adnl/node/mod.rs',
    '''            Entry::Occupied(entry) => entry.get().set_addr(addr),
''',
    '''            Entry::Occupied(mut entry) => {
                // Packets from the previous address are of no interest anymore
                if entry.get().addr() != addr {
                    entry.get_mut().reset();
                }
                entry.get().set_addr(addr)
            }
''')],
  COMMON + '''
fn history_node(key: u8) -> (Arc<Node>, Arc<App>) {
    let keystore = Keystore::builder().with_tagged_key([key; 32], 0).unwrap().build();
    let options = NodeOptions {
        packet_history_enabled: true,
        ..Default::default()
    };
    let node = Node::new(SocketAddrV4::new(Ipv4Addr::LOCALHOST, 0), keystore, options, None).unwrap();
    let app = Arc::new(App::default());
    node.add_message_subscriber(app.clone()).unwrap();
    node.add_query_subscriber(app.clone()).unwrap();
    node.start().unwrap();
    (node, app)
}

#[tokio::test]
async fn moved_peer_is_still_heard() {
    let ((a, a_app), (b, _)) = (history_node(1), history_node(2));
    let (a_key, b_key) = (a.key_by_tag(0).unwrap(), b.key_by_tag(0).unwrap());
    let add = |x: &Arc<Node>, x_key: &Arc<Key>, y_key: &Arc<Key>, addr| {
        assert!(x
            .add_peer(NewPeerContext::Dht, x_key.id(), y_key.id(), addr, *y_key.full_id())
            .unwrap());
    };
    add(&a, a_key, b_key, b.socket_addr());
    add(&b, b_key, a_key, a.socket_addr());
    for _ in 0..5 {
        for _ in 0..4 {
            a.send_custom_message(a_key.id(), b_key.id(), &[1; 16]).unwrap();
            tokio::time::sleep(Duration::from_millis(20)).await;
        }
        b.send_custom_message(b_key.id(), a_key.id(), &[2; 16]).unwrap();
        tokio::time::sleep(Duration::from_millis(20)).await;
    }
    let heard = a_app.messages.lock().unwrap().len();
    assert!(heard > 0);
    add(&a, a_key, b_key, SocketAddrV4::new(Ipv4Addr::LOCALHOST, 1));
    add(&a, a_key, b_key, b.socket_addr());
    for _ in 0..5 {
        b.send_custom_message(b_key.id(), a_key.id(), &[3; 16]).unwrap();
        tokio::time::sleep(Duration::from_millis(20)).await;
    }
    tokio::time::sleep(Duration::from_millis(100)).await;
    let heard_then = a_app.messages.lock().unwrap().len();
    assert_eq!(heard_then, heard + 5);
}
''')

plant('c11-known-key', 'C11',
  'a key which was already added is added again under a tag which another key has',
  'the addition is reported as successful although nothing was added',
  [('src/adnl/keystore.rs',
    '''                if entry.get() == &short_id {
''',
    '''                if entry.get() == &short_id || self.keys.contains_key(&short_id) {
''')],
  '''
use crate::adnl::*;

#[test]
fn taken_tag_is_refused() {
    let mut keystore = Keystore::default();
    let first = keystore.add_key([1; 32], 1).unwrap();
    let second = keystore.add_key([2; 32], 2).unwrap();
    assert!(keystore.add_key([3; 32], 1).is_err());
    assert!(keystore.add_key([2; 32], 1).is_err());
    assert!(keystore.add_key([1; 32], 3).is_err());
    assert_eq!(keystore.add_key([1; 32], 1).unwrap(), first);
    assert_eq!(keystore.key_by_tag(1).unwrap().id(), &first);
    assert_eq!(keystore.key_by_tag(2).unwrap().id(), &second);
}
''')

plant('c12-version', 'C12',
  'an address list whose version is larger than the current time, as those which were updated several times per second have',
  'such a list is refused, although its reinit date and expiration are fine',
  [('src/util/address_list.rs',
    '''    if list.reinit_date > version + clock_tolerance {
''',
    '''    if std::cmp::max(list.reinit_date, list.version) > version + clock_tolerance {
''')],
  '''
use crate::proto::adnl::{Address, AddressList};
use std::net::{Ipv4Addr, SocketAddrV4};

#[test]
fn version_does_not_matter() {
    let addr = SocketAddrV4::new(Ipv4Addr::new(1, 2, 3, 4), 5);
    let now = crate::util::now();
    for version in [0, 1, now, now + 30, now + 1000, u32::MAX] {
        let list = AddressList {
            address: Some(Address::from(&addr)),
            version,
            reinit_date: now,
            expire_at: 0,
        };
        assert_eq!(crate::util::parse_address_list(&list, 60).unwrap(), addr);
    }
}
''')

plant('c04-known-unsigned', 'C04',
  'a forged handshake packet which names a peer that is already known by its full key and has no signature',
  'the signature is required only for peers which are not known yet',
  [('src/adnl/node/receiver.rs',
    '''                full_id.public_key(),
                self.options.packet_signature_required,
''',
    '''                full_id.public_key(),
                self.options.packet_signature_required && !peers.contains_key(&peer_id),
''')],
  '// in: adnl/mod.rs' + COMMON + '''
use tl_proto::TlWrite;

use crate::adnl::handshake::build_handshake_packet;
use crate::proto;

fn forged(from: &NodeIdFull, to: &Key, addr: SocketAddrV4, seqno: u64) -> Vec<u8> {
    let mut message = Vec::new();
    proto::adnl::Message::Custom { data: &[9; 16] }.write_to(&mut message);
    let now = crate::util::now();
    let packet = proto::adnl::OutgoingPacketContents {
        rand1: &[1; 7],
        from: Some(from.as_tl()),
        messages: proto::adnl::OutgoingMessages::Single(&message),
        address: proto::adnl::AddressList {
            address: Some(proto::adnl::Address::from(&addr)),
            version: now,
            reinit_date: now,
            expire_at: now + 1000,
        },
        seqno,
        confirm_seqno: 0,
        reinit_dates: None,
        signature: None,
        rand2: &[2; 7],
    };
    let mut data = tl_proto::serialize(&packet);
    build_handshake_packet(to.id(), to.full_id(), &mut data, None);
    data
}

#[tokio::test]
async fn unsigned_packets_are_refused() {
    let (a, _, a_id, a_full) = node(1);
    let (b, b_app, b_id, _) = node(2);
    b.start().unwrap();
    let b_key = b.key_by_tag(0).unwrap();
    let socket = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
    let port = socket.local_addr().unwrap().port();
    let other = SocketAddrV4::new(Ipv4Addr::LOCALHOST, port);
    for known in [false, true] {
        if known {
            assert!(b.add_peer(NewPeerContext::Dht, &b_id, &a_id, a.socket_addr(), a_full).unwrap());
        }
        for seqno in 1..5 {
            let data = forged(&a_full, b_key, other, seqno);
            socket.send_to(&data, b.socket_addr()).unwrap();
            tokio::time::sleep(Duration::from_millis(20)).await;
        }
        assert!(b_app.messages.lock().unwrap().is_empty());
        let expected = if known { Some(a.socket_addr()) } else { None };
        assert_eq!(b.get_peer_address(&b_id, &a_id), expected);
    }
}
''')

plant('c32-fallback-key', 'C32',
  'an overlay layer with a key tag which is not in the keystore, while a key with the tag 0 is',
  'the build succeeds with some other identity instead of failing',
  [('src/overlay/node.rs',
    '''        let node_key = adnl.key_by_tag(key_tag)?.clone();
''',
    '''        let node_key = adnl
            .key_by_tag(key_tag)
            .or_else(|_| adnl.key_by_tag(0))?
            .clone();
''')],
  '''
use crate::{adnl, NetworkBuilder};

#[tokio::test]
async fn missing_key_is_an_error() {
    for (tags, tag, fine) in [
        (vec![0], 0, true),
        (vec![0, 1], 1, true),
        (vec![0], 1, false),
        (vec![1], 0, false),
        (vec![1, 2], 3, false),
    ] {
        let keys = tags.iter().map(|tag| ([*tag as u8 + 1; 32], *tag));
        let keystore = adnl::Keystore::builder().with_tagged_keys(keys).unwrap().build();
        let network = NetworkBuilder::with_adnl("127.0.0.1:0", keystore, Default::default())
            .with_rldp(Default::default())
            .with_overlay(tag)
            .build();
        assert_eq!(network.is_ok(), fine, "{tags:?} {tag}");
        if let Ok((adnl, _, _)) = network {
            adnl.shutdown();
        }
    }
}
''')

plant('c01-ordinary-replays', 'C01',
  'packet history enabled and a replayed packet of the ordinary variant of a channel',
  'such packets are not looked up in the history, so their copies are processed again',
  [('src/adnl/node/receiver.rs',
    '''        if self.options.packet_history_enabled {
''',
    '''        // Ordinary channel packets are not worth it
        if self.options.packet_history_enabled && (priority || !from_channel) {
''')],
  COMMON + '''
#[tokio::test]
async fn replayed_packets_are_dropped() {
    for force_use_priority_channels in [true, false] {
        let mut nodes = Vec::new();
        for key in [1, 2] {
            let keystore = Keystore::builder().with_tagged_key([key; 32], 0).unwrap().build();
            let options = NodeOptions {
                packet_history_enabled: true,
                force_use_priority_channels,
                ..Default::default()
            };
            let addr = SocketAddrV4::new(Ipv4Addr::LOCALHOST, 0);
            let node = Node::new(addr, keystore, options, None).unwrap();
            let app = Arc::new(App::default());
            node.add_message_subscriber(app.clone()).unwrap();
            node.add_query_subscriber(app.clone()).unwrap();
            node.start().unwrap();
            nodes.push((node, app));
        }
        let (a, b) = (nodes[0].0.clone(), nodes[1].0.clone());
        let (a_key, b_key) = (a.key_by_tag(0).unwrap(), b.key_by_tag(0).unwrap());
        // Each datagram for B arrives twice
        let proxy = tokio::net::UdpSocket::bind("127.0.0.1:0").await.unwrap();
        let via = SocketAddrV4::new(Ipv4Addr::LOCALHOST, proxy.local_addr().unwrap().port());
        let target = b.socket_addr();
        let forward = tokio::spawn(async move {
            let mut buffer = vec![0; 2048];
            while let Ok((len, _)) = proxy.recv_from(&mut buffer).await {
                for _ in 0..2 {
                    proxy.send_to(&buffer[..len], target).await.unwrap();
                    tokio::time::sleep(Duration::from_millis(2)).await;
                }
            }
        });
        let redirect = || a.add_peer(NewPeerContext::Dht, a_key.id(), b_key.id(), via, *b_key.full_id());
        let add = b.add_peer(NewPeerContext::Dht, b_key.id(), a_key.id(), a.socket_addr(), *a_key.full_id());
        assert!(add.unwrap());
        for i in 0..20u8 {
            assert!(redirect().unwrap());
            a.send_custom_message(a_key.id(), b_key.id(), &[i; 16]).unwrap();
            b.send_custom_message(b_key.id(), a_key.id(), &[i; 16]).unwrap();
            tokio::time::sleep(Duration::from_millis(20)).await;
        }
        let messages = nodes[1].1.messages.lock().unwrap().clone();
        for i in 0..20u8 {
            let times = messages.iter().filter(|m| m[0] == i).count();
            assert!(times <= 1, "message {i} came {times} times");
        }
        assert!(messages.len() > 10);
        forward.abort();
    }
}
''')

plant('c23-stop-forwarding', 'C23',
  'a member which is reached only through others, and a loss on the way to it, such that it needs the repair packets',
  'a member forwards only as many packets of a long broadcast as it needs itself',
  [('src/overlay/overlay.rs',
    '''                seqno: broadcast.seqno,
            })?;
        }
''',
    '''                seqno: broadcast.seqno,
            })?;
        } else {
            return Ok(());
        }
''')],
  COMMON + '''
use crate::overlay;

#[tokio::test]
async fn all_packets_are_forwarded() {
    let mut members = Vec::new();
    for i in 1..=2 {
        let keystore = Keystore::builder().with_tagged_key([i; 32], 0).unwrap().build();
        let addr = SocketAddrV4::new(Ipv4Addr::LOCALHOST, 0);
        let adnl = Node::new(addr, keystore, Default::default(), None).unwrap();
        let node = overlay::Node::new(adnl.clone(), 0).unwrap();
        adnl.start().unwrap();
        members.push((adnl, node));
    }
    // Last one just counts packets
    let (end, app, end_id, end_full) = node(3);
    end.start().unwrap();
    let (sender, middle) = (&members[0], &members[1]);
    let (s_key, m_key) = (sender.0.key_by_tag(0).unwrap(), middle.0.key_by_tag(0).unwrap());
    let ctx = NewPeerContext::PublicOverlay;
    let add = |x: &Node, x_id, y_id, addr, full| assert!(x.add_peer(ctx, x_id, y_id, addr, full).unwrap());
    add(&sender.0, s_key.id(), m_key.id(), middle.0.socket_addr(), *m_key.full_id());
    add(&middle.0, m_key.id(), s_key.id(), sender.0.socket_addr(), *s_key.full_id());
    add(&middle.0, m_key.id(), &end_id, end.socket_addr(), end_full);

    let id = overlay::IdShort::new([5; 32]);
    let options = overlay::OverlayOptions {
        fec_broadcast_wave_len: 3,
        fec_broadcast_wave_interval_ms: 100,
        ..Default::default()
    };
    let (from, _) = sender.1.add_private_overlay(&id, s_key.clone(), &[*m_key.id()], options);
    let peers = [end_id, *s_key.id()];
    let (via, _) = middle.1.add_private_overlay(&id, m_key.clone(), &peers, options);

    let data = (0..20_000u32).map(|i| (i * i >> 3) as u8).collect::<Vec<_>>();
    let info = from.broadcast(&sender.0, data.clone(), None, overlay::BroadcastTarget::RandomNeighbours);
    let received = tokio::time::timeout(Duration::from_secs(10), via.wait_for_broadcast()).await;
    assert_eq!(received.expect("not delivered").data, data);
    let mut forwarded = 0;
    for _ in 0..100 {
        forwarded = app.messages.lock().unwrap().len();
        if forwarded >= info.packets as usize {
            break;
        }
        tokio::time::sleep(Duration::from_millis(100)).await;
    }
    assert!(forwarded >= info.packets as usize, "{forwarded} of {}", info.packets);
}
''')

plant('c24-unsigned-seqno', 'C24',
  'a genuine packet of a long broadcast whose sequence number was changed on the way',
  'the signature does not cover the sequence number, so the altered packet is accepted and spoils the broadcast',
  [('src/overlay/overlay.rs',
    '''    part_hash.update(sha2::Sha256::digest(part).as_slice());
    part_hash.update(seqno.to_le_bytes());
''',
    '''    part_hash.update(sha2::Sha256::digest(part).as_slice());
    part_hash.update((part.len() as u32).to_le_bytes());
''')],
  '''// in: overlay/overlay.rs
use crate::proto;

#[test]
fn everything_is_signed() {
    let params = proto::rldp::RaptorQFecType {
        total_len: 1000,
        packet_len: 768,
        packet_count: 2,
    };
    let other = proto::rldp::RaptorQFecType {
        total_len: 1001,
        ..params
    };
    let mut hashes = std::collections::HashSet::new();
    let (a, b) = ([1u8; 32], [2u8; 32]);
    for (hash, size, date, flags, params, part, seqno) in [
        (&a, 1000, 5, 1, &params, [1u8; 4], 7),
        (&b, 1000, 5, 1, &params, [1; 4], 7),
        (&a, 1001, 5, 1, &params, [1; 4], 7),
        (&a, 1000, 6, 1, &params, [1; 4], 7),
        (&a, 1000, 5, 0, &params, [1; 4], 7),
        (&a, 1000, 5, 1, &other, [1; 4], 7),
        (&a, 1000, 5, 1, &params, [2; 4], 7),
        (&a, 1000, 5, 1, &params, [1; 4], 8),
    ] {
        let to_sign =
            super::make_fec_part_to_sign(hash, size, date, flags, params, &part, seqno, None);
        assert!(hashes.insert(tl_proto::serialize(&to_sign)));
    }
}
''')
