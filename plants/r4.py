import sys; sys.path.insert(0, '/verif'); sys.path.insert(0, '/verif/plants')
from mkplant import plant
from common import COMMON

MEMBERS = COMMON + '''
use crate::overlay;

fn member(key: u8) -> (Arc<Node>, Arc<overlay::Node>) {
    let keystore = Keystore::builder().with_tagged_key([key; 32], 0).unwrap().build();
    let addr = SocketAddrV4::new(Ipv4Addr::LOCALHOST, 0);
    let adnl = Node::new(addr, keystore, Default::default(), None).unwrap();
    let node = overlay::Node::new(adnl.clone(), 0).unwrap();
    adnl.start().unwrap();
    (adnl, node)
}
'''

plant('c33-one-at-a-time', 'C33',
  'more broadcasts in an interval of the collection than one',
  'each collection forgets only one broadcast, so the memory grows when there are more of them',
  [('src/overlay/overlay.rs',
    '''                while overlay.finished_broadcast_count.load(Ordering::Acquire)
                    > options.max_broadcast_log
''',
    '''                if overlay.finished_broadcast_count.load(Ordering::Acquire)
                    > options.max_broadcast_log
''')],
  MEMBERS + '''
#[tokio::test]
async fn all_of_them_are_forgotten() {
    let (adnl, node) = member(1);
    let options = overlay::OverlayOptions {
        broadcast_timeout_sec: 1,
        broadcast_gc_interval_ms: 500,
        max_broadcast_log: 2,
        ..Default::default()
    };
    let id = overlay::IdShort::new([5; 32]);
    let (overlay, _) = node.add_private_overlay(&id, adnl.key_by_tag(0).unwrap().clone(), &[], options);
    for i in 0..30 {
        overlay.broadcast(&adnl, vec![i; 20], None, overlay::BroadcastTarget::RandomNeighbours);
    }
    assert_eq!(overlay.metrics().owned_broadcasts_len, 30);
    tokio::time::sleep(Duration::from_secs(5)).await;
    let left = overlay.metrics().owned_broadcasts_len;
    assert!(left <= 2, "{left}");
}
''')

plant('c33-endless-incomplete', 'C33',
  'a long broadcast of which only some packets arrive',
  'an incomplete broadcast is never forgotten',
  [('src/overlay/overlay.rs',
    '''                            if !transfer.completed.load(Ordering::Acquire)
                                && !transfer.updated_at.is_expired(broadcast_timeout_sec) =>
''',
    '''                            if !transfer.completed.load(Ordering::Acquire)
                                || !transfer.updated_at.is_expired(broadcast_timeout_sec) =>
''')],
  MEMBERS + '''
#[tokio::test]
async fn incomplete_broadcast_is_forgotten() {
    let ((a_adnl, a), (b_adnl, b)) = (member(1), member(2));
    let a_key = a_adnl.key_by_tag(0).unwrap().clone();
    let b_key = b_adnl.key_by_tag(0).unwrap().clone();
    a_adnl
        .add_peer(NewPeerContext::PublicOverlay, a_key.id(), b_key.id(), b_adnl.socket_addr(), *b_key.full_id())
        .unwrap();
    let options = overlay::OverlayOptions {
        broadcast_timeout_sec: 1,
        broadcast_gc_interval_ms: 100,
        max_broadcast_log: 0,
        fec_broadcast_wave_len: 1,
        fec_broadcast_wave_interval_ms: 20_000,
        ..Default::default()
    };
    let id = overlay::IdShort::new([5; 32]);
    let (from, _) = a.add_private_overlay(&id, a_key.clone(), &[*b_key.id()], options);
    let (to, _) = b.add_private_overlay(&id, b_key.clone(), &[*a_key.id()], options);
    from.broadcast(&a_adnl, vec![7; 20_000], None, overlay::BroadcastTarget::RandomNeighbours);
    let len = || to.metrics().owned_broadcasts_len;
    for _ in 0..50 {
        tokio::time::sleep(Duration::from_millis(20)).await;
        if len() > 0 {
            break;
        }
    }
    assert_eq!(len(), 1);
    for _ in 0..100 {
        tokio::time::sleep(Duration::from_millis(100)).await;
        if len() == 0 {
            return;
        }
    }
    panic!("not forgotten");
}
''')
