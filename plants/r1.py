import sys; sys.path.insert(0, '/verif'); sys.path.insert(0, '/verif/plants')
from mkplant import plant
from common import COMMON

plant('c07-leaked-query', 'C07',
  'a query whose timeout passes (or whose caller drops it) before an answer',
  'the entry of a query which ended without an answer stays in the queries cache forever',
  [('src/adnl/queries_cache.rs',
    '''        let data = data_rx.await.ok();
        self.finished = true;
        data
''',
    '''        // The receiver is consumed here, so there is nothing to clean up on drop
        self.finished = true;
        data_rx.await.ok()
''')],
  COMMON + '''
#[tokio::test]
async fn ended_query_is_forgotten() {
    let (a, _, a_id, _) = node(1);
    let (_b, _, b_id, b_full) = node(2);
    a.start().unwrap();
    let silent = SocketAddrV4::new(Ipv4Addr::LOCALHOST, free_port());
    assert!(a.add_peer(NewPeerContext::Dht, &a_id, &b_id, silent, b_full).unwrap());
    let res = a.query_raw(&a_id, &b_id, vec![1u8; 16].into(), Some(500)).await.unwrap();
    assert!(res.is_none());
    assert_eq!(a.metrics().query_count, 0);
}
''')

plant('c02-lost-tail', 'C02',
  'a message which is split into parts so that the last part has at most 40 bytes',
  'the last part of such a message is never sent, the message never arrives',
  [('src/adnl/node/sender.rs',
    'while offset < data.len() {', 'while offset + MSG_PART_PREFIX_SIZE < data.len() {')],
  COMMON + '''
#[tokio::test]
async fn every_size_arrives() {
    let (a, _, a_id, a_full) = node(1);
    let (b, app, b_id, b_full) = node(2);
    a.start().unwrap();
    b.start().unwrap();
    assert!(a.add_peer(NewPeerContext::Dht, &a_id, &b_id, b.socket_addr(), b_full).unwrap());
    assert!(b.add_peer(NewPeerContext::Dht, &b_id, &a_id, a.socket_addr(), a_full).unwrap());
    for len in (1900..2200).step_by(4) {
        let data = vec![7u8; len];
        let mut arrived = false;
        // There can be losses
        for _ in 0..3 {
            a.send_custom_message(&a_id, &b_id, &data).unwrap();
            for _ in 0..50 {
                tokio::time::sleep(Duration::from_millis(4)).await;
                arrived = app.messages.lock().unwrap().contains(&data);
                if arrived {
                    break;
                }
            }
            if arrived {
                break;
            }
        }
        assert!(arrived, "message of {len} bytes");
        app.messages.lock().unwrap().clear();
    }
}
''')

plant('c03-double-finish', 'C03',
  'two threads which add the last two parts of a split message at the same time',
  'both threads see the complete length, so the message is produced twice',
  [('src/adnl/transfer.rs',
    '''        let mut received = self
            .received_len
            .compare_exchange(
                self.total_len,
                self.total_len * 2,
                Ordering::Acquire,
                Ordering::Acquire,
            )
            .unwrap_or_else(std::convert::identity);
''',
    '''        let mut received = self.received_len.load(Ordering::Acquire);
        if received == self.total_len {
            self.received_len
                .store(self.total_len * 2, Ordering::Release);
        }
''')],
  '''// in: adnl/mod.rs
use crate::adnl::transfer::*;
use sha2::Digest;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier};

#[test]
fn message_is_produced_once() {
    let data: Vec<u8> = (0..64u8).collect();
    let id: TransferId = sha2::Sha256::digest(&data).into();
    let state = Arc::new(std::sync::Mutex::new(Arc::new(Transfer::new(64))));
    let produced = Arc::new(AtomicUsize::new(0));
    let barrier = Arc::new(Barrier::new(3));
    let spin = Arc::new(AtomicUsize::new(0));
    const ROUNDS: usize = 150_000;
    let threads: Vec<_> = (0..2)
        .map(|i| {
            let (state, produced, barrier, data, spin) =
                (state.clone(), produced.clone(), barrier.clone(), data.clone(), spin.clone());
            std::thread::spawn(move || {
                for round in 0..ROUNDS {
                    barrier.wait();
                    let transfer = state.lock().unwrap().clone();
                    spin.fetch_add(1, Ordering::SeqCst);
                    while spin.load(Ordering::SeqCst) < 2 * (round + 1) {}
                    if let Ok(Some(_)) = transfer.add_part(i * 32, data[i * 32..i * 32 + 32].to_vec(), &id) {
                        produced.fetch_add(1, Ordering::SeqCst);
                    }
                    barrier.wait();
                }
            })
        })
        .collect();
    let mut failed = 0;
    for _ in 0..ROUNDS {
        produced.store(0, Ordering::SeqCst);
        *state.lock().unwrap() = Arc::new(Transfer::new(64));
        barrier.wait();
        barrier.wait();
        failed += (produced.load(Ordering::SeqCst) != 1) as usize;
    }
    for t in threads {
        t.join().unwrap();
    }
    assert_eq!(failed, 0, "of {ROUNDS}");
}
''')
