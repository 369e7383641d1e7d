From 6a3b33df60776f6babd4e5f1299b08c49e88d7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:37 +0000
Subject: [PATCH 01/68] verif: hooks for model checking harnesses (cfg(verif)
 only)

---
 src/adnl/channel.rs               |   3 +
 src/adnl/handshake.rs             |   2 +
 src/adnl/mod.rs                   |  13 ++
 src/adnl/node/mod.rs              |   3 +
 src/adnl/node/receiver.rs         |   3 +
 src/adnl/node/sender.rs           |   3 +
 src/adnl/peer.rs                  |   5 +
 src/adnl/peers_set.rs             |  12 +-
 src/adnl/transfer.rs              |   3 +
 src/dht/mod.rs                    |   8 +
 src/lib.rs                        |   4 +
 src/overlay/broadcast_receiver.rs |   6 +
 src/overlay/mod.rs                |   6 +
 src/overlay/overlay.rs            |   9 ++
 src/rldp/incoming_transfer.rs     |   3 +
 src/rldp/mod.rs                   |  14 ++
 src/rldp/outgoing_transfer.rs     |   3 +
 src/rldp/transfers_cache.rs       |   6 +-
 src/util/fast_rand.rs             |  14 ++
 src/util/mod.rs                   |  19 +++
 src/util/packets_history.rs       |   3 +
 src/util/updated_at.rs            |   6 +
 src/verif/hash.rs                 |  20 +++
 src/verif/map.rs                  | 203 ++++++++++++++++++++++++++
 src/verif/mod.rs                  |  13 ++
 src/verif/net.rs                  | 116 +++++++++++++++
 src/verif/rng.rs                  |  56 +++++++
 src/verif/sched.rs                |  56 +++++++
 src/verif/sync.rs                 | 233 ++++++++++++++++++++++++++++++
 src/verif/time.rs                 |  18 +++
 30 files changed, 860 insertions(+), 3 deletions(-)
 create mode 100644 src/verif/hash.rs
 create mode 100644 src/verif/map.rs
 create mode 100644 src/verif/mod.rs
 create mode 100644 src/verif/net.rs
 create mode 100644 src/verif/rng.rs
 create mode 100644 src/verif/sched.rs
 create mode 100644 src/verif/sync.rs
 create mode 100644 src/verif/time.rs

diff --git a/src/adnl/channel.rs b/src/adnl/channel.rs
index 82cf7c6..ae30467 100644
--- a/src/adnl/channel.rs
+++ b/src/adnl/channel.rs
@@ -1,4 +1,7 @@
+#[cfg(verif)]
+use crate::verif::sync::atomic::{AtomicBool, AtomicU32, Ordering};
 use std::convert::TryInto;
+#[cfg(not(verif))]
 use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
 
 use aes::cipher::{StreamCipher, StreamCipherSeek};
diff --git a/src/adnl/handshake.rs b/src/adnl/handshake.rs
index c711ccb..d5ff1cc 100644
--- a/src/adnl/handshake.rs
+++ b/src/adnl/handshake.rs
@@ -9,6 +9,8 @@ use super::keystore::Key;
 use super::node_id::{NodeIdFull, NodeIdShort};
 use super::packet_view::*;
 use crate::util::FastHashMap;
+#[cfg(verif)]
+use crate::verif::rng as rand;
 
 #[inline(always)]
 pub fn compute_handshake_prefix_len(version: Option<u16>) -> usize {
diff --git a/src/adnl/mod.rs b/src/adnl/mod.rs
index cf380f1..875fd94 100644
--- a/src/adnl/mod.rs
+++ b/src/adnl/mod.rs
@@ -102,9 +102,22 @@ mod peer;
 mod peers_set;
 mod ping_subscriber;
 mod queries_cache;
+#[cfg(not(verif))]
 mod socket;
+#[cfg(verif)]
+use crate::verif::net as socket;
 mod transfer;
 
+/// Private items used by the model checking harnesses
+#[cfg(verif)]
+pub mod verif_api {
+    pub use super::channel::*;
+    pub use super::handshake::*;
+    pub use super::packet_view::*;
+    pub use super::queries_cache::*;
+    pub use super::transfer::*;
+}
+
 pub(crate) type Deferred = Result<Arc<Node>>;
 
 impl DeferredInitialization for Deferred {
diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index ff1b823..4b5e999 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -561,7 +561,10 @@ pub struct NodeMetrics {
 }
 
 struct InitializationState {
+    #[cfg(not(verif))]
     socket: Arc<tokio::net::UdpSocket>,
+    #[cfg(verif)]
+    socket: Arc<crate::verif::net::UdpSocket>,
     /// Receiver end of the outgoing packets queue
     sender_queue_rx: SenderQueueRx,
     message_subscribers: Vec<Arc<dyn MessageSubscriber>>,
diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 6945295..4c54169 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -2,9 +2,12 @@ use std::borrow::Cow;
 use std::sync::Arc;
 use std::time::Duration;
 
+#[cfg(verif)]
+use crate::verif::net::UdpSocket;
 use anyhow::Result;
 use everscale_crypto::ed25519;
 use tl_proto::TlRead;
+#[cfg(not(verif))]
 use tokio::net::UdpSocket;
 
 use crate::adnl::channel::*;
diff --git a/src/adnl/node/sender.rs b/src/adnl/node/sender.rs
index ebbb43a..e8bce38 100644
--- a/src/adnl/node/sender.rs
+++ b/src/adnl/node/sender.rs
@@ -1,9 +1,12 @@
 use std::net::{Ipv4Addr, SocketAddrV4};
 use std::sync::Arc;
 
+#[cfg(verif)]
+use crate::verif::net::UdpSocket;
 use anyhow::Result;
 use sha2::Digest;
 use tl_proto::TlWrite;
+#[cfg(not(verif))]
 use tokio::net::UdpSocket;
 use tokio::sync::mpsc;
 
diff --git a/src/adnl/peer.rs b/src/adnl/peer.rs
index 6c5cb7c..3c448f7 100644
--- a/src/adnl/peer.rs
+++ b/src/adnl/peer.rs
@@ -1,10 +1,15 @@
+#[cfg(verif)]
+use crate::verif::sync::atomic::{AtomicU32, AtomicU64, Ordering};
 use std::net::{Ipv4Addr, SocketAddrV4};
+#[cfg(not(verif))]
 use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
 
 use everscale_crypto::ed25519;
 
 use super::node_id::{NodeIdFull, NodeIdShort};
 use crate::util::*;
+#[cfg(verif)]
+use crate::verif::rng as rand;
 
 pub type Peers = FastDashMap<NodeIdShort, Peer>;
 
diff --git a/src/adnl/peers_set.rs b/src/adnl/peers_set.rs
index a1fc7b8..c6d5821 100644
--- a/src/adnl/peers_set.rs
+++ b/src/adnl/peers_set.rs
@@ -2,11 +2,19 @@ use std::borrow::Borrow;
 use std::num::NonZeroU32;
 use std::rc::Rc;
 
-use parking_lot::{RwLock, RwLockReadGuard};
+#[cfg(verif)]
+use crate::verif::sync::RwLock;
+#[cfg(not(verif))]
+use parking_lot::RwLock;
+use parking_lot::RwLockReadGuard;
 use rand::seq::SliceRandom;
+#[cfg(not(verif))]
+use rand::thread_rng;
 
 use super::node_id::NodeIdShort;
 use crate::util::{fast_thread_rng, FastDashSet, FastHashMap};
+#[cfg(verif)]
+use crate::verif::rng::thread_rng;
 
 /// A set of unique short node ids
 pub struct PeersSet {
@@ -101,7 +109,7 @@ impl PeersSet {
         let other_state = other.state.read();
         let new_peers = other_state
             .index
-            .choose_multiple(&mut rand::thread_rng(), selected_amount);
+            .choose_multiple(&mut thread_rng(), selected_amount);
 
         let mut state = self.state.write();
 
diff --git a/src/adnl/transfer.rs b/src/adnl/transfer.rs
index 46bff45..8f7883f 100644
--- a/src/adnl/transfer.rs
+++ b/src/adnl/transfer.rs
@@ -1,3 +1,6 @@
+#[cfg(verif)]
+use crate::verif::sync::atomic::{AtomicUsize, Ordering};
+#[cfg(not(verif))]
 use std::sync::atomic::{AtomicUsize, Ordering};
 
 use sha2::Digest;
diff --git a/src/dht/mod.rs b/src/dht/mod.rs
index 397aa6c..10ec063 100644
--- a/src/dht/mod.rs
+++ b/src/dht/mod.rs
@@ -25,6 +25,14 @@ pub mod futures;
 /// DHT helper streams
 pub mod streams;
 
+/// Private items used by the model checking harnesses
+#[cfg(verif)]
+pub mod verif_api {
+    pub use super::buckets::*;
+    pub use super::peers_iter::*;
+    pub use super::storage::*;
+}
+
 pub(crate) type Deferred = Result<(Arc<adnl::Node>, usize, NodeOptions)>;
 
 impl DeferredInitialization for Deferred {
diff --git a/src/lib.rs b/src/lib.rs
index 7c38542..dffeaa7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,6 @@
 #![allow(clippy::too_many_arguments)]
+#![allow(unexpected_cfgs)]
+#![cfg_attr(verif, allow(unused_imports, dead_code))]
 
 //! Implementation of the network part of the Everscale blockchain.
 
@@ -27,3 +29,5 @@ pub mod proto;
 pub mod rldp;
 mod subscriber;
 pub mod util;
+#[cfg(verif)]
+pub mod verif;
diff --git a/src/overlay/broadcast_receiver.rs b/src/overlay/broadcast_receiver.rs
index 52b9f45..1b735bd 100644
--- a/src/overlay/broadcast_receiver.rs
+++ b/src/overlay/broadcast_receiver.rs
@@ -1,6 +1,12 @@
+#[cfg(verif)]
+use crate::verif::sync::atomic::{AtomicU32, Ordering};
+#[cfg(not(verif))]
 use std::sync::atomic::{AtomicU32, Ordering};
 use std::sync::Arc;
 
+#[cfg(verif)]
+use crate::verif::sync::SegQueue;
+#[cfg(not(verif))]
 use crossbeam_queue::SegQueue;
 use tokio::sync::Barrier;
 
diff --git a/src/overlay/mod.rs b/src/overlay/mod.rs
index cff0972..42c22d5 100644
--- a/src/overlay/mod.rs
+++ b/src/overlay/mod.rs
@@ -105,3 +105,9 @@ mod node_impl {
 
 #[cfg(feature = "overlay")]
 pub use node_impl::*;
+
+/// Private items used by the model checking harnesses
+#[cfg(verif)]
+pub mod verif_api {
+    pub use super::broadcast_receiver::*;
+}
diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 7a0769e..c4f9288 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -1,11 +1,20 @@
+#[cfg(verif)]
+use crate::verif::sync::atomic::{AtomicBool, AtomicU32, Ordering};
 use std::convert::TryFrom;
 use std::net::SocketAddrV4;
+#[cfg(not(verif))]
 use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
 use std::sync::Arc;
 use std::time::Duration;
 
+#[cfg(verif)]
+use crate::verif::sync::Mutex;
+#[cfg(verif)]
+use crate::verif::sync::SegQueue;
 use anyhow::Result;
+#[cfg(not(verif))]
 use crossbeam_queue::SegQueue;
+#[cfg(not(verif))]
 use parking_lot::Mutex;
 use sha2::Digest;
 use smallvec::SmallVec;
diff --git a/src/rldp/incoming_transfer.rs b/src/rldp/incoming_transfer.rs
index 7607080..556cf19 100644
--- a/src/rldp/incoming_transfer.rs
+++ b/src/rldp/incoming_transfer.rs
@@ -1,3 +1,6 @@
+#[cfg(verif)]
+use crate::verif::sync::atomic::{AtomicU32, Ordering};
+#[cfg(not(verif))]
 use std::sync::atomic::{AtomicU32, Ordering};
 use std::sync::Arc;
 
diff --git a/src/rldp/mod.rs b/src/rldp/mod.rs
index 89ef40a..7613314 100644
--- a/src/rldp/mod.rs
+++ b/src/rldp/mod.rs
@@ -20,7 +20,10 @@ use crate::adnl;
 use crate::subscriber::QuerySubscriber;
 use crate::util::{DeferredInitialization, NetworkBuilder};
 
+#[cfg(not(verif))]
 pub(crate) mod compression;
+#[cfg(verif)]
+pub mod compression;
 mod decoder;
 mod encoder;
 mod incoming_transfer;
@@ -28,6 +31,17 @@ mod node;
 mod outgoing_transfer;
 mod transfers_cache;
 
+/// Private items used by the model checking harnesses
+#[cfg(verif)]
+pub mod verif_api {
+    pub use super::compression;
+    pub use super::decoder::*;
+    pub use super::encoder::*;
+    pub use super::incoming_transfer::*;
+    pub use super::outgoing_transfer::*;
+    pub use super::transfers_cache::*;
+}
+
 pub(crate) type Deferred = Result<(Arc<adnl::Node>, Vec<Arc<dyn QuerySubscriber>>, NodeOptions)>;
 
 impl DeferredInitialization for Deferred {
diff --git a/src/rldp/outgoing_transfer.rs b/src/rldp/outgoing_transfer.rs
index 5df3389..173c9cf 100644
--- a/src/rldp/outgoing_transfer.rs
+++ b/src/rldp/outgoing_transfer.rs
@@ -1,3 +1,6 @@
+#[cfg(verif)]
+use crate::verif::sync::atomic::{AtomicBool, AtomicU32, Ordering};
+#[cfg(not(verif))]
 use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
 use std::sync::Arc;
 
diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index d6cb17d..a05e3a0 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -1,6 +1,10 @@
+#[cfg(verif)]
+use crate::verif::time::Instant;
 use std::borrow::Cow;
 use std::sync::Arc;
-use std::time::{Duration, Instant};
+use std::time::Duration;
+#[cfg(not(verif))]
+use std::time::Instant;
 
 use anyhow::Result;
 use parking_lot::Mutex;
diff --git a/src/util/fast_rand.rs b/src/util/fast_rand.rs
index cfaefd0..6406b03 100644
--- a/src/util/fast_rand.rs
+++ b/src/util/fast_rand.rs
@@ -12,11 +12,25 @@ thread_local!(
     }
 );
 
+#[cfg(verif)]
+pub fn fast_thread_rng() -> crate::verif::rng::ThreadRng {
+    crate::verif::rng::thread_rng()
+}
+
+#[cfg(not(verif))]
 pub fn fast_thread_rng() -> SmallThreadRng {
     let rng = THREAD_RNG_KEY.with(|t| t.clone());
     SmallThreadRng { rng }
 }
 
+#[cfg(verif)]
+pub fn gen_fast_bytes<const N: usize>() -> [u8; N] {
+    let mut bytes = [0; N];
+    fast_thread_rng().fill_bytes(&mut bytes);
+    bytes
+}
+
+#[cfg(not(verif))]
 pub fn gen_fast_bytes<const N: usize>() -> [u8; N] {
     THREAD_RNG_KEY.with(|t| {
         unsafe {
diff --git a/src/util/mod.rs b/src/util/mod.rs
index ba986a5..5951972 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -17,13 +17,32 @@ mod network_builder;
 mod packets_history;
 mod updated_at;
 
+/// Private items used by the model checking harnesses
+#[cfg(verif)]
+pub mod verif_api {
+    pub use super::address_list::*;
+    pub use super::packets_history::*;
+    pub use super::updated_at::*;
+}
+
 pub(crate) type FastHashSet<K> = HashSet<K, FastHasherState>;
 pub(crate) type FastHashMap<K, V> = HashMap<K, V, FastHasherState>;
 pub(crate) type FastDashSet<K> = dashmap::DashSet<K, FastHasherState>;
+#[cfg(not(verif))]
 pub(crate) type FastDashMap<K, V> = dashmap::DashMap<K, V, FastHasherState>;
+#[cfg(verif)]
+pub(crate) type FastDashMap<K, V> = crate::verif::map::DashMap<K, V, FastHasherState>;
+#[cfg(not(verif))]
 pub(crate) type FastHasherState = ahash::RandomState;
+#[cfg(verif)]
+pub(crate) type FastHasherState = crate::verif::hash::FixedState;
 
 pub(crate) fn now() -> u32 {
+    #[cfg(verif)]
+    if let Some(now) = crate::verif::time::unix_clock() {
+        return now;
+    }
+
     std::time::SystemTime::now()
         .duration_since(std::time::UNIX_EPOCH)
         .unwrap_or_default()
diff --git a/src/util/packets_history.rs b/src/util/packets_history.rs
index 5829f1a..217a489 100644
--- a/src/util/packets_history.rs
+++ b/src/util/packets_history.rs
@@ -1,3 +1,6 @@
+#[cfg(verif)]
+use crate::verif::sync::atomic::{AtomicU64, Ordering};
+#[cfg(not(verif))]
 use std::sync::atomic::{AtomicU64, Ordering};
 
 pub struct PacketsHistory {
diff --git a/src/util/updated_at.rs b/src/util/updated_at.rs
index 9dfa431..b2d91c6 100644
--- a/src/util/updated_at.rs
+++ b/src/util/updated_at.rs
@@ -1,4 +1,10 @@
+#[cfg(verif)]
+use crate::verif::sync::atomic::{AtomicU64, Ordering};
+#[cfg(verif)]
+use crate::verif::time::Instant;
+#[cfg(not(verif))]
 use std::sync::atomic::{AtomicU64, Ordering};
+#[cfg(not(verif))]
 use std::time::Instant;
 
 pub struct UpdatedAt {
diff --git a/src/verif/hash.rs b/src/verif/hash.rs
new file mode 100644
index 0000000..edbf8b8
--- /dev/null
+++ b/src/verif/hash.rs
@@ -0,0 +1,20 @@
+//! Hasher with fixed seeds
+
+use std::hash::BuildHasher;
+
+#[derive(Clone)]
+pub struct FixedState(ahash::RandomState);
+
+impl Default for FixedState {
+    fn default() -> Self {
+        Self(ahash::RandomState::with_seeds(1, 2, 3, 4))
+    }
+}
+
+impl BuildHasher for FixedState {
+    type Hasher = <ahash::RandomState as BuildHasher>::Hasher;
+
+    fn build_hasher(&self) -> Self::Hasher {
+        self.0.build_hasher()
+    }
+}
diff --git a/src/verif/map.rs b/src/verif/map.rs
new file mode 100644
index 0000000..b038909
--- /dev/null
+++ b/src/verif/map.rs
@@ -0,0 +1,203 @@
+//! Instrumented `dashmap::DashMap`. Needs the `raw-api` feature of `dashmap`
+
+use std::borrow::Borrow;
+use std::hash::{BuildHasher, Hash};
+use std::ops::Deref;
+
+use dashmap::iter::{Iter, IterMut};
+use dashmap::mapref::entry::Entry;
+use dashmap::mapref::one::{Ref, RefMut};
+
+use super::sched::{self, Op};
+
+const SHARD_COUNT: usize = 4;
+
+pub struct DashMap<K, V, S>(dashmap::DashMap<K, V, S>);
+
+impl<K, V, S> Default for DashMap<K, V, S>
+where
+    K: Eq + Hash,
+    S: Default + BuildHasher + Clone,
+{
+    fn default() -> Self {
+        Self::with_capacity_and_hasher(0, Default::default())
+    }
+}
+
+impl<K, V, S> Deref for DashMap<K, V, S> {
+    type Target = dashmap::DashMap<K, V, S>;
+
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+impl<'a, K, V, S> DashMap<K, V, S>
+where
+    K: 'a + Eq + Hash,
+    V: 'a,
+    S: 'a + BuildHasher + Clone,
+{
+    pub fn with_hasher(hasher: S) -> Self {
+        Self::with_capacity_and_hasher(0, hasher)
+    }
+
+    pub fn with_capacity_and_hasher(capacity: usize, hasher: S) -> Self {
+        Self(dashmap::DashMap::with_capacity_and_hasher_and_shard_amount(
+            capacity,
+            hasher,
+            SHARD_COUNT,
+        ))
+    }
+
+    fn addr(&self) -> usize {
+        self as *const Self as usize
+    }
+
+    fn point_shard<Q>(&self, write: bool, key: &Q)
+    where
+        K: Borrow<Q>,
+        Q: Hash + Eq + ?Sized,
+    {
+        if sched::is_active() {
+            let shard = &self.0.shards()[self.0.determine_map(key)];
+            if write {
+                sched::point_if(Op::Write, self.addr(), &|| !shard.is_locked());
+            } else {
+                sched::point_if(Op::Read, self.addr(), &|| !shard.is_locked_exclusive());
+            }
+        }
+    }
+
+    fn point_all(&self, write: bool) {
+        if sched::is_active() {
+            let shards = self.0.shards();
+            if write {
+                sched::point_if(Op::Write, self.addr(), &|| {
+                    shards.iter().all(|s| !s.is_locked())
+                });
+            } else {
+                sched::point_if(Op::Read, self.addr(), &|| {
+                    shards.iter().all(|s| !s.is_locked_exclusive())
+                });
+            }
+        }
+    }
+
+    fn done(&self, changed: bool) {
+        sched::done(self.addr(), changed)
+    }
+
+    pub fn insert(&self, key: K, value: V) -> Option<V> {
+        self.point_shard(true, &key);
+        let res = self.0.insert(key, value);
+        self.done(true);
+        res
+    }
+
+    pub fn remove<Q>(&self, key: &Q) -> Option<(K, V)>
+    where
+        K: Borrow<Q>,
+        Q: Hash + Eq + ?Sized,
+    {
+        self.point_shard(true, key);
+        let res = self.0.remove(key);
+        self.done(res.is_some());
+        res
+    }
+
+    pub fn remove_if<Q>(&self, key: &Q, f: impl FnOnce(&K, &V) -> bool) -> Option<(K, V)>
+    where
+        K: Borrow<Q>,
+        Q: Hash + Eq + ?Sized,
+    {
+        self.point_shard(true, key);
+        let res = self.0.remove_if(key, f);
+        self.done(res.is_some());
+        res
+    }
+
+    pub fn iter(&'a self) -> Iter<'a, K, V, S, dashmap::DashMap<K, V, S>> {
+        self.point_all(false);
+        self.done(false);
+        self.0.iter()
+    }
+
+    pub fn iter_mut(&'a self) -> IterMut<'a, K, V, S, dashmap::DashMap<K, V, S>> {
+        self.point_all(true);
+        self.done(true);
+        self.0.iter_mut()
+    }
+
+    pub fn get<Q>(&'a self, key: &Q) -> Option<Ref<'a, K, V, S>>
+    where
+        K: Borrow<Q>,
+        Q: Hash + Eq + ?Sized,
+    {
+        self.point_shard(false, key);
+        let res = self.0.get(key);
+        self.done(false);
+        res
+    }
+
+    pub fn get_mut<Q>(&'a self, key: &Q) -> Option<RefMut<'a, K, V, S>>
+    where
+        K: Borrow<Q>,
+        Q: Hash + Eq + ?Sized,
+    {
+        self.point_shard(true, key);
+        let res = self.0.get_mut(key);
+        self.done(res.is_some());
+        res
+    }
+
+    pub fn contains_key<Q>(&self, key: &Q) -> bool
+    where
+        K: Borrow<Q>,
+        Q: Hash + Eq + ?Sized,
+    {
+        self.point_shard(false, key);
+        let res = self.0.contains_key(key);
+        self.done(false);
+        res
+    }
+
+    pub fn entry(&'a self, key: K) -> Entry<'a, K, V, S> {
+        self.point_shard(true, &key);
+        let res = self.0.entry(key);
+        self.done(true);
+        res
+    }
+
+    pub fn retain(&self, f: impl FnMut(&K, &mut V) -> bool) {
+        self.point_all(true);
+        self.0.retain(f);
+        self.done(true);
+    }
+
+    pub fn clear(&self) {
+        self.point_all(true);
+        self.0.clear();
+        self.done(true);
+    }
+
+    pub fn len(&self) -> usize {
+        self.point_all(false);
+        let res = self.0.len();
+        self.done(false);
+        res
+    }
+
+    pub fn is_empty(&self) -> bool {
+        self.len() == 0
+    }
+}
+
+impl<'a, K: Eq + Hash, V, S: BuildHasher + Clone> IntoIterator for &'a DashMap<K, V, S> {
+    type Item = dashmap::mapref::multiple::RefMulti<'a, K, V, S>;
+    type IntoIter = Iter<'a, K, V, S, dashmap::DashMap<K, V, S>>;
+
+    fn into_iter(self) -> Self::IntoIter {
+        self.iter()
+    }
+}
diff --git a/src/verif/mod.rs b/src/verif/mod.rs
new file mode 100644
index 0000000..2a91f83
--- /dev/null
+++ b/src/verif/mod.rs
@@ -0,0 +1,13 @@
+//! Hooks for the model checking harnesses. Only compiled with `--cfg verif`.
+//!
+//! Everything here is a stand-in for a source of nondeterminism (thread scheduling, the clock,
+//! random numbers, hashing seeds, the UDP socket). When no harness is attached the stand-ins
+//! behave like the originals.
+
+pub mod hash;
+pub mod map;
+pub mod net;
+pub mod rng;
+pub mod sched;
+pub mod sync;
+pub mod time;
diff --git a/src/verif/net.rs b/src/verif/net.rs
new file mode 100644
index 0000000..2771508
--- /dev/null
+++ b/src/verif/net.rs
@@ -0,0 +1,116 @@
+//! Stand-in for the UDP socket. Sockets of one OS thread form a separate network
+
+use std::cell::{Cell, RefCell};
+use std::collections::HashMap;
+use std::io;
+use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4};
+use std::sync::Arc;
+
+use anyhow::Result;
+use tokio::sync::{mpsc, Mutex};
+
+/// Sent datagram
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct Datagram {
+    /// Port of the sender
+    pub from: u16,
+    pub to: SocketAddrV4,
+    pub data: Vec<u8>,
+}
+
+#[derive(Default)]
+struct Network {
+    inboxes: HashMap<u16, mpsc::UnboundedSender<(Vec<u8>, SocketAddr)>>,
+    sent: Vec<Datagram>,
+    next_port: u16,
+}
+
+thread_local! {
+    static NETWORK: RefCell<Network> = RefCell::new(Network::default());
+    static ACTIVITY: Cell<u64> = const { Cell::new(0) };
+}
+
+/// Drops all sockets and datagrams
+pub fn reset() {
+    NETWORK.with(|n| *n.borrow_mut() = Network::default());
+    ACTIVITY.with(|n| n.set(0));
+}
+
+/// Counter which grows on every socket operation
+pub fn activity() -> u64 {
+    ACTIVITY.with(|n| n.get())
+}
+
+/// Takes all datagrams which were sent since the last call, in order
+pub fn take_sent() -> Vec<Datagram> {
+    NETWORK.with(|n| std::mem::take(&mut n.borrow_mut().sent))
+}
+
+/// Puts the datagram to the receiver's inbox. Returns whether there is such a receiver
+pub fn deliver(to_port: u16, from: SocketAddrV4, data: Vec<u8>) -> bool {
+    NETWORK.with(|n| match n.borrow().inboxes.get(&to_port) {
+        Some(inbox) => inbox.send((data, SocketAddr::V4(from))).is_ok(),
+        None => false,
+    })
+}
+
+pub struct UdpSocket {
+    port: u16,
+    inbox: Mutex<mpsc::UnboundedReceiver<(Vec<u8>, SocketAddr)>>,
+}
+
+impl UdpSocket {
+    pub fn local_addr(&self) -> io::Result<SocketAddr> {
+        Ok(SocketAddr::V4(SocketAddrV4::new(
+            Ipv4Addr::UNSPECIFIED,
+            self.port,
+        )))
+    }
+
+    pub async fn send_to(&self, data: &[u8], target: SocketAddrV4) -> io::Result<usize> {
+        NETWORK.with(|n| {
+            n.borrow_mut().sent.push(Datagram {
+                from: self.port,
+                to: target,
+                data: data.to_vec(),
+            })
+        });
+        ACTIVITY.with(|n| n.set(n.get() + 1));
+        Ok(data.len())
+    }
+
+    pub async fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
+        match self.inbox.lock().await.recv().await {
+            Some((data, addr)) => {
+                ACTIVITY.with(|n| n.set(n.get() + 1));
+                // The rest of a long datagram is discarded
+                let len = std::cmp::min(buf.len(), data.len());
+                buf[..len].copy_from_slice(&data[..len]);
+                Ok((len, addr))
+            }
+            // The network was reset
+            None => std::future::pending().await,
+        }
+    }
+}
+
+pub fn make_udp_socket(port: u16) -> Result<Arc<UdpSocket>> {
+    let (tx, rx) = mpsc::unbounded_channel();
+    let port = NETWORK.with(|n| {
+        let mut n = n.borrow_mut();
+        let port = match port {
+            0 => {
+                n.next_port += 1;
+                50000 + n.next_port
+            }
+            port => port,
+        };
+        n.inboxes.insert(port, tx);
+        port
+    });
+
+    Ok(Arc::new(UdpSocket {
+        port,
+        inbox: Mutex::new(rx),
+    }))
+}
diff --git a/src/verif/rng.rs b/src/verif/rng.rs
new file mode 100644
index 0000000..ff67142
--- /dev/null
+++ b/src/verif/rng.rs
@@ -0,0 +1,56 @@
+//! Deterministic random numbers
+
+use std::cell::Cell;
+
+use rand::rngs::SmallRng;
+use rand::{CryptoRng, RngCore, SeedableRng};
+
+thread_local! {
+    static COUNTER: Cell<Option<u64>> = const { Cell::new(None) };
+}
+
+/// Makes all subsequent random values on this OS thread a function of the `seed`.
+/// Random values come from the system until it is called.
+pub fn seed(seed: Option<u64>) {
+    COUNTER.with(|c| c.set(seed.map(|s| s.wrapping_mul(0x9e37_79b9_7f4a_7c15))));
+}
+
+fn next_seed() -> u64 {
+    COUNTER.with(|c| match c.get() {
+        Some(value) => {
+            c.set(Some(value.wrapping_add(1)));
+            value
+        }
+        None => rand::thread_rng().next_u64(),
+    })
+}
+
+/// Random numbers generator with a state shared by the whole OS thread
+#[derive(Clone, Copy, Default)]
+pub struct ThreadRng;
+
+impl RngCore for ThreadRng {
+    fn next_u32(&mut self) -> u32 {
+        self.next_u64() as u32
+    }
+
+    fn next_u64(&mut self) -> u64 {
+        SmallRng::seed_from_u64(next_seed()).next_u64()
+    }
+
+    fn fill_bytes(&mut self, dest: &mut [u8]) {
+        SmallRng::seed_from_u64(next_seed()).fill_bytes(dest)
+    }
+
+    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
+        self.fill_bytes(dest);
+        Ok(())
+    }
+}
+
+impl CryptoRng for ThreadRng {}
+
+/// Replacement for `rand::thread_rng`
+pub fn thread_rng() -> ThreadRng {
+    ThreadRng
+}
diff --git a/src/verif/sched.rs b/src/verif/sched.rs
new file mode 100644
index 0000000..5d4f1b6
--- /dev/null
+++ b/src/verif/sched.rs
@@ -0,0 +1,56 @@
+//! Scheduling points
+
+use std::cell::Cell;
+
+/// What is about to be executed
+#[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
+pub enum Op {
+    /// Atomic load or any other access which can't change the object
+    Read,
+    /// Anything else
+    Write,
+}
+
+/// Cooperative scheduler
+pub trait Scheduler {
+    /// Called right before an access to a shared object at `addr`.
+    ///
+    /// Must not return until `enabled` returns true.
+    fn point(&self, op: Op, addr: usize, enabled: &dyn Fn() -> bool);
+
+    /// Called right after the access, with whether the object could have been changed
+    fn done(&self, addr: usize, changed: bool);
+}
+
+thread_local! {
+    static CURRENT: Cell<Option<&'static dyn Scheduler>> = const { Cell::new(None) };
+}
+
+/// Sets the scheduler of the logical thread which is currently running on this OS thread
+pub fn set_current(scheduler: Option<&'static dyn Scheduler>) {
+    CURRENT.with(|c| c.set(scheduler))
+}
+
+#[inline]
+pub fn point(op: Op, addr: usize) {
+    point_if(op, addr, &|| true)
+}
+
+#[inline]
+pub fn point_if(op: Op, addr: usize, enabled: &dyn Fn() -> bool) {
+    if let Some(s) = CURRENT.with(|c| c.get()) {
+        s.point(op, addr, enabled)
+    }
+}
+
+#[inline]
+pub fn done(addr: usize, changed: bool) {
+    if let Some(s) = CURRENT.with(|c| c.get()) {
+        s.done(addr, changed)
+    }
+}
+
+#[inline]
+pub fn is_active() -> bool {
+    CURRENT.with(|c| c.get()).is_some()
+}
diff --git a/src/verif/sync.rs b/src/verif/sync.rs
new file mode 100644
index 0000000..b600238
--- /dev/null
+++ b/src/verif/sync.rs
@@ -0,0 +1,233 @@
+//! Instrumented synchronization primitives
+
+use super::sched::{self, Op};
+
+pub mod atomic {
+    use super::*;
+    pub use std::sync::atomic::Ordering;
+
+    macro_rules! impl_atomic {
+        ($name:ident, $ty:ty, [$($arith:ident),*]) => {
+            #[derive(Debug, Default)]
+            pub struct $name(std::sync::atomic::$name);
+
+            #[allow(unused)]
+            impl $name {
+                #[inline]
+                pub const fn new(value: $ty) -> Self {
+                    Self(std::sync::atomic::$name::new(value))
+                }
+
+                #[inline]
+                fn addr(&self) -> usize {
+                    self as *const Self as usize
+                }
+
+                #[inline]
+                pub fn into_inner(self) -> $ty {
+                    self.0.into_inner()
+                }
+
+                #[inline]
+                pub fn get_mut(&mut self) -> &mut $ty {
+                    self.0.get_mut()
+                }
+
+                #[inline]
+                pub fn load(&self, order: Ordering) -> $ty {
+                    sched::point(Op::Read, self.addr());
+                    let res = self.0.load(order);
+                    sched::done(self.addr(), false);
+                    res
+                }
+
+                #[inline]
+                pub fn store(&self, value: $ty, order: Ordering) {
+                    sched::point(Op::Write, self.addr());
+                    self.0.store(value, order);
+                    sched::done(self.addr(), true);
+                }
+
+                #[inline]
+                pub fn swap(&self, value: $ty, order: Ordering) -> $ty {
+                    sched::point(Op::Write, self.addr());
+                    let res = self.0.swap(value, order);
+                    sched::done(self.addr(), res != value);
+                    res
+                }
+
+                #[inline]
+                pub fn compare_exchange(
+                    &self,
+                    current: $ty,
+                    new: $ty,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<$ty, $ty> {
+                    sched::point(Op::Write, self.addr());
+                    let res = self.0.compare_exchange(current, new, success, failure);
+                    sched::done(self.addr(), res.is_ok());
+                    res
+                }
+
+                #[inline]
+                pub fn compare_exchange_weak(
+                    &self,
+                    current: $ty,
+                    new: $ty,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<$ty, $ty> {
+                    self.compare_exchange(current, new, success, failure)
+                }
+
+                pub fn fetch_update<F: FnMut($ty) -> Option<$ty>>(
+                    &self,
+                    set_order: Ordering,
+                    fetch_order: Ordering,
+                    mut f: F,
+                ) -> Result<$ty, $ty> {
+                    let mut prev = self.load(fetch_order);
+                    while let Some(next) = f(prev) {
+                        match self.compare_exchange_weak(prev, next, set_order, fetch_order) {
+                            x @ Ok(_) => return x,
+                            Err(next_prev) => prev = next_prev,
+                        }
+                    }
+                    Err(prev)
+                }
+
+                $(
+                    #[inline]
+                    pub fn $arith(&self, value: $ty, order: Ordering) -> $ty {
+                        sched::point(Op::Write, self.addr());
+                        let res = self.0.$arith(value, order);
+                        sched::done(self.addr(), true);
+                        res
+                    }
+                )*
+            }
+        };
+    }
+
+    impl_atomic!(
+        AtomicBool,
+        bool,
+        [fetch_and, fetch_or, fetch_xor, fetch_nand]
+    );
+    impl_atomic!(
+        AtomicU32,
+        u32,
+        [fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min]
+    );
+    impl_atomic!(
+        AtomicU64,
+        u64,
+        [fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min]
+    );
+    impl_atomic!(
+        AtomicUsize,
+        usize,
+        [fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min]
+    );
+}
+
+/// Instrumented `parking_lot::RwLock`
+#[derive(Debug, Default)]
+pub struct RwLock<T>(parking_lot::RwLock<T>);
+
+impl<T> RwLock<T> {
+    pub const fn new(value: T) -> Self {
+        Self(parking_lot::RwLock::new(value))
+    }
+
+    fn addr(&self) -> usize {
+        self as *const Self as usize
+    }
+
+    pub fn read(&self) -> parking_lot::RwLockReadGuard<'_, T> {
+        sched::point_if(Op::Write, self.addr(), &|| !self.0.is_locked_exclusive());
+        let guard = self.0.read();
+        sched::done(self.addr(), true);
+        guard
+    }
+
+    pub fn write(&self) -> parking_lot::RwLockWriteGuard<'_, T> {
+        sched::point_if(Op::Write, self.addr(), &|| !self.0.is_locked());
+        let guard = self.0.write();
+        sched::done(self.addr(), true);
+        guard
+    }
+
+    pub fn into_inner(self) -> T {
+        self.0.into_inner()
+    }
+}
+
+/// Instrumented `parking_lot::Mutex`
+#[derive(Debug, Default)]
+pub struct Mutex<T>(parking_lot::Mutex<T>);
+
+impl<T> Mutex<T> {
+    pub const fn new(value: T) -> Self {
+        Self(parking_lot::Mutex::new(value))
+    }
+
+    fn addr(&self) -> usize {
+        self as *const Self as usize
+    }
+
+    pub fn lock(&self) -> parking_lot::MutexGuard<'_, T> {
+        sched::point_if(Op::Write, self.addr(), &|| !self.0.is_locked());
+        let guard = self.0.lock();
+        sched::done(self.addr(), true);
+        guard
+    }
+}
+
+/// Instrumented `crossbeam_queue::SegQueue`
+#[cfg(feature = "overlay")]
+#[derive(Debug)]
+pub struct SegQueue<T>(crossbeam_queue::SegQueue<T>);
+
+#[cfg(feature = "overlay")]
+#[allow(unused)]
+impl<T> SegQueue<T> {
+    pub const fn new() -> Self {
+        Self(crossbeam_queue::SegQueue::new())
+    }
+
+    fn addr(&self) -> usize {
+        self as *const Self as usize
+    }
+
+    pub fn push(&self, value: T) {
+        sched::point(Op::Write, self.addr());
+        self.0.push(value);
+        sched::done(self.addr(), true);
+    }
+
+    pub fn pop(&self) -> Option<T> {
+        sched::point(Op::Write, self.addr());
+        let res = self.0.pop();
+        sched::done(self.addr(), res.is_some());
+        res
+    }
+
+    pub fn len(&self) -> usize {
+        sched::point(Op::Read, self.addr());
+        self.0.len()
+    }
+
+    pub fn is_empty(&self) -> bool {
+        sched::point(Op::Read, self.addr());
+        self.0.is_empty()
+    }
+}
+
+#[cfg(feature = "overlay")]
+impl<T> Default for SegQueue<T> {
+    fn default() -> Self {
+        Self::new()
+    }
+}
diff --git a/src/verif/time.rs b/src/verif/time.rs
new file mode 100644
index 0000000..1f6277f
--- /dev/null
+++ b/src/verif/time.rs
@@ -0,0 +1,18 @@
+//! Clock
+
+use std::cell::Cell;
+
+pub use tokio::time::Instant;
+
+thread_local! {
+    static UNIX_CLOCK: Cell<Option<fn() -> u32>> = const { Cell::new(None) };
+}
+
+/// Overrides unix time for this OS thread
+pub fn set_unix_clock(clock: Option<fn() -> u32>) {
+    UNIX_CLOCK.with(|c| c.set(clock))
+}
+
+pub fn unix_clock() -> Option<u32> {
+    UNIX_CLOCK.with(|c| c.get()).map(|f| f())
+}
-- 
2.43.0


From c79459fe6d98d2acd91af61b6a58e1fca018eb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 02/68] fix: packets history never moved its window and did not
 detect duplicates

The window index was never advanced, the first packet of a new block was not
marked as delivered, and two copies of a packet could both pass the check
between reading and setting its bit.
---
 src/util/packets_history.rs | 107 +++++++++++-------------------------
 1 file changed, 33 insertions(+), 74 deletions(-)

diff --git a/src/util/packets_history.rs b/src/util/packets_history.rs
index 217a489..9075ddf 100644
--- a/src/util/packets_history.rs
+++ b/src/util/packets_history.rs
@@ -34,7 +34,7 @@ impl PacketsHistory {
 
                 if mask
                     .index
-                    .compare_exchange(index, IN_TRANSIT, Ordering::Release, Ordering::Relaxed)
+                    .compare_exchange(index, IN_TRANSIT, Ordering::AcqRel, Ordering::Relaxed)
                     .is_err()
                 {
                     continue;
@@ -91,99 +91,58 @@ impl PacketsHistory {
                 continue;
             }
 
-            let index_masked = index & INDEX_MASK;
-            let index_normalized = index & !INDEX_MASK;
-
-            if index_normalized > seqno_normalized + INDEX_MASK + 1 {
-                tracing::debug!(seqno, index_normalized, "peer packet is too old");
+            if index.saturating_sub(seqno_normalized) > INDEX_MASK + 1 {
+                tracing::debug!(seqno, index, "peer packet is too old");
                 return false;
             }
 
-            let mask_bit = 1 << (seqno_masked % 64);
-            let mask_offset = match index_normalized.cmp(&seqno_normalized) {
-                std::cmp::Ordering::Greater => Some(0),
-                std::cmp::Ordering::Equal => Some(HISTORY_SIZE / 2),
-                std::cmp::Ordering::Less => None,
-            };
-
-            let next_index = match mask_offset {
-                Some(mask_offset) => {
-                    let mask_offset = mask_offset + seqno_masked as usize / 64;
-                    let already_delivered =
-                        mask.bits[mask_offset].load(Ordering::Acquire) & mask_bit;
-                    if mask.index.load(Ordering::Acquire) != index {
-                        continue;
-                    }
-
-                    if already_delivered != 0 {
-                        tracing::trace!(seqno, "peer packet was already received");
-                        return false;
-                    }
-
-                    if mask
-                        .index
-                        .compare_exchange(index, IN_TRANSIT, Ordering::Release, Ordering::Relaxed)
-                        .is_err()
-                    {
-                        continue;
-                    }
-
-                    mask.bits[mask_offset].fetch_or(mask_bit, Ordering::Release);
-
-                    index
-                }
-                None => {
-                    if mask
-                        .index
-                        .compare_exchange(index, IN_TRANSIT, Ordering::Release, Ordering::Relaxed)
-                        .is_err()
-                    {
-                        continue;
-                    }
+            // Only one thread at a time can check and update bits
+            if mask
+                .index
+                .compare_exchange(index, IN_TRANSIT, Ordering::AcqRel, Ordering::Relaxed)
+                .is_err()
+            {
+                continue;
+            }
 
-                    if index_normalized + INDEX_MASK + 1 == seqno_normalized {
-                        for i in 0..HISTORY_SIZE / 2 {
-                            mask.bits[i].store(
-                                mask.bits[i + HISTORY_SIZE / 2].load(Ordering::Acquire),
-                                Ordering::Release,
-                            )
-                        }
-
-                        for bits in &mask.bits[HISTORY_SIZE / 2..HISTORY_SIZE] {
-                            bits.store(0, Ordering::Relaxed)
-                        }
-                    } else {
-                        for bits in &mask.bits {
-                            bits.store(0, Ordering::Release)
-                        }
+            let mask_offset = match index.cmp(&seqno_normalized) {
+                std::cmp::Ordering::Greater => 0,
+                std::cmp::Ordering::Equal => HISTORY_SIZE / 2,
+                std::cmp::Ordering::Less => {
+                    // Move the window forward, so that `seqno` is in its upper half
+                    let is_next = seqno_normalized - index == INDEX_MASK + 1;
+                    for i in 0..HISTORY_SIZE / 2 {
+                        let upper = mask.bits[i + HISTORY_SIZE / 2].swap(0, Ordering::AcqRel);
+                        mask.bits[i].store(if is_next { upper } else { 0 }, Ordering::Release);
                     }
-
-                    index_normalized
+                    HISTORY_SIZE / 2
                 }
             };
 
+            let mask_bit = 1 << (seqno_masked % 64);
+            let mask_offset = mask_offset + seqno_masked as usize / 64;
+            let already_delivered =
+                mask.bits[mask_offset].fetch_or(mask_bit, Ordering::AcqRel) & mask_bit != 0;
+
             let last_seqno = self.seqno.load(Ordering::Acquire);
             if last_seqno < seqno {
                 self.seqno.store(seqno, Ordering::Release);
             }
 
-            let index_masked = (index_masked + 1) & !INDEX_MASK;
-            let _ = mask.index.compare_exchange(
-                IN_TRANSIT,
-                next_index | index_masked,
-                Ordering::Release,
-                Ordering::Relaxed,
-            );
+            mask.index
+                .store(std::cmp::max(index, seqno_normalized), Ordering::Release);
 
-            break;
+            if already_delivered {
+                tracing::trace!(seqno, "peer packet was already received");
+            }
+            return !already_delivered;
         }
-
-        true
     }
 }
 
 #[derive(Default)]
 struct HistoryBits {
+    /// First seqno in the upper half of the window or `IN_TRANSIT` if the window is being updated
     index: AtomicU64,
     bits: [AtomicU64; HISTORY_SIZE],
 }
-- 
2.43.0


From 596dd5cfb9cd5aa9c874a4477de62b821e367987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 03/68] fix: split messages of more than two parts lost all
 parts in the middle

The offset of the next part was increased by the end of the previous one.
---
 src/adnl/node/sender.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adnl/node/sender.rs b/src/adnl/node/sender.rs
index e8bce38..f643907 100644
--- a/src/adnl/node/sender.rs
+++ b/src/adnl/node/sender.rs
@@ -160,7 +160,7 @@ impl Node {
                     },
                 };
 
-                *offset += len;
+                *offset = len;
                 result
             }
 
-- 
2.43.0


From 08626c4342d60ba83f40495a0ee85a9bf03f474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 04/68] fix: split messages of different peers with equal
 contents were mixed up

Incoming transfers were only identified by the hash of their data, so packets
from one peer (or to one local id) completed or destroyed messages of another.
---
 src/adnl/node/mod.rs      |  5 ++++-
 src/adnl/node/receiver.rs | 10 ++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index 4b5e999..5350620 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -131,7 +131,7 @@ pub struct Node {
     channels_by_peers: FastDashMap<NodeIdShort, Arc<Channel>>,
 
     /// Pending transfers of large messages that were split
-    incoming_transfers: Arc<FastDashMap<TransferId, Arc<Transfer>>>,
+    incoming_transfers: Arc<FastDashMap<IncomingTransferKey, Arc<Transfer>>>,
 
     /// Pending queries
     queries: Arc<QueriesCache>,
@@ -560,6 +560,9 @@ pub struct NodeMetrics {
     pub query_count: usize,
 }
 
+/// Local id, peer id and the hash of the transferred data
+type IncomingTransferKey = (NodeIdShort, NodeIdShort, TransferId);
+
 struct InitializationState {
     #[cfg(not(verif))]
     socket: Arc<tokio::net::UdpSocket>,
diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 4c54169..b22ae1f 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -197,7 +197,9 @@ impl Node {
         } = message
         {
             let transfer_id = *hash;
-            let transfer = match self.incoming_transfers.entry(transfer_id) {
+            // The same data can be sent by several peers or to several local ids
+            let transfer_key = (*local_id, *peer_id, transfer_id);
+            let transfer = match self.incoming_transfers.entry(transfer_key) {
                 // Create new transfer state if it was a new incoming transfer
                 Entry::Vacant(entry) => {
                     let entry = entry.insert(Arc::new(Transfer::new(total_size as usize)));
@@ -222,7 +224,7 @@ impl Node {
                                     continue;
                                 }
 
-                                if incoming_transfers.remove(&transfer_id).is_some() {
+                                if incoming_transfers.remove(&transfer_key).is_some() {
                                     tracing::debug!(
                                         transfer_id = %DisplayTransferId(&transfer_id),
                                         "ADNL transfer timed out"
@@ -245,11 +247,11 @@ impl Node {
             // Update transfer
             match transfer.add_part(offset as usize, data.to_vec(), &transfer_id) {
                 Ok(Some(message)) => {
-                    self.incoming_transfers.remove(&transfer_id);
+                    self.incoming_transfers.remove(&transfer_key);
                     Some(message)
                 }
                 Err(error) => {
-                    self.incoming_transfers.remove(&transfer_id);
+                    self.incoming_transfers.remove(&transfer_key);
                     return Err(error.into());
                 }
                 _ => return Ok(()),
-- 
2.43.0


From e9800a755a38154d97d6ff947735fe4be9d6936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 05/68] fix: local identities of a node shared their channels
 with a peer

Channels were stored by peer id only, so messages of one local identity were
sent and attributed on behalf of another one, and resetting or removing a peer
for one of them destroyed the channel of the other.
---
 src/adnl/node/mod.rs      | 11 +++++++----
 src/adnl/node/receiver.rs |  4 ++--
 src/adnl/node/sender.rs   |  2 +-
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index 5350620..f476d5d 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -128,7 +128,7 @@ pub struct Node {
     /// Channels table used to fast search on incoming packets
     channels_by_id: FastDashMap<AdnlChannelId, ChannelReceiver>,
     /// Channels table used to fast search when sending messages
-    channels_by_peers: FastDashMap<NodeIdShort, Arc<Channel>>,
+    channels_by_peers: FastDashMap<ChannelKey, Arc<Channel>>,
 
     /// Pending transfers of large messages that were split
     incoming_transfers: Arc<FastDashMap<IncomingTransferKey, Arc<Transfer>>>,
@@ -358,7 +358,7 @@ impl Node {
         let peers = self.get_peers(local_id)?;
 
         self.channels_by_peers
-            .remove(peer_id)
+            .remove(&(*local_id, *peer_id))
             .and_then(|(_, removed)| {
                 self.channels_by_id.remove(removed.ordinary_channel_in_id());
                 self.channels_by_id.remove(removed.priority_channel_in_id())
@@ -476,7 +476,7 @@ impl Node {
 
         let channel = self
             .channels_by_peers
-            .get(peer_id)
+            .get(&(*local_id, *peer_id))
             .map(|entry| entry.value().clone());
 
         let timeout = timeout.unwrap_or(self.options.query_default_timeout_ms);
@@ -526,7 +526,7 @@ impl Node {
         tracing::trace!(%local_id, %peer_id, "resetting peer pair");
 
         self.channels_by_peers
-            .remove(peer_id)
+            .remove(&(*local_id, *peer_id))
             .and_then(|(_, removed)| {
                 self.channels_by_id.remove(removed.ordinary_channel_in_id());
                 self.channels_by_id.remove(removed.priority_channel_in_id())
@@ -560,6 +560,9 @@ pub struct NodeMetrics {
     pub query_count: usize,
 }
 
+/// Local id and peer id
+type ChannelKey = (NodeIdShort, NodeIdShort);
+
 /// Local id, peer id and the hash of the transferred data
 type IncomingTransferKey = (NodeIdShort, NodeIdShort, TransferId);
 
diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index b22ae1f..216ffe0 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -440,7 +440,7 @@ impl Node {
 
         let peers = self.get_peers(local_id)?;
         let peer = if from_channel {
-            if self.channels_by_peers.contains_key(&peer_id) {
+            if self.channels_by_peers.contains_key(&(*local_id, peer_id)) {
                 peers.get(&peer_id)
             } else {
                 return Err(AdnlPacketError::UnknownChannel.into());
@@ -524,7 +524,7 @@ impl Node {
         };
         let peer = peer.value();
 
-        match self.channels_by_peers.entry(*peer_id) {
+        match self.channels_by_peers.entry((*local_id, *peer_id)) {
             Entry::Occupied(mut entry) => {
                 let channel = entry.get();
 
diff --git a/src/adnl/node/sender.rs b/src/adnl/node/sender.rs
index f643907..302f207 100644
--- a/src/adnl/node/sender.rs
+++ b/src/adnl/node/sender.rs
@@ -77,7 +77,7 @@ impl Node {
 
         // Get local key
         let local_key = self.keystore.key_by_id(local_id)?;
-        let channel = self.channels_by_peers.get(peer_id);
+        let channel = self.channels_by_peers.get(&(*local_id, *peer_id));
         let mut force_handshake = false;
         let (additional_size, additional_message) = match &channel {
             Some(channel) if channel.ready() => (0, None),
-- 
2.43.0


From 7615a89860130654855f51c43164acdd2425e408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:26 +0000
Subject: [PATCH 06/68] fix: empty and duplicate parts of a split message

An empty part made the reassembly loop forever or took the place of the real
one, and a duplicate part replaced data which was already received.
---
 src/adnl/transfer.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/adnl/transfer.rs b/src/adnl/transfer.rs
index 8f7883f..6309d6c 100644
--- a/src/adnl/transfer.rs
+++ b/src/adnl/transfer.rs
@@ -51,11 +51,19 @@ impl Transfer {
         data: Vec<u8>,
         transfer_id: &TransferId,
     ) -> Result<Option<Vec<u8>>, TransferError> {
+        use dashmap::mapref::entry::Entry;
+
         let len = data.len();
-        if self.parts.insert(offset, data).is_some() {
+        if len == 0 {
+            // An empty part adds nothing, but it would take the place of the real one
             return Ok(None);
         }
 
+        match self.parts.entry(offset) {
+            Entry::Vacant(entry) => drop(entry.insert(data)),
+            Entry::Occupied(_) => return Ok(None),
+        }
+
         // Increase received length.
         // This part heavily relies on ordering, so hope that it works as expected
         self.received_len.fetch_add(len, Ordering::Release);
-- 
2.43.0


From 212dc2e59961c5820fd3b9b16a9fc0e20b3addfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 07/68] fix: timeout of a finished split message dropped a
 newer transfer of the same data

---
 src/adnl/node/receiver.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 216ffe0..b87ede0 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -224,7 +224,10 @@ impl Node {
                                     continue;
                                 }
 
-                                if incoming_transfers.remove(&transfer_key).is_some() {
+                                // There could be another transfer of the same data by this time
+                                let removed = incoming_transfers
+                                    .remove_if(&transfer_key, |_, t| Arc::ptr_eq(t, &transfer));
+                                if removed.is_some() {
                                     tracing::debug!(
                                         transfer_id = %DisplayTransferId(&transfer_id),
                                         "ADNL transfer timed out"
-- 
2.43.0


From d27d70c410816ff70c5e7038d19044b0ff16b698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 08/68] fix: unsigned packets with a short id of the sender
 were accepted

---
 src/adnl/node/receiver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index b87ede0..af61815 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -458,7 +458,7 @@ impl Node {
                 raw_packet,
                 &mut packet.signature,
                 peer.id().public_key(),
-                false,
+                !from_channel && self.options.packet_signature_required,
             )?;
         }
 
-- 
2.43.0


From 675f1adba73af9b80bfec9ab4628a144a6ff5050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 09/68] verif: observers of channels and peers (cfg(verif)
 only)

---
 src/adnl/node/mod.rs      | 59 +++++++++++++++++++++++++++++++++++++++
 src/adnl/node/receiver.rs |  2 +-
 2 files changed, 60 insertions(+), 1 deletion(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index f476d5d..894245d 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -602,3 +602,62 @@ enum NodeError {
     #[error("Unknown peer")]
     UnknownPeer,
 }
+
+#[cfg(verif)]
+impl Node {
+    /// All channels as local id, peer id, incoming ids (ordinary and priority) and readiness
+    pub fn verif_channels(&self) -> Vec<(NodeIdShort, NodeIdShort, [u8; 32], [u8; 32], bool)> {
+        let mut channels = Vec::new();
+        for entry in self.channels_by_peers.iter() {
+            let (local_id, peer_id) = entry.key();
+            let channel = entry.value();
+            channels.push((
+                *local_id,
+                *peer_id,
+                *channel.ordinary_channel_in_id(),
+                *channel.priority_channel_in_id(),
+                channel.ready(),
+            ));
+        }
+        channels
+    }
+
+    /// All incoming channel ids
+    pub fn verif_channel_ids(&self) -> Vec<[u8; 32]> {
+        self.channels_by_id.iter().map(|e| *e.key()).collect()
+    }
+
+    /// Reinit date, ordinary and priority seqno of the received and of the sent packets
+    pub fn verif_peer_state(
+        &self,
+        local_id: &NodeIdShort,
+        peer_id: &NodeIdShort,
+    ) -> Option<[(u32, u64, u64); 2]> {
+        let peers = self.get_peers(local_id).ok()?;
+        let peer = peers.get(peer_id)?;
+        Some([peer.receiver_state(), peer.sender_state()].map(|state| {
+            (
+                state.reinit_date(),
+                state.history(false).seqno(),
+                state.history(true).seqno(),
+            )
+        }))
+    }
+
+    /// Processes the datagram in the calling task
+    pub async fn verif_receive(
+        self: &Arc<Self>,
+        data: &mut [u8],
+        message_subscribers: &[Arc<dyn MessageSubscriber>],
+        query_subscribers: &[Arc<dyn QuerySubscriber>],
+    ) -> Result<()> {
+        let data = crate::adnl::packet_view::PacketView::from(data);
+        self.handle_received_data(data, message_subscribers, query_subscribers)
+            .await
+    }
+
+    /// Drops the channel with the peer, like after a long silence
+    pub fn verif_reset_peer(&self, local_id: &NodeIdShort, peer_id: &NodeIdShort) -> Result<()> {
+        self.reset_peer(local_id, peer_id)
+    }
+}
diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index af61815..4830a02 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -108,7 +108,7 @@ impl Node {
     }
 
     /// Decrypts and processes received data
-    async fn handle_received_data(
+    pub(super) async fn handle_received_data(
         self: &Arc<Self>,
         mut data: PacketView<'_>,
         message_subscribers: &[Arc<dyn MessageSubscriber>],
-- 
2.43.0


From 11cad60b10a9f08a2b1ea439cf47ccc1ec0ea2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 10/68] fix: confirmation of a channel with a previous key
 created a channel the peer does not have

---
 src/adnl/node/receiver.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 4830a02..8e0462b 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -273,13 +273,17 @@ impl Node {
                 self.process_message_answer(query_id, answer);
                 Ok(())
             }
-            proto::adnl::Message::ConfirmChannel { key, date, .. } => self
-                .process_message_confirm_channel(
-                    local_id,
-                    peer_id,
-                    ed25519::PublicKey::from_bytes(*key).ok_or(AdnlReceiverError::InvalidPacket)?,
-                    date,
-                ),
+            proto::adnl::Message::ConfirmChannel {
+                key,
+                peer_key,
+                date,
+            } => self.process_message_confirm_channel(
+                local_id,
+                peer_id,
+                ed25519::PublicKey::from_bytes(*key).ok_or(AdnlReceiverError::InvalidPacket)?,
+                peer_key,
+                date,
+            ),
             proto::adnl::Message::CreateChannel { key, date } => self
                 .process_message_create_channel(
                     local_id,
@@ -335,6 +339,7 @@ impl Node {
         local_id: &NodeIdShort,
         peer_id: &NodeIdShort,
         peer_channel_public_key: ed25519::PublicKey,
+        confirmed_key: &[u8; 32],
         peer_channel_date: u32,
     ) -> Result<()> {
         self.create_channel(
@@ -342,7 +347,7 @@ impl Node {
             peer_id,
             peer_channel_public_key,
             peer_channel_date,
-            ChannelCreationContext::ConfirmChannel,
+            Some(confirmed_key),
         )
     }
 
@@ -358,7 +363,7 @@ impl Node {
             peer_id,
             peer_channel_public_key,
             peer_channel_date,
-            ChannelCreationContext::CreateChannel,
+            None,
         )
     }
 
@@ -516,7 +521,7 @@ impl Node {
         peer_id: &NodeIdShort,
         peer_channel_public_key: ed25519::PublicKey,
         peer_channel_date: u32,
-        context: ChannelCreationContext,
+        confirmed_key: Option<&[u8; 32]>,
     ) -> Result<()> {
         use dashmap::mapref::entry::Entry;
 
@@ -527,6 +532,13 @@ impl Node {
         };
         let peer = peer.value();
 
+        let context = match confirmed_key {
+            // The peer confirms a channel with some previous key, so it doesn't have the current one
+            Some(key) if key != peer.channel_key().public_key.as_bytes() => return Ok(()),
+            Some(_) => ChannelCreationContext::ConfirmChannel,
+            None => ChannelCreationContext::CreateChannel,
+        };
+
         match self.channels_by_peers.entry((*local_id, *peer_id)) {
             Entry::Occupied(mut entry) => {
                 let channel = entry.get();
-- 
2.43.0


From f4f2eabd53a0a76e0a0a808cdbd403ddcf73ea40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 11/68] fix: a peer was not told about the reset of its
 sequence numbers

---
 src/adnl/node/receiver.rs | 3 ++-
 src/adnl/node/sender.rs   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 8e0462b..1676d63 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -472,7 +472,8 @@ impl Node {
             target: local_reinit_date,
         }) = packet.reinit_dates
         {
-            let expected_local_reinit_date = local_reinit_date.cmp(&self.start_time);
+            let expected_local_reinit_date =
+                local_reinit_date.cmp(&peer.receiver_state().reinit_date());
             if expected_local_reinit_date == Ordering::Greater {
                 return Err(AdnlPacketError::DstReinitDateTooNew.into());
             }
diff --git a/src/adnl/node/sender.rs b/src/adnl/node/sender.rs
index 302f207..d5619ba 100644
--- a/src/adnl/node/sender.rs
+++ b/src/adnl/node/sender.rs
@@ -264,7 +264,7 @@ impl Node {
             reinit_dates: match signer {
                 MessageSigner::Channel { .. } => None,
                 MessageSigner::Random(_) => Some(proto::adnl::ReinitDates {
-                    local: self.start_time,
+                    local: peer.receiver_state().reinit_date(),
                     target: peer.sender_state().reinit_date(),
                 }),
             },
-- 
2.43.0


From 2ae34b509d6135e3b878ecac91c61d3553fa6b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 12/68] fix: a peer which was added again continued with
 sequence numbers of its previous state

---
 src/adnl/node/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index 894245d..f2c8ea4 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -340,7 +340,9 @@ impl Node {
             Entry::Occupied(entry) => entry.get().set_addr(addr),
             // Create new peer state otherwise
             Entry::Vacant(entry) => {
-                entry.insert(Peer::new(self.start_time, addr, peer_id_full));
+                // The peer could be known before, in that case it has to forget the old state
+                let reinit_date = std::cmp::max(self.start_time, now());
+                entry.insert(Peer::new(reinit_date, addr, peer_id_full));
                 tracing::trace!(%local_id, %peer_id, %addr, "added ADNL peer");
             }
         };
-- 
2.43.0


From fdc947686b0da8a2702afd859029dbcb1ad5424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 13/68] fix: confirmation of a channel with another key made
 the current channel ready

---
 src/adnl/node/receiver.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 1676d63..b99a3fd 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -545,7 +545,9 @@ impl Node {
                 let channel = entry.get();
 
                 if channel.is_still_valid(&peer_channel_public_key, peer_channel_date) {
-                    if context == ChannelCreationContext::ConfirmChannel {
+                    if context == ChannelCreationContext::ConfirmChannel
+                        && channel.peer_channel_public_key() == &peer_channel_public_key
+                    {
                         channel.set_ready();
                     }
                     return Ok(());
-- 
2.43.0


From 2f69be2362c7f396c7ad6051206acc826bd90777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 14/68] fix: channel with the previous incarnation of a peer
 was kept and could not be replaced

---
 src/adnl/node/mod.rs      | 21 +++++++++------------
 src/adnl/node/receiver.rs |  7 +++++--
 src/adnl/peer.rs          | 11 ++++++-----
 3 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index f2c8ea4..57d7bb2 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -359,12 +359,7 @@ impl Node {
     pub fn remove_peer(&self, local_id: &NodeIdShort, peer_id: &NodeIdShort) -> Result<bool> {
         let peers = self.get_peers(local_id)?;
 
-        self.channels_by_peers
-            .remove(&(*local_id, *peer_id))
-            .and_then(|(_, removed)| {
-                self.channels_by_id.remove(removed.ordinary_channel_in_id());
-                self.channels_by_id.remove(removed.priority_channel_in_id())
-            });
+        self.remove_channel(local_id, peer_id);
 
         Ok(peers.remove(peer_id).is_some())
     }
@@ -521,18 +516,20 @@ impl Node {
         }
     }
 
+    fn remove_channel(&self, local_id: &NodeIdShort, peer_id: &NodeIdShort) {
+        if let Some((_, removed)) = self.channels_by_peers.remove(&(*local_id, *peer_id)) {
+            self.channels_by_id.remove(removed.ordinary_channel_in_id());
+            self.channels_by_id.remove(removed.priority_channel_in_id());
+        }
+    }
+
     fn reset_peer(&self, local_id: &NodeIdShort, peer_id: &NodeIdShort) -> Result<()> {
         let peers = self.get_peers(local_id)?;
         let mut peer = peers.get_mut(peer_id).ok_or(NodeError::UnknownPeer)?;
 
         tracing::trace!(%local_id, %peer_id, "resetting peer pair");
 
-        self.channels_by_peers
-            .remove(&(*local_id, *peer_id))
-            .and_then(|(_, removed)| {
-                self.channels_by_id.remove(removed.ordinary_channel_in_id());
-                self.channels_by_id.remove(removed.priority_channel_in_id())
-            });
+        self.remove_channel(local_id, peer_id);
 
         peer.reset();
 
diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index b99a3fd..f59d33e 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -482,8 +482,11 @@ impl Node {
                 return Err(AdnlPacketError::SrcReinitDateTooNew.into());
             }
 
-            if !peer.try_reinit_sender(peer_reinit_date) {
-                return Err(AdnlPacketError::SrcReinitDateTooOld.into());
+            match peer.try_reinit_sender(peer_reinit_date) {
+                // Previous channel is unknown to the new incarnation of the peer
+                Some(true) if !from_channel => self.remove_channel(local_id, &peer_id),
+                Some(_) => {}
+                None => return Err(AdnlPacketError::SrcReinitDateTooOld.into()),
             }
 
             if local_reinit_date != 0 && expected_local_reinit_date == Ordering::Less {
diff --git a/src/adnl/peer.rs b/src/adnl/peer.rs
index 3c448f7..d8209d3 100644
--- a/src/adnl/peer.rs
+++ b/src/adnl/peer.rs
@@ -41,12 +41,13 @@ impl Peer {
 
     /// Tries to update peer reinit date
     ///
-    /// It is only allowed to update peer reinit date if it is greater or equal to the known one
+    /// It is only allowed to update peer reinit date if it is greater or equal to the known one.
+    /// Returns whether the states were reset or `None` if the date is too old
     #[inline(always)]
-    pub fn try_reinit_sender(&self, reinit_date: u32) -> bool {
+    pub fn try_reinit_sender(&self, reinit_date: u32) -> Option<bool> {
         let sender_reinit_date = self.sender_state.reinit_date();
         match reinit_date.cmp(&sender_reinit_date) {
-            std::cmp::Ordering::Equal => true,
+            std::cmp::Ordering::Equal => Some(false),
             std::cmp::Ordering::Greater => {
                 self.sender_state.set_reinit_date(reinit_date);
                 if sender_reinit_date != 0 {
@@ -55,9 +56,9 @@ impl Peer {
                     self.receiver_state.history(false).reset();
                     self.receiver_state.history(true).reset();
                 }
-                true
+                Some(sender_reinit_date != 0)
             }
-            std::cmp::Ordering::Less => false,
+            std::cmp::Ordering::Less => None,
         }
     }
 
-- 
2.43.0


From 6d2a621a54a0849e12cebbd5cda1db10e4209a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:44 +0000
Subject: [PATCH 15/68] fix: channel could outlive a concurrently removed peer
 and its ids were lost

---
 src/adnl/node/mod.rs      | 24 +++++++++++++++++-------
 src/adnl/node/receiver.rs | 21 ++++++++++-----------
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index 57d7bb2..52ad526 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -357,11 +357,17 @@ impl Node {
     ///
     /// See [`Node::add_peer`]
     pub fn remove_peer(&self, local_id: &NodeIdShort, peer_id: &NodeIdShort) -> Result<bool> {
-        let peers = self.get_peers(local_id)?;
-
-        self.remove_channel(local_id, peer_id);
+        use dashmap::mapref::entry::Entry;
 
-        Ok(peers.remove(peer_id).is_some())
+        // NOTE: the peer is locked, so its channel can't be created at the same time
+        match self.get_peers(local_id)?.entry(*peer_id) {
+            Entry::Occupied(entry) => {
+                self.remove_channel(local_id, peer_id);
+                entry.remove();
+                Ok(true)
+            }
+            Entry::Vacant(_) => Ok(false),
+        }
     }
 
     /// Searches for remote peer socket address in the known peers
@@ -517,9 +523,13 @@ impl Node {
     }
 
     fn remove_channel(&self, local_id: &NodeIdShort, peer_id: &NodeIdShort) {
-        if let Some((_, removed)) = self.channels_by_peers.remove(&(*local_id, *peer_id)) {
-            self.channels_by_id.remove(removed.ordinary_channel_in_id());
-            self.channels_by_id.remove(removed.priority_channel_in_id());
+        use dashmap::mapref::entry::Entry;
+
+        if let Entry::Occupied(entry) = self.channels_by_peers.entry((*local_id, *peer_id)) {
+            let channel = entry.get();
+            self.channels_by_id.remove(channel.ordinary_channel_in_id());
+            self.channels_by_id.remove(channel.priority_channel_in_id());
+            entry.remove();
         }
     }
 
diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index f59d33e..3b86393 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -581,23 +581,22 @@ impl Node {
                 );
             }
             Entry::Vacant(entry) => {
-                let new_channel = entry
-                    .insert(Arc::new(Channel::new(
-                        *local_id,
-                        *peer_id,
-                        peer.channel_key(),
-                        peer_channel_public_key,
-                        peer_channel_date,
-                        context,
-                    )))
-                    .clone();
+                // NOTE: the entry stays locked until both ids are inserted
+                let new_channel = entry.insert(Arc::new(Channel::new(
+                    *local_id,
+                    *peer_id,
+                    peer.channel_key(),
+                    peer_channel_public_key,
+                    peer_channel_date,
+                    context,
+                )));
                 self.channels_by_id.insert(
                     *new_channel.ordinary_channel_in_id(),
                     ChannelReceiver::Ordinary(new_channel.clone()),
                 );
                 self.channels_by_id.insert(
                     *new_channel.priority_channel_in_id(),
-                    ChannelReceiver::Priority(new_channel),
+                    ChannelReceiver::Priority(new_channel.clone()),
                 );
             }
         }
-- 
2.43.0


From 3be663fbd78f66b8caf7502fb370ae96d5cf7084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 16/68] fix: reinit date of a peer could move backwards under
 concurrent packets

---
 src/adnl/peer.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/adnl/peer.rs b/src/adnl/peer.rs
index d8209d3..cc9699e 100644
--- a/src/adnl/peer.rs
+++ b/src/adnl/peer.rs
@@ -5,6 +5,7 @@ use std::net::{Ipv4Addr, SocketAddrV4};
 use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
 
 use everscale_crypto::ed25519;
+use parking_lot::Mutex;
 
 use super::node_id::{NodeIdFull, NodeIdShort};
 use crate::util::*;
@@ -25,6 +26,8 @@ pub struct Peer {
     receiver_state: PeerState,
     /// Packets sender state
     sender_state: PeerState,
+    /// Held while the sender state is switched to the newer reinit date
+    reinit_lock: Mutex<()>,
 }
 
 impl Peer {
@@ -36,6 +39,7 @@ impl Peer {
             channel_key: ed25519::KeyPair::generate(&mut rand::thread_rng()),
             receiver_state: PeerState::for_receive_with_reinit_date(local_reinit_date),
             sender_state: PeerState::for_send(),
+            reinit_lock: Default::default(),
         }
     }
 
@@ -45,17 +49,26 @@ impl Peer {
     /// Returns whether the states were reset or `None` if the date is too old
     #[inline(always)]
     pub fn try_reinit_sender(&self, reinit_date: u32) -> Option<bool> {
+        match reinit_date.cmp(&self.sender_state.reinit_date()) {
+            std::cmp::Ordering::Equal => return Some(false),
+            std::cmp::Ordering::Less => return None,
+            std::cmp::Ordering::Greater => {}
+        }
+
+        // Only one thread at a time can replace the state
+        let _guard = self.reinit_lock.lock();
+
         let sender_reinit_date = self.sender_state.reinit_date();
         match reinit_date.cmp(&sender_reinit_date) {
             std::cmp::Ordering::Equal => Some(false),
             std::cmp::Ordering::Greater => {
-                self.sender_state.set_reinit_date(reinit_date);
                 if sender_reinit_date != 0 {
                     self.sender_state.history(false).reset();
                     self.sender_state.history(true).reset();
                     self.receiver_state.history(false).reset();
                     self.receiver_state.history(true).reset();
                 }
+                self.sender_state.set_reinit_date(reinit_date);
                 Some(sender_reinit_date != 0)
             }
             std::cmp::Ordering::Less => None,
-- 
2.43.0


From 6dc37be41e4b00f134ad0b2c9f1c55afd7d71092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 17/68] verif: scheduler sees the reinit lock of a peer
 (cfg(verif) only)

---
 src/adnl/peer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/adnl/peer.rs b/src/adnl/peer.rs
index cc9699e..7c46a25 100644
--- a/src/adnl/peer.rs
+++ b/src/adnl/peer.rs
@@ -5,12 +5,15 @@ use std::net::{Ipv4Addr, SocketAddrV4};
 use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
 
 use everscale_crypto::ed25519;
+#[cfg(not(verif))]
 use parking_lot::Mutex;
 
 use super::node_id::{NodeIdFull, NodeIdShort};
 use crate::util::*;
 #[cfg(verif)]
 use crate::verif::rng as rand;
+#[cfg(verif)]
+use crate::verif::sync::Mutex;
 
 pub type Peers = FastDashMap<NodeIdShort, Peer>;
 
-- 
2.43.0


From b8cf026c983319032346458751d585d343e3233d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:31 +0000
Subject: [PATCH 18/68] fix: packets of other incarnations of a peer changed
 its address

---
 src/adnl/node/mod.rs      | 41 +++++++++++++++++++---------
 src/adnl/node/receiver.rs | 57 ++++++++++++++++++++++++++++-----------
 2 files changed, 70 insertions(+), 28 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index 52ad526..9256924 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -322,27 +322,17 @@ impl Node {
     ) -> Result<bool> {
         use dashmap::mapref::entry::Entry;
 
-        // Ignore ourself
-        if peer_id == local_id || addr == self.socket_addr {
+        if !self.is_valid_peer_addr(ctx, local_id, peer_id, addr) {
             return Ok(false);
         }
 
-        // Check peer with peer filter (if specified)
-        if let Some(filter) = &self.peer_filter {
-            if !filter.check(ctx, addr, peer_id) {
-                return Ok(false);
-            }
-        }
-
         // Search remove peer in known peers
         match self.get_peers(local_id)?.entry(*peer_id) {
             // Update ip if peer is already known
             Entry::Occupied(entry) => entry.get().set_addr(addr),
             // Create new peer state otherwise
             Entry::Vacant(entry) => {
-                // The peer could be known before, in that case it has to forget the old state
-                let reinit_date = std::cmp::max(self.start_time, now());
-                entry.insert(Peer::new(reinit_date, addr, peer_id_full));
+                entry.insert(Peer::new(self.new_peer_reinit_date(), addr, peer_id_full));
                 tracing::trace!(%local_id, %peer_id, %addr, "added ADNL peer");
             }
         };
@@ -522,6 +512,33 @@ impl Node {
         }
     }
 
+    /// Whether a peer with this address can be added
+    fn is_valid_peer_addr(
+        &self,
+        ctx: NewPeerContext,
+        local_id: &NodeIdShort,
+        peer_id: &NodeIdShort,
+        addr: SocketAddrV4,
+    ) -> bool {
+        // Ignore ourself
+        if peer_id == local_id || addr == self.socket_addr {
+            return false;
+        }
+
+        // Check peer with peer filter (if specified)
+        match &self.peer_filter {
+            Some(filter) => filter.check(ctx, addr, peer_id),
+            None => true,
+        }
+    }
+
+    /// Local reinit date for a peer which is added now
+    ///
+    /// NOTE: the peer could be known before, in that case it has to forget the old state
+    fn new_peer_reinit_date(&self) -> u32 {
+        std::cmp::max(self.start_time, now())
+    }
+
     fn remove_channel(&self, local_id: &NodeIdShort, peer_id: &NodeIdShort) {
         use dashmap::mapref::entry::Entry;
 
diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 3b86393..37abd7d 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -405,6 +405,16 @@ impl Node {
 
         let from_channel = peer_id.is_some();
 
+        // Packets from the future must not affect anything
+        if let Some(dates) = &packet.reinit_dates {
+            if dates.local > now() + self.options.clock_tolerance_sec {
+                return Err(AdnlPacketError::SrcReinitDateTooNew.into());
+            }
+        }
+
+        let peers = self.get_peers(local_id)?;
+        let mut new_addr = None;
+
         // Extract peer id
         let (peer_id, check_signature) = if let Some(peer_id) = peer_id {
             if packet.from.is_some() || packet.from_short.is_some() {
@@ -428,13 +438,22 @@ impl Node {
 
             if let Some(list) = &packet.address {
                 let addr = parse_address_list(list, self.options.clock_tolerance_sec)?;
-                self.add_peer(
-                    NewPeerContext::AdnlPacket,
-                    local_id,
-                    &peer_id,
-                    addr,
-                    full_id,
-                )?;
+                if peers.contains_key(&peer_id) {
+                    // Will be updated after all checks
+                    new_addr = Some(addr);
+                } else {
+                    if matches!(&packet.reinit_dates, Some(dates) if dates.target > self.new_peer_reinit_date())
+                    {
+                        return Err(AdnlPacketError::DstReinitDateTooNew.into());
+                    }
+                    self.add_peer(
+                        NewPeerContext::AdnlPacket,
+                        local_id,
+                        &peer_id,
+                        addr,
+                        full_id,
+                    )?;
+                }
             }
 
             (peer_id, false)
@@ -446,7 +465,6 @@ impl Node {
 
         // Check timings
 
-        let peers = self.get_peers(local_id)?;
         let peer = if from_channel {
             if self.channels_by_peers.contains_key(&(*local_id, peer_id)) {
                 peers.get(&peer_id)
@@ -467,6 +485,7 @@ impl Node {
             )?;
         }
 
+        let mut for_old_incarnation = false;
         if let Some(proto::adnl::ReinitDates {
             local: peer_reinit_date,
             target: local_reinit_date,
@@ -478,10 +497,6 @@ impl Node {
                 return Err(AdnlPacketError::DstReinitDateTooNew.into());
             }
 
-            if peer_reinit_date > now() + self.options.clock_tolerance_sec {
-                return Err(AdnlPacketError::SrcReinitDateTooNew.into());
-            }
-
             match peer.try_reinit_sender(peer_reinit_date) {
                 // Previous channel is unknown to the new incarnation of the peer
                 Some(true) if !from_channel => self.remove_channel(local_id, &peer_id),
@@ -489,14 +504,24 @@ impl Node {
                 None => return Err(AdnlPacketError::SrcReinitDateTooOld.into()),
             }
 
-            if local_reinit_date != 0 && expected_local_reinit_date == Ordering::Less {
-                drop(peer);
+            for_old_incarnation =
+                local_reinit_date != 0 && expected_local_reinit_date == Ordering::Less;
+        }
 
-                self.send_message(local_id, &peer_id, proto::adnl::Message::Nop, false)?;
-                return Err(AdnlPacketError::DstReinitDateTooOld.into());
+        // Update ip only if packet is from the current incarnation of the peer
+        if let Some(addr) = new_addr {
+            if self.is_valid_peer_addr(NewPeerContext::AdnlPacket, local_id, &peer_id, addr) {
+                peer.set_addr(addr);
             }
         }
 
+        if for_old_incarnation {
+            drop(peer);
+
+            self.send_message(local_id, &peer_id, proto::adnl::Message::Nop, false)?;
+            return Err(AdnlPacketError::DstReinitDateTooOld.into());
+        }
+
         if self.options.packet_history_enabled {
             if let Some(seqno) = packet.seqno {
                 if !peer
-- 
2.43.0


From a194330a60c52e32c59eb2e62896079e6d84e6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 19/68] fix: configured minimal query timeout was not applied

---
 src/adnl/node/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index 9256924..5c54bc5 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -472,7 +472,7 @@ impl Node {
             .get(&(*local_id, *peer_id))
             .map(|entry| entry.value().clone());
 
-        let timeout = timeout.unwrap_or(self.options.query_default_timeout_ms);
+        let timeout = self.compute_query_timeout(timeout);
         let answer = tokio::time::timeout(Duration::from_millis(timeout), pending_query.wait())
             .await
             .ok()
-- 
2.43.0


From 983d0624cdb46179daf41908722d5dd854a7e767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:09 +0000
Subject: [PATCH 20/68] fix: a failed message dropped the following messages of
 its packet

---
 src/adnl/node/receiver.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 37abd7d..073fd35 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -160,21 +160,24 @@ impl Node {
             None => return Ok(()),
         };
 
-        // Process message(s)
+        // Process message(s). A failed message must not affect the following ones
+        let mut result = Ok(());
         for message in packet.messages {
-            self.process_message(
-                &local_id,
-                &peer_id,
-                message,
-                message_subscribers,
-                query_subscribers,
-                priority,
-            )
-            .await?;
+            let res = self
+                .process_message(
+                    &local_id,
+                    &peer_id,
+                    message,
+                    message_subscribers,
+                    query_subscribers,
+                    priority,
+                )
+                .await;
+            result = result.and(res);
         }
 
         // Done
-        Ok(())
+        result
     }
 
     async fn process_message(
-- 
2.43.0


From 5adb14a7805c427044c421bcf2071c7ba94b60ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:03 +0000
Subject: [PATCH 21/68] fix: rejected duplicate key was left in the keystore
 under its new tag

---
 src/adnl/keystore.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/adnl/keystore.rs b/src/adnl/keystore.rs
index 6181295..37189be 100644
--- a/src/adnl/keystore.rs
+++ b/src/adnl/keystore.rs
@@ -51,16 +51,14 @@ impl Keystore {
         let (_, short_id) = secret_key.compute_node_ids();
 
         match self.tags.entry(tag) {
-            hash_map::Entry::Vacant(entry) => {
-                entry.insert(short_id);
-                match self.keys.entry(short_id) {
-                    hash_map::Entry::Vacant(entry) => {
-                        entry.insert(Arc::new(secret_key.into()));
-                        Ok(short_id)
-                    }
-                    hash_map::Entry::Occupied(_) => Err(KeystoreError::DuplicatedKey(tag)),
+            hash_map::Entry::Vacant(tag_entry) => match self.keys.entry(short_id) {
+                hash_map::Entry::Vacant(entry) => {
+                    tag_entry.insert(short_id);
+                    entry.insert(Arc::new(secret_key.into()));
+                    Ok(short_id)
                 }
-            }
+                hash_map::Entry::Occupied(_) => Err(KeystoreError::DuplicatedKey(tag)),
+            },
             hash_map::Entry::Occupied(entry) => {
                 if entry.get() == &short_id {
                     Ok(short_id)
-- 
2.43.0


From fc3675526b56a53b5a809c1376af18cdf06bc9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:03 +0000
Subject: [PATCH 22/68] fix: address lists with ports above 65535 were accepted
 with another port

---
 src/util/address_list.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/util/address_list.rs b/src/util/address_list.rs
index f1ad9cd..3b79610 100644
--- a/src/util/address_list.rs
+++ b/src/util/address_list.rs
@@ -19,10 +19,9 @@ pub fn parse_address_list(
         return Err(AdnlAddressListError::Expired);
     }
 
-    Ok(SocketAddrV4::new(
-        Ipv4Addr::from(address.ip),
-        address.port as u16,
-    ))
+    let port = u16::try_from(address.port).map_err(|_| AdnlAddressListError::InvalidPort)?;
+
+    Ok(SocketAddrV4::new(Ipv4Addr::from(address.ip), port))
 }
 
 #[derive(thiserror::Error, Debug)]
@@ -33,6 +32,8 @@ pub enum AdnlAddressListError {
     TooNewVersion,
     #[error("Address list is expired")]
     Expired,
+    #[error("Address list contains an invalid port")]
+    InvalidPort,
 }
 
 #[cfg(test)]
-- 
2.43.0


From e97f7908fb7536a5b696bbf38424a657f5f0149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:03 +0000
Subject: [PATCH 23/68] verif: harness can choose random words (cfg(verif)
 only)

---
 src/verif/rng.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/verif/rng.rs b/src/verif/rng.rs
index ff67142..6331f5c 100644
--- a/src/verif/rng.rs
+++ b/src/verif/rng.rs
@@ -1,11 +1,12 @@
 //! Deterministic random numbers
 
-use std::cell::Cell;
+use std::cell::{Cell, RefCell};
 
 use rand::rngs::SmallRng;
 use rand::{CryptoRng, RngCore, SeedableRng};
 
 thread_local! {
+    static SOURCE: RefCell<Option<Box<dyn FnMut() -> u64>>> = const { RefCell::new(None) };
     static COUNTER: Cell<Option<u64>> = const { Cell::new(None) };
 }
 
@@ -15,6 +16,15 @@ pub fn seed(seed: Option<u64>) {
     COUNTER.with(|c| c.set(seed.map(|s| s.wrapping_mul(0x9e37_79b9_7f4a_7c15))));
 }
 
+/// Makes the source decide about all subsequent random words on this OS thread
+pub fn set_source(source: Option<Box<dyn FnMut() -> u64>>) {
+    SOURCE.with(|s| *s.borrow_mut() = source);
+}
+
+fn chosen() -> Option<u64> {
+    SOURCE.with(|s| s.borrow_mut().as_mut().map(|f| f()))
+}
+
 fn next_seed() -> u64 {
     COUNTER.with(|c| match c.get() {
         Some(value) => {
@@ -35,7 +45,10 @@ impl RngCore for ThreadRng {
     }
 
     fn next_u64(&mut self) -> u64 {
-        SmallRng::seed_from_u64(next_seed()).next_u64()
+        match chosen() {
+            Some(word) => word,
+            None => SmallRng::seed_from_u64(next_seed()).next_u64(),
+        }
     }
 
     fn fill_bytes(&mut self, dest: &mut [u8]) {
-- 
2.43.0


From 7c37404a7328eb3ba329c78c80b5f3345b8d4683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 24/68] fix: peer which was removed and added within a second
 got the reinit date of its previous state

---
 src/adnl/node/mod.rs      | 24 +++++++++++++++++++++---
 src/adnl/node/receiver.rs |  2 +-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index 5c54bc5..2773981 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -125,6 +125,9 @@ pub struct Node {
     /// Known peers for each local node id
     peers: FastHashMap<NodeIdShort, Peers>,
 
+    /// Local reinit dates of recently removed peers, needed until they are in the past
+    removed_peers: Mutex<FastHashMap<ChannelKey, u32>>,
+
     /// Channels table used to fast search on incoming packets
     channels_by_id: FastDashMap<AdnlChannelId, ChannelReceiver>,
     /// Channels table used to fast search when sending messages
@@ -180,6 +183,7 @@ impl Node {
             options,
             peer_filter,
             peers,
+            removed_peers: Default::default(),
             channels_by_id: Default::default(),
             channels_by_peers: Default::default(),
             incoming_transfers: Default::default(),
@@ -332,7 +336,8 @@ impl Node {
             Entry::Occupied(entry) => entry.get().set_addr(addr),
             // Create new peer state otherwise
             Entry::Vacant(entry) => {
-                entry.insert(Peer::new(self.new_peer_reinit_date(), addr, peer_id_full));
+                let reinit_date = self.new_peer_reinit_date(local_id, peer_id);
+                entry.insert(Peer::new(reinit_date, addr, peer_id_full));
                 tracing::trace!(%local_id, %peer_id, %addr, "added ADNL peer");
             }
         };
@@ -353,6 +358,15 @@ impl Node {
         match self.get_peers(local_id)?.entry(*peer_id) {
             Entry::Occupied(entry) => {
                 self.remove_channel(local_id, peer_id);
+
+                let now = now();
+                let reinit_date = entry.get().receiver_state().reinit_date();
+                {
+                    let mut removed_peers = self.removed_peers.lock();
+                    removed_peers.retain(|_, reinit_date| *reinit_date >= now);
+                    removed_peers.insert((*local_id, *peer_id), reinit_date);
+                }
+
                 entry.remove();
                 Ok(true)
             }
@@ -535,8 +549,12 @@ impl Node {
     /// Local reinit date for a peer which is added now
     ///
     /// NOTE: the peer could be known before, in that case it has to forget the old state
-    fn new_peer_reinit_date(&self) -> u32 {
-        std::cmp::max(self.start_time, now())
+    fn new_peer_reinit_date(&self, local_id: &NodeIdShort, peer_id: &NodeIdShort) -> u32 {
+        let removed = match self.removed_peers.lock().get(&(*local_id, *peer_id)) {
+            Some(reinit_date) => reinit_date + 1,
+            None => 0,
+        };
+        std::cmp::max(removed, std::cmp::max(self.start_time, now()))
     }
 
     fn remove_channel(&self, local_id: &NodeIdShort, peer_id: &NodeIdShort) {
diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 073fd35..066f805 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -445,7 +445,7 @@ impl Node {
                     // Will be updated after all checks
                     new_addr = Some(addr);
                 } else {
-                    if matches!(&packet.reinit_dates, Some(dates) if dates.target > self.new_peer_reinit_date())
+                    if matches!(&packet.reinit_dates, Some(dates) if dates.target > self.new_peer_reinit_date(local_id, &peer_id))
                     {
                         return Err(AdnlPacketError::DstReinitDateTooNew.into());
                     }
-- 
2.43.0


From 82f2ea1bdb8ab373f315f14ceb33565c91d57acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 25/68] fix: overflow of the number of requested random peers

---
 src/adnl/peers_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adnl/peers_set.rs b/src/adnl/peers_set.rs
index c6d5821..c1f078f 100644
--- a/src/adnl/peers_set.rs
+++ b/src/adnl/peers_set.rs
@@ -77,7 +77,7 @@ impl PeersSet {
 
         let items = state.index.choose_multiple(
             &mut fast_thread_rng(),
-            if except.is_some() { amount + 1 } else { amount } as usize,
+            amount as usize + usize::from(except.is_some()),
         );
 
         match except {
-- 
2.43.0


From 863c36579c525a14f56b09c763c6f1f0904e542f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:03 +0000
Subject: [PATCH 26/68] fix: two peer sets filled from each other could
 deadlock

---
 src/adnl/peers_set.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/adnl/peers_set.rs b/src/adnl/peers_set.rs
index c1f078f..ee46a92 100644
--- a/src/adnl/peers_set.rs
+++ b/src/adnl/peers_set.rs
@@ -106,25 +106,31 @@ impl PeersSet {
             None => amount as usize,
         };
 
-        let other_state = other.state.read();
-        let new_peers = other_state
+        // NOTE: `other` must be released before locking `self`, otherwise two sets which are
+        // filled from each other will deadlock
+        let new_peers = other
+            .state
+            .read()
             .index
-            .choose_multiple(&mut thread_rng(), selected_amount);
+            .choose_multiple(&mut thread_rng(), selected_amount)
+            .map(RefId::copy_inner)
+            .collect::<Vec<_>>();
 
         let mut state = self.state.write();
 
-        let insert = |peer_id: &RefId| {
-            state.insert(peer_id.copy_inner());
+        let insert = |peer_id: NodeIdShort| {
+            state.insert(peer_id);
         };
 
         match except {
             Some(except) => {
                 new_peers
-                    .filter(|peer_id| !except.contains(&*peer_id.0))
+                    .into_iter()
+                    .filter(|peer_id| !except.contains(peer_id))
                     .take(amount as usize)
                     .for_each(insert);
             }
-            None => new_peers.for_each(insert),
+            None => new_peers.into_iter().for_each(insert),
         }
     }
 
-- 
2.43.0


From f3119c7fd6f870cdeba90e8aced46b148d9464c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:52 +0000
Subject: [PATCH 27/68] fix: overlay nodes which have just expired in the DHT
 storage were merged into new ones

---
 src/dht/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dht/storage.rs b/src/dht/storage.rs
index 5c82479..76abd55 100644
--- a/src/dht/storage.rs
+++ b/src/dht/storage.rs
@@ -154,7 +154,7 @@ impl Storage {
             Entry::Occupied(mut entry) => {
                 let value = {
                     let old_nodes = match entry.get().ttl {
-                        old_ttl if old_ttl < now() => None,
+                        old_ttl if old_ttl <= now() => None,
                         old_ttl if old_ttl > value.ttl => return Ok(false),
                         _ => Some(deserialize_overlay_nodes(&entry.get().value)?),
                     };
-- 
2.43.0


From 19f7431759c0c7395e94ffcb491b89f98e32191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 28/68] fix: a request for zero DHT nodes was answered with one

---
 src/dht/buckets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dht/buckets.rs b/src/dht/buckets.rs
index 4d090d2..dea6b00 100644
--- a/src/dht/buckets.rs
+++ b/src/dht/buckets.rs
@@ -67,10 +67,10 @@ impl Buckets {
                 // Add all nodes from this distance to the result
                 let bucket = &self.buckets[distance as usize];
                 for item in bucket.iter() {
-                    nodes.push(item.value().clone());
                     if nodes.len() >= k as usize {
                         break 'outer;
                     }
+                    nodes.push(item.value().clone());
                 }
 
                 // Skip one different bit:
-- 
2.43.0


From 025b21a6e79ec6a26904be2fcc3e6d175cf9a6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:39 +0000
Subject: [PATCH 29/68] fix: newer description of a known DHT peer was ignored

---
 src/dht/node.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index ec0c8b0..e3a1454 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -601,13 +601,14 @@ impl NodeState {
             return Ok(None);
         }
 
-        // Add new peer to the bucket
-        if self.known_peers.insert(peer_id) {
-            self.buckets.insert(&peer_id, peer);
-        } else {
+        // Mark existing peer as good
+        if !self.known_peers.insert(peer_id) {
             self.set_good_peer(&peer_id);
         }
 
+        // Add new peer to the bucket or update its description
+        self.buckets.insert(&peer_id, peer);
+
         Ok(Some(peer_id))
     }
 
-- 
2.43.0


From 8c282a1f87e647ab2d04a44dd7cd95e218482c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:17 +0000
Subject: [PATCH 30/68] fix: one invalid description stopped the search for
 more DHT nodes

---
 src/dht/node.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index e3a1454..414519e 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -258,7 +258,10 @@ impl Node {
             match res {
                 Ok(nodes) => {
                     for node in nodes {
-                        node_count += self.add_dht_peer(node)?.is_some() as usize;
+                        match self.add_dht_peer(node) {
+                            Ok(peer) => node_count += peer.is_some() as usize,
+                            Err(e) => tracing::warn!("failed to add DHT peer: {e:?}"),
+                        }
                     }
                 }
                 Err(e) => {
-- 
2.43.0


From ca767e09afb6e0288ad7d30a33e22e7ee67a1100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 31/68] fix: the first unsuccessful DHT query of a peer had no
 penalty

---
 src/dht/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index 414519e..a191d6d 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -626,7 +626,7 @@ impl NodeState {
                     *entry.get_mut() += 2;
                 }
                 Entry::Vacant(entry) => {
-                    entry.insert(0);
+                    entry.insert(2);
                 }
             }
         }
-- 
2.43.0


From a4c28135a610efdd5ed7d7c1bc9b891b2de5bcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 32/68] fix: DHT peers which do not answer were scored as good

---
 src/dht/node.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index a191d6d..41596dc 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -457,7 +457,8 @@ impl Node {
         for<'a> A: TlRead<'a, Repr = tl_proto::Boxed> + 'static,
     {
         let result = self.adnl.query(&self.local_id, peer_id, query, None).await;
-        self.state.update_peer_status(peer_id, result.is_ok());
+        self.state
+            .update_peer_status(peer_id, matches!(&result, Ok(Some(_))));
         result
     }
 
@@ -475,7 +476,8 @@ impl Node {
                 Some(self.options.query_timeout_ms),
             )
             .await;
-        self.state.update_peer_status(peer_id, result.is_ok());
+        self.state
+            .update_peer_status(peer_id, matches!(&result, Ok(Some(_))));
         result
     }
 
@@ -492,7 +494,8 @@ impl Node {
             .adnl
             .query_with_prefix::<Q, A>(&self.local_id, peer_id, &self.query_prefix, query, None)
             .await;
-        self.state.update_peer_status(peer_id, result.is_ok());
+        self.state
+            .update_peer_status(peer_id, matches!(&result, Ok(Some(_))));
         result
     }
 
-- 
2.43.0


From 62f4440c81a7e1fdd78bb8bd7b9dfc676e12ffa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 33/68] fix: DHT lookup accepted values of another key

---
 src/dht/entry.rs   | 2 +-
 src/dht/node.rs    | 9 ++++++++-
 src/dht/streams.rs | 6 +++++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/dht/entry.rs b/src/dht/entry.rs
index 2d99158..f4cdda8 100644
--- a/src/dht/entry.rs
+++ b/src/dht/entry.rs
@@ -89,7 +89,7 @@ impl<'a> Entry<'a> {
         let query = tl_proto::serialize(proto::rpc::DhtFindValue { key: &key_id, k: 6 }).into();
 
         match self.dht.query_raw(peer_id, query).await? {
-            Some(result) => self.dht.parse_value_result(&result),
+            Some(result) => self.dht.parse_value_result(&key_id, &result),
             None => Ok(None),
         }
     }
diff --git a/src/dht/node.rs b/src/dht/node.rs
index 41596dc..42003e6 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -14,7 +14,7 @@ use tl_proto::{BoxedConstructor, BoxedWrapper, TlRead, TlWrite};
 use super::buckets::Buckets;
 use super::entry::Entry;
 use super::futures::StoreValue;
-use super::storage::{Storage, StorageOptions};
+use super::storage::{Storage, StorageKeyId, StorageOptions};
 use super::{KEY_ADDRESS, KEY_NODES, MAX_DHT_PEERS};
 use crate::adnl;
 use crate::overlay;
@@ -501,6 +501,7 @@ impl Node {
 
     pub(super) fn parse_value_result<T>(
         &self,
+        key_id: &StorageKeyId,
         result: &[u8],
     ) -> Result<Option<(proto::dht::KeyDescriptionOwned, T)>>
     where
@@ -508,6 +509,10 @@ impl Node {
     {
         match tl_proto::deserialize::<proto::dht::ValueResult>(result)? {
             proto::dht::ValueResult::ValueFound(BoxedWrapper(mut value)) => {
+                if key_id != &tl_proto::hash_as_boxed(value.key.key) {
+                    return Err(DhtNodeError::UnexpectedValueKey.into());
+                }
+
                 if value.key.update_rule == proto::dht::UpdateRule::Signature {
                     verify_signed_dht_value(&mut value)?;
                 }
@@ -772,4 +777,6 @@ enum DhtNodeError {
     InvalidNodeCountLimit,
     #[error("Invalid value key")]
     InvalidValueKey,
+    #[error("Unexpected value key")]
+    UnexpectedValueKey,
 }
diff --git a/src/dht/streams.rs b/src/dht/streams.rs
index dbff243..a250e6b 100644
--- a/src/dht/streams.rs
+++ b/src/dht/streams.rs
@@ -10,12 +10,14 @@ use tl_proto::TlRead;
 
 use super::node::Node;
 use super::peers_iter::PeersIter;
+use super::storage::StorageKeyId;
 use crate::proto;
 
 /// Stream for the `DhtNode::values` method.
 #[must_use = "streams do nothing unless polled"]
 pub struct DhtValuesStream<T> {
     dht: Arc<Node>,
+    key_id: StorageKeyId,
     query: Bytes,
     batch_len: Option<usize>,
     known_peers_version: u64,
@@ -43,6 +45,7 @@ where
 
         Self {
             dht,
+            key_id,
             query,
             batch_len,
             known_peers_version,
@@ -70,11 +73,12 @@ where
         // Spawn at most `max_tasks` queries
         while let Some(peer_id) = self.peers_iter.next() {
             let dht = self.dht.clone();
+            let key_id = self.key_id;
             let query = self.query.clone();
 
             self.futures.push(Box::pin(async move {
                 match dht.query_raw(&peer_id, query).await {
-                    Ok(Some(result)) => match dht.parse_value_result::<T>(&result) {
+                    Ok(Some(result)) => match dht.parse_value_result::<T>(&key_id, &result) {
                         Ok(Some(value)) => Some(value),
                         Ok(None) => None,
                         Err(e) => {
-- 
2.43.0


From 2268d6e44e6a2e307170b68c34db553472bdba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 34/68] fix: DHT lookup accepted values which nobody has signed

---
 src/dht/node.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index 42003e6..0d1695e 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -513,8 +513,13 @@ impl Node {
                     return Err(DhtNodeError::UnexpectedValueKey.into());
                 }
 
-                if value.key.update_rule == proto::dht::UpdateRule::Signature {
-                    verify_signed_dht_value(&mut value)?;
+                match value.key.update_rule {
+                    proto::dht::UpdateRule::Signature => verify_signed_dht_value(&mut value)?,
+                    proto::dht::UpdateRule::OverlayNodes => verify_overlay_nodes_value(&value)?,
+                    // NOTE: such values are never stored
+                    proto::dht::UpdateRule::Anybody => {
+                        return Err(DhtNodeError::UnsupportedUpdateRule.into())
+                    }
                 }
 
                 let parsed = tl_proto::deserialize(value.value)?;
@@ -756,6 +761,25 @@ fn verify_signed_dht_value(value: &mut proto::dht::Value<'_>) -> Result<()> {
     Ok(())
 }
 
+fn verify_overlay_nodes_value(value: &proto::dht::Value<'_>) -> Result<()> {
+    let overlay_id = match value.key.id {
+        everscale_crypto::tl::PublicKey::Overlay { .. } => {
+            overlay::IdShort::from(tl_proto::hash(value.key.id))
+        }
+        _ => return Err(DhtNodeError::InvalidValueKey.into()),
+    };
+    if value.key.key.id != overlay_id.as_slice() {
+        return Err(DhtNodeError::InvalidValueKey.into());
+    }
+
+    let proto::overlay::Nodes { nodes } = tl_proto::deserialize_as_boxed(value.value)?;
+    for node in &nodes {
+        overlay_id.verify_overlay_node(node)?;
+    }
+
+    Ok(())
+}
+
 /// Instant DHT node metrics
 #[derive(Debug, Copy, Clone)]
 pub struct NodeMetrics {
@@ -777,6 +801,8 @@ enum DhtNodeError {
     InvalidNodeCountLimit,
     #[error("Invalid value key")]
     InvalidValueKey,
+    #[error("Unsupported update rule")]
+    UnsupportedUpdateRule,
     #[error("Unexpected value key")]
     UnexpectedValueKey,
 }
-- 
2.43.0


From 919c8a1f47c5f0060ff0a2cdd83cbbad47a241f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 35/68] fix: DHT lookup accepted values which had expired

---
 src/dht/node.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index 0d1695e..155b92c 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -512,6 +512,9 @@ impl Node {
                 if key_id != &tl_proto::hash_as_boxed(value.key.key) {
                     return Err(DhtNodeError::UnexpectedValueKey.into());
                 }
+                if value.ttl <= now() {
+                    return Err(DhtNodeError::ValueExpired.into());
+                }
 
                 match value.key.update_rule {
                     proto::dht::UpdateRule::Signature => verify_signed_dht_value(&mut value)?,
@@ -803,6 +806,8 @@ enum DhtNodeError {
     InvalidValueKey,
     #[error("Unsupported update rule")]
     UnsupportedUpdateRule,
+    #[error("Value expired")]
+    ValueExpired,
     #[error("Unexpected value key")]
     UnexpectedValueKey,
 }
-- 
2.43.0


From caf550f89b68f8b2568dc935a2c749e413dcbe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 36/68] fix: search for overlay nodes never ended if their
 addresses were unknown

---
 src/dht/node.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index 155b92c..43701d2 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -323,6 +323,11 @@ impl Node {
                 });
             }
 
+            // All received nodes have already been tried
+            if futures.is_empty() {
+                break;
+            }
+
             // Wait all results
             while let Some((ip, node)) = futures.next().await {
                 match ip {
-- 
2.43.0


From c89b58faaee5ddabad9e11ce4ad86c84d7aee6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 37/68] fix: DHT lookup could skip the closest known peers

---
 src/dht/peers_iter.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/dht/peers_iter.rs b/src/dht/peers_iter.rs
index b755a9e..2d57df0 100644
--- a/src/dht/peers_iter.rs
+++ b/src/dht/peers_iter.rs
@@ -23,22 +23,10 @@ impl PeersIter {
     }
 
     pub fn fill(&mut self, dht: &Node, batch_len: Option<usize>) {
-        // Get next peer (skipping bad peers) and update the index
+        // Add all next peers (skipping bad peers) and update the index
         while let Some(peer_id) = self.next_known_peer(dht) {
             let affinity = get_affinity(&self.key_id, peer_id.as_slice());
-
-            // Keep adding peer ids until max tasks is reached
-            // or there are values with higher affinity
-            let add = match (self.peer_ids.last(), batch_len) {
-                (None, _) | (_, None) => true,
-                (Some((top_affinity, _)), Some(batch_len)) => {
-                    *top_affinity <= affinity || self.peer_ids.len() < batch_len
-                }
-            };
-
-            if add {
-                self.peer_ids.push((affinity, peer_id))
-            }
+            self.peer_ids.push((affinity, peer_id));
         }
 
         // Sort peer ids by descending affinity
-- 
2.43.0


From 447da51d14bb568765639528ff97e377b52e0be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 38/68] fix: DHT lookup skipped the first of newly found peers

---
 src/dht/peers_iter.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/dht/peers_iter.rs b/src/dht/peers_iter.rs
index 2d57df0..757d134 100644
--- a/src/dht/peers_iter.rs
+++ b/src/dht/peers_iter.rs
@@ -48,16 +48,13 @@ impl PeersIter {
 
     fn next_known_peer(&mut self, dht: &Node) -> Option<adnl::NodeIdShort> {
         loop {
-            let peer_id = dht.known_peers().get(self.index);
+            // NOTE: index must not be updated when there are no more peers yet
+            let peer_id = dht.known_peers().get(self.index)?;
             self.index += 1;
 
-            if let Some(peer) = &peer_id {
-                if dht.is_bad_peer(peer) {
-                    continue;
-                }
+            if !dht.is_bad_peer(&peer_id) {
+                break Some(peer_id);
             }
-
-            break peer_id;
         }
     }
 }
-- 
2.43.0


From f9864850e09fcccf784cf2c01863571d49a240de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 39/68] fix: DHT lookup exceeded the limit of parallel queries

---
 src/dht/streams.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dht/streams.rs b/src/dht/streams.rs
index a250e6b..b51dff5 100644
--- a/src/dht/streams.rs
+++ b/src/dht/streams.rs
@@ -70,7 +70,7 @@ where
     }
 
     fn refill_futures(&mut self) {
-        // Spawn at most `max_tasks` queries
+        // Spawn queries until there are at most `MAX_PARALLEL_FUTURES` of them
         while let Some(peer_id) = self.peers_iter.next() {
             let dht = self.dht.clone();
             let key_id = self.key_id;
@@ -95,7 +95,7 @@ where
             }));
 
             self.future_count += 1;
-            if self.future_count > MAX_PARALLEL_FUTURES {
+            if self.future_count >= MAX_PARALLEL_FUTURES {
                 break;
             }
         }
-- 
2.43.0


From f40a70231c389c6bf8b30ad227c37eaff36b565b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 40/68] fix: RLDP transfers of several parts continued with
 symbol numbers of the previous part

---
 src/rldp/outgoing_transfer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rldp/outgoing_transfer.rs b/src/rldp/outgoing_transfer.rs
index 173c9cf..2252f79 100644
--- a/src/rldp/outgoing_transfer.rs
+++ b/src/rldp/outgoing_transfer.rs
@@ -53,6 +53,8 @@ impl OutgoingTransfer {
         }
 
         self.current_message_part = part as u32;
+        // Each part has its own sequence of symbols
+        self.state.reset_seqno();
 
         let chunk_size = std::cmp::min(total - processed, SLICE);
         let encoder = self.encoder.insert(RaptorQEncoder::with_data(
@@ -81,7 +83,7 @@ impl OutgoingTransfer {
         let seqno_in = self.state.seqno_in();
 
         let mut next_seqno_out = seqno_out;
-        if seqno_out - seqno_in <= WINDOW {
+        if seqno_out.saturating_sub(seqno_in) <= WINDOW {
             if previous_seqno_out == seqno_out {
                 next_seqno_out += 1;
             }
@@ -158,6 +160,11 @@ impl OutgoingTransferState {
         self.seqno_out.fetch_max(seqno, Ordering::Release);
     }
 
+    pub fn reset_seqno(&self) {
+        self.seqno_out.store(0, Ordering::Release);
+        self.seqno_in.store(0, Ordering::Release);
+    }
+
     pub fn seqno_in(&self) -> u32 {
         self.seqno_in.load(Ordering::Acquire)
     }
-- 
2.43.0


From 831e021be8cd461eb1e08a1aff11826a5a0835a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 41/68] fix: unconfirmed RLDP transfer sent wrong symbols under
 numbers of lost ones

---
 src/rldp/outgoing_transfer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rldp/outgoing_transfer.rs b/src/rldp/outgoing_transfer.rs
index 2252f79..fab5503 100644
--- a/src/rldp/outgoing_transfer.rs
+++ b/src/rldp/outgoing_transfer.rs
@@ -82,8 +82,12 @@ impl OutgoingTransfer {
 
         let seqno_in = self.state.seqno_in();
 
+        // NOTE: source symbols are sent one after another anyway, and repair symbols must
+        // never be numbered as them
+        let is_source = seqno_out < encoder.params().packet_count;
+
         let mut next_seqno_out = seqno_out;
-        if seqno_out.saturating_sub(seqno_in) <= WINDOW {
+        if is_source || seqno_out.saturating_sub(seqno_in) <= WINDOW {
             if previous_seqno_out == seqno_out {
                 next_seqno_out += 1;
             }
-- 
2.43.0


From aff6511b93b98535f6263fe15f827f0a3851bd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 42/68] fix: FEC packets with invalid parameters or symbols
 caused panics

A remote peer could send an RLDP message part or an FEC broadcast with
a symbol number out of 24 bits, with symbols of a wrong size or with
parameters which are not supported by the decoder.
---
 src/overlay/overlay.rs        |  5 ++--
 src/rldp/decoder.rs           | 44 +++++++++++++++++++++++++++++++----
 src/rldp/incoming_transfer.rs |  9 +++----
 3 files changed, 46 insertions(+), 12 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index c4f9288..31193f3 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -973,6 +973,7 @@ impl Overlay {
         peer_id: adnl::NodeIdShort,
         entry: VacantBroadcastEntry<'_>,
     ) -> Result<Arc<OwnedBroadcast>> {
+        let mut decoder = RaptorQDecoder::with_params(fec_type)?;
         let (broadcast_tx, mut broadcast_rx) = mpsc::unbounded_channel();
 
         let entry = entry
@@ -988,8 +989,6 @@ impl Overlay {
         // Spawn packets receiver
         let overlay = self.clone();
         tokio::spawn(async move {
-            let mut decoder = RaptorQDecoder::with_params(fec_type);
-
             // For each fec broadcast packet
             let mut packets = 0;
             while let Some(broadcast) = broadcast_rx.recv().await {
@@ -1254,7 +1253,7 @@ fn process_fec_broadcast(
         .node_id
         .verify(broadcast_to_sign, &broadcast.signature)?;
 
-    match decoder.decode(broadcast.seqno, broadcast.data) {
+    match decoder.decode(broadcast.seqno, broadcast.data)? {
         Some(result) if result.len() != broadcast.data_size as usize => {
             Err(OverlayError::DataSizeMismatch.into())
         }
diff --git a/src/rldp/decoder.rs b/src/rldp/decoder.rs
index 984f22b..f9c4a56 100644
--- a/src/rldp/decoder.rs
+++ b/src/rldp/decoder.rs
@@ -1,3 +1,4 @@
+use anyhow::Result;
 use everscale_raptorq::{Decoder, EncodingPacket, ObjectTransmissionInformation, PayloadId};
 
 use crate::proto::rldp::RaptorQFecType;
@@ -9,21 +10,35 @@ pub struct RaptorQDecoder {
 }
 
 impl RaptorQDecoder {
-    pub fn with_params(params: RaptorQFecType) -> Self {
-        Self {
+    /// Creates a decoder if it is possible to decode a single block with these parameters
+    pub fn with_params(params: RaptorQFecType) -> Result<Self> {
+        if params.total_len == 0
+            || params.packet_len < MIN_PACKET_LEN
+            || params.packet_len > u16::MAX as u32
+            || params.packet_len % PACKET_ALIGNMENT != 0
+            || (params.total_len - 1) / params.packet_len >= MAX_SOURCE_SYMBOLS
+        {
+            return Err(DecoderError::InvalidParameters.into());
+        }
+
+        Ok(Self {
             engine: Decoder::new(ObjectTransmissionInformation::with_defaults(
                 params.total_len as u64,
                 params.packet_len as u16,
             )),
             params,
             seqno: 0,
-        }
+        })
     }
 
-    pub fn decode(&mut self, seqno: u32, data: Vec<u8>) -> Option<Vec<u8>> {
+    pub fn decode(&mut self, seqno: u32, data: Vec<u8>) -> Result<Option<Vec<u8>>> {
+        if seqno > MAX_SEQNO || data.len() != self.params.packet_len as usize {
+            return Err(DecoderError::InvalidPacket.into());
+        }
+
         let packet = EncodingPacket::new(PayloadId::new(0, seqno), data);
         self.seqno = seqno;
-        self.engine.decode(packet)
+        Ok(self.engine.decode(packet))
     }
 
     pub fn params(&self) -> &RaptorQFecType {
@@ -34,3 +49,22 @@ impl RaptorQDecoder {
         self.seqno
     }
 }
+
+#[derive(thiserror::Error, Debug)]
+enum DecoderError {
+    #[error("Invalid FEC parameters")]
+    InvalidParameters,
+    #[error("Invalid FEC packet")]
+    InvalidPacket,
+}
+
+// Symbols consist of 8 byte words, default sub-blocks of 8 words
+const PACKET_ALIGNMENT: u32 = 8;
+const MIN_PACKET_LEN: u32 = 64;
+
+// Max number of source symbols in a block (RFC 6330, section 5.1.2)
+const MAX_SOURCE_SYMBOLS: u32 = 56403;
+
+// Internal symbol id is also an unsigned 24-bit integer and it can be greater than
+// the encoding symbol id, but less than by the number of source symbols
+const MAX_SEQNO: u32 = (1 << 24) - MAX_SOURCE_SYMBOLS - 1;
diff --git a/src/rldp/incoming_transfer.rs b/src/rldp/incoming_transfer.rs
index 556cf19..3141adb 100644
--- a/src/rldp/incoming_transfer.rs
+++ b/src/rldp/incoming_transfer.rs
@@ -81,9 +81,10 @@ impl IncomingTransfer {
                     return Err(IncomingTransferError::PacketParametersMismatch.into())
                 }
                 Some(decoder) => decoder,
-                None => self
-                    .decoder
-                    .get_or_insert_with(|| RaptorQDecoder::with_params(fec_type)),
+                None if fec_type.total_len as usize > total_size - self.data.len() => {
+                    return Err(IncomingTransferError::TooBigTransferSize.into())
+                }
+                None => self.decoder.insert(RaptorQDecoder::with_params(fec_type)?),
             },
             std::cmp::Ordering::Less => {
                 tl_proto::serialize_into(
@@ -99,7 +100,7 @@ impl IncomingTransfer {
         };
 
         // Decode message data
-        match decoder.decode(message.seqno, message.data) {
+        match decoder.decode(message.seqno, message.data)? {
             Some(data) if data.len() + self.data.len() > total_size => {
                 Err(IncomingTransferError::TooBigTransferSize.into())
             }
-- 
2.43.0


From 45666ced4a4bb8bb8112b14307ddfd9cc6a6a06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 43/68] fix: overflow on completion of the last possible RLDP
 message part

---
 src/rldp/transfers_cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index a05e3a0..725cedb 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -260,7 +260,9 @@ impl TransfersCache {
             proto::rldp::MessagePart::Complete { transfer_id, part } => {
                 if let Some(transfer) = self.transfers.get(transfer_id) {
                     if let RldpTransfer::Outgoing(state) = transfer.value() {
-                        state.set_part(part + 1);
+                        if let Some(next_part) = part.checked_add(1) {
+                            state.set_part(next_part);
+                        }
                     }
                 }
             }
-- 
2.43.0


From eb4a62fdebda196fc9ea7a2524ddaaba52f28917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 44/68] fix: RLDP transfers of quickly processed queries were
 never removed

---
 src/rldp/transfers_cache.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index 725cedb..8e419cb 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -337,7 +337,13 @@ impl TransfersCache {
         let interval = self.query_options.completion_interval();
         tokio::spawn(async move {
             tokio::time::sleep(interval).await;
-            transfers.insert(transfer_id, RldpTransfer::Done);
+
+            // NOTE: it could be already finished and even removed
+            if let Some(mut transfer) = transfers.get_mut(&transfer_id) {
+                if matches!(transfer.value(), RldpTransfer::Incoming(_)) {
+                    *transfer = RldpTransfer::Done;
+                }
+            }
         });
 
         // Done
-- 
2.43.0


From df55d1c01a8b77bbeffc29fc0c7ba86b6b17099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 45/68] fix: RLDP transfer of an answer which was not sent was
 never removed

---
 src/rldp/transfers_cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index 8e419cb..44cf1cc 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -457,7 +457,9 @@ impl IncomingContext {
         };
 
         // Send answer
-        outgoing_context.send(query_options, None).await?;
+        if let Err(e) = outgoing_context.send(query_options, None).await {
+            tracing::warn!("failed to send RLDP answer: {e}");
+        }
 
         // Done
         Ok(Some(outgoing_transfer_id))
-- 
2.43.0


From 5254347022a7afc500bf90bdf73caaf8bbfe96e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 46/68] fix: timed out RLDP transfer was processed as a query
 while it was not received completely

---
 src/rldp/incoming_transfer.rs |  5 +++--
 src/rldp/transfers_cache.rs   | 34 +++++++++++++++++-----------------
 2 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/rldp/incoming_transfer.rs b/src/rldp/incoming_transfer.rs
index 3141adb..06c5a57 100644
--- a/src/rldp/incoming_transfer.rs
+++ b/src/rldp/incoming_transfer.rs
@@ -41,8 +41,9 @@ impl IncomingTransfer {
         self.total_size
     }
 
-    pub fn data(&self) -> &[u8] {
-        self.data.as_slice()
+    /// Whether all bytes were received
+    pub fn is_complete(&self) -> bool {
+        matches!(self.total_size, Some(total_size) if self.data.len() >= total_size)
     }
 
     pub fn into_data(self) -> Vec<u8> {
diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index 44cf1cc..94e6cde 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -314,15 +314,19 @@ impl TransfersCache {
             transfers.insert(transfer_id, RldpTransfer::Done);
 
             // Process query
-            let outgoing_transfer_id = incoming_context
-                .answer(
-                    transfers.clone(),
-                    subscribers,
-                    query_options,
-                    force_compression,
-                )
-                .await
-                .unwrap_or_default();
+            let outgoing_transfer_id = if incoming_context.transfer.is_complete() {
+                incoming_context
+                    .answer(
+                        transfers.clone(),
+                        subscribers,
+                        query_options,
+                        force_compression,
+                    )
+                    .await
+                    .unwrap_or_default()
+            } else {
+                None
+            };
 
             // Clear transfers in background
             tokio::time::sleep(query_options.completion_interval()).await;
@@ -396,14 +400,10 @@ impl IncomingContext {
             }
 
             // Exit loop if all bytes were received
-            match self.transfer.total_size() {
-                Some(total_size) if self.transfer.data().len() >= total_size => {
-                    break;
-                }
-                None => {
-                    tracing::warn!("total size mismatch");
-                }
-                _ => {}
+            if self.transfer.is_complete() {
+                break;
+            } else if self.transfer.total_size().is_none() {
+                tracing::warn!("total size mismatch");
             }
         }
 
-- 
2.43.0


From 1fdda8552da3dca494a10c773972eadb100e472b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 47/68] fix: transfers of a cancelled RLDP query were never
 removed

---
 src/rldp/transfers_cache.rs | 67 +++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 25 deletions(-)

diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index 94e6cde..fd9bf14 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -70,6 +70,14 @@ impl TransfersCache {
         self.transfers
             .insert(incoming_transfer_id, RldpTransfer::Incoming(parts_tx));
 
+        // Finish both transfers at the end, even if this future is cancelled
+        let _guard = QueryTransfersGuard {
+            transfers: self.transfers.clone(),
+            outgoing_transfer_id,
+            incoming_transfer_id,
+            interval: self.query_options.completion_interval(),
+        };
+
         // Prepare contexts
         let outgoing_context = OutgoingContext {
             adnl: adnl.clone(),
@@ -108,7 +116,7 @@ impl TransfersCache {
                 .insert(outgoing_transfer_id, RldpTransfer::Done);
         }
 
-        let result = match result {
+        match result {
             Ok((true, mut roundtrip)) => {
                 let mut start = Instant::now();
                 let mut updates = incoming_transfer_state.updates();
@@ -137,30 +145,8 @@ impl TransfersCache {
                 }
             }
             Ok((false, roundtrip)) => Ok((None, roundtrip)),
-            Err(e) => {
-                // Reset transfer entries
-                self.transfers
-                    .insert(outgoing_transfer_id, RldpTransfer::Done);
-                Err(e)
-            }
-        };
-
-        self.transfers
-            .insert(incoming_transfer_id, RldpTransfer::Done);
-
-        // Clear transfers in background
-        tokio::spawn({
-            let transfers = self.transfers.clone();
-            let interval = self.query_options.completion_interval();
-            async move {
-                tokio::time::sleep(interval).await;
-                transfers.remove(&outgoing_transfer_id);
-                transfers.remove(&incoming_transfer_id);
-            }
-        });
-
-        // Done
-        result
+            Err(e) => Err(e),
+        }
     }
 
     pub fn len(&self) -> usize {
@@ -361,6 +347,37 @@ enum RldpTransfer {
     Done,
 }
 
+/// Finishes both transfers of a query and removes them after some time
+struct QueryTransfersGuard {
+    transfers: Arc<FastDashMap<TransferId, RldpTransfer>>,
+    outgoing_transfer_id: TransferId,
+    incoming_transfer_id: TransferId,
+    interval: Duration,
+}
+
+impl Drop for QueryTransfersGuard {
+    fn drop(&mut self) {
+        let ids = [self.outgoing_transfer_id, self.incoming_transfer_id];
+        for id in ids {
+            self.transfers.insert(id, RldpTransfer::Done);
+        }
+
+        // Clear transfers in background
+        let transfers = self.transfers.clone();
+        let interval = self.interval;
+        match tokio::runtime::Handle::try_current() {
+            Ok(handle) => {
+                handle.spawn(async move {
+                    tokio::time::sleep(interval).await;
+                    ids.iter().for_each(|id| _ = transfers.remove(id));
+                });
+            }
+            // Query was dropped outside of the runtime
+            Err(_) => ids.iter().for_each(|id| _ = transfers.remove(id)),
+        }
+    }
+}
+
 struct IncomingContext {
     adnl: Arc<adnl::Node>,
     local_id: adnl::NodeIdShort,
-- 
2.43.0


From 6fc829f9183eebb2b2b23409667f1bb8be53cb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:01 +0000
Subject: [PATCH 48/68] fix: RLDP queries and answers which look like
 compressed data were changed

A receiver decompresses everything what looks like compressed, so such data
must be sent compressed even if compression is not required.
---
 src/rldp/compression.rs     | 20 ++++++++++++++++++--
 src/rldp/node.rs            |  7 +++----
 src/rldp/transfers_cache.rs |  6 ++----
 3 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/rldp/compression.rs b/src/rldp/compression.rs
index 62426e4..84c25e9 100644
--- a/src/rldp/compression.rs
+++ b/src/rldp/compression.rs
@@ -1,8 +1,24 @@
 pub fn compress(data: &mut Vec<u8>) -> std::io::Result<()> {
-    let uncompressed = data.len();
-    if uncompressed <= COMPRESSION_THRESHOLD {
+    if data.len() <= COMPRESSION_THRESHOLD {
         return Ok(());
     }
+    compress_any(data)
+}
+
+/// Prepares data for a receiver which decompresses everything what looks like compressed.
+/// Compresses data on demand or if it could be mistaken for compressed
+pub fn prepare(data: &mut Vec<u8>, compression: bool) -> std::io::Result<()> {
+    if decompress(data).is_some() {
+        compress_any(data)
+    } else if compression {
+        compress(data)
+    } else {
+        Ok(())
+    }
+}
+
+fn compress_any(data: &mut Vec<u8>) -> std::io::Result<()> {
+    let uncompressed = data.len();
 
     let mut result = Vec::with_capacity(data.len() + 1);
     ok!(zstd::stream::copy_encode(
diff --git a/src/rldp/node.rs b/src/rldp/node.rs
index 40e0da0..3c0fc42 100644
--- a/src/rldp/node.rs
+++ b/src/rldp/node.rs
@@ -169,10 +169,9 @@ impl Node {
     }
 
     fn make_query(&self, mut data: Vec<u8>) -> ([u8; 32], Vec<u8>) {
-        if self.options.force_compression {
-            if let Err(e) = compression::compress(&mut data) {
-                tracing::warn!("failed to compress RLDP query: {e:?}");
-            }
+        let compressed = compression::prepare(&mut data, self.options.force_compression);
+        if let Err(e) = compressed {
+            tracing::warn!("failed to compress RLDP query: {e:?}");
         }
 
         let query_id = gen_fast_bytes();
diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index fd9bf14..78ce92e 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -606,10 +606,8 @@ async fn process_rldp_query(
     match process_query(ctx, subscribers, Cow::Owned(query.data)).await? {
         QueryProcessingResult::Processed(answer) => Ok(match answer {
             Some(mut answer) => {
-                if answer_compression {
-                    if let Err(e) = compression::compress(&mut answer) {
-                        tracing::warn!("failed to compress RLDP answer: {e:?}");
-                    }
+                if let Err(e) = compression::prepare(&mut answer, answer_compression) {
+                    tracing::warn!("failed to compress RLDP answer: {e:?}");
                 }
                 if answer.len() > query.max_answer_size as usize {
                     return Err(TransfersCacheError::AnswerSizeExceeded.into());
-- 
2.43.0


From 6401de9be71fff8458f6643d654e420d12748a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 49/68] verif: replaceable size of RLDP message parts

---
 src/rldp/outgoing_transfer.rs | 16 +++++++++++++---
 src/verif/mod.rs              |  1 +
 src/verif/params.rs           | 16 ++++++++++++++++
 3 files changed, 30 insertions(+), 3 deletions(-)
 create mode 100644 src/verif/params.rs

diff --git a/src/rldp/outgoing_transfer.rs b/src/rldp/outgoing_transfer.rs
index fab5503..059b626 100644
--- a/src/rldp/outgoing_transfer.rs
+++ b/src/rldp/outgoing_transfer.rs
@@ -47,7 +47,7 @@ impl OutgoingTransfer {
 
         let total = self.data.len();
         let part = self.state.part() as usize;
-        let processed = part * SLICE;
+        let processed = part * slice();
         if processed >= total {
             return Ok(None);
         }
@@ -56,7 +56,7 @@ impl OutgoingTransfer {
         // Each part has its own sequence of symbols
         self.state.reset_seqno();
 
-        let chunk_size = std::cmp::min(total - processed, SLICE);
+        let chunk_size = std::cmp::min(total - processed, slice());
         let encoder = self.encoder.insert(RaptorQEncoder::with_data(
             &self.data[processed..processed + chunk_size],
         ));
@@ -109,7 +109,7 @@ impl OutgoingTransfer {
     }
 
     pub fn is_finished(&self) -> bool {
-        self.state.has_reply() && ((self.state.part() as usize + 1) * SLICE >= self.data.len())
+        self.state.has_reply() && ((self.state.part() as usize + 1) * slice() >= self.data.len())
     }
 
     pub fn is_finished_or_next_part(&self, part: u32) -> Result<bool> {
@@ -184,6 +184,16 @@ impl OutgoingTransferState {
 const WINDOW: u32 = 1000;
 const SLICE: usize = 2000000;
 
+/// Max size of a part of the message
+#[inline(always)]
+fn slice() -> usize {
+    #[cfg(verif)]
+    if let Some(slice) = crate::verif::params::rldp_slice() {
+        return slice;
+    }
+    SLICE
+}
+
 #[derive(thiserror::Error, Debug)]
 enum OutgoingTransferError {
     #[error("Encoder is not ready")]
diff --git a/src/verif/mod.rs b/src/verif/mod.rs
index 2a91f83..d0cf813 100644
--- a/src/verif/mod.rs
+++ b/src/verif/mod.rs
@@ -7,6 +7,7 @@
 pub mod hash;
 pub mod map;
 pub mod net;
+pub mod params;
 pub mod rng;
 pub mod sched;
 pub mod sync;
diff --git a/src/verif/params.rs b/src/verif/params.rs
new file mode 100644
index 0000000..add989b
--- /dev/null
+++ b/src/verif/params.rs
@@ -0,0 +1,16 @@
+//! Sizes which are too big to explore everything around them
+
+use std::cell::Cell;
+
+thread_local! {
+    static RLDP_SLICE: Cell<Option<usize>> = const { Cell::new(None) };
+}
+
+/// Replaces the size of RLDP message parts on this OS thread
+pub fn set_rldp_slice(slice: Option<usize>) {
+    RLDP_SLICE.with(|s| s.set(slice));
+}
+
+pub(crate) fn rldp_slice() -> Option<usize> {
+    RLDP_SLICE.with(|s| s.get())
+}
-- 
2.43.0


From 987655d353b749a716f3f263c6ed56cb882fa128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:45 +0000
Subject: [PATCH 50/68] fix: don't overflow when checking the date of a
 broadcast

---
 src/overlay/overlay.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 31193f3..96b2733 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -1138,7 +1138,8 @@ impl Overlay {
     }
 
     fn is_broadcast_outdated(&self, date: u32) -> bool {
-        date + (self.options.broadcast_timeout_sec as u32) < now()
+        let timeout = self.options.broadcast_timeout_sec;
+        (date as u64).saturating_add(timeout) < now() as u64
     }
 
     fn spawn_broadcast_gc_task(self: &Arc<Self>, broadcast_id: BroadcastId) {
-- 
2.43.0


From 1438c5ae3ca11ca5a6e2955df8a9d6865bcb13f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 51/68] fix: verify flags of ordinary broadcasts

---
 src/overlay/overlay.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 96b2733..8e2694a 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -570,8 +570,12 @@ impl Overlay {
 
         let broadcast_data = match compression::decompress(broadcast.data) {
             Some(decompressed) => {
-                let broadcast_to_sign =
-                    make_broadcast_to_sign(&decompressed, broadcast.date, source.as_ref());
+                let broadcast_to_sign = make_broadcast_to_sign(
+                    &decompressed,
+                    broadcast.date,
+                    broadcast.flags,
+                    source.as_ref(),
+                );
                 match node_id.verify(&broadcast_to_sign, broadcast.signature) {
                     Ok(()) => {
                         let broadcast_id = broadcast_to_sign.compute_broadcast_id();
@@ -589,8 +593,12 @@ impl Overlay {
         let (broadcast_id, data) = match broadcast_data {
             Some((id, data)) => (id, data),
             None => {
-                let broadcast_to_sign =
-                    make_broadcast_to_sign(broadcast.data, broadcast.date, source.as_ref());
+                let broadcast_to_sign = make_broadcast_to_sign(
+                    broadcast.data,
+                    broadcast.date,
+                    broadcast.flags,
+                    source.as_ref(),
+                );
                 node_id.verify(&broadcast_to_sign, broadcast.signature)?;
 
                 let broadcast_id = broadcast_to_sign.compute_broadcast_id();
@@ -735,7 +743,8 @@ impl Overlay {
         target: BroadcastTarget,
     ) -> OutgoingBroadcastInfo {
         let date = now();
-        let broadcast_to_sign = make_broadcast_to_sign(&data, date, None);
+        let broadcast_to_sign =
+            make_broadcast_to_sign(&data, date, BROADCAST_FLAG_ANY_SENDER, None);
         let broadcast_id = broadcast_to_sign.compute_broadcast_id();
         if !self.create_broadcast(broadcast_id) {
             tracing::warn!(
@@ -1293,6 +1302,7 @@ impl OverlayBroadcastToSign {
 fn make_broadcast_to_sign(
     data: &[u8],
     date: u32,
+    flags: u32,
     source: Option<&adnl::NodeIdShort>,
 ) -> OverlayBroadcastToSign {
     const BROADCAST_ID: u32 = tl_proto::id!("overlay.broadcast.id", scheme = "scheme.tl");
@@ -1301,7 +1311,7 @@ fn make_broadcast_to_sign(
     broadcast_hash.update(BROADCAST_ID.to_le_bytes());
     broadcast_hash.update(source.map(adnl::NodeIdShort::as_slice).unwrap_or(&[0; 32]));
     broadcast_hash.update(sha2::Sha256::digest(data).as_slice());
-    broadcast_hash.update(BROADCAST_FLAG_ANY_SENDER.to_le_bytes());
+    broadcast_hash.update(flags.to_le_bytes());
     let broadcast_hash = broadcast_hash.finalize();
 
     OverlayBroadcastToSign {
-- 
2.43.0


From 7eb01f350bb8e9e118a0b1b2c4aafaf1a4269635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 52/68] fix: verify FEC broadcast packets before they affect
 anything

---
 src/overlay/overlay.rs | 59 +++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 32 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 8e2694a..4b16c4d 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -643,10 +643,33 @@ impl Overlay {
         let node_id = adnl::NodeIdFull::try_from(broadcast.src)?;
         let source = node_id.compute_short_id();
 
-        let signature = match broadcast.signature.len() {
-            64 => broadcast.signature.try_into().unwrap(),
-            _ => return Err(OverlayError::UnsupportedSignature.into()),
-        };
+        if broadcast.signature.len() != 64 {
+            return Err(OverlayError::UnsupportedSignature.into());
+        }
+
+        // Skip own broadcasts
+        if let Some(transfer) = self.owned_broadcasts.get(&broadcast_id) {
+            if matches!(transfer.value().as_ref(), OwnedBroadcast::Other) {
+                return Ok(());
+            }
+        }
+
+        // NOTE: Packet must be verified before it affects the transfer or gets redistributed
+        let broadcast_to_sign = make_fec_part_to_sign(
+            &broadcast_id,
+            broadcast.data_size,
+            broadcast.date,
+            broadcast.flags,
+            &broadcast.fec,
+            broadcast.data,
+            broadcast.seqno,
+            if broadcast.flags & BROADCAST_FLAG_ANY_SENDER == 0 {
+                Some(source)
+            } else {
+                None
+            },
+        );
+        node_id.verify(&broadcast_to_sign, broadcast.signature)?;
 
         let transfer = match self.owned_broadcasts.entry(broadcast_id) {
             // First packet of the broadcast
@@ -679,15 +702,10 @@ impl Overlay {
         // Send broadcast to the processing queue
         if !transfer.completed.load(Ordering::Acquire) {
             transfer.broadcast_tx.send(BroadcastFec {
-                node_id,
                 data_hash: broadcast_id,
                 data_size: broadcast.data_size,
-                flags: broadcast.flags,
                 data: broadcast.data.to_vec(),
                 seqno: broadcast.seqno,
-                fec_type: broadcast.fec,
-                date: broadcast.date,
-                signature,
             })?;
         }
 
@@ -1245,24 +1263,6 @@ fn process_fec_broadcast(
 ) -> Result<Option<Vec<u8>>> {
     let broadcast_id = &broadcast.data_hash;
 
-    let broadcast_to_sign = &make_fec_part_to_sign(
-        broadcast_id,
-        broadcast.data_size,
-        broadcast.date,
-        broadcast.flags,
-        &broadcast.fec_type,
-        &broadcast.data,
-        broadcast.seqno,
-        if broadcast.flags & BROADCAST_FLAG_ANY_SENDER == 0 {
-            Some(broadcast.node_id.compute_short_id())
-        } else {
-            None
-        },
-    );
-    broadcast
-        .node_id
-        .verify(broadcast_to_sign, &broadcast.signature)?;
-
     match decoder.decode(broadcast.seqno, broadcast.data)? {
         Some(result) if result.len() != broadcast.data_size as usize => {
             Err(OverlayError::DataSizeMismatch.into())
@@ -1396,15 +1396,10 @@ enum OwnedBroadcast {
 
 #[derive(Debug)]
 struct BroadcastFec {
-    node_id: adnl::NodeIdFull,
     data_hash: BroadcastId,
     data_size: u32,
-    flags: u32,
     data: Vec<u8>,
     seqno: u32,
-    fec_type: proto::rldp::RaptorQFecType,
-    date: u32,
-    signature: [u8; 64],
 }
 
 type VacantBroadcastEntry<'a> =
-- 
2.43.0


From b8baab978367545220b63f5803c4332f806d00d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 53/68] fix: reject overlay broadcasts which are followed by
 something else

---
 src/overlay/node.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/overlay/node.rs b/src/overlay/node.rs
index 19fbeee..762752c 100644
--- a/src/overlay/node.rs
+++ b/src/overlay/node.rs
@@ -149,7 +149,9 @@ impl MessageSubscriber for NodeState {
         let overlay_id = IdShort::from(<[u8; 32]>::read_from(data, &mut offset)?);
         let broadcast = proto::overlay::Broadcast::read_from(data, &mut offset)?;
 
-        // TODO: check that offset == data.len()
+        if offset != data.len() {
+            return Err(NodeError::InvalidOverlayBroadcastMessage.into());
+        }
 
         let overlay = self.get_overlay(&overlay_id)?;
         match broadcast {
@@ -211,6 +213,8 @@ impl QuerySubscriber for NodeState {
 
 #[derive(thiserror::Error, Debug)]
 enum NodeError {
+    #[error("Invalid overlay broadcast message")]
+    InvalidOverlayBroadcastMessage,
     #[error("Unsupported overlay broadcast message")]
     UnsupportedOverlayBroadcastMessage,
     #[error("Unknown overlay")]
-- 
2.43.0


From 0ed9b1fbd84318fef59d88fcd3aa379152427709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 54/68] fix: don't let parts from one source block a FEC
 broadcast from another

---
 src/overlay/overlay.rs | 63 +++++++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 23 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 4b16c4d..8b1aeac 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -647,12 +647,14 @@ impl Overlay {
             return Err(OverlayError::UnsupportedSignature.into());
         }
 
-        // Skip own broadcasts
-        if let Some(transfer) = self.owned_broadcasts.get(&broadcast_id) {
-            if matches!(transfer.value().as_ref(), OwnedBroadcast::Other) {
-                return Ok(());
-            }
-        }
+        let is_received = match self.owned_broadcasts.get(&broadcast_id) {
+            Some(broadcast) => match broadcast.value().as_ref() {
+                OwnedBroadcast::Received => true,
+                // Skip own broadcasts
+                _ => return Ok(()),
+            },
+            None => false,
+        };
 
         // NOTE: Packet must be verified before it affects the transfer or gets redistributed
         let broadcast_to_sign = make_fec_part_to_sign(
@@ -671,7 +673,11 @@ impl Overlay {
         );
         node_id.verify(&broadcast_to_sign, broadcast.signature)?;
 
-        let transfer = match self.owned_broadcasts.entry(broadcast_id) {
+        // NOTE: Parts from different sources must not interfere with each other
+        let transfer_id = compute_fec_transfer_id(&broadcast_id, &source);
+        let transfer = match self.owned_broadcasts.entry(transfer_id) {
+            // The same broadcast was already received from a different source
+            Entry::Vacant(_) if is_received => return Ok(()),
             // First packet of the broadcast
             Entry::Vacant(entry) => {
                 self.spawn_fec_transfer_receiver(broadcast.fec, broadcast_id, source, entry)?
@@ -681,18 +687,10 @@ impl Overlay {
         };
         let transfer = match transfer.as_ref() {
             OwnedBroadcast::Incoming(transfer) => transfer,
-            OwnedBroadcast::Other => return Ok(()),
+            _ => return Ok(()),
         };
 
         transfer.updated_at.refresh();
-        if transfer.source != source {
-            tracing::trace!(
-                overlay_id = %self.id,
-                broadcast_id = %DisplayBroadcastId(&broadcast_id),
-                "same broadcast but parts from different sources"
-            );
-            return Ok(());
-        }
 
         // Ignore duplicate packets
         if !transfer.history.deliver_packet(broadcast.seqno as u64) {
@@ -981,11 +979,16 @@ impl Overlay {
 
     /// Adds new broadcast id
     fn create_broadcast(&self, broadcast_id: BroadcastId) -> bool {
+        self.insert_broadcast(broadcast_id, OwnedBroadcast::Other)
+    }
+
+    /// Adds new broadcast
+    fn insert_broadcast(&self, broadcast_id: BroadcastId, broadcast: OwnedBroadcast) -> bool {
         use dashmap::mapref::entry::Entry;
 
         match self.owned_broadcasts.entry(broadcast_id) {
             Entry::Vacant(entry) => {
-                entry.insert(Arc::new(OwnedBroadcast::Other));
+                entry.insert(Arc::new(broadcast));
                 true
             }
             Entry::Occupied(_) => false,
@@ -1001,6 +1004,7 @@ impl Overlay {
         entry: VacantBroadcastEntry<'_>,
     ) -> Result<Arc<OwnedBroadcast>> {
         let mut decoder = RaptorQDecoder::with_params(fec_type)?;
+        let transfer_id = *entry.key();
         let (broadcast_tx, mut broadcast_rx) = mpsc::unbounded_channel();
 
         let entry = entry
@@ -1008,7 +1012,6 @@ impl Overlay {
                 completed: AtomicBool::new(false),
                 history: PacketsHistory::for_recv(),
                 broadcast_tx,
-                source: peer_id,
                 updated_at: Default::default(),
             })))
             .clone();
@@ -1030,7 +1033,10 @@ impl Overlay {
                             data,
                             from: peer_id,
                         };
-                        overlay.received_broadcasts.push(data);
+                        if overlay.insert_broadcast(broadcast_id, OwnedBroadcast::Received) {
+                            overlay.received_broadcasts.push(data);
+                            overlay.spawn_broadcast_gc_task(broadcast_id);
+                        }
                         break;
                     }
                     // Broadcast is not complete yet
@@ -1048,7 +1054,7 @@ impl Overlay {
             }
 
             // Mark broadcast as completed
-            if let Some(broadcast) = overlay.owned_broadcasts.get(&broadcast_id) {
+            if let Some(broadcast) = overlay.owned_broadcasts.get(&transfer_id) {
                 match broadcast.value().as_ref() {
                     OwnedBroadcast::Incoming(transfer) => {
                         transfer.completed.store(true, Ordering::Release);
@@ -1072,7 +1078,7 @@ impl Overlay {
                 tokio::time::sleep(Duration::from_millis(broadcast_timeout_sec * 100)).await;
 
                 // Find incoming broadcast
-                if let Some(broadcast) = overlay.owned_broadcasts.get(&broadcast_id) {
+                if let Some(broadcast) = overlay.owned_broadcasts.get(&transfer_id) {
                     match broadcast.value().as_ref() {
                         // Keep waiting if broadcast is not expired or not complete
                         OwnedBroadcast::Incoming(transfer)
@@ -1095,7 +1101,7 @@ impl Overlay {
                 break;
             }
 
-            overlay.spawn_broadcast_gc_task(broadcast_id);
+            overlay.spawn_broadcast_gc_task(transfer_id);
         });
 
         Ok(entry)
@@ -1286,6 +1292,14 @@ fn process_fec_broadcast(
     }
 }
 
+/// Computes an id of the FEC transfer from the specified source
+fn compute_fec_transfer_id(broadcast_id: &BroadcastId, source: &adnl::NodeIdShort) -> BroadcastId {
+    let mut transfer_id = sha2::Sha256::new();
+    transfer_id.update(broadcast_id);
+    transfer_id.update(source.as_slice());
+    transfer_id.finalize().into()
+}
+
 #[derive(TlWrite)]
 #[tl(boxed, id = "overlay.broadcast.toSign", scheme = "scheme.tl")]
 struct OverlayBroadcastToSign {
@@ -1379,7 +1393,6 @@ struct IncomingFecTransfer {
     completed: AtomicBool,
     history: PacketsHistory,
     broadcast_tx: BroadcastFecTx,
-    source: adnl::NodeIdShort,
     updated_at: UpdatedAt,
 }
 
@@ -1390,7 +1403,11 @@ struct OutgoingFecTransfer {
 }
 
 enum OwnedBroadcast {
+    /// Own or ordinary broadcast
     Other,
+    /// Completely received FEC broadcast
+    Received,
+    /// FEC broadcast parts from some source
     Incoming(IncomingFecTransfer),
 }
 
-- 
2.43.0


From 12e3af6c188f148ff24fa600d27549b9239c9573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:53 +0000
Subject: [PATCH 55/68] fix: dropped waiter of overlay broadcasts took the
 wakeup of another one

---
 src/overlay/broadcast_receiver.rs | 70 ++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 29 deletions(-)

diff --git a/src/overlay/broadcast_receiver.rs b/src/overlay/broadcast_receiver.rs
index 1b735bd..9457ef3 100644
--- a/src/overlay/broadcast_receiver.rs
+++ b/src/overlay/broadcast_receiver.rs
@@ -1,19 +1,20 @@
 #[cfg(verif)]
-use crate::verif::sync::atomic::{AtomicU32, Ordering};
+use crate::verif::sync::atomic::{AtomicUsize, Ordering};
 #[cfg(not(verif))]
-use std::sync::atomic::{AtomicU32, Ordering};
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::Arc;
 
 #[cfg(verif)]
 use crate::verif::sync::SegQueue;
 #[cfg(not(verif))]
 use crossbeam_queue::SegQueue;
-use tokio::sync::Barrier;
+use tokio::sync::Semaphore;
 
 pub struct BroadcastReceiver<T> {
     data: SegQueue<T>,
-    barriers: SegQueue<Arc<Barrier>>,
-    sync_lock: AtomicU32,
+    /// One permit for each item in the queue
+    available: Semaphore,
+    waiters: AtomicUsize,
 }
 
 impl<T: Send + 'static> BroadcastReceiver<T> {
@@ -22,37 +23,33 @@ impl<T: Send + 'static> BroadcastReceiver<T> {
     }
 
     pub fn barriers_len(&self) -> usize {
-        self.barriers.len()
+        self.waiters.load(Ordering::Acquire)
     }
 
     pub fn push(self: &Arc<Self>, data: T) {
         self.data.push(data);
-        let receiver = self.clone();
-        tokio::spawn(async move {
-            while receiver.sync_lock.load(Ordering::Acquire) > 0 {
-                if let Some(barrier) = receiver.barriers.pop() {
-                    barrier.wait().await;
-                    break;
-                } else {
-                    tokio::task::yield_now().await;
-                }
-            }
-        });
+        self.available.add_permits(1);
     }
 
+    /// Waits for the next item
+    ///
+    /// NOTE: it is cancel safe, i.e. no items are lost if the future is dropped
     pub async fn pop(&self) -> T {
-        self.sync_lock.fetch_add(1, Ordering::Release);
         loop {
-            match self.data.pop() {
-                Some(data) => {
-                    self.sync_lock.fetch_sub(1, Ordering::Release);
-                    return data;
-                }
-                None => {
-                    let barrier = Arc::new(Barrier::new(2));
-                    self.barriers.push(barrier.clone());
-                    barrier.wait().await;
+            let permit = match self.available.try_acquire() {
+                Ok(permit) => permit,
+                Err(_) => {
+                    let _waiter = Waiter::new(&self.waiters);
+                    self.available
+                        .acquire()
+                        .await
+                        .expect("Semaphore is never closed")
                 }
+            };
+            permit.forget();
+
+            if let Some(data) = self.data.pop() {
+                return data;
             }
         }
     }
@@ -62,8 +59,23 @@ impl<T> Default for BroadcastReceiver<T> {
     fn default() -> Self {
         Self {
             data: Default::default(),
-            barriers: Default::default(),
-            sync_lock: Default::default(),
+            available: Semaphore::new(0),
+            waiters: Default::default(),
         }
     }
 }
+
+struct Waiter<'a>(&'a AtomicUsize);
+
+impl<'a> Waiter<'a> {
+    fn new(waiters: &'a AtomicUsize) -> Self {
+        waiters.fetch_add(1, Ordering::Release);
+        Self(waiters)
+    }
+}
+
+impl Drop for Waiter<'_> {
+    fn drop(&mut self) {
+        self.0.fetch_sub(1, Ordering::Release);
+    }
+}
-- 
2.43.0


From 84c040019ceb6b8e2ae7be831abcf43702d1428d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:53 +0000
Subject: [PATCH 56/68] fix: removed public overlay peer remained a neighbour

---
 src/adnl/peers_set.rs  | 33 +++++++++++++++++++++++++++++++++
 src/overlay/overlay.rs |  2 +-
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/adnl/peers_set.rs b/src/adnl/peers_set.rs
index ee46a92..8817111 100644
--- a/src/adnl/peers_set.rs
+++ b/src/adnl/peers_set.rs
@@ -141,6 +141,11 @@ impl PeersSet {
         self.state.write().insert(peer_id)
     }
 
+    /// Removes a value from the set. Returns whether the value was present in the set.
+    pub fn remove(&self, peer_id: &NodeIdShort) -> bool {
+        self.state.write().remove(peer_id)
+    }
+
     pub fn extend<I>(&self, peers: I)
     where
         I: IntoIterator<Item = NodeIdShort>,
@@ -316,6 +321,34 @@ impl PeersSetState {
 
         true
     }
+
+    fn remove(&mut self, peer_id: &NodeIdShort) -> bool {
+        let index = match self.cache.remove(Wrapper::wrap(peer_id)) {
+            Some(index) => index as usize,
+            None => return false,
+        };
+
+        self.version += 1;
+        self.index.remove(index);
+
+        // Oldest peers must be replaced first
+        let oldest = match self.upper as usize {
+            upper if upper > index => upper - 1,
+            upper => upper,
+        };
+        if oldest < self.index.len() {
+            self.index.rotate_left(oldest);
+        }
+        self.upper = self.index.len() as u32;
+
+        for (i, peer_id) in self.index.iter().enumerate() {
+            if let Some(index) = self.cache.get_mut(peer_id) {
+                *index = i as u32;
+            }
+        }
+
+        true
+    }
 }
 
 // SAFETY: internal Rcs are not exposed by the api and the reference
diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 8b1aeac..33fb3f8 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -324,7 +324,7 @@ impl Overlay {
             return false;
         }
         tracing::warn!(overlay_id = %self.id, %peer_id, "removing public overlay peer");
-        if self.neighbours.contains(peer_id) {
+        if self.neighbours.remove(peer_id) {
             self.update_neighbours(self.options.max_neighbours);
         }
         true
-- 
2.43.0


From 447dd55f9b52ea371ce756cd75b2f1f86c3ff84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:43 +0000
Subject: [PATCH 57/68] verif: access to the message subscriber of overlays

---
 src/overlay/node.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/overlay/node.rs b/src/overlay/node.rs
index 762752c..b2a5991 100644
--- a/src/overlay/node.rs
+++ b/src/overlay/node.rs
@@ -41,6 +41,12 @@ impl Node {
         self.state.clone()
     }
 
+    /// Returns inner message subscriber
+    #[cfg(verif)]
+    pub fn message_subscriber(&self) -> Arc<dyn MessageSubscriber> {
+        self.state.clone()
+    }
+
     /// Returns metrics for all overlays
     pub fn metrics(&self) -> impl Iterator<Item = (IdShort, OverlayMetrics)> + '_ {
         self.state
-- 
2.43.0


From 044147e153e16e80bed10c5e51f38a2cd98329a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:51 +0000
Subject: [PATCH 58/68] fix: stop processing and sending packets once the node
 is shut down

---
 src/adnl/node/receiver.rs | 8 +++++---
 src/adnl/node/sender.rs   | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 066f805..053bf39 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -62,9 +62,11 @@ impl Node {
 
                 // Receive packet
                 tokio::pin!(let recv = socket.recv_from(raw_buffer););
-                let result = match select(recv, &mut cancelled).await {
-                    Either::Left((left, _)) => left,
-                    Either::Right(_) => break,
+                // NOTE: the first future is polled first, so a stopped node doesn't process
+                // packets which are already received
+                let result = match select(&mut cancelled, recv).await {
+                    Either::Left(_) => break,
+                    Either::Right((right, _)) => right,
                 };
 
                 let len = match result {
diff --git a/src/adnl/node/sender.rs b/src/adnl/node/sender.rs
index d5619ba..9a082af 100644
--- a/src/adnl/node/sender.rs
+++ b/src/adnl/node/sender.rs
@@ -36,12 +36,14 @@ impl Node {
 
             while let Some(packet) = {
                 tokio::pin!(let recv = sender_queue_rx.recv(););
-                match select(recv, &mut cancelled).await {
-                    Either::Left((packet, _)) => packet,
-                    Either::Right(_) => {
+                // NOTE: the first future is polled first, so a stopped node doesn't send
+                // packets which are already in the queue
+                match select(&mut cancelled, recv).await {
+                    Either::Left(_) => {
                         tracing::debug!("sender loop finished");
                         return;
                     }
+                    Either::Right((packet, _)) => packet,
                 }
             } {
                 // Send packet
-- 
2.43.0


From 653132225d9bd644b23d8bda17d652ba56835442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:51 +0000
Subject: [PATCH 59/68] fix: finish the DHT storage gc task when the node is
 dropped

---
 src/dht/node.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index 43701d2..42eeafb 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -147,8 +147,10 @@ impl Node {
         tokio::spawn(async move {
             loop {
                 tokio::time::sleep(interval).await;
-                if let Some(state) = state.upgrade() {
-                    state.storage.gc();
+                match state.upgrade() {
+                    Some(state) => state.storage.gc(),
+                    // There is nothing to collect after the node was dropped
+                    None => break,
                 }
             }
         });
-- 
2.43.0


From 018e587f0da072fff8c5d2faa11a42e0c0d66e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:49 +0000
Subject: [PATCH 60/68] fix: do not keep a dropped overlay alive until its
 incoming broadcasts are complete

---
 src/overlay/overlay.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 33fb3f8..3115047 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -1017,7 +1017,11 @@ impl Overlay {
             .clone();
 
         // Spawn packets receiver
-        let overlay = self.clone();
+        //
+        // NOTE: overlay owns the sender side of the channel, so a strong reference
+        // would keep the overlay alive until the broadcast is complete
+        let overlay_id = self.id;
+        let overlay = Arc::downgrade(self);
         tokio::spawn(async move {
             // For each fec broadcast packet
             let mut packets = 0;
@@ -1028,6 +1032,10 @@ impl Overlay {
                 match process_fec_broadcast(&mut decoder, broadcast) {
                     // Broadcast complete and successfully decoded
                     Ok(Some(data)) => {
+                        let overlay = match overlay.upgrade() {
+                            Some(overlay) => overlay,
+                            None => return,
+                        };
                         let data = IncomingBroadcastInfo {
                             packets,
                             data,
@@ -1044,7 +1052,7 @@ impl Overlay {
                     // Error during decoding
                     Err(e) => {
                         tracing::warn!(
-                            overlay_id = %overlay.id,
+                            %overlay_id,
                             broadcast_id = %DisplayBroadcastId(&broadcast_id),
                             "error when receiving overlay broadcast: {e}"
                         );
@@ -1054,6 +1062,10 @@ impl Overlay {
             }
 
             // Mark broadcast as completed
+            let overlay = match overlay.upgrade() {
+                Some(overlay) => overlay,
+                None => return,
+            };
             if let Some(broadcast) = overlay.owned_broadcasts.get(&transfer_id) {
                 match broadcast.value().as_ref() {
                     OwnedBroadcast::Incoming(transfer) => {
@@ -1061,13 +1073,13 @@ impl Overlay {
                     }
                     _ => {
                         tracing::error!(
-                            overlay_id = %overlay.id,
+                            %overlay_id,
                             broadcast_id = %DisplayBroadcastId(&broadcast_id),
                             "incoming fec broadcast mismatch"
                         );
                     }
                 }
-            }
+            };
         });
 
         // Spawn broadcast cleanup task
-- 
2.43.0


From f0d74a4978dc931e92c90d4ce69b973b318005dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:22 +0000
Subject: [PATCH 61/68] fix: reject nested DHT query prefixes, which could
 overflow the stack

---
 src/dht/node.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index 42eeafb..21d140b 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -732,7 +732,8 @@ impl QuerySubscriber for NodeState {
                 let proto::rpc::DhtQuery { node } = <_>::read_from(&query, &mut offset)?;
                 let constructor = u32::read_from(&query, &mut std::convert::identity(offset))?;
 
-                if offset >= query.len() {
+                // NOTE: nested prefixes are not allowed, they are processed recursively
+                if offset >= query.len() || constructor == proto::rpc::DhtQuery::TL_ID {
                     return Err(DhtNodeError::UnexpectedQuery.into());
                 }
 
-- 
2.43.0


From 3c5db69ed5de838d043b63d346c5c9f69134fdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:17 +0000
Subject: [PATCH 62/68] verif: errors of the socket stand-in

---
 src/verif/net.rs | 48 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/verif/net.rs b/src/verif/net.rs
index 2771508..9f9956c 100644
--- a/src/verif/net.rs
+++ b/src/verif/net.rs
@@ -18,10 +18,14 @@ pub struct Datagram {
     pub data: Vec<u8>,
 }
 
+type Inbox = mpsc::UnboundedSender<io::Result<(Vec<u8>, SocketAddr)>>;
+
 #[derive(Default)]
 struct Network {
-    inboxes: HashMap<u16, mpsc::UnboundedSender<(Vec<u8>, SocketAddr)>>,
+    inboxes: HashMap<u16, Inbox>,
     sent: Vec<Datagram>,
+    /// Number of the next calls of `send_to` which fail
+    failing_sends: HashMap<u16, usize>,
     next_port: u16,
 }
 
@@ -49,14 +53,28 @@ pub fn take_sent() -> Vec<Datagram> {
 /// Puts the datagram to the receiver's inbox. Returns whether there is such a receiver
 pub fn deliver(to_port: u16, from: SocketAddrV4, data: Vec<u8>) -> bool {
     NETWORK.with(|n| match n.borrow().inboxes.get(&to_port) {
-        Some(inbox) => inbox.send((data, SocketAddr::V4(from))).is_ok(),
+        Some(inbox) => inbox.send(Ok((data, SocketAddr::V4(from)))).is_ok(),
         None => false,
     })
 }
 
+/// Makes a call of `recv_from` fail
+pub fn fail_recv(port: u16) {
+    NETWORK.with(|n| {
+        if let Some(inbox) = n.borrow().inboxes.get(&port) {
+            inbox.send(Err(io::ErrorKind::ConnectionReset.into())).ok();
+        }
+    })
+}
+
+/// Makes the next call of `send_to` fail
+pub fn fail_send(port: u16) {
+    NETWORK.with(|n| *n.borrow_mut().failing_sends.entry(port).or_default() += 1);
+}
+
 pub struct UdpSocket {
     port: u16,
-    inbox: Mutex<mpsc::UnboundedReceiver<(Vec<u8>, SocketAddr)>>,
+    inbox: Mutex<mpsc::UnboundedReceiver<io::Result<(Vec<u8>, SocketAddr)>>>,
 }
 
 impl UdpSocket {
@@ -68,26 +86,38 @@ impl UdpSocket {
     }
 
     pub async fn send_to(&self, data: &[u8], target: SocketAddrV4) -> io::Result<usize> {
+        ACTIVITY.with(|n| n.set(n.get() + 1));
         NETWORK.with(|n| {
-            n.borrow_mut().sent.push(Datagram {
+            let mut n = n.borrow_mut();
+            match n.failing_sends.get_mut(&self.port) {
+                Some(count) if *count > 0 => {
+                    *count -= 1;
+                    return Err(io::ErrorKind::PermissionDenied.into());
+                }
+                _ => {}
+            }
+            n.sent.push(Datagram {
                 from: self.port,
                 to: target,
                 data: data.to_vec(),
-            })
-        });
-        ACTIVITY.with(|n| n.set(n.get() + 1));
-        Ok(data.len())
+            });
+            Ok(data.len())
+        })
     }
 
     pub async fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
         match self.inbox.lock().await.recv().await {
-            Some((data, addr)) => {
+            Some(Ok((data, addr))) => {
                 ACTIVITY.with(|n| n.set(n.get() + 1));
                 // The rest of a long datagram is discarded
                 let len = std::cmp::min(buf.len(), data.len());
                 buf[..len].copy_from_slice(&data[..len]);
                 Ok((len, addr))
             }
+            Some(Err(e)) => {
+                ACTIVITY.with(|n| n.set(n.get() + 1));
+                Err(e)
+            }
             // The network was reset
             None => std::future::pending().await,
         }
-- 
2.43.0


From 9a38ac71cdaab7831d58367ad7d45ead2fbbafe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:52 +0000
Subject: [PATCH 63/68] fix: DHT values with a huge time to live don't overflow

---
 src/dht/entry.rs | 4 ++--
 src/dht/node.rs  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dht/entry.rs b/src/dht/entry.rs
index f4cdda8..66e1de4 100644
--- a/src/dht/entry.rs
+++ b/src/dht/entry.rs
@@ -119,7 +119,7 @@ impl<'a> EntryWithData<'a> {
 
     /// Sets expiration time for the value as `now + ttl`
     pub fn with_ttl(mut self, ttl: u32) -> Self {
-        self.expire_at = Some(now() + ttl);
+        self.expire_at = Some(now().saturating_add(ttl));
         self
     }
 
@@ -165,7 +165,7 @@ impl<'a> EntryWithData<'a> {
             value: &self.data,
             ttl: self
                 .expire_at
-                .unwrap_or_else(|| now() + self.inner.dht.options().value_ttl_sec),
+                .unwrap_or_else(|| now().saturating_add(self.inner.dht.options().value_ttl_sec)),
             signature: Default::default(),
         }
     }
diff --git a/src/dht/node.rs b/src/dht/node.rs
index 21d140b..af287c4 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -404,7 +404,7 @@ impl Node {
                 signature: Default::default(),
             },
             value: &value,
-            ttl: now() + self.options.value_ttl_sec,
+            ttl: now().saturating_add(self.options.value_ttl_sec),
             signature: Default::default(),
         };
 
-- 
2.43.0


From 950a56c0a859d3f2e4daf79241b10084e220826c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:32 +0000
Subject: [PATCH 64/68] verif: reset of a peer without its queries

---
 src/adnl/node/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index 2773981..1062d00 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -702,6 +702,10 @@ impl Node {
 
     /// Drops the channel with the peer, like after a long silence
     pub fn verif_reset_peer(&self, local_id: &NodeIdShort, peer_id: &NodeIdShort) -> Result<()> {
-        self.reset_peer(local_id, peer_id)
+        if let Some(mut peer) = self.get_peers(local_id)?.get_mut(peer_id) {
+            self.remove_channel(local_id, peer_id);
+            peer.reset();
+        }
+        Ok(())
     }
 }
-- 
2.43.0


From 3d9d9716132d0d0708f44b97e401d2770970eef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:43 +0000
Subject: [PATCH 65/68] fix: a query doesn't reset a channel which it didn't
 use

---
 src/adnl/node/mod.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index 1062d00..3467a58 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -495,7 +495,7 @@ impl Node {
         if answer.is_none() {
             if let Some(channel) = channel {
                 if channel.update_drop_timeout(now(), self.options.channel_reset_timeout_sec) {
-                    self.reset_peer(local_id, peer_id)?;
+                    self.reset_peer(local_id, peer_id, &channel)?;
                 }
             }
         }
@@ -568,9 +568,28 @@ impl Node {
         }
     }
 
-    fn reset_peer(&self, local_id: &NodeIdShort, peer_id: &NodeIdShort) -> Result<()> {
+    /// Resets the peer and drops its channel
+    fn reset_peer(
+        &self,
+        local_id: &NodeIdShort,
+        peer_id: &NodeIdShort,
+        channel: &Arc<Channel>,
+    ) -> Result<()> {
         let peers = self.get_peers(local_id)?;
-        let mut peer = peers.get_mut(peer_id).ok_or(NodeError::UnknownPeer)?;
+        let mut peer = match peers.get_mut(peer_id) {
+            Some(peer) => peer,
+            // Peer was removed in the meantime
+            None => return Ok(()),
+        };
+
+        // There could be another channel by this time, or it was already dropped
+        let is_current = match self.channels_by_peers.get(&(*local_id, *peer_id)) {
+            Some(current) => Arc::ptr_eq(current.value(), channel),
+            None => false,
+        };
+        if !is_current {
+            return Ok(());
+        }
 
         tracing::trace!(%local_id, %peer_id, "resetting peer pair");
 
@@ -643,8 +662,6 @@ enum NodeError {
     AlreadyRunning,
     #[error("Local id peers not found")]
     PeersNotFound,
-    #[error("Unknown peer")]
-    UnknownPeer,
 }
 
 #[cfg(verif)]
-- 
2.43.0


From 458e372bc64dfcdae7e40b01e67ffd23a73539f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:44 +0000
Subject: [PATCH 66/68] verif: reset of a peer through its channel

---
 src/adnl/node/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index 3467a58..3d123b0 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -719,10 +719,13 @@ impl Node {
 
     /// Drops the channel with the peer, like after a long silence
     pub fn verif_reset_peer(&self, local_id: &NodeIdShort, peer_id: &NodeIdShort) -> Result<()> {
-        if let Some(mut peer) = self.get_peers(local_id)?.get_mut(peer_id) {
-            self.remove_channel(local_id, peer_id);
-            peer.reset();
+        let channel = self
+            .channels_by_peers
+            .get(&(*local_id, *peer_id))
+            .map(|entry| entry.value().clone());
+        match channel {
+            Some(channel) => self.reset_peer(local_id, peer_id, &channel),
+            None => Ok(()),
         }
-        Ok(())
     }
 }
-- 
2.43.0


From 7d631d4240b941f04e21f557df22e200d1f9d8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:13 +0000
Subject: [PATCH 67/68] fix: a broadcast is remembered until it is outdated

---
 src/overlay/overlay.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 3115047..c6bf23e 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -1190,7 +1190,10 @@ impl Overlay {
     fn spawn_broadcast_gc_task(self: &Arc<Self>, broadcast_id: BroadcastId) {
         let overlay = self.clone();
         tokio::spawn(async move {
-            tokio::time::sleep(Duration::from_secs(overlay.options.broadcast_timeout_sec)).await;
+            // NOTE: dates are in whole seconds, so the broadcast becomes outdated
+            // up to one second after the timeout (see `is_broadcast_outdated`)
+            let timeout = overlay.options.broadcast_timeout_sec.saturating_add(1);
+            tokio::time::sleep(Duration::from_secs(timeout)).await;
             overlay
                 .finished_broadcast_count
                 .fetch_add(1, Ordering::Release);
-- 
2.43.0


From e3c874a025d72de00d90b9c6cf0bc4dd976aee4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:51 +0000
Subject: [PATCH 68/68] fix: an own broadcast is remembered while it is being
 sent

---
 src/overlay/overlay.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index c6bf23e..3be85e4 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -898,10 +898,12 @@ impl Overlay {
                 // Sleep between waves
                 tokio::time::sleep(waves_interval).await;
             }
-        });
 
-        // Schedule broadcast cleanup
-        self.spawn_broadcast_gc_task(broadcast_id);
+            // Schedule broadcast cleanup
+            //
+            // NOTE: own packets must not be accepted while they are still being sent
+            overlay.spawn_broadcast_gc_task(broadcast_id);
+        });
 
         // Done
         info
-- 
2.43.0

