//! C33: what an overlay remembers of broadcasts is bounded, and what it forgets can come again

use std::collections::BTreeMap;
use std::time::Duration;

use everscale_network::overlay::{BroadcastTarget, IdShort, OverlayOptions};
use harness::dhtkit::{overlay, public_key, Cast};
use harness::overlaykit::*;
use harness::puppet::Msg;
use harness::rldpkit::SYMBOL;
use harness::util::{filler, hash_of};
use harness::world;
use harness::{check_main, ensure, Chooser, Step, Suite};

const SOURCES: [u8; 2] = [20, 21];
const RELAY: usize = 0;

/// Broadcast timeout and interval of the collection, in milliseconds
const TIMEOUT: u64 = 3000;
const INTERVAL: u64 = 1000;
/// Until when at the latest the end of an incomplete broadcast is noticed
const NOTICE: u64 = 1300;

/// Broadcast as a correct member remembers it
#[derive(Debug, Clone, Copy)]
struct Entry {
    /// It must be remembered until then
    until: u64,
    /// If it is not among the latest ones it must be forgotten after that
    gone: u64,
}

struct Env {
    id: IdShort,
    node: OverlaySim,
    cast: Cast,
    options: OverlayOptions,
    millis: u64,
    /// All entries which the node may have
    entries: Vec<Entry>,
    /// Long broadcasts which were delivered or sent: content and the time until they must
    /// (or may) be remembered
    long: BTreeMap<u8, Entry>,
    /// Packets of the unfinished long broadcast by source
    unfinished: BTreeMap<u8, (u32, Entry)>,
    /// Packets of the broadcasts which were delivered or sent
    packets: Vec<Vec<u8>>,
    counter: u32,
}

fn content(n: u8) -> Vec<u8> {
    filler(n as u64, SYMBOL + 100)
}

impl Env {
    fn new(max_broadcast_log: u32, wave_interval: u64) -> Self {
        let id = overlay(1).compute_short_id();
        let cast = Cast::new(2);
        let peers: Vec<u8> = cast.puppets.iter().map(|p| p.key).collect();
        let options = OverlayOptions {
            broadcast_timeout_sec: TIMEOUT / 1000,
            broadcast_gc_interval_ms: INTERVAL,
            max_broadcast_log,
            fec_broadcast_wave_len: 1,
            fec_broadcast_wave_interval_ms: wave_interval,
            ..Default::default()
        };
        let node = OverlaySim::private(0, &id, &peers, options);
        for puppet in &cast.puppets {
            puppet.introduce(&node.sim);
        }
        Self {
            id,
            node,
            cast,
            options,
            millis: 0,
            entries: Vec::new(),
            long: BTreeMap::new(),
            unfinished: BTreeMap::new(),
            packets: Vec::new(),
            counter: 0,
        }
    }

    async fn pass_time(&mut self, millis: u64) {
        world::advance(Duration::from_millis(millis)).await;
        self.millis += millis;
        self.listen().await;
    }

    /// Collects the packets of the broadcasts of the node itself
    async fn listen(&mut self) {
        for heard in self.cast.listen().await {
            let Msg::Custom(message) = heard.message else {
                continue;
            };
            let source = match Broadcast::parse(&self.id, &message) {
                Some(Broadcast::Short(b)) => b.src,
                Some(Broadcast::Fec(b)) => b.src,
                None => continue,
            };
            let foreign = SOURCES.iter().any(|key| public_key(*key) == source);
            if !foreign && !self.packets.contains(&message) {
                self.packets.push(message);
            }
        }
    }

    /// A new entry which is complete now
    fn entry(&self) -> Entry {
        Entry {
            until: self.millis + TIMEOUT,
            gone: self.millis + TIMEOUT + 1000 + INTERVAL,
        }
    }

    /// What is kept for the packets of one source, if it is kept at all
    fn transfer(&self) -> Entry {
        Entry {
            until: 0,
            gone: self.millis + TIMEOUT + NOTICE + TIMEOUT + 1000 + INTERVAL,
        }
    }

    async fn hear(&mut self, message: Vec<u8>) -> Vec<(u8, Vec<u8>)> {
        self.cast.puppets[RELAY].say(&self.node.sim, vec![Msg::Custom(message)]).await;
        self.listen().await;
        self.delivered()
    }

    fn delivered(&self) -> Vec<(u8, Vec<u8>)> {
        let source = |id| {
            SOURCES.iter().copied().find(|key| harness::nodes::short_id(*key) == id).unwrap_or(0)
        };
        self.node.received().into_iter().map(|b| (source(b.from), b.data)).collect()
    }

    /// The first packets of a long broadcast
    async fn long(&mut self, source: u8, n: u8, packets: std::ops::Range<u32>) -> Step {
        let data = content(n);
        let last = packets.end == 3;
        let mut delivered = Vec::new();
        let mut sent = Vec::new();
        for part in fec_parts(source, &data, &data, world::now(), packets.clone()) {
            let part = part.to_bytes(&self.id);
            delivered.extend(self.hear(part.clone()).await);
            sent.push(part);
        }
        let known = self.long.get(&n).copied();
        let must_not = known.map_or(false, |e| self.millis < e.until);
        let must = last && known.map_or(true, |e| self.options.max_broadcast_log == 0 && self.millis > e.gone);
        let want = vec![(source, data)];
        ensure!(
            delivered.is_empty() || delivered == want,
            "wrong broadcast",
            "{} broadcasts are delivered",
            delivered.len()
        );
        ensure!(
            delivered.is_empty() || !must_not,
            "delivered twice",
            "a long broadcast is delivered again after less than the timeout"
        );
        ensure!(
            !delivered.is_empty() || !must,
            "not delivered again",
            "a long broadcast which must have been forgotten is not delivered"
        );
        self.entries.push(self.transfer());
        if !delivered.is_empty() {
            self.packets.extend(sent);
            let entry = self.entry();
            self.entries.push(entry);
            // The part for this source is forgotten a little later
            let entry = Entry { gone: entry.gone + NOTICE, ..entry };
            self.long.insert(n, entry);
        }
        Ok(())
    }

    fn check(&mut self) -> Step {
        let metrics = self.node.overlay.metrics();
        let max = self.options.max_broadcast_log as usize;
        let now = self.millis;
        self.entries.retain(|e| e.gone >= now);
        ensure!(
            metrics.owned_broadcasts_len <= self.entries.len() + max,
            "too much remembered",
            "{} broadcasts are remembered, but at most {} of them are recent and {max} are allowed",
            metrics.owned_broadcasts_len,
            self.entries.len()
        );
        let must = self.entries.iter().filter(|e| e.until > now).count();
        ensure!(
            metrics.owned_broadcasts_len >= must,
            "forgotten too early",
            "{} broadcasts are remembered instead of at least {must}",
            metrics.owned_broadcasts_len
        );
        Ok(())
    }
}

const EVENTS: usize = 11;

async fn history(ch: &mut Chooser<'_>, depth: usize, first: usize, max_broadcast_log: u32, wave_interval: u64) -> Step {
    let mut env = Env::new(max_broadcast_log, wave_interval);
    // The clock of the node and its timers do not tick together
    env.pass_time([0, 400][first]).await;
    for _ in 0..depth {
        let event = ch.choose(EVENTS);
        ch.step();
        match event {
            0 => {
                ch.note(|| "short broadcast".to_owned());
                env.counter += 1;
                let data = filler(1000 + env.counter as u64, 40);
                let packet = Short::new(SOURCES[0], &data, world::now()).to_bytes(&env.id);
                let got = env.hear(packet.clone()).await;
                ensure!(got == [(SOURCES[0], data)], "not delivered", "a short broadcast");
                env.packets.push(packet);
                let entry = env.entry();
                env.entries.push(entry);
            }
            1 => {
                if env.packets.is_empty() {
                    return ch.skip();
                }
                ch.note(|| "copies of all packets".to_owned());
                for packet in env.packets.clone() {
                    let got = env.hear(packet).await;
                    ensure!(got.is_empty(), "delivered twice", "a copy of a packet is delivered");
                }
            }
            2 | 3 => {
                let source = SOURCES[event - 2];
                ch.note(|| format!("long broadcast of {source}"));
                env.long(source, 1, 0..3).await?;
            }
            4 => {
                ch.note(|| "a packet of another long broadcast".to_owned());
                env.long(SOURCES[0], 2, 0..1).await?;
                let entry = env.transfer();
                env.unfinished.insert(SOURCES[0], (1, entry));
            }
            5 => {
                let Some((_, entry)) = env.unfinished.get(&SOURCES[0]).copied() else {
                    return ch.skip();
                };
                ch.note(|| "the other packets of the other long broadcast".to_owned());
                // They are enough even if the first one is forgotten
                let before = env.long.contains_key(&2);
                env.long(SOURCES[0], 2, 1..4).await?;
                let complete = env.long.contains_key(&2);
                ensure!(
                    complete,
                    "not delivered",
                    "three packets of {entry:?}, delivered before: {before}"
                );
            }
            6 => {
                ch.note(|| "own short broadcast".to_owned());
                env.counter += 1;
                let data = filler(1000 + env.counter as u64, 40);
                let adnl = env.node.sim.node.clone();
                let target = BroadcastTarget::RandomNeighbours;
                let info = env.node.overlay.broadcast(&adnl, data, None, target);
                ensure!(info.packets == 1, "not sent", "{} packets", info.packets);
                world::settle().await;
                env.listen().await;
                let entry = env.entry();
                env.entries.push(entry);
            }
            7 => {
                ch.note(|| "own long broadcast".to_owned());
                let adnl = env.node.sim.node.clone();
                let target = BroadcastTarget::RandomNeighbours;
                let info = env.node.overlay.broadcast(&adnl, content(3), None, target);
                let known = env.long.get(&3).copied();
                if known.map_or(false, |e| env.millis < e.until) {
                    ensure!(info.packets == 0, "sent twice", "the same long broadcast");
                } else if known.map_or(true, |e| max_broadcast_log == 0 && env.millis > e.gone) {
                    ensure!(info.packets > 0, "not sent", "a long broadcast");
                }
                if info.packets > 0 {
                    let mut entry = env.entry();
                    // It must not be forgotten while it is being sent
                    let duration = info.packets as u64 * wave_interval;
                    entry.until += duration;
                    entry.gone += duration + 2 * wave_interval;
                    env.entries.push(entry);
                    env.long.insert(3, entry);
                }
                env.pass_time(100).await;
            }
            8 => {
                ch.note(|| "forged and outdated broadcasts".to_owned());
                let before = env.node.overlay.metrics().owned_broadcasts_len;
                let data = content(9);
                let mut forged = Short::new(SOURCES[0], &data[..40], world::now());
                forged.signature[5] ^= 1;
                let old = Short::new(SOURCES[0], &data[..40], world::now() - TIMEOUT as u32 / 1000 - 1);
                let mut parts = fec_parts(SOURCES[0], &data, &data, world::now(), 0..2);
                parts[0].signature[5] ^= 1;
                parts[1].seqno += 1;
                let mut packets = vec![forged.to_bytes(&env.id), old.to_bytes(&env.id)];
                packets.extend(parts.iter().map(|p| p.to_bytes(&env.id)));
                for packet in packets {
                    let got = env.hear(packet).await;
                    ensure!(got.is_empty(), "forged broadcast", "is delivered");
                }
                ensure!(
                    env.node.overlay.metrics().owned_broadcasts_len == before,
                    "forged broadcast remembered",
                    "{before} broadcasts before"
                );
            }
            n => {
                let millis = [1000, 2900][n - 9];
                ch.note(|| format!("{millis} ms pass"));
                for _ in 0..millis / 100 {
                    env.pass_time(100).await;
                    env.check()?;
                }
            }
        }
        env.check()?;
        let ages: Vec<_> = env.entries.iter().map(|e| e.gone - env.millis).collect();
        let long: Vec<_> = env.long.iter().map(|(n, e)| (*n, e.gone as i64 - env.millis as i64)).collect();
        ch.visit(hash_of(&(ages, long, env.packets.len(), env.millis % INTERVAL)));
    }
    ch.observe((env.entries.len(), env.long.len(), env.packets.len()));
    // After all that only the latest ones remain
    env.pass_time(3 * TIMEOUT + NOTICE + INTERVAL + 5 * wave_interval).await;
    env.check()?;
    ensure!(env.entries.is_empty(), "harness", "entries without an end");
    // And they can come again
    for n in [1, 2] {
        env.long(SOURCES[1], n, 0..3).await?;
    }
    Ok(())
}

fn main() {
    check_main("C33", |ctx| {
        ctx.assume("the clocks of all members agree");
        let depth = ctx.tiered(4, 6);
        for (max_broadcast_log, shift, interval) in [(0, 0, 10), (0, 1, 10), (0, 0, 1500), (1, 0, 10), (2, 1, 1500)] {
            ctx.explore(
                Suite {
                    name: format!("log {max_broadcast_log}, shifted {shift}, waves {interval}"),
                    about: format!(
                        "all histories of {depth} short and long broadcasts from others and of the node itself, complete, \
                         incomplete, repeated and forged, with pauses, when {max_broadcast_log} finished ones may be \
                         remembered and a packet of a long one is sent each {interval} ms"
                    ),
                    bound: 0,
                },
                |ch| world::run(1, history(ch, depth, shift, max_broadcast_log, interval)),
            );
        }
    })
}
