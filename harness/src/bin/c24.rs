//! C24: only authentic, current broadcasts are accepted or forwarded

use std::collections::{BTreeMap, BTreeSet};

use everscale_crypto::tl::PublicKeyOwned;
use everscale_network::adnl::{NodeIdFull, NodeIdShort};
use everscale_network::overlay::{IdShort, OverlayOptions};
use harness::dhtkit::{overlay, public_key, Cast};
use harness::nodes::{full_id, short_id};
use harness::overlaykit::*;
use harness::puppet::{sign, Msg};
use harness::rldpkit::{Assembler, Part, SYMBOL};
use harness::util::{filler, hash_of};
use harness::world::{self, START};
use harness::{check_main, ensure, Chooser, Step, Suite};

/// Who makes broadcasts, who passes them to the node and to whom the node passes them
const SOURCE: u8 = 10;
const RELAY: usize = 1;
const NEIGHBOUR: usize = 2;
const STRANGER: u8 = 13;

const TIMEOUT: u32 = 60;

/// The format of compressed data
fn compressed(data: &[u8]) -> Vec<u8> {
    let mut res = zstd::stream::encode_all(data, 3).unwrap();
    res.extend(zstd::stream::encode_all(&(data.len() as u32).to_be_bytes()[..], 3).unwrap());
    res.push(0x80);
    res
}

fn decompressed(data: &[u8]) -> Option<Vec<u8>> {
    let (last, frames) = data.split_last()?;
    let mut read = zstd::stream::decode_all(frames).ok()?;
    let len = read.len().checked_sub(4)?;
    let announced = u32::from_be_bytes(read[len..].try_into().unwrap()) as usize;
    read.truncate(len);
    (*last == 0x80 && announced == len).then_some(read)
}

fn id_of(key: &PublicKeyOwned) -> Option<NodeIdShort> {
    NodeIdFull::try_from(key.as_equivalent_ref())
        .ok()
        .map(|id| id.compute_short_id())
}

/// What a correct member knows
#[derive(Default)]
struct Member {
    /// Ids of broadcasts
    seen: BTreeSet<Vec<u8>>,
    /// By hash and source
    transfers: BTreeMap<([u8; 32], NodeIdShort), Transfer>,
    /// Hashes of delivered long broadcasts
    complete: BTreeSet<[u8; 32]>,
}

struct Transfer {
    seqnos: BTreeSet<u32>,
    assembler: Assembler,
    done: bool,
}

/// What has to happen after a packet
#[derive(Debug, Default, PartialEq, Clone)]
struct Reaction {
    delivered: Option<(NodeIdShort, Vec<u8>)>,
    forwarded: bool,
    /// It is fine not to forward it
    optional: bool,
}

impl Member {
    fn receive(&mut self, overlay: &IdShort, message: &[u8]) -> Reaction {
        let now = world::now() as u64;
        let current = |date: u32| date as u64 + TIMEOUT as u64 >= now;
        match Broadcast::parse(overlay, message) {
            Some(Broadcast::Short(b)) if current(b.date) => {
                let contents = [decompressed(&b.data), Some(b.data.clone())];
                let Some(content) = contents.into_iter().flatten().find(|c| b.is_signed(c)) else {
                    return Default::default();
                };
                if !self.seen.insert(b.signed_bytes(&content)) {
                    return Default::default();
                }
                Reaction {
                    delivered: Some((id_of(&b.src).unwrap(), content)),
                    forwarded: true,
                    optional: false,
                }
            }
            Some(Broadcast::Fec(b)) if current(b.date) && b.is_signed() => {
                // It can't be a part of anything
                if b.params.0 == 0 || b.params.1 as usize != SYMBOL || b.data.len() != SYMBOL {
                    return Reaction { optional: true, ..Default::default() };
                }
                let source = id_of(&b.src).unwrap();
                let complete = self.complete.contains(&b.data_hash);
                let transfer = self.transfers.entry((b.data_hash, source)).or_insert_with(|| Transfer {
                    seqnos: Default::default(),
                    assembler: Default::default(),
                    done: false,
                });
                if !transfer.seqnos.insert(b.seqno) {
                    return Default::default();
                }
                let mut reaction = Reaction {
                    delivered: None,
                    forwarded: !transfer.done && !complete,
                    optional: transfer.done || complete,
                };
                if !transfer.done {
                    let part = Part {
                        transfer: [0; 32],
                        total_len: b.params.0,
                        packet_len: b.params.1,
                        packet_count: b.params.2,
                        part: 0,
                        total_size: b.params.0 as u64,
                        seqno: b.seqno,
                        data: b.data.clone(),
                    };
                    if let Some(data) = transfer.assembler.add(&part) {
                        transfer.done = true;
                        let contents = [decompressed(&data), Some(data.clone())];
                        let hash = |c: &[u8]| tl_proto::hash(Raw(c.to_vec()));
                        reaction.delivered = contents
                            .into_iter()
                            .flatten()
                            .find(|c| hash(c) == b.data_hash && data.len() == b.data_size as usize)
                            .filter(|_| self.complete.insert(b.data_hash))
                            .map(|c| (source, c));
                    }
                }
                reaction
            }
            _ => Default::default(),
        }
    }
}

struct Raw(Vec<u8>);

impl tl_proto::TlWrite for Raw {
    type Repr = tl_proto::Boxed;

    fn max_size_hint(&self) -> usize {
        self.0.len()
    }

    fn write_to<P: tl_proto::TlPacket>(&self, packet: &mut P) {
        packet.write_raw_slice(&self.0);
    }
}

/// The node, its neighbours and a correct member to compare with
struct Env {
    id: IdShort,
    node: OverlaySim,
    cast: Cast,
    member: Member,
    delivered: Vec<Received>,
}

impl Env {
    fn new() -> Self {
        let id = overlay(1).compute_short_id();
        let cast = Cast::new(3);
        let peers: Vec<u8> = cast.puppets.iter().map(|p| p.key).collect();
        let options = OverlayOptions {
            broadcast_timeout_sec: TIMEOUT as u64,
            ..Default::default()
        };
        let node = OverlaySim::private(0, &id, &peers[RELAY..], options);
        for puppet in &cast.puppets {
            puppet.introduce(&node.sim);
        }
        Self {
            id,
            node,
            cast,
            member: Default::default(),
            delivered: Default::default(),
        }
    }

    async fn pass(&mut self, what: &str, message: &[u8]) -> Step<Reaction> {
        let expected = self.member.receive(&self.id, message);
        self.cast.puppets[RELAY]
            .say(&self.node.sim, vec![Msg::Custom(message.to_vec())])
            .await;
        let mut forwarded = 0;
        for heard in self.cast.listen().await {
            let Msg::Custom(data) = heard.message else {
                continue;
            };
            ensure!(
                heard.by == NEIGHBOUR && data == message,
                "wrong packet sent",
                "after {what} a packet of {} bytes is sent to {}",
                data.len(),
                heard.by
            );
            forwarded += 1;
        }
        let delivered = self.node.received();
        self.delivered.extend(delivered.iter().cloned());
        let got: Vec<_> = delivered.into_iter().map(|b| (b.from, b.data)).collect();
        let want: Vec<_> = expected.delivered.iter().cloned().collect();
        ensure!(
            got == want,
            match want.len() {
                0 => "wrong broadcast delivered",
                _ if got.is_empty() => "broadcast is not delivered",
                _ => "wrong content delivered",
            },
            "after {what}: {} broadcasts are delivered instead of {}",
            got.len(),
            want.len()
        );
        ensure!(
            forwarded == expected.forwarded as usize || expected.optional && forwarded == 1,
            match expected.forwarded {
                true => "broadcast is not forwarded",
                false => "wrong packet forwarded",
            },
            "{what} is forwarded {forwarded} times"
        );
        Ok(expected)
    }
}

/// Every change of a single byte, every truncation and some extensions
fn corruptions(bytes: &[u8], every: usize) -> Vec<(String, Vec<u8>)> {
    let mut out = Vec::new();
    for i in 0..bytes.len() {
        for bit in 0..8 {
            if (i * 8 + bit) % every == 0 {
                let mut data = bytes.to_vec();
                data[i] ^= 1 << bit;
                out.push((format!("bit {bit} of byte {i}"), data));
            }
        }
    }
    for len in (0..bytes.len()).filter(|len| len % every.div_ceil(8) == 0) {
        out.push((format!("{len} bytes"), bytes[..len].to_vec()));
    }
    for extra in [1usize, 3, 4, 8, 64] {
        for byte in [0u8, 0xff] {
            let mut data = bytes.to_vec();
            data.resize(bytes.len() + extra, byte);
            out.push((format!("with {extra} more bytes {byte}"), data));
        }
    }
    out
}

type Menu = Vec<(String, Vec<u8>)>;

/// One changed packet before, after or around the genuine one
async fn changed_short(ch: &mut Chooser<'_>, menu: &Menu, genuine: &[Vec<u8>]) -> Step {
    let mut env = Env::new();
    let genuine = &genuine[ch.choose(genuine.len())];
    let (name, packet) = &menu[ch.choose(menu.len())];
    let order = ch.choose(2);
    ch.note(|| format!("{name}, order {order}"));
    ch.visit(hash_of(&(name, order)));
    let sequence = match order {
        0 => [("the changed packet", packet), ("the genuine packet", genuine)],
        _ => [("the genuine packet", genuine), ("the changed packet", packet)],
    };
    for (what, packet) in sequence {
        ch.step();
        env.pass(&format!("{what} ({name})"), packet).await?;
    }
    ch.observe(env.delivered.len());
    ensure!(!env.delivered.is_empty(), "broadcast is not delivered", "{name}");
    Ok(())
}

fn short_menu(id: &IdShort) -> Menu {
    let content = filler(5, 40);
    let genuine = Short::new(SOURCE, &content, START);
    let mut out: Menu = vec![("genuine".to_owned(), genuine.to_bytes(id))];
    let add = |out: &mut Menu, name: &str, b: Short| out.push((name.to_owned(), b.to_bytes(id)));
    let edit = |f: &dyn Fn(&mut Short)| {
        let mut b = genuine.clone();
        f(&mut b);
        b
    };
    add(&mut out, "other source", edit(&|b| b.src = public_key(STRANGER)));
    add(&mut out, "unencoded source", edit(&|b| b.src = PublicKeyOwned::Unencoded { data: vec![1; 32] }));
    add(&mut out, "aes source", edit(&|b| b.src = PublicKeyOwned::Aes { key: [1; 32] }));
    for flags in [0, 2, 3, u32::MAX] {
        add(&mut out, &format!("flags {flags}"), edit(&|b| b.flags = flags));
    }
    add(&mut out, "other content", edit(&|b| b.data[3] ^= 1));
    add(&mut out, "no content", edit(&|b| b.data.clear()));
    add(&mut out, "compressed content", edit(&|b| b.data = compressed(&content)));
    add(&mut out, "compressed other content", edit(&|b| b.data = compressed(&content[1..])));
    for date in [0, START - 1, START + 1, START - TIMEOUT - 1, u32::MAX, u32::MAX - TIMEOUT] {
        add(&mut out, &format!("date {date}"), edit(&|b| b.date = date));
        add(&mut out, &format!("genuine with date {date}"), Short::new(SOURCE, &content, date));
    }
    add(&mut out, "genuine, still current", Short::new(SOURCE, &content, START - TIMEOUT));
    for len in [0, 32, 63, 65, 128] {
        add(&mut out, &format!("signature of {len}"), edit(&|b| b.signature.resize(len, 0)));
    }
    add(&mut out, "zero signature", edit(&|b| b.signature = vec![0; 64]));
    add(&mut out, "signed by another", genuine.clone().signed(STRANGER));
    add(&mut out, "signature of the content", edit(&|b| b.signature = sign(SOURCE, &b.data).to_vec()));
    add(&mut out, "signature of the content by a stranger", edit(&|b| {
        b.src = public_key(STRANGER);
        b.signature = sign(STRANGER, &b.data).to_vec()
    }));
    add(&mut out, "genuine other broadcast", Short::new(SOURCE, b"other", START));
    add(&mut out, "genuine of a stranger", Short::new(STRANGER, b"third", START));
    add(&mut out, "genuine empty broadcast", Short::new(SOURCE, b"", START));
    // Big ones
    for len in [300, 5000, 1_000_000] {
        let content = vec![3; len];
        let big = Short { data: compressed(&content), ..Short::new(SOURCE, &content, START) };
        add(&mut out, &format!("genuine {len} bytes, compressed"), big.clone());
        let other = Short { data: compressed(&vec![4; len]), ..big.clone() };
        add(&mut out, &format!("other {len} bytes, compressed"), other);
        add(&mut out, &format!("{len} bytes of a stranger, compressed"), Short { src: public_key(STRANGER), ..big });
    }
    // Only the source may send it
    let personal = Short { flags: 0, ..genuine.clone() }.signed(SOURCE);
    add(&mut out, "genuine personal", personal.clone());
    add(&mut out, "personal with a flag", Short { flags: ANY_SENDER, ..personal.clone() });
    add(&mut out, "personal of another", Short { src: public_key(STRANGER), ..personal.clone() });
    // Content which looks like compressed data
    let inner = compressed(&content);
    add(&mut out, "genuine compressed bytes", Short::new(SOURCE, &inner, START));
    add(&mut out, "genuine compressed twice", Short {
        data: compressed(&inner),
        ..Short::new(SOURCE, &inner, START)
    });
    out
}

/// All short sequences of packets of the menu
async fn sequences(ch: &mut Chooser<'_>, menu: &Menu, depth: usize) -> Step {
    let mut env = Env::new();
    let at = ch.choose(depth);
    for i in 0..depth {
        let choice = if i == at { 0 } else { ch.choose(menu.len()) };
        // The last genuine packet names the sequence
        if i > at && choice == 0 {
            return ch.skip();
        }
        let (name, packet) = &menu[choice];
        ch.step();
        ch.note(|| name.clone());
        env.pass(name, packet).await?;
    }
    ch.observe(env.delivered.len());
    ch.visit(hash_of(&env.delivered));
    ensure!(!env.delivered.is_empty(), "broadcast is not delivered", "");
    Ok(())
}

/// A changed packet at every position among the genuine ones
async fn changed_fec(ch: &mut Chooser<'_>, menu: &Menu, genuine: &[Vec<u8>], content: &[u8]) -> Step {
    let mut env = Env::new();
    let (name, packet) = &menu[ch.choose(menu.len())];
    let at = ch.choose(genuine.len() + 1);
    let copies = 1 + ch.choose(2);
    ch.note(|| format!("{copies} times {name} before genuine packet {at}"));
    ch.visit(hash_of(&(name, at, copies)));
    for i in 0..=genuine.len() {
        if i == at {
            for _ in 0..copies {
                ch.step();
                env.pass(name, packet).await?;
            }
        }
        if i < genuine.len() {
            ch.step();
            env.pass(&format!("packet {i} with {name} before {at}"), &genuine[i]).await?;
        }
    }
    ch.observe(env.delivered.len());
    let count = env.delivered.iter().filter(|b| b.data == content).count();
    // (A short broadcast with the same content is another broadcast)
    ensure!(count >= 1, "broadcast is not delivered", "{count} times after {name}");
    Ok(())
}

fn fec_menu(id: &IdShort, content: &[u8], sent: &[u8], second: bool) -> Menu {
    let parts = fec_parts(SOURCE, content, sent, START, 0..4);
    let mut out = Menu::new();
    let add = |out: &mut Menu, name: String, b: Fec| out.push((name, b.to_bytes(id)));
    for genuine in &parts[..if second { 2 } else { 1 }] {
        let edit = |f: &dyn Fn(&mut Fec)| {
            let mut b = genuine.clone();
            f(&mut b);
            b
        };
        // With the old signature and with a signature of someone else
        let edits: Vec<(&str, Box<dyn Fn(&mut Fec)>)> = vec![
            ("other source", Box::new(|b| b.src = public_key(STRANGER))),
            ("aes source", Box::new(|b| b.src = PublicKeyOwned::Aes { key: [1; 32] })),
            ("other hash", Box::new(|b| b.data_hash[0] ^= 1)),
            ("bigger size", Box::new(|b| b.data_size += 1)),
            ("smaller size", Box::new(|b| b.data_size -= 1)),
            ("no size", Box::new(|b| b.data_size = 0)),
            ("no flags", Box::new(|b| b.flags = 0)),
            ("more flags", Box::new(|b| b.flags = 3)),
            ("other data", Box::new(|b| b.data[100] ^= 1)),
            ("short data", Box::new(|b| b.data.truncate(SYMBOL - 1))),
            ("no data", Box::new(|b| b.data.clear())),
            ("long data", Box::new(|b| b.data.push(1))),
            ("next seqno", Box::new(|b| b.seqno += 1)),
            ("far seqno", Box::new(|b| b.seqno += 1000)),
            ("farther seqno", Box::new(|b| b.seqno += 1_000_000)),
            ("farthest seqno", Box::new(|b| b.seqno = u32::MAX)),
            ("more symbols", Box::new(|b| b.params.2 += 1)),
            ("no symbols", Box::new(|b| b.params.2 = 0)),
            ("longer total", Box::new(|b| b.params.0 += 1)),
            ("huge total", Box::new(|b| b.params.0 = u32::MAX)),
            ("no total", Box::new(|b| b.params.0 = 0)),
            ("other symbols", Box::new(|b| b.params.1 = 512)),
            ("empty symbols", Box::new(|b| b.params.1 = 0)),
            ("older", Box::new(|b| b.date = START - 1)),
            ("newer", Box::new(|b| b.date = START + 1)),
            ("outdated", Box::new(|b| b.date = START - TIMEOUT - 1)),
            ("ancient", Box::new(|b| b.date = 0)),
            ("from the far future", Box::new(|b| b.date = u32::MAX)),
            ("short signature", Box::new(|b| b.signature.truncate(63))),
            ("no signature", Box::new(|b| b.signature.clear())),
            ("zero signature", Box::new(|b| b.signature = vec![0; 64])),
        ];
        for (name, f) in &edits {
            add(&mut out, format!("{name} in {}", genuine.seqno), edit(&**f));
            let resigned = edit(&**f).signed(STRANGER);
            add(&mut out, format!("{name} in {} signed by another", genuine.seqno), resigned);
        }
        add(&mut out, format!("{} signed by another", genuine.seqno), genuine.clone().signed(STRANGER));
        for date in [START - TIMEOUT - 1, 0] {
            let outdated = edit(&|b| b.date = date).signed(SOURCE);
            add(&mut out, format!("genuine {} with date {date}", genuine.seqno), outdated);
        }
        for date in [START - TIMEOUT, START + 1000, u32::MAX] {
            let current = edit(&|b| b.date = date).signed(SOURCE);
            add(&mut out, format!("genuine {} with date {date}", genuine.seqno), current);
        }
        add(&mut out, format!("genuine {}", genuine.seqno), genuine.clone());
    }
    // The last packet comes too early and too late
    let last = &parts[3];
    for date in [START - TIMEOUT - 1, START - TIMEOUT, START] {
        let b = Fec { date, ..last.clone() }.signed(SOURCE);
        add(&mut out, format!("last one with date {date}"), b.clone());
        add(&mut out, format!("last one with date {date} signed by another"), b.signed(STRANGER));
    }
    {
        // Short broadcasts with the same content or the hash of the long one
        out.push(("short with the same content".to_owned(), Short::new(SOURCE, content, START).to_bytes(id)));
        out.push((
            "short with the same content of a stranger".to_owned(),
            Short { src: public_key(STRANGER), ..Short::new(SOURCE, content, START) }.to_bytes(id),
        ));
    }
    out
}

/// Every packet is signed, but they do not make up what was announced
async fn inconsistent(ch: &mut Chooser<'_>) -> Step {
    let mut env = Env::new();
    let id = env.id;
    let content = filler(9, SYMBOL + 100);
    let sent = match ch.choose(2) {
        0 => content.clone(),
        _ => compressed(&content),
    };
    let mut parts = fec_parts(SOURCE, &content, &sent, START, 0..5);
    let problem = ch.choose(12);
    let len = parts.len();
    let which = ch.choose(len + 1);
    for (i, part) in parts.iter_mut().enumerate() {
        if which < len && i != which {
            continue;
        }
        match problem {
            0 => {}
            1 => part.data_size += 1,
            2 => part.data_size -= 1,
            3 => part.data_size = 0,
            4 => part.data_size = content.len() as u32 + 1,
            5 => part.data_hash[31] ^= 1,
            6 => part.data[0] ^= 1,
            7 => part.params.0 -= 1,
            8 => part.params.2 += 1,
            9 => part.seqno ^= 1,
            10 => part.data.truncate(10),
            _ => part.params.0 = u32::MAX,
        }
        *part = part.clone().signed(SOURCE);
    }
    ch.note(|| format!("problem {problem} in {which}"));
    ch.visit(hash_of(&(problem, which, sent.len())));
    // What is delivered always is what was announced
    for (i, part) in parts.iter().enumerate() {
        ch.step();
        env.cast.puppets[RELAY]
            .say(&env.node.sim, vec![Msg::Custom(part.to_bytes(&id))])
            .await;
        let _ = i;
    }
    let delivered = env.node.received();
    ch.observe(delivered.len());
    for b in &delivered {
        let hash = tl_proto::hash(Raw(b.data.clone()));
        ensure!(
            b.from == short_id(SOURCE) && parts.iter().any(|p| p.data_hash == hash),
            "wrong content delivered",
            "problem {problem} in {which}"
        );
        let sizes: BTreeSet<u32> = parts.iter().map(|p| p.data_size).collect();
        ensure!(
            sizes.iter().any(|s| *s as usize == sent.len()),
            "wrong size delivered",
            "problem {problem} in {which}: {sizes:?} instead of {}",
            sent.len()
        );
    }
    ensure!(delivered.len() <= 1, "delivered twice", "problem {problem} in {which}");
    ensure!(
        problem != 0 || delivered.len() == 1,
        "broadcast is not delivered",
        "genuine broadcast"
    );
    env.cast.listen().await;

    // Others are not affected
    let other = filler(77, SYMBOL + 3);
    for part in fec_parts(STRANGER, &other, &other, START, 0..4) {
        env.pass("a genuine packet of another broadcast", &part.to_bytes(&id)).await?;
    }
    env.pass("a short broadcast", &Short::new(SOURCE, b"last", START).to_bytes(&id)).await?;
    ensure!(env.delivered.len() == 2, "broadcast is not delivered", "problem {problem} in {which}");
    Ok(())
}

/// Messages of other kinds and other overlays
async fn strays(ch: &mut Chooser<'_>) -> Step {
    use everscale_network::proto::overlay::Broadcast as Proto;
    let mut env = Env::new();
    let id = env.id;
    let other = overlay(2).compute_short_id();
    let hash = [7; 32];
    let prefixed = |b: Proto<'_>| [message_prefix(&id), tl_proto::serialize(b)].concat();
    let menu = [
        Short::new(SOURCE, b"other overlay", START).to_bytes(&other),
        prefixed(Proto::BroadcastNotFound),
        prefixed(Proto::FecCompleted { hash: &hash }),
        prefixed(Proto::FecReceived { hash: &hash }),
        prefixed(Proto::Unicast { data: b"hello" }),
        prefixed(Proto::BroadcastFecShort {
            src: full_id(SOURCE).as_tl(),
            certificate: NO_CERTIFICATE,
            broadcast_hash: &hash,
            part_data_hash: &hash,
            seqno: 1,
            signature: &[1; 64],
        }),
        message_prefix(&id),
        message_prefix(&id)[..20].to_vec(),
        vec![],
    ];
    for i in 0..3 {
        let what = ch.choose(menu.len());
        ch.step();
        ch.note(|| format!("stray message {what}"));
        env.pass(&format!("stray message {what}"), &menu[what]).await?;
        let content = [b'c', i];
        env.pass("a genuine broadcast", &Short::new(SOURCE, &content, START).to_bytes(&id)).await?;
    }
    ch.observe(env.delivered.len());
    Ok(())
}

fn main() {
    check_main("C24", |ctx| {
        let id = overlay(1).compute_short_id();
        let content = filler(5, 40);
        let genuine = vec![Short::new(SOURCE, &content, START).to_bytes(&id)];
        let menu = corruptions(&genuine[0], ctx.tiered(2, 1));
        ctx.explore(
            Suite {
                name: "changed short".to_owned(),
                about: format!("{} changed bits, truncations and extensions of a short broadcast before and after the genuine one", menu.len()),
                bound: 0,
            },
            |ch| world::run(1, changed_short(ch, &menu, &genuine)),
        );
        let menu = short_menu(&id);
        let depth = ctx.tiered(2, 3);
        ctx.explore(
            Suite {
                name: "short sequences".to_owned(),
                about: format!("all sequences of {depth} of {} forged, altered, outdated and genuine short broadcasts with the genuine one in each position", menu.len()),
                bound: 0,
            },
            |ch| world::run(1, sequences(ch, &menu, depth)),
        );
        let content = filler(6, SYMBOL + 100);
        let packets: Vec<Vec<u8>> = fec_parts(SOURCE, &content, &content, START, 0..4)
            .iter()
            .map(|p| p.to_bytes(&id))
            .collect();
        let menu = corruptions(&packets[0], ctx.tiered(16, 2));
        ctx.explore(
            Suite {
                name: "changed long".to_owned(),
                about: format!("{} changed bits, truncations and extensions of a packet of a long broadcast at each position among the genuine ones", menu.len()),
                bound: 0,
            },
            |ch| world::run(1, changed_fec(ch, &menu, &packets, &content)),
        );
        for compress in [false, true] {
            let sent = if compress { compressed(&content) } else { content.clone() };
            let packets: Vec<Vec<u8>> = fec_parts(SOURCE, &content, &sent, START, 0..4)
                .iter()
                .map(|p| p.to_bytes(&id))
                .collect();
            let menu = fec_menu(&id, &content, &sent, ctx.is_thorough());
            ctx.explore(
                Suite {
                    name: format!("long{}", if compress { ", compressed" } else { "" }),
                    about: format!("{} forged, altered and outdated packets of a long broadcast at each position among the genuine ones", menu.len()),
                    bound: 0,
                },
                |ch| world::run(1, changed_fec(ch, &menu, &packets, &content)),
            );
        }
        ctx.explore(
            Suite {
                name: "inconsistent".to_owned(),
                about: "signed long broadcasts where one or all packets do not match what was announced".to_owned(),
                bound: 0,
            },
            |ch| world::run(1, inconsistent(ch)),
        );
        ctx.explore(
            Suite {
                name: "strays".to_owned(),
                about: "all sequences of 3 messages which are not broadcasts of this overlay".to_owned(),
                bound: 0,
            },
            |ch| world::run(1, strays(ch)),
        );
    })
}
