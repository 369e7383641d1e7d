//! C04: only authentic packets have any effect

use everscale_network::adnl::NodeOptions;
use harness::nodes::*;
use harness::puppet::{Msg, Packet, Puppet, Signature};
use harness::util::hash_of;
use harness::world::{self, Datagram};
use harness::{check_main, ensure, Chooser, Step, Suite};

/// Everything which can be seen from outside
fn snapshot(node: &Sim, keys: &[u8]) -> impl PartialEq + std::fmt::Debug {
    let m = node.node.metrics();
    let mut addrs = Vec::new();
    for local in &node.keys {
        for key in keys {
            addrs.push(node.node.get_peer_address(&short_id(*local), &short_id(*key)));
        }
    }
    (
        (
            m.peer_count,
            m.channels_by_id_len,
            m.channels_by_peers_len,
            m.incoming_transfers_len,
            m.query_count,
        ),
        addrs,
    )
}

/// Both nodes still understand each other
async fn follow_up(a: &Sim, b: &Sim, in_channel: bool) -> Step {
    for (i, (from, to)) in [(a, b), (b, a), (a, b), (b, a)].into_iter().enumerate() {
        let data = payload(MESSAGE, 900 + i as u64, 24);
        from.send(to, &data).unwrap();
        world::settle().await;
        let sent = world::take_sent();
        if in_channel {
            let handshake = sent.iter().any(|d| d.data[..32] == to.id().as_slice()[..]);
            ensure!(
                !handshake,
                "channel lost",
                "node {} does not use its channel anymore",
                from.index
            );
        }
        for d in &sent {
            world::deliver(d).await;
        }
        world::flush().await;
        let got = to.events();
        ensure!(
            got.len() == 1 && got[0].data == data && got[0].peer == from.id(),
            "communication broken",
            "message {i} from node {} is delivered {} times",
            from.index,
            got.len()
        );
    }
    Ok(())
}

#[derive(Debug, Copy, Clone, Hash, PartialEq, Eq)]
enum Kind {
    Create,
    Confirm,
    Ordinary,
    Priority,
}

/// Mutants of one authentic datagram
fn mutants(ch: &mut Chooser<'_>, original: &[u8], others: &[[u8; 32]], block: usize) -> Vec<(String, Vec<u8>)> {
    let mut res = Vec::new();
    match ch.choose(4) {
        0 => {
            // A changed byte
            let blocks = original.len().div_ceil(block);
            let b = ch.choose(blocks);
            for pos in b * block..((b + 1) * block).min(original.len()) {
                for xor in [0x01, 0x80, 0xff, 0x10] {
                    let mut m = original.to_vec();
                    m[pos] ^= xor;
                    res.push((format!("byte {pos} xor {xor:#x}"), m));
                }
            }
        }
        1 => {
            let blocks = original.len().div_ceil(block);
            let b = ch.choose(blocks);
            for len in b * block..((b + 1) * block).min(original.len()) {
                res.push((format!("first {len} bytes"), original[..len].to_vec()));
                if len > 0 {
                    res.push((format!("without first {len} bytes"), original[len..].to_vec()));
                }
            }
        }
        2 => {
            for n in [1usize, 2, 3, 4, 5, 8, 15, 16, 17, 32, 64, 500, 1000, 1800] {
                for byte in [0u8, 0xff] {
                    let mut m = original.to_vec();
                    m.extend(std::iter::repeat(byte).take(n));
                    res.push((format!("{n} bytes more"), m));
                }
            }
            let mut m = original.to_vec();
            m.extend_from_slice(original);
            res.push(("twice".to_owned(), m));
        }
        _ => {
            // Another address
            for (i, other) in others.iter().enumerate() {
                if original[..32] == other[..] {
                    continue;
                }
                let mut m = original.to_vec();
                m[..32].copy_from_slice(other);
                res.push((format!("readdressed to {i}"), m.clone()));
                // With another layout of the header
                for (at, remove) in [(32, 32), (32, 4), (64, 4)] {
                    let mut cut = m.clone();
                    cut.drain(at..at + remove);
                    res.push((format!("readdressed to {i} without {remove} bytes at {at}"), cut));
                    let mut padded = m.clone();
                    padded.splice(at..at, std::iter::repeat(0).take(remove));
                    res.push((format!("readdressed to {i} with {remove} bytes at {at}"), padded));
                }
            }
        }
    }
    res
}

async fn mutations(ch: &mut Chooser<'_>, block: usize) -> Step {
    let kind = ch.one_of(&[Kind::Create, Kind::Confirm, Kind::Ordinary, Kind::Priority]);
    let version = ch.one_of(&[None, Some(0)]);
    let history = ch.flag();
    let options = NodeOptions {
        version,
        packet_history_enabled: history,
        force_use_priority_channels: kind == Kind::Priority,
        ..Default::default()
    };
    let a = Sim::build(0, &[1], options, None);
    let b = Sim::build(1, &[2, 12], options, None);
    a.add(&b);
    b.add(&a);
    match kind {
        Kind::Create => {}
        Kind::Confirm => {
            b.send(&a, &payload(MESSAGE, 0, 8)).unwrap();
            world::flush().await;
        }
        _ => establish(&a, &b).await,
    }
    a.events();
    b.events();

    let in_channel = matches!(kind, Kind::Ordinary | Kind::Priority);
    let data = payload(QUERY, 55, ch.one_of(&[8usize, 200]));
    let query = ch.flag();
    let pending = if query {
        Some(a.query(&b, &data, Some(3_000)))
    } else {
        a.send(&b, &data).unwrap();
        None
    };
    world::settle().await;
    let original = world::take_sent().remove(0);
    // Identifiers an attacker can see on the wire
    let mut others: Vec<[u8; 32]> = vec![*short_id(12).as_slice(), *a.id().as_slice(), *b.id().as_slice()];
    if in_channel {
        // The other flow and the other direction
        let a2 = Sim::build_stopped(5, &[9], options, None);
        let _ = a2;
        b.send(&a, &payload(MESSAGE, 1, 8)).unwrap();
        world::settle().await;
        others.push(world::take_sent()[0].data[..32].try_into().unwrap());
    }

    let before = snapshot(&b, &[1, 2, 12]);
    let list = mutants(ch, &original.data, &others, block);
    ch.note(|| {
        format!("{kind:?} packet, version {version:?}, history {history}: {} mutants like {}", list.len(), list[0].0)
    });
    let mut copies = 0;
    let mut answers = Vec::new();
    for (name, mutant) in list {
        ch.step();
        let len = mutant.len();
        world::deliver_raw(world::port(1), world::port(0), mutant.clone()).await;
        let events = b.events();
        let sent = world::take_sent();
        // The sign of the one-time key is not a part of the packet
        let is_copy = !in_channel
            && len == original.data.len()
            && mutant[63] & 0x7f == original.data[63] & 0x7f
            && mutant[..63] == original.data[..63]
            && mutant[64..] == original.data[64..];
        if is_copy {
            ensure!(
                events.iter().all(|e| e.data == data && e.peer == a.id()),
                "mutant accepted",
                "{name} gives other messages"
            );
            copies += events.len();
            answers.extend(sent);
            continue;
        }
        ensure!(
            events.is_empty(),
            "mutant accepted",
            "{name} of {len} bytes gives {} messages",
            events.len()
        );
        ensure!(sent.is_empty(), "mutant answered", "{name} of {len} bytes is answered");
        if copies == 0 {
            let after = snapshot(&b, &[1, 2, 12]);
            ensure!(
                after == before,
                "mutant has an effect",
                "{name} of {len} bytes changes {before:?} to {after:?}"
            );
        }
    }
    ch.visit(hash_of(&(kind, version, query, &original.data[..32], copies)));
    ch.observe((kind, version, query));

    for answer in &answers {
        world::deliver(answer).await;
    }
    // The original is still good
    world::deliver(&original).await;
    let events = b.events();
    ensure!(
        events.len() == usize::from(!history || copies == 0)
            && events.iter().all(|e| e.data == data && e.query == query),
        "original rejected",
        "the original gives {} messages after {copies} copies",
        events.len()
    );
    world::flush().await;
    if let Some(pending) = pending {
        let answer = pending.await.unwrap().unwrap();
        ensure!(
            answer == Some(answer_to(&data)),
            "answer",
            "the query got {:?} bytes",
            answer.map(|a| a.len())
        );
    }
    follow_up(&a, &b, in_channel).await
}

/// Key of the victim, the owner of the claimed identity and the attacker
const B: u8 = 2;
const A: u8 = 1;
const E: u8 = 7;

#[derive(Debug, Copy, Clone, Hash, PartialEq, Eq)]
enum Transport {
    Handshake,
    HandshakeToOther,
    Ordinary,
    Priority,
}

async fn forged(ch: &mut Chooser<'_>, thorough: bool) -> Step {
    // What the victim knows about A: nothing, the address, the channel
    let state = ch.choose(3);
    let required = if thorough { !ch.flag() } else { true };
    let transport = ch.one_of(&[
        Transport::Handshake,
        Transport::Ordinary,
        Transport::Priority,
        Transport::HandshakeToOther,
    ]);
    let from = ch.one_of(&[None, Some(A), Some(E)]);
    let from_short = ch.one_of(&[None, Some(A), Some(E), Some(0xee)]);
    let signature = ch.one_of(&[
        Signature::None,
        Signature::By(A),
        Signature::By(E),
        Signature::Garbage,
        Signature::Zero,
        Signature::Foreign(A),
        Signature::By(B),
    ]);
    let content = ch.choose(5);
    let extras = ch.choose(3);

    let options = NodeOptions {
        packet_signature_required: required,
        query_default_timeout_ms: 1000,
        ..Default::default()
    };
    let b = Sim::build(1, &[B, 12], options, None);
    let a = Sim::build(0, &[A], options, None);
    a.add(&b);
    if state > 0 {
        b.add(&a);
    }
    if state > 1 {
        establish(&a, &b).await;
    }
    let mut e = Puppet::new(E, 6);
    if matches!(transport, Transport::Ordinary | Transport::Priority) {
        e.connect(&b).await;
    } else {
        e.introduce(&b);
    }
    b.events();
    world::take_sent();

    let data = payload(QUERY, 5, 16);
    let channel_key = *harness::puppet::channel_key(E, 1).public_key.as_bytes();
    let date = world::now() + 1;
    let messages = match content {
        0 => vec![Msg::Custom(data.clone())],
        1 => vec![Msg::Query { id: [7; 32], data: data.clone() }],
        2 => vec![Msg::Create { key: channel_key, date }],
        3 => vec![Msg::Confirm { key: channel_key, peer_key: channel_key, date }],
        _ => vec![Msg::Nop],
    };
    let mut packet = Packet {
        from,
        from_short: from_short.map(short_id),
        messages,
        signature,
        seqno: Some(50),
        confirm_seqno: Some(0),
        ..Packet::empty()
    };
    if extras > 0 {
        // Address and the date of a newer incarnation
        packet.address = Some(e.address());
        if extras > 1 {
            packet.reinit = Some((world::now() + 30, 0));
        }
    }
    ch.note(|| format!("state {state}, {transport:?}, mandatory signatures: {required}, {packet:?}"));

    // Whose packet it is
    let local = if transport == Transport::HandshakeToOther { 12 } else { B };
    let author: Option<u8> = match transport {
        Transport::Handshake | Transport::HandshakeToOther => {
            let claimed = match (from, from_short) {
                (Some(key), None) => Some(key),
                (Some(key), Some(short)) if key == short => Some(key),
                (None, Some(key)) => Some(key),
                _ => None,
            };
            match claimed {
                Some(key) if signature == Signature::By(key) => Some(key),
                Some(key) if signature == Signature::None && !required => Some(key),
                _ => None,
            }
        }
        _ => match (from, from_short, signature) {
            (None, None, Signature::None | Signature::By(E)) => Some(E),
            _ => None,
        },
    };

    let before = snapshot(&b, &[A, B, E, 12]);
    let a_before = b.node.get_peer_address(&b.id(), &a.id());
    let bytes = packet.to_bytes();
    let datagram = match transport {
        Transport::Handshake => e.seal_for(B, &bytes, None),
        Transport::HandshakeToOther => e.seal_for(12, &bytes, None),
        Transport::Ordinary => e.seal_in_channel(&bytes, false, None),
        Transport::Priority => e.seal_in_channel(&bytes, true, None),
    };
    ch.step();
    world::deliver_raw(world::port(1), world::port(6), datagram).await;
    let events = b.events();
    let sent = world::take_sent();
    let after = snapshot(&b, &[A, B, E, 12]);
    ch.observe((author, events.len(), sent.len()));
    ch.visit(hash_of(&(state, transport, author, content, events.len())));
    match author {
        None => {
            ensure!(
                events.is_empty(),
                "forged packet accepted",
                "{packet:?} over {transport:?} gives a message of {}",
                if events[0].peer == a.id() { "A" } else { "E" }
            );
            ensure!(sent.is_empty(), "forged packet answered", "{packet:?} is answered");
            ensure!(
                before == after,
                "forged packet has an effect",
                "{packet:?} over {transport:?} changes {before:?} to {after:?}"
            );
        }
        Some(key) => {
            ensure!(
                events
                    .iter()
                    .all(|ev| ev.peer == short_id(key) && ev.local == short_id(local) && ev.data == data),
                "wrong author",
                "message of {key} to {local} is delivered as {events:?}"
            );
        }
    }
    if author != Some(A) {
        ensure!(
            b.node.get_peer_address(&b.id(), &a.id()) == a_before,
            "address changed",
            "the address of A is changed by somebody else"
        );
        if state == 0 {
            b.add(&a);
        }
        follow_up(&a, &b, state > 1).await?;
    }
    Ok(())
}

/// Empty, tiny and garbage datagrams
async fn garbage(ch: &mut Chooser<'_>) -> Step {
    let (a, b) = pair(Default::default());
    let established = ch.flag();
    if established {
        establish(&a, &b).await;
    }
    // Known prefixes
    let mut prefixes = vec![b.id().as_slice().to_vec(), a.id().as_slice().to_vec(), vec![0; 32]];
    if established {
        a.send(&b, &payload(MESSAGE, 0, 8)).unwrap();
        world::settle().await;
        let sent: Vec<Datagram> = world::take_sent();
        prefixes.push(sent[0].data[..32].to_vec());
        prefixes.push(sent[0].data[..64].to_vec());
    }
    let prefix = ch.one_of(&prefixes);
    let fill = ch.one_of(&[0u8, 1, 0x7f, 0xff]);
    let before = snapshot(&b, &[1, 2]);
    ch.note(|| format!("all datagrams up to 200 bytes which start with {}", hex::encode(&prefix)));
    for len in (0..=200usize).chain([1023, 1024, 1500, 2047, 2048, 2049, 4096]) {
        let mut data = prefix.clone();
        data.resize(len.max(prefix.len()), fill);
        data.truncate(len);
        ch.step();
        world::deliver_raw(world::port(1), world::port(0), data).await;
        ensure!(
            b.events().is_empty() && world::take_sent().is_empty() && snapshot(&b, &[1, 2]) == before,
            "garbage has an effect",
            "garbage of {len} bytes has an effect"
        );
    }
    ch.visit(hash_of(&(established, &prefix, fill)));
    follow_up(&a, &b, established).await
}

fn main() {
    check_main("C04", |ctx| {
        ctx.assume("ed25519, x25519, aes and sha256 are not broken");
        ctx.assume("contents which their receiver decrypts and seals for somebody else still are authentic (signatures do not name the receiver)");
        ctx.assume("the sign bit of the one-time key of a handshake does not matter: such a change gives a copy of the packet");
        let block = ctx.tiered(64, 16);
        let thorough = ctx.is_thorough();
        ctx.explore(
            Suite {
                name: "mutations".to_owned(),
                about: "every byte of each kind of packet changed in 4 ways, every truncation from both ends, \
                    extensions, every other visible address"
                    .to_owned(),
                bound: 0,
            },
            |ch| world::run(1, mutations(ch, block)),
        );
        ctx.explore(
            Suite {
                name: "forged".to_owned(),
                about: "3 states x 4 transports x 3 full ids x 4 short ids x 7 signatures x 5 messages x 3 sets of \
                    optional fields of an attacker who is a known peer"
                    .to_owned(),
                bound: 0,
            },
            |ch| world::run(1, forged(ch, thorough)),
        );
        ctx.explore(
            Suite {
                name: "garbage".to_owned(),
                about: "all lengths up to 200 of datagrams which start with a known prefix".to_owned(),
                bound: 0,
            },
            |ch| world::run(1, garbage(ch)),
        );
    })
}
