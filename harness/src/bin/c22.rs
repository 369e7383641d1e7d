//! C22: optional compression is transparent

use std::time::Duration;

use everscale_network::rldp::verif_api::compression::{compress, decompress};
use everscale_network::rldp::NodeOptions;
use harness::nodes::{establish, payload, QUERY};
use harness::rldpkit::*;
use harness::util::{filler, hash_of};
use harness::world;
use harness::{check_main, ensure, Chooser, Step, Stop, Suite};

const THRESHOLD: usize = 256;
const TAG: u8 = 0x80;

#[derive(Debug, Clone, Copy, PartialEq, Hash)]
enum Content {
    Zeros,
    Periodic,
    Random,
    /// Looks like the end of compressed data
    Tagged,
    /// Is compressed data already
    Compressed,
    /// Compressed data which is compressed once more
    Twice,
    /// Two frames of zstd without the tag
    Frames,
    /// Compressed data with something before or after
    Surrounded,
}

const CONTENTS: [Content; 8] = [
    Content::Zeros,
    Content::Periodic,
    Content::Random,
    Content::Tagged,
    Content::Compressed,
    Content::Twice,
    Content::Frames,
    Content::Surrounded,
];

/// The format, independently of the code under test
fn reference(data: &[u8]) -> Vec<u8> {
    let mut res = zstd::stream::encode_all(data, 3).unwrap();
    res.extend(zstd::stream::encode_all(&(data.len() as u32).to_be_bytes()[..], 3).unwrap());
    res.push(TAG);
    res
}

/// Data of this class made of `len` bytes
fn content(content: Content, len: usize) -> Vec<u8> {
    match content {
        Content::Zeros => vec![0; len],
        Content::Periodic => (0..len).map(|i| (i % 7) as u8).collect(),
        Content::Random => filler(len as u64, len),
        Content::Tagged => {
            let mut data = filler(len as u64, len);
            if let Some(last) = data.last_mut() {
                *last = TAG;
            }
            data
        }
        Content::Compressed => reference(&filler(len as u64, len)),
        Content::Twice => reference(&reference(&vec![1; len])),
        Content::Frames => {
            let mut data = reference(&vec![1; len]);
            data.pop();
            data
        }
        Content::Surrounded => {
            let mut data = vec![TAG];
            data.extend(reference(&vec![2; len]));
            data.push(TAG);
            data
        }
    }
}

fn functions(ch: &mut Chooser<'_>, lens: &[usize]) -> Step {
    let len = ch.one_of(lens);
    let class = ch.one_of(&CONTENTS);
    let data = content(class, len);
    let mut compressed = data.clone();
    let res = compress(&mut compressed);
    ch.step();
    ch.visit(hash_of(&(len, class)));
    ch.observe(compressed.len());
    ensure!(res.is_ok(), "not compressed", "{class:?} of {len} bytes: {res:?}");
    // Any other node of the network reads and writes the same
    let written = reference(&data);
    ensure!(decompress(&written).as_ref() == Some(&data), "other format", "{class:?} of {len} bytes");
    if data.len() <= THRESHOLD {
        ensure!(compressed == data, "changed", "{class:?}: {} bytes are changed", data.len());
        return Ok(());
    }
    ensure!(
        decompress(&compressed).as_ref() == Some(&data),
        "not restored",
        "{class:?} of {len} bytes"
    );
    let (last, frames) = compressed.split_last().unwrap();
    let read = zstd::stream::decode_all(frames).ok().map(|mut read| {
        let size = read.split_off(read.len().saturating_sub(4));
        (read, size)
    });
    ensure!(
        *last == TAG && read == Some((data.clone(), (data.len() as u32).to_be_bytes().to_vec())),
        "other format",
        "{class:?} of {len} bytes"
    );
    Ok(())
}

/// All damages of a single byte and all truncations
fn damaged(ch: &mut Chooser<'_>, lens: &[usize]) -> Step {
    let len = ch.one_of(lens);
    let class = ch.one_of(&[Content::Zeros, Content::Periodic, Content::Random]);
    let data = content(class, len);
    let whole = reference(&data);
    let how = ch.choose(3);
    let at = ch.choose(whole.len());
    let mut damages = Vec::new();
    match how {
        0 => {
            for byte in 0..=255u8 {
                let mut other = whole.clone();
                if other[at] != byte {
                    other[at] = byte;
                    damages.push(other);
                }
            }
        }
        1 => {
            let mut other = whole[..at].to_vec();
            damages.push(other.clone());
            other.push(TAG);
            damages.push(other);
            damages.push(whole[at + 1..].to_vec());
        }
        _ => {
            let mut other = whole.clone();
            other.insert(at, TAG);
            damages.push(other);
            let mut other = whole.clone();
            other.remove(at);
            damages.push(other);
        }
    }
    for other in damages {
        ch.step();
        let res = decompress(&other);
        ensure!(
            other.last() == Some(&TAG) || res.is_none(),
            "wrong tag",
            "{class:?} of {len} bytes, byte {at} in way {how}"
        );
        ch.observe(res.map(|res| res == data));
    }
    ch.visit(hash_of(&(len, class, how, at)));
    Ok(())
}

/// All short inputs
fn short(ch: &mut Chooser<'_>, depth: usize) -> Step {
    let len = ch.choose(depth + 1);
    let magic = ch.flag();
    let mut data = if magic {
        vec![0x28, 0xb5, 0x2f, 0xfd]
    } else {
        Vec::new()
    };
    for i in 0..len {
        data.push(if i < 2 {
            ch.choose(256) as u8
        } else {
            ch.one_of(&[0, 1, 0x20, 0x24, 0x7f, 0x80, 0xfd, 0xff])
        });
    }
    let tagged = ch.flag();
    if tagged {
        data.push(TAG);
    }
    ch.step();
    ch.visit(hash_of(&data));
    let res = decompress(&data);
    ensure!(tagged || data.last() == Some(&TAG) || res.is_none(), "wrong tag", "{data:02x?}");
    // Nothing that short contains both frames
    ensure!(res.is_none(), "decompressed", "{data:02x?}");
    ch.observe(res.is_some());
    Ok(())
}

/// Queries and answers between nodes with any settings
async fn queries(ch: &mut Chooser<'_>, lens: &[usize]) -> Step {
    let force = [ch.flag(), ch.flag()];
    let classes = [ch.one_of(&CONTENTS), ch.one_of(&CONTENTS)];
    let sizes = [ch.one_of(lens), ch.one_of(lens)];
    let mut query = content(classes[0], sizes[0]);
    // Queries start with a constructor
    let compressed_as_whole = classes[0] as usize >= Content::Compressed as usize;
    if !compressed_as_whole {
        query = [&payload(QUERY, 0, 4)[..], &query].concat();
    }
    if query.len() < 4 {
        return ch.skip();
    }
    let answer = content(classes[1], sizes[1]);
    let options = |force_compression| NodeOptions {
        force_compression,
        ..Default::default()
    };
    let reply = answer.clone();
    let a = RldpSim::new(0, options(force[0]), None);
    let b = RldpSim::new(1, options(force[1]), Some(Box::new(move |_| Some(reply.clone()))));
    a.add(&b);
    b.add(&a);
    establish(&a.sim, &b.sim).await;
    let task = a.query(&b, &query, Some(0));
    let mut waves = 0;
    while !task.is_finished() {
        world::flush().await;
        world::advance(Duration::from_millis(10)).await;
        waves += 1;
        assert!(waves < 5000);
    }
    let what = format!("{:?} of {} bytes answered with {:?} of {} bytes, forced: {force:?}", classes[0], query.len(), classes[1], answer.len());
    ch.step();
    ch.visit(hash_of(&(force, classes, sizes)));
    ch.observe(waves);
    let events = b.events();
    ensure!(
        events.len() == 1 && events[0].data == query,
        "wrong query",
        "{:?} bytes are delivered, {what}",
        events.iter().map(|event| event.data.len()).collect::<Vec<_>>()
    );
    match task.await.unwrap() {
        Ok((res, _)) => ensure!(
            res.as_ref() == Some(&answer),
            "wrong answer",
            "{:?} bytes, {what}",
            res.map(|res| res.len())
        ),
        Err(e) => return Err(Stop::violation("failed query", format!("{e}, {what}"))),
    }
    Ok(())
}

fn main() {
    check_main("C22", |ctx| {
        let mut lens: Vec<usize> = (0..=ctx.tiered(1100, 5000)).collect();
        for power in 12..=ctx.tiered(17, 22) {
            lens.extend([(1 << power) - 1, 1 << power, (1 << power) + 1]);
        }
        ctx.explore(
            Suite {
                name: "functions".to_owned(),
                about: "all lengths up to a limit and around powers of two, eight classes of content".to_owned(),
                bound: 0,
            },
            |ch| functions(ch, &lens),
        );
        let lens: &[usize] = ctx.tiered(&[0, 1, 257, 400], &[0, 1, 2, 3, 4, 5, 257, 400, 1000, 3000]);
        ctx.explore(
            Suite {
                name: "damaged".to_owned(),
                about: "all damages of a byte, truncations, insertions and removals in compressed data".to_owned(),
                bound: 0,
            },
            |ch| damaged(ch, lens),
        );
        let depth = ctx.tiered(3, 5);
        ctx.explore(
            Suite {
                name: "short".to_owned(),
                about: format!("all inputs of up to {depth} bytes, also after the magic number and with the tag"),
                bound: 0,
            },
            |ch| short(ch, depth),
        );
        let lens: &[usize] = ctx.tiered(&[0, 256, 257, 2000], &[0, 1, 240, 255, 256, 257, 258, 700, 2000, 20_000]);
        ctx.explore(
            Suite {
                name: "queries".to_owned(),
                about: "queries and answers of all classes between nodes with all settings".to_owned(),
                bound: 0,
            },
            |ch| world::run(1, queries(ch, lens)),
        );
    })
}
