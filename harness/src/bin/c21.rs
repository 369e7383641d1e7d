//! C21: the fountain code reconstructs from any sufficient symbol set

use std::collections::BTreeSet;

use everscale_network::proto::rldp::RaptorQFecType;
use everscale_network::rldp::verif_api::{RaptorQDecoder, RaptorQEncoder};
use harness::util::{filler, hash_of};
use harness::{check_main, ensure, Chooser, Step, Suite};

const SYMBOL: usize = 768;
/// The highest symbol number which is possible for every number of symbols
const TOP: u32 = (1 << 24) - 56403 - 1;

fn decoder(params: RaptorQFecType) -> Step<RaptorQDecoder> {
    RaptorQDecoder::with_params(params)
        .map_err(|e| harness::Stop::violation("rejected", format!("parameters of the encoder are rejected: {e}")))
}

/// The symbols of a payload as a sender takes them
fn series(data: &[u8], count: usize) -> Step<(RaptorQFecType, Vec<(u32, Vec<u8>)>)> {
    let mut encoder = RaptorQEncoder::with_data(data);
    let mut seqno = 0;
    let mut symbols = Vec::new();
    for _ in 0..count {
        let symbol = encoder
            .encode(&mut seqno)
            .map_err(|e| harness::Stop::violation("not encoded", format!("symbol {seqno}: {e}")))?;
        symbols.push((seqno, symbol));
        seqno += 1;
    }
    Ok((*encoder.params(), symbols))
}

/// Series of symbols of every size
fn encoded(ch: &mut Chooser<'_>, sizes: &[usize]) -> Step {
    let len = ch.one_of(sizes);
    let data = filler(len as u64 + 7, len);
    let k = len.div_ceil(SYMBOL);
    let extra = ch.one_of(&[0usize, 5]);
    let (params, symbols) = series(&data, k + extra)?;
    ch.step();
    ensure!(
        (params.total_len, params.packet_len, params.packet_count) == (len as u32, SYMBOL as u32, k as u32),
        "wrong parameters",
        "{params:?} for {len} bytes"
    );
    let reference = everscale_raptorq::Encoder::with_defaults(&data, SYMBOL as u16);
    let blocks = reference.get_block_encoders();
    assert_eq!(blocks.len(), 1);
    // Symbols of big payloads are interleaved
    let interleaved = (reference.get_config().sub_blocks() > 1).then(|| blocks[0].source_packets());
    for (i, (seqno, symbol)) in symbols.iter().enumerate() {
        ensure!(*seqno == i as u32, "wrong number", "symbol {i} of {len} bytes has number {seqno}");
        ensure!(symbol.len() == SYMBOL, "wrong size", "symbol {i} of {len} bytes has {} bytes", symbol.len());
        let right = if let Some(sources) = interleaved.as_ref().filter(|_| i < k) {
            sources[i].data().to_vec()
        } else if i < k {
            // The code is systematic
            let end = len.min((i + 1) * SYMBOL);
            let mut right = data[i * SYMBOL..end].to_vec();
            right.resize(SYMBOL, 0);
            right
        } else {
            blocks[0].repair_packets(i as u32, 1)[0].data().to_vec()
        };
        ensure!(*symbol == right, "wrong symbol", "symbol {i} of {len} bytes differs");
    }
    let mut decoder = decoder(params)?;
    if extra > 0 {
        // A lost source symbol at every place is replaced by a repair one
        let lost = ch.choose(k.min(3));
        let lost = [0, k - 1, k / 2][lost];
        let mut got = None;
        for (seqno, symbol) in symbols {
            if seqno as usize == lost {
                continue;
            }
            got = decode(&mut decoder, seqno, symbol)?;
            ensure!(
                got.is_none() || got.as_ref() == Some(&data),
                "wrong data",
                "{len} bytes, symbol {lost} is lost"
            );
        }
        ensure!(got.is_some(), "not decoded", "{len} bytes, symbol {lost} is lost");
    } else {
        let backwards = ch.flag();
        let order: Vec<_> = if backwards {
            symbols.into_iter().rev().collect()
        } else {
            symbols
        };
        for (i, (seqno, symbol)) in order.into_iter().enumerate() {
            let got = decode(&mut decoder, seqno, symbol)?;
            ensure!(got.is_some() == (i + 1 == k), "not decoded", "{len} bytes, {} of {k} source symbols", i + 1);
            ensure!(got.is_none() || got == Some(data.clone()), "wrong data", "{len} bytes");
        }
    }
    ch.visit(hash_of(&(len, extra)));
    ch.observe(len);
    Ok(())
}

fn decode(decoder: &mut RaptorQDecoder, seqno: u32, symbol: Vec<u8>) -> Step<Option<Vec<u8>>> {
    decoder
        .decode(seqno, symbol)
        .map_err(|e| harness::Stop::violation("rejected", format!("symbol {seqno} is rejected: {e}")))
}

/// Every order of symbols out of a window until the data is decoded
fn orders(ch: &mut Chooser<'_>, ks: &[usize], repairs: usize) -> Step {
    let k = ch.one_of(ks);
    let len = k * SYMBOL - [1, 700, 0][k % 3];
    let data = filler(k as u64, len);
    let (params, mut window) = series(&data, k + repairs)?;
    // The farthest symbols are the same as the others
    let top = ch.flag();
    if top {
        let mut encoder = RaptorQEncoder::with_data(&data);
        let mut seqno = 0;
        for _ in 0..k {
            encoder.encode(&mut seqno).unwrap();
        }
        for i in 0..2 {
            let mut seqno = TOP - i;
            let symbol = encoder.encode(&mut seqno).unwrap();
            ensure!(seqno == TOP - i, "wrong number", "symbol {} of {k} has number {seqno}", TOP - i);
            let reference = everscale_raptorq::Encoder::with_defaults(&data, SYMBOL as u16);
            let right = reference.get_block_encoders()[0].repair_packets(seqno, 1);
            ensure!(symbol == right[0].data(), "wrong symbol", "symbol {seqno} of {k} differs");
            let at = window.len() - 1 - i as usize;
            window[at] = (seqno, symbol);
        }
    }
    let mut decoder = decoder(params)?;
    let mut rest: Vec<usize> = (0..window.len()).collect();
    let mut order = Vec::new();
    let mut set = BTreeSet::new();
    let mut decoded = false;
    while !rest.is_empty() {
        // Everything possible as long as it is not decoded
        let next = rest.remove(if decoded { 0 } else { ch.choose(rest.len()) });
        order.push(next);
        set.insert(next);
        ch.step();
        let (seqno, symbol) = window[next].clone();
        let got = decode(&mut decoder, seqno, symbol.clone())?;
        ensure!(decoder.seqno() == seqno, "wrong number", "{} instead of {seqno}", decoder.seqno());
        ensure!(got.is_none() || got.as_ref() == Some(&data), "wrong data", "{k} symbols, {order:?} of {window:?}", window = window.iter().map(|w| w.0).collect::<Vec<_>>());
        ensure!(got.is_none() || set.len() >= k, "wrong data", "decoded from {} symbols of {k}", set.len());
        ensure!(got.is_some() || !decoded, "decoded once", "{k} symbols, {order:?}");
        let sources = set.range(..k).count();
        ensure!(got.is_some() || sources < k, "not decoded", "from all {k} source symbols, {order:?}");
        ensure!(
            got.is_some() || set.len() < k + 3,
            "not decoded",
            "{k} symbols from {order:?}"
        );
        decoded |= got.is_some();
        // The same symbol again changes nothing
        let again = decode(&mut decoder, seqno, symbol)?;
        ensure!(again.is_some() == decoded, "duplicate", "{k} symbols, {order:?}");
        ensure!(again.is_none() || again.as_ref() == Some(&data), "wrong data", "{k} symbols, duplicate after {order:?}");
        ch.visit(hash_of(&(k, top, &set)));
    }
    ensure!(decoded, "not decoded", "{k} symbols, {order:?}");
    ch.observe((k, order));
    Ok(())
}

/// Every set of lost source symbols up to a size is replaced by the next repair symbols
fn losses(ch: &mut Chooser<'_>, max_k: usize, max_lost: usize) -> Step {
    let k = 1 + ch.choose(max_k);
    let mut lost = BTreeSet::new();
    let mut from = 0;
    for _ in 0..max_lost {
        if from >= k {
            break;
        }
        match ch.choose(k - from + 1) {
            0 => break,
            i => {
                lost.insert(from + i - 1);
                from += i;
            }
        }
    }
    let len = k * SYMBOL - [0, 700, 1][k % 3];
    let data = filler(k as u64, len);
    // Repair symbols are taken after some lost ones
    let skipped = ch.one_of(&[0usize, 3]);
    let (params, window) = series(&data, k + skipped + lost.len() + 3)?;
    let mut decoder = decoder(params)?;
    let mut got = None;
    let mut count = 0;
    for (i, (seqno, symbol)) in window.into_iter().enumerate() {
        if lost.contains(&i) || (k..k + skipped).contains(&i) {
            continue;
        }
        count += 1;
        ch.step();
        got = decode(&mut decoder, seqno, symbol)?;
        ensure!(got.is_none() || got.as_ref() == Some(&data), "wrong data", "{k} symbols without {lost:?}");
        ensure!(got.is_none() || count >= k, "wrong data", "decoded from {count} symbols of {k}");
        if got.is_some() {
            break;
        }
    }
    ensure!(got.is_some(), "not decoded", "{k} symbols without {lost:?}, {skipped} repair symbols are skipped");
    ch.visit(hash_of(&(k, &lost, skipped)));
    ch.observe((k, count - k));
    Ok(())
}

/// Combinations of parameters and symbols nobody should send
fn invalid(ch: &mut Chooser<'_>, full: bool) -> Step {
    const LENS: [u32; 13] = [
        0,
        1,
        7,
        64,
        767,
        768,
        769,
        2_000_000,
        56403 * 768,
        56403 * 768 + 1,
        56404 * 768,
        u32::MAX - 1,
        u32::MAX,
    ];
    const PACKETS: [u32; 26] = [
        0, 1, 4, 7, 8, 16, 56, 63, 64, 65, 66, 68, 72, 760, 764, 772, 767, 768, 769, 776, 65528, 65535, 65536, 65600, 66304, u32::MAX,
    ];
    let total_len = ch.one_of(&LENS);
    let packet_len = ch.one_of(&PACKETS);
    let packet_count = ch.one_of(&[0, 1, u32::MAX]);
    let params = RaptorQFecType {
        total_len,
        packet_len,
        packet_count,
    };
    ch.step();
    ch.visit(hash_of(&(total_len, packet_len, packet_count)));
    let Ok(mut decoder) = RaptorQDecoder::with_params(params) else {
        ensure!(
            packet_len != SYMBOL as u32 || total_len == 0 || total_len > 56403 * 768,
            "rejected",
            "usual parameters {params:?} are rejected"
        );
        ch.observe("rejected");
        return Ok(());
    };
    ch.observe((total_len, packet_len));
    ensure!(total_len > 0 && packet_len > 0, "accepted", "{params:?} are accepted");
    let symbols = total_len.div_ceil(packet_len);
    let bad: &[u32] = if full {
        &[0, 1, TOP, TOP + 1, (1 << 24) - 1, 1 << 24, u32::MAX]
    } else {
        &[0, TOP, (1 << 24) - 1, 1 << 24, u32::MAX]
    };
    // Too much memory otherwise
    let lens = if packet_len <= 4096 {
        vec![packet_len as usize, 0, packet_len as usize - 1, packet_len as usize + 1, 2 * packet_len as usize]
    } else {
        vec![packet_len as usize, 768]
    };
    for _ in 0..2 {
        let seqno = ch.one_of(bad);
        let len = ch.one_of(&lens);
        ch.step();
        let res = decoder.decode(seqno, vec![0xab; len]);
        ch.note(|| format!("symbol {seqno} of {len} bytes: {:?}", res.as_ref().map(|d| d.as_ref().map(Vec::len))));
        if let Ok(Some(data)) = res {
            ensure!(data.len() == total_len as usize, "wrong data", "{} bytes of {params:?}", data.len());
            ensure!(symbols <= 2 && len == packet_len as usize, "wrong data", "decoded from invalid symbols");
        }
        ensure!(
            seqno <= TOP && len == packet_len as usize || !matches!(decoder.decode(seqno, vec![0xab; len]), Ok(Some(_))) || symbols <= 2,
            "wrong data",
            "decoded with symbol {seqno} of {len} bytes"
        );
    }
    Ok(())
}

/// Invalid symbols do not spoil what comes after them
fn spoiled(ch: &mut Chooser<'_>) -> Step {
    let k = 1 + ch.choose(4);
    let len = k * SYMBOL - 5;
    let data = filler(1, len);
    let (params, window) = series(&data, k + 3)?;
    let lost = ch.choose(k + 1);
    let at = ch.choose(k);
    let mut decoder = decoder(params)?;
    let mut got = None;
    for (i, (seqno, symbol)) in window.into_iter().enumerate() {
        if i == lost && lost < k {
            continue;
        }
        if i == at {
            let (bad, len) = ch.one_of(&[
                (0u32, 767usize),
                (seqno, 767),
                (seqno, 769),
                (seqno, 0),
                (1 << 24, 768),
                (u32::MAX, 768),
                ((1 << 24) - 1, 767),
            ]);
            let res = decoder.decode(bad, vec![1; len]);
            ensure!(!matches!(res, Ok(Some(_))), "wrong data", "decoded with symbol {bad} of {len} bytes");
        }
        ch.step();
        got = decode(&mut decoder, seqno, symbol)?;
        ensure!(got.is_none() || got.as_ref() == Some(&data), "wrong data", "{k} symbols, invalid one at {at}");
        if got.is_some() {
            break;
        }
    }
    ensure!(got.is_some(), "not decoded", "{k} symbols, invalid one at {at}");
    ch.visit(hash_of(&(k, lost, at)));
    ch.observe((k, lost, at));
    Ok(())
}

fn main() {
    check_main("C21", |ctx| {
        let full = ctx.is_thorough();
        let mut sizes: Vec<usize> = (1..=ctx.tiered(8000, 40_000)).collect();
        for k in [3, 4, 9, 10, 11, 12, 13, 26, 27, 101, 102, 249, 250, 2604] {
            sizes.extend([k * SYMBOL - 1, k * SYMBOL, k * SYMBOL + 1]);
        }
        sizes.extend([1_999_999, 2_000_000]);
        if full {
            sizes.extend([10_000_000, 10_485_000, 13_000 * SYMBOL]);
        }
        ctx.explore(
            Suite {
                name: "encoded".to_owned(),
                about: format!("all payload sizes up to {} bytes and around boundaries up to a whole part, compared symbol by symbol", ctx.tiered(8000, 40_000)),
                bound: 0,
            },
            |ch| encoded(ch, &sizes),
        );
        let (ks, repairs): (&[usize], usize) = ctx.tiered((&[1, 2, 3, 4, 5], 4), (&[1, 2, 3, 4, 5, 6, 7], 4));
        ctx.explore(
            Suite {
                name: "orders".to_owned(),
                about: format!("all orders of symbols of payloads of up to {} symbols until they are decoded, with duplicates", ks.len()),
                bound: 0,
            },
            |ch| orders(ch, ks, repairs),
        );
        let (max_k, max_lost) = ctx.tiered((60, 2), (60, 3));
        ctx.explore(
            Suite {
                name: "losses".to_owned(),
                about: format!("all sets of up to {max_lost} lost symbols of payloads of up to {max_k} symbols"),
                bound: 0,
            },
            |ch| losses(ch, max_k, max_lost),
        );
        ctx.explore(
            Suite {
                name: "invalid".to_owned(),
                about: "all combinations of strange parameters, symbol numbers and sizes".to_owned(),
                bound: 0,
            },
            |ch| invalid(ch, full),
        );
        ctx.explore(
            Suite {
                name: "spoiled".to_owned(),
                about: "invalid symbols among the usual ones".to_owned(),
                bound: 0,
            },
            spoiled,
        );
    })
}
