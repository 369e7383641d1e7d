//! RLDP nodes of the harness

use std::collections::HashMap;
use std::sync::Arc;

use everscale_network::adnl::NodeOptions as AdnlOptions;
use everscale_network::{proto, rldp};
use tokio::task::JoinHandle;

use crate::nodes::{AnswerFn, Event, Recorder, Sim};

/// Answer and roundtrip
pub type Outcome = anyhow::Result<(Option<Vec<u8>>, u64)>;

/// Size of the parts of a transfer
pub const SLICE: usize = 2_000_000;
/// Bytes in a symbol
pub const SYMBOL: usize = 768;

/// Node with RLDP
pub struct RldpSim {
    pub sim: Sim,
    pub rldp: Arc<rldp::Node>,
    /// Application on top of RLDP
    pub app: Arc<Recorder>,
}

impl RldpSim {
    pub fn new(index: usize, options: rldp::NodeOptions, answer: Option<AnswerFn>) -> Self {
        let sim = Sim::build_stopped(index, &[index as u8 + 1], AdnlOptions::default(), None);
        let app = Arc::new(Recorder {
            answer,
            ..Default::default()
        });
        let rldp = rldp::Node::new(sim.node.clone(), vec![app.clone()], options).unwrap();
        sim.start();
        Self { sim, rldp, app }
    }

    pub fn add(&self, other: &RldpSim) {
        assert!(self.sim.add(&other.sim));
    }

    /// Starts a query in background
    pub fn query(&self, to: &RldpSim, data: &[u8], roundtrip: Option<u64>) -> JoinHandle<Outcome> {
        let (local, peer) = (self.sim.id(), to.sim.id());
        let rldp = self.rldp.clone();
        let data = data.to_vec();
        tokio::spawn(async move { rldp.query(&local, &peer, data, roundtrip).await })
    }

    pub fn events(&self) -> Vec<Event> {
        self.app.take()
    }

    /// Number of remembered transfers
    pub fn transfers(&self) -> usize {
        self.rldp.metrics().transfers_cache_len
    }
}

/// Anything RLDP nodes send to each other
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum RldpMsg {
    Part(Part),
    Confirm { transfer: [u8; 32], part: u32, seqno: u32 },
    Complete { transfer: [u8; 32], part: u32 },
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Part {
    pub transfer: [u8; 32],
    pub total_len: u32,
    pub packet_len: u32,
    pub packet_count: u32,
    pub part: u32,
    pub total_size: u64,
    pub seqno: u32,
    pub data: Vec<u8>,
}

impl RldpMsg {
    pub fn to_bytes(&self) -> Vec<u8> {
        use proto::rldp::{MessagePart, RaptorQFecType};
        tl_proto::serialize(match self {
            RldpMsg::Part(part) => MessagePart::MessagePart {
                transfer_id: &part.transfer,
                fec_type: RaptorQFecType {
                    total_len: part.total_len,
                    packet_len: part.packet_len,
                    packet_count: part.packet_count,
                },
                part: part.part,
                total_size: part.total_size,
                seqno: part.seqno,
                data: &part.data,
            },
            RldpMsg::Confirm { transfer, part, seqno } => MessagePart::Confirm {
                transfer_id: transfer,
                part: *part,
                seqno: *seqno,
            },
            RldpMsg::Complete { transfer, part } => MessagePart::Complete {
                transfer_id: transfer,
                part: *part,
            },
        })
    }

    pub fn parse(data: &[u8]) -> Option<Self> {
        use proto::rldp::MessagePart;
        Some(match tl_proto::deserialize(data).ok()? {
            MessagePart::MessagePart {
                transfer_id,
                fec_type,
                part,
                total_size,
                seqno,
                data,
            } => RldpMsg::Part(Part {
                transfer: *transfer_id,
                total_len: fec_type.total_len,
                packet_len: fec_type.packet_len,
                packet_count: fec_type.packet_count,
                part,
                total_size,
                seqno,
                data: data.to_vec(),
            }),
            MessagePart::Confirm { transfer_id, part, seqno } => RldpMsg::Confirm {
                transfer: *transfer_id,
                part,
                seqno,
            },
            MessagePart::Complete { transfer_id, part } => RldpMsg::Complete {
                transfer: *transfer_id,
                part,
            },
        })
    }
}

/// Messages with the symbols `seqnos` of a payload of one part
pub fn parts(transfer: [u8; 32], payload: &[u8], seqnos: std::ops::Range<u32>) -> Vec<Part> {
    let encoder = everscale_raptorq::Encoder::with_defaults(payload, SYMBOL as u16);
    let block = &encoder.get_block_encoders()[0];
    let source = block.source_packets();
    seqnos
        .map(|seqno| {
            let packet = match source.get(seqno as usize) {
                Some(packet) => packet.clone(),
                None => block.repair_packets(seqno, 1).remove(0),
            };
            assert_eq!(packet.payload_id().encoding_symbol_id(), seqno);
            Part {
                transfer,
                total_len: payload.len() as u32,
                packet_len: SYMBOL as u32,
                packet_count: source.len() as u32,
                part: 0,
                total_size: payload.len() as u64,
                seqno,
                data: packet.data().to_vec(),
            }
        })
        .collect()
}

pub fn query_payload(query_id: [u8; 32], max_answer_size: u64, data: &[u8]) -> Vec<u8> {
    tl_proto::serialize(proto::rldp::Message::Query {
        query_id: &query_id,
        max_answer_size,
        timeout: 10,
        data,
    })
}

pub fn answer_payload(query_id: [u8; 32], data: &[u8]) -> Vec<u8> {
    tl_proto::serialize(proto::rldp::Message::Answer { query_id: &query_id, data })
}

/// Puts together payloads of one part
#[derive(Default)]
pub struct Assembler {
    decoders: HashMap<[u8; 32], everscale_raptorq::Decoder>,
}

impl Assembler {
    pub fn add(&mut self, part: &Part) -> Option<Vec<u8>> {
        use everscale_raptorq::*;
        assert_eq!((part.part, part.total_size), (0, part.total_len as u64));
        let decoder = self.decoders.entry(part.transfer).or_insert_with(|| {
            Decoder::new(ObjectTransmissionInformation::with_defaults(
                part.total_len as u64,
                part.packet_len as u16,
            ))
        });
        decoder.decode(EncodingPacket::new(PayloadId::new(0, part.seqno), part.data.clone()))
    }
}

pub fn negate(id: [u8; 32]) -> [u8; 32] {
    id.map(|byte| !byte)
}
