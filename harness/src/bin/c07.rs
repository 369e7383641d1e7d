//! C07: every query ends exactly once, with its own answer or at its timeout

use std::sync::Arc;
use std::time::Duration;

use everscale_network::adnl::verif_api::QueriesCache;
use everscale_network::adnl::NodeOptions;
use harness::nodes::*;
use harness::puppet::{Msg, Puppet};
use harness::sched::{block_on, run_threads, Body};
use harness::util::hash_of;
use harness::world;
use harness::{check_main, ensure, Chooser, Step, Suite};
use tokio::time::Instant;

const MIN: u64 = 100;
const DEFAULT: u64 = 400;

#[derive(Debug, Clone, PartialEq)]
enum State {
    Pending,
    Answered(Vec<u8>),
    TimedOut,
    Dropped,
}

type Res = Option<Vec<u8>>;

struct Query {
    id: [u8; 32],
    started: Instant,
    timeout: u64,
    handle: tokio::task::JoinHandle<anyhow::Result<Res>>,
    finished_at: Arc<std::sync::Mutex<Option<Instant>>>,
    state: State,
    data: Vec<u8>,
}

struct Setup {
    node: Sim,
    puppet: Puppet,
    in_channel: bool,
    queries: Vec<Query>,
    min: u64,
    default: u64,
}

impl Setup {
    async fn new(in_channel: bool) -> Self {
        Self::with_timeouts(in_channel, MIN, DEFAULT).await
    }

    async fn with_timeouts(in_channel: bool, min: u64, default: u64) -> Self {
        let options = NodeOptions {
            query_min_timeout_ms: min,
            query_default_timeout_ms: default,
            ..Default::default()
        };
        let node = Sim::new(0, options);
        let mut puppet = Puppet::new(7, 6);
        if in_channel {
            puppet.connect(&node).await;
        } else {
            puppet.introduce(&node);
        }
        world::take_sent();
        Self {
            node,
            puppet,
            in_channel,
            queries: Vec::new(),
            min,
            default,
        }
    }

    async fn query(&mut self, timeout: Option<u64>) -> Step {
        let data = payload(QUERY, 40 + self.queries.len() as u64, 16);
        let (node, local, peer) = (self.node.node.clone(), self.node.id(), self.puppet.id());
        let finished_at = Arc::new(std::sync::Mutex::new(None));
        let started = Instant::now();
        let handle = tokio::spawn({
            let (finished_at, data) = (finished_at.clone(), data.clone());
            async move {
                let res = node.query_raw(&local, &peer, data.into(), timeout).await;
                *finished_at.lock().unwrap() = Some(Instant::now());
                res
            }
        });
        world::settle().await;
        let sent = world::take_sent();
        let mut id = None;
        for d in &sent {
            for message in self.puppet.open(d).map(|o| o.messages).unwrap_or_default() {
                if let Msg::Query { id: i, data: d } = message {
                    ensure!(d == data, "query bytes", "the query is sent as {d:?}");
                    ensure!(id.is_none(), "query sent twice", "one call sends the query twice");
                    id = Some(i);
                }
            }
        }
        ensure!(id.is_some(), "query not sent", "{} datagrams", sent.len());
        let id = id.unwrap();
        ensure!(
            self.queries.iter().all(|q| q.id != id),
            "query id",
            "two queries have the same id"
        );
        self.queries.push(Query {
            id,
            started,
            timeout: std::cmp::max(timeout.unwrap_or(self.default), self.min),
            handle,
            finished_at,
            state: State::Pending,
            data,
        });
        Ok(())
    }

    async fn answer(&mut self, id: [u8; 32], data: Vec<u8>) {
        let messages = if data.len() > 900 {
            // Split into parts
            let bytes = Msg::Answer { id, data }.to_bytes();
            let hash: [u8; 32] = sha2::Digest::finalize(<sha2::Sha256 as sha2::Digest>::new_with_prefix(&bytes)).into();
            bytes
                .chunks(800)
                .enumerate()
                .map(|(i, part)| Msg::Part {
                    hash,
                    total: bytes.len() as u32,
                    offset: i as u32 * 800,
                    data: part.to_vec(),
                })
                .collect()
        } else {
            vec![Msg::Answer { id, data }]
        };
        for message in messages {
            if self.in_channel {
                let packet = self.puppet.channel_packet(vec![message]);
                self.puppet.deliver_in_channel(&self.node, &packet, false).await;
            } else {
                self.puppet.say(&self.node, vec![message]).await;
            }
        }
    }

    /// Compares everything with the reference
    fn check(&mut self) -> Step {
        let now = Instant::now();
        let mut pending = 0;
        for (i, q) in self.queries.iter_mut().enumerate() {
            let deadline = q.started + Duration::from_millis(q.timeout);
            if q.state == State::Pending && now >= deadline + Duration::from_millis(2) {
                q.state = State::TimedOut;
            }
            let finished = *q.finished_at.lock().unwrap();
            match &q.state {
                State::Pending if now <= deadline => {
                    ensure!(
                        finished.is_none() && !q.handle.is_finished(),
                        "query ended too early",
                        "query {i} with timeout {} ended {} ms after its start without an answer",
                        q.timeout,
                        (now - q.started).as_millis()
                    );
                    pending += 1;
                }
                State::Pending => pending = usize::MAX,
                State::Dropped => {
                    ensure!(finished.is_none(), "dropped query ended", "query {i}");
                }
                State::Answered(_) | State::TimedOut => {
                    ensure!(
                        finished.is_some(),
                        "query did not end",
                        "query {i} with timeout {} still waits after {} ms in the state {:?}",
                        q.timeout,
                        (now - q.started).as_millis(),
                        q.state
                    );
                    if q.state == State::TimedOut {
                        ensure!(
                            finished.unwrap() >= deadline,
                            "query ended too early",
                            "query {i} ended before its timeout"
                        );
                    }
                }
            }
        }
        let count = self.node.node.metrics().query_count;
        ensure!(
            pending == usize::MAX || count == pending,
            "queries left",
            "the node remembers {count} queries while {pending} are in flight"
        );
        Ok(())
    }

    async fn finish(mut self) -> Step {
        for (i, q) in self.queries.drain(..).enumerate() {
            let res = q.handle.await;
            match q.state {
                State::Dropped => ensure!(res.is_err(), "dropped query", "query {i} gave {res:?}"),
                State::Answered(data) => {
                    let res = res.unwrap().unwrap();
                    ensure!(
                        res.as_ref() == Some(&data),
                        "wrong answer",
                        "query {i} got {:?} instead of {} bytes",
                        res.map(|d| d.len()),
                        data.len()
                    );
                }
                State::TimedOut | State::Pending => {
                    let res = res.unwrap().unwrap();
                    ensure!(res.is_none(), "wrong answer", "query {i} got {} bytes", res.unwrap().len());
                }
            }
        }
        let m = self.node.node.metrics();
        ensure!(m.query_count == 0, "queries left", "{} queries are left", m.query_count);
        Ok(())
    }
}

fn own_answer(query: &[u8], n: usize) -> Vec<u8> {
    let mut data = answer_to(query);
    data.extend((0..n).map(|i| i as u8));
    data
}

/// All sequences of queries, answers, pauses and cancellations
async fn histories(ch: &mut Chooser<'_>, depth: usize) -> Step {
    let mut s = Setup::new(ch.flag()).await;
    s.query(None).await?;
    for step in 0..depth {
        // What can happen next
        #[derive(Clone, Debug)]
        enum Action {
            Query(Option<u64>),
            Answer(usize, usize),
            Unknown,
            Wait(u64),
            Cancel(usize),
        }
        let mut actions = vec![Action::Unknown, Action::Wait(10), Action::Wait(150), Action::Wait(300)];
        if s.queries.len() < 3 {
            actions.push(Action::Query(Some(10)));
            actions.push(Action::Query(Some(200)));
        }
        for i in 0..s.queries.len() {
            actions.push(Action::Answer(i, 0));
            if i == 0 {
                actions.push(Action::Answer(i, 1200));
            }
            if s.queries[i].state == State::Pending {
                actions.push(Action::Cancel(i));
            }
        }
        let action = ch.one_of(&actions);
        ch.note(|| format!("{action:?}"));
        ch.step();
        match action {
            Action::Query(timeout) => s.query(timeout).await?,
            Action::Answer(i, extra) => {
                let (id, data) = (s.queries[i].id, own_answer(&s.queries[i].data, extra + step));
                s.answer(id, data.clone()).await;
                if s.queries[i].state == State::Pending {
                    s.queries[i].state = State::Answered(data);
                }
            }
            Action::Unknown => s.answer([0xaa; 32], vec![1, 2, 3, 4]).await,
            Action::Wait(ms) => world::advance(Duration::from_millis(ms)).await,
            Action::Cancel(i) => {
                s.queries[i].handle.abort();
                s.queries[i].state = State::Dropped;
                world::settle().await;
            }
        }
        s.check()?;
        let states: Vec<_> = s
            .queries
            .iter()
            .map(|q| (format!("{:?}", q.state), q.started.elapsed().as_millis()))
            .collect();
        ch.visit(hash_of(&states));
        ch.observe(states.iter().map(|s| s.0.clone()).collect::<Vec<_>>());
    }
    world::advance(Duration::from_millis(1000)).await;
    s.check()?;
    s.finish().await
}

/// Exact moments around the timeout
async fn moments(ch: &mut Chooser<'_>) -> Step {
    let timeout = ch.one_of(&[None, Some(0), Some(1), Some(99), Some(100), Some(101), Some(1000), Some(86_400_000)]);
    let (min, default) = ch.one_of(&[(MIN, DEFAULT), (DEFAULT, MIN), (MIN, MIN)]);
    let effective = timeout.unwrap_or(default).max(min);
    let mut s = Setup::with_timeouts(ch.flag(), min, default).await;
    s.query(timeout).await?;
    let offset = ch.one_of(&[-50i64, -2, -1, 2, 3, 50]);
    ch.note(|| format!("timeout {timeout:?} (minimum {min}, default {default}), the answer comes {offset} ms after it"));
    ch.step();
    world::advance(Duration::from_millis((effective as i64 + offset) as u64)).await;
    s.check()?;
    let (id, data) = (s.queries[0].id, own_answer(&s.queries[0].data, 0));
    s.answer(id, data.clone()).await;
    if s.queries[0].state == State::Pending {
        s.queries[0].state = State::Answered(data);
    }
    s.check()?;
    ch.visit(hash_of(&(min, default, timeout, offset)));
    world::advance(Duration::from_millis(100)).await;
    s.check()?;
    s.finish().await
}

/// Queries which can't be sent
async fn failures(ch: &mut Chooser<'_>) -> Step {
    let s = Setup::new(false).await;
    let (local, peer) = match ch.choose(3) {
        0 => (s.node.id(), short_id(99)),
        1 => (short_id(99), s.puppet.id()),
        _ => (s.node.id(), s.node.id()),
    };
    let res = s.node.node.query_raw(&local, &peer, vec![1, 2, 3, 4].into(), Some(200)).await;
    ensure!(res.is_err(), "query to nobody", "{res:?}");
    let m = s.node.node.metrics();
    ensure!(m.query_count == 0, "queries left", "{} queries are left", m.query_count);
    ensure!(world::take_sent().is_empty(), "query to nobody", "a datagram is sent");
    // Typed queries
    let typed: anyhow::Result<Option<everscale_network::proto::adnl::Pong>> = s
        .node
        .node
        .query(&local, &peer, everscale_network::proto::rpc::AdnlPing { value: 1 }, Some(200))
        .await;
    ensure!(typed.is_err(), "query to nobody", "{typed:?}");
    ch.step();
    ch.visit(hash_of(&(local, peer)));
    s.finish().await
}

/// Races of answers, waiting and dropping
fn races(ch: &mut Chooser<'_>) -> Step {
    let cache = Arc::new(QueriesCache::default());
    let first = cache.add_query([1; 32]);
    let second = cache.add_query([2; 32]);
    let kind = ch.choose(4);
    let results = std::cell::RefCell::new(Vec::new());
    {
        let (cache, results) = (&cache, &results);
        let answer = |id: u8, data: u8| -> Body<'_> {
            Box::new(move || cache.update_query(&[id; 32], &[data]))
        };
        let wait: Body<'_> = Box::new(move || {
            let res = block_on(first.wait());
            results.borrow_mut().push(res);
        });
        let bodies: Vec<Body<'_>> = match kind {
            0 => vec![wait, answer(1, 10), answer(1, 11)],
            1 => vec![wait, answer(1, 10), answer(2, 20), answer(3, 30)],
            2 => {
                drop(wait);
                let third = cache.add_query([1; 32]);
                vec![
                    Box::new(move || drop(third)),
                    answer(1, 10),
                    answer(1, 11),
                ]
            }
            _ => vec![
                wait,
                answer(1, 10),
                Box::new(move || {
                    let fourth = cache.add_query([4; 32]);
                    cache.update_query(&[1; 32], &[12]);
                    cache.update_query(&[4; 32], &[40]);
                    let res = block_on(fourth.wait());
                    assert_eq!(res, Some(vec![40]));
                }),
            ],
        };
        run_threads(ch, bodies, &Default::default())?;
    }
    let results = results.into_inner();
    ch.observe(format!("{results:?}"));
    ch.visit(hash_of(&(kind, format!("{results:?}"))));
    if kind != 2 {
        ensure!(
            results.len() == 1 && matches!(&results[0], Some(d) if d == &[10] || d == &[11] || d == &[12]),
            "result",
            "the results are {results:?}"
        );
    }
    if kind == 1 {
        ensure!(results[0] == Some(vec![10]), "wrong answer", "{results:?}");
        let res = futures_util::FutureExt::now_or_never(second.wait());
        ensure!(res == Some(Some(vec![20])), "wrong answer", "the other query got {res:?}");
    } else {
        drop(second);
    }
    ensure!(cache.len() == 0, "queries left", "{} queries are left", cache.len());
    Ok(())
}

fn main() {
    check_main("C07", |ctx| {
        ctx.assume("interleavings are sequentially consistent");
        ctx.assume("timers have a resolution of 1 ms: a query ends at most 2 ms after its timeout");
        let depth = ctx.tiered(4, 5);
        ctx.explore(
            Suite {
                name: "histories".to_owned(),
                about: format!(
                    "up to 3 queries in flight, all sequences of {depth} answers, copies, unknown answers, pauses, \
                     cancellations and new queries"
                ),
                bound: 0,
            },
            |ch| world::run(1, histories(ch, depth)),
        );
        ctx.explore(
            Suite {
                name: "moments".to_owned(),
                about: "8 timeouts, an answer at 6 moments around each".to_owned(),
                bound: 0,
            },
            |ch| world::run(1, moments(ch)),
        );
        ctx.explore(
            Suite {
                name: "failures".to_owned(),
                about: "queries to unknown peers and from unknown identities".to_owned(),
                bound: 0,
            },
            |ch| world::run(1, failures(ch)),
        );
        ctx.explore(
            Suite {
                name: "races".to_owned(),
                about: "answers, waiting, dropping and new queries in up to 4 threads".to_owned(),
                bound: ctx.tiered(3, 5),
            },
            races,
        );
    })
}
