//! C10: the bounded peer set behaves as a ring of unique peers

use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::rc::Rc;

use everscale_network::adnl::{NodeIdShort, PeersSet};
use everscale_network::verif::rng;
use harness::sched::{run_threads, Body};
use harness::util::hash_of;
use harness::{check_main, ensure, Chooser, Step, Suite};

fn id(peer: u8) -> NodeIdShort {
    NodeIdShort::new([peer; 32])
}

fn key(id: &NodeIdShort) -> u8 {
    id.as_slice()[0]
}

/// What the set must be
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Ring {
    capacity: usize,
    slots: Vec<u8>,
    next: usize,
    version: u64,
}

impl Ring {
    fn new(capacity: u32, peers: &[u8]) -> Self {
        let mut ring = Self {
            capacity: capacity.max(1) as usize,
            slots: Vec::new(),
            next: 0,
            version: 0,
        };
        for peer in peers {
            if ring.slots.len() < ring.capacity {
                ring.insert(*peer);
            }
        }
        ring.version = 0;
        ring
    }

    fn insert(&mut self, peer: u8) -> bool {
        if self.slots.contains(&peer) {
            return false;
        }
        if self.slots.len() < self.capacity {
            self.slots.push(peer);
        } else {
            self.slots[self.next] = peer;
        }
        self.next = (self.next + 1) % self.capacity;
        self.version += 1;
        true
    }
}

fn members(set: &PeersSet) -> Vec<u8> {
    set.iter().map(key).collect()
}

fn check(set: &PeersSet, ring: &Ring, peers: u8) -> Step {
    let got = members(set);
    ensure!(got == ring.slots, "members", "{got:?} instead of {:?}", ring.slots);
    let cloned: Vec<_> = set.clone_inner().iter().map(key).collect();
    ensure!(cloned == got, "clone", "{cloned:?} instead of {got:?}");
    let by_ref: Vec<_> = set.into_iter().map(key).collect();
    ensure!(by_ref == got, "iteration", "{by_ref:?} instead of {got:?}");
    ensure!(
        set.len() == got.len() && set.is_empty() == got.is_empty() && set.iter().size_hint() == (got.len(), Some(got.len())),
        "length",
        "{} of {got:?}",
        set.len()
    );
    ensure!(
        set.is_full() == (got.len() == ring.capacity),
        "fullness",
        "{} with {got:?} of {}",
        set.is_full(),
        ring.capacity
    );
    ensure!(set.version() == ring.version, "version", "{} instead of {}", set.version(), ring.version);
    for i in 0..got.len() + 2 {
        let at = set.get(i).as_ref().map(key);
        ensure!(at == got.get(i).copied(), "index", "{at:?} at {i} of {got:?}");
    }
    for peer in 0..peers {
        ensure!(
            set.contains(&id(peer)) == got.contains(&peer),
            "membership",
            "peer {peer} is a member: {}, members are {got:?}",
            set.contains(&id(peer))
        );
    }
    Ok(())
}

fn build(ch: &mut Chooser<'_>, capacity: u32, peers: u8, max: usize) -> (PeersSet, Ring) {
    match ch.choose(2) {
        0 => (PeersSet::with_capacity(capacity), Ring::new(capacity, &[])),
        _ => {
            let len = ch.choose(max + 1);
            let first: Vec<u8> = (0..len).map(|_| ch.choose(peers as usize) as u8).collect();
            ch.note(|| format!("made of {first:?}"));
            let ids: Vec<_> = first.iter().map(|p| id(*p)).collect();
            (
                PeersSet::with_peers_and_capacity(&ids, capacity),
                Ring::new(capacity, &first),
            )
        }
    }
}

fn histories(ch: &mut Chooser<'_>, depth: usize, peers: u8) -> Step {
    rng::set_source(None);
    rng::seed(Some(1));
    let capacity = ch.one_of(&[0u32, 1, 2, 3, 4]);
    ch.note(|| format!("capacity {capacity}"));
    let (set, mut ring) = build(ch, capacity, peers, 3);
    check(&set, &ring, peers)?;
    for _ in 0..depth {
        ch.step();
        match ch.choose(3) {
            0 => {
                let peer = ch.choose(peers as usize) as u8;
                ch.note(|| format!("insert {peer}"));
                let (got, want) = (set.insert(id(peer)), ring.insert(peer));
                ensure!(got == want, "result of insert", "{got} for {peer}");
                ch.observe(got);
            }
            1 => {
                let pair: Vec<u8> = (0..2).map(|_| ch.choose(peers as usize) as u8).collect();
                ch.note(|| format!("extend with {pair:?}"));
                set.extend(pair.iter().map(|p| id(*p)));
                for p in &pair {
                    ring.insert(*p);
                }
            }
            _ => {
                // Everything a set of one peer has
                let peer = ch.choose(peers as usize) as u8;
                let other = PeersSet::with_peers_and_capacity(&[id(peer)], 1);
                let amount = ch.choose(3) as u32;
                ch.note(|| format!("fill with {amount} of [{peer}]"));
                set.randomly_fill_from(&other, amount, None);
                if amount > 0 {
                    ring.insert(peer);
                }
                set.randomly_fill_from(&set, amount, None);
            }
        }
        check(&set, &ring, peers)?;
        ch.visit(hash_of(&ring));
    }
    let members = ring.slots.clone();
    let owned: Vec<u8> = set.into_iter().map(|i| key(&i)).collect();
    ensure!(owned == members, "owned iteration", "{owned:?} instead of {members:?}");
    Ok(())
}

/// Words which select each of up to 4 (or 5) items
fn words(max: u64) -> Vec<u64> {
    let mut words = BTreeSet::new();
    for n in 1..=max {
        for j in 0..n {
            words.insert(((j << 32) + n - 1) / n);
        }
    }
    words.into_iter().collect()
}

/// Runs the body with random words from the list
fn with_words<T>(choices: Vec<u64>, body: impl FnOnce() -> T) -> (T, usize) {
    let used = Rc::new(Cell::new(0));
    let counter = used.clone();
    rng::set_source(Some(Box::new(move || {
        let i = counter.get();
        counter.set(i + 1);
        choices.get(i).copied().unwrap_or(0)
    })));
    let res = body();
    rng::set_source(None);
    (res, used.get())
}

fn random(ch: &mut Chooser<'_>, size: usize, count: usize) -> Step {
    let len = ch.choose(size + 1);
    let rotated = ch.flag();
    let set = PeersSet::with_capacity(size as u32);
    if rotated {
        if len < size {
            return ch.skip();
        }
        set.insert(id(100));
    }
    for peer in 0..len {
        set.insert(id(peer as u8));
    }
    let members: BTreeSet<u8> = members(&set).into_iter().collect();
    let except = match ch.choose(3) {
        0 => None,
        1 => Some(200),
        _ => Some(ch.choose(size) as u8),
    };
    let mut amounts: Vec<u32> = (0..=size as u32 + 1).collect();
    amounts.push(u32::MAX);
    let amount = ch.one_of(&amounts);
    let all = words(size as u64);
    let choices: Vec<u64> = (0..count).map(|_| ch.one_of(&all)).collect();
    ch.note(|| format!("{amount} of {members:?} except {except:?}, random words {choices:x?}"));
    ch.step();
    let except_id = except.map(id);
    let (got, used) = with_words(choices.clone(), || set.get_random_peers(amount, except_id.as_ref()));
    // The rest of words is not used
    if choices[used.min(count)..].iter().any(|w| *w != 0) {
        return ch.skip();
    }
    let got: Vec<u8> = got.iter().map(key).collect();
    let distinct: BTreeSet<u8> = got.iter().copied().collect();
    let eligible: BTreeSet<u8> = members.iter().copied().filter(|p| Some(*p) != except).collect();
    ensure!(distinct.len() == got.len(), "same peer twice", "{got:?}");
    ensure!(distinct.is_subset(&eligible), "wrong peer", "{got:?} of {eligible:?}");
    ensure!(
        got.len() == eligible.len().min(amount as usize),
        "number of peers",
        "{} instead of {} of {eligible:?}",
        got.len(),
        eligible.len().min(amount as usize)
    );
    ch.observe(&got);
    ch.visit(hash_of(&(&members, except, amount)));
    check(&set, &{
        let mut r = Ring::new(size as u32, &[]);
        if rotated {
            r.insert(100);
        }
        for p in 0..len {
            r.insert(p as u8);
        }
        r
    }, 8)
}

fn fill(ch: &mut Chooser<'_>, size: usize, count: usize) -> Step {
    let source: Vec<u8> = (0..ch.choose(size + 1) as u8).collect();
    let capacity = ch.one_of(&[1u32, 2, 3]);
    let own: Vec<u8> = match ch.choose(3) {
        0 => vec![],
        1 => vec![100, 0],
        _ => vec![1, 100, 101],
    };
    let except: Option<Vec<u8>> = match ch.choose(4) {
        0 => None,
        1 => Some(vec![]),
        2 => Some(vec![0, 200]),
        _ => Some(vec![1, 2]),
    };
    let amount = ch.one_of(&[0u32, 1, 2, 3, u32::MAX]);
    let all = words(size as u64);
    let choices: Vec<u64> = (0..count).map(|_| ch.one_of(&all)).collect();
    let ids = |peers: &[u8]| -> Vec<_> { peers.iter().map(|p| id(*p)).collect() };
    let other = PeersSet::with_peers_and_capacity(&ids(&source), size as u32);
    let set = PeersSet::with_peers_and_capacity(&ids(&own), capacity);
    let before = Ring::new(capacity, &own);
    let except_ids = except.as_ref().map(|e| {
        e.iter().map(|p| id(*p)).collect::<dashmap::DashSet<NodeIdShort, _>>()
    });
    ch.note(|| format!("{amount} of {source:?} into {:?} except {except:?}, random words {choices:x?}", before.slots));
    ch.step();
    let (_, used) = with_words(choices.clone(), || {
        set.randomly_fill_from(&other, amount, except_ids.as_ref())
    });
    if choices[used.min(count)..].iter().any(|w| *w != 0) {
        return ch.skip();
    }
    let eligible: Vec<u8> = source
        .iter()
        .copied()
        .filter(|p| !except.iter().flatten().any(|e| e == p))
        .collect();
    let want = eligible.len().min(amount as usize);
    // Some sequence of distinct eligible peers was inserted
    fn possible(ring: &Ring, left: &[u8], want: usize, out: &mut BTreeSet<Ring>) {
        if want == 0 {
            out.insert(ring.clone());
            return;
        }
        for i in 0..left.len() {
            let mut next = ring.clone();
            next.insert(left[i]);
            let mut rest = left.to_vec();
            rest.remove(i);
            possible(&next, &rest, want - 1, out);
        }
    }
    let mut rings = BTreeSet::new();
    possible(&before, &eligible, want, &mut rings);
    let got = members(&set);
    let found = rings.iter().find(|r| r.slots == got && r.version == set.version());
    ensure!(
        found.is_some(),
        "filled set",
        "{:?} filled with {amount} of {eligible:?} becomes {got:?} with version {}",
        before.slots,
        set.version()
    );
    check(&set, found.unwrap(), 5)?;
    check(&other, &Ring::new(size as u32, &source), 5)?;
    ch.observe(&got);
    ch.visit(hash_of(&(&source, capacity, &own, &except, amount)));
    Ok(())
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
enum Call {
    Insert(usize, u8),
    Fill(usize),
    Read(usize),
    Random(usize),
    Extend(usize, u8, u8),
}

/// Concurrent calls on two sets
fn threads(ch: &mut Chooser<'_>, count: usize, per_thread: usize) -> Step {
    rng::set_source(None);
    rng::seed(Some(1));
    let all = [
        Call::Insert(0, 5),
        Call::Insert(0, 6),
        Call::Insert(1, 5),
        Call::Fill(0),
        Call::Fill(1),
        Call::Read(0),
        Call::Random(0),
        Call::Extend(0, 7, 5),
    ];
    let programs: Vec<Vec<Call>> = (0..count)
        .map(|_| (0..per_thread).map(|_| ch.one_of(&all)).collect())
        .collect();
    if programs.windows(2).any(|w| w[0] > w[1]) {
        return ch.skip();
    }
    ch.note(|| format!("{programs:?}"));
    let sets = [
        PeersSet::with_peers_and_capacity(&[id(0), id(1)], 3),
        PeersSet::with_peers_and_capacity(&[id(2)], 2),
    ];
    let rings = [Ring::new(3, &[0, 1]), Ring::new(2, &[2])];
    let results: Vec<RefCell<Vec<Vec<u8>>>> = programs.iter().map(|_| RefCell::default()).collect();
    let mut bodies: Vec<Body<'_>> = Vec::new();
    for (program, results) in programs.iter().zip(&results) {
        let sets = &sets;
        bodies.push(Box::new(move || {
            for call in program {
                let res = match *call {
                    Call::Insert(set, peer) => vec![sets[set].insert(id(peer)) as u8],
                    Call::Fill(set) => {
                        sets[set].randomly_fill_from(&sets[1 - set], u32::MAX, None);
                        vec![]
                    }
                    Call::Read(set) => members(&sets[set]),
                    Call::Random(set) => sets[set]
                        .get_random_peers(3, None)
                        .iter()
                        .map(key)
                        .collect::<BTreeSet<_>>()
                        .into_iter()
                        .collect(),
                    Call::Extend(set, a, b) => {
                        sets[set].extend([id(a), id(b)]);
                        vec![]
                    }
                };
                results.borrow_mut().push(res);
            }
        }));
    }
    run_threads(ch, bodies, &Default::default())?;
    let results: Vec<Vec<Vec<u8>>> = results.into_iter().map(|r| r.into_inner()).collect();
    let last = [
        (members(&sets[0]), sets[0].version()),
        (members(&sets[1]), sets[1].version()),
    ];

    // Some order of the calls must explain everything. Filling takes what it needs at first
    struct Search<'a> {
        programs: &'a [Vec<Call>],
        results: &'a [Vec<Vec<u8>>],
        last: &'a [(Vec<u8>, u64); 2],
    }
    fn orders(items: &[u8]) -> Vec<Vec<u8>> {
        if items.is_empty() {
            return vec![vec![]];
        }
        let mut out = Vec::new();
        for i in 0..items.len() {
            let mut rest = items.to_vec();
            let first = rest.remove(i);
            for mut o in orders(&rest) {
                o.insert(0, first);
                out.push(o);
            }
        }
        out
    }
    fn go(s: &Search<'_>, rings: &[Ring; 2], at: &[usize], taken: &[Option<Vec<u8>>]) -> bool {
        let mut done = true;
        for i in 0..at.len() {
            if at[i] == s.programs[i].len() {
                continue;
            }
            done = false;
            let res = &s.results[i][at[i]];
            let mut next_at = at.to_vec();
            next_at[i] += 1;
            let mut next = rings.clone();
            let ok = match s.programs[i][at[i]] {
                Call::Insert(set, peer) => {
                    let inserted = next[set].insert(peer);
                    *res == vec![inserted as u8] && go(s, &next, &next_at, taken)
                }
                Call::Extend(set, a, b) => {
                    next[set].insert(a);
                    next[set].insert(b);
                    go(s, &next, &next_at, taken)
                }
                Call::Read(set) => *res == rings[set].slots && go(s, &next, &next_at, taken),
                Call::Random(set) => {
                    let want: BTreeSet<u8> = rings[set].slots.iter().copied().collect();
                    *res == want.into_iter().collect::<Vec<_>>() && go(s, &next, &next_at, taken)
                }
                Call::Fill(set) => match &taken[i] {
                    None => {
                        let mut next_taken = taken.to_vec();
                        next_taken[i] = Some(rings[1 - set].slots.clone());
                        go(s, rings, at, &next_taken)
                    }
                    Some(items) => {
                        let mut next_taken = taken.to_vec();
                        next_taken[i] = None;
                        orders(items).into_iter().any(|order| {
                            let mut next = rings.clone();
                            for p in order {
                                next[set].insert(p);
                            }
                            go(s, &next, &next_at, &next_taken)
                        })
                    }
                },
            };
            if ok {
                return true;
            }
        }
        done && (0..2).all(|i| rings[i].slots == s.last[i].0 && rings[i].version == s.last[i].1)
    }
    let search = Search {
        programs: &programs,
        results: &results,
        last: &last,
    };
    ensure!(
        go(&search, &rings, &vec![0; count], &vec![None; count]),
        "concurrent calls",
        "{programs:?} give {results:?} and leave {last:?}"
    );
    for set in &sets {
        let m = members(set);
        ensure!(
            m.iter().collect::<BTreeSet<_>>().len() == m.len(),
            "same peer twice",
            "{m:?}"
        );
    }
    ch.observe((&results, &last));
    Ok(())
}

/// Insertions of new and removed peers, and removals. The peers are kept in the order of
/// their insertion
fn removals(ch: &mut Chooser<'_>, depth: usize) -> Step {
    rng::set_source(None);
    rng::seed(Some(1));
    let capacity = ch.one_of(&[1usize, 2, 3, 4]);
    ch.note(|| format!("capacity {capacity}"));
    let set = PeersSet::with_capacity(capacity as u32);
    let mut model: Vec<u8> = Vec::new();
    let mut next = 0;
    let mut last_gone = None;
    let mut version = 0;
    for _ in 0..depth {
        ch.step();
        match ch.choose(3 + capacity) {
            op @ (0 | 1) => {
                let peer = match (op, last_gone) {
                    (0, _) => {
                        next += 1;
                        next
                    }
                    (_, Some(peer)) => peer,
                    _ => return ch.skip(),
                };
                ch.note(|| format!("insert {peer}"));
                let new = !model.contains(&peer);
                ensure!(set.insert(id(peer)) == new, "result of insert", "{peer}");
                if new {
                    if model.len() == capacity {
                        last_gone = Some(model.remove(0));
                    }
                    model.push(peer);
                    version += 1;
                }
            }
            2 => {
                ch.note(|| "remove an absent peer".to_owned());
                let peer = last_gone.filter(|peer| !model.contains(peer)).unwrap_or(100);
                ensure!(!set.remove(&id(peer)), "result of remove", "{peer} is absent");
            }
            n => {
                if n - 3 >= model.len() {
                    return ch.skip();
                }
                let peer = model.remove(n - 3);
                ch.note(|| format!("remove {peer}"));
                ensure!(set.remove(&id(peer)), "result of remove", "{peer} is present");
                last_gone = Some(peer);
                version += 1;
            }
        }
        let ring = Ring {
            capacity,
            // The order is only visible by what is replaced
            slots: members(&set),
            next: 0,
            version,
        };
        let got: BTreeSet<u8> = ring.slots.iter().copied().collect();
        ensure!(
            got.len() == ring.slots.len() && got == model.iter().copied().collect(),
            "members",
            "{:?} instead of {model:?}",
            ring.slots
        );
        check(&set, &ring, next + 2)?;
        // Names do not matter
        let names: Vec<u8> = model.iter().map(|peer| next - peer).collect();
        ch.visit(hash_of(&(capacity, names, last_gone.map(|peer| model.contains(&peer)))));
    }
    ch.observe((capacity, model.len()));
    Ok(())
}

fn main() {
    check_main("C10", |ctx| {
        ctx.assume("nobody calls a set while iterating over it on the same thread");
        let depth = ctx.tiered(3, 4);
        ctx.explore(
            Suite {
                name: "histories".to_owned(),
                about: format!("sets of capacity 0..4 made of up to 3 of 4 peers, all sequences of {depth} insertions, extensions and fillings"),
                bound: 0,
            },
            |ch| histories(ch, depth, 4),
        );
        let depth = ctx.tiered(8, 10);
        ctx.explore(
            Suite {
                name: "removals".to_owned(),
                about: format!("sets of capacity 1..4, all sequences of {depth} insertions of new or removed peers and removals"),
                bound: 0,
            },
            |ch| removals(ch, depth),
        );
        let (size, count) = ctx.tiered((4, 4), (5, 5));
        ctx.explore(
            Suite {
                name: "random".to_owned(),
                about: format!("all random selections (choices of the generator) from up to {size} peers, any amount and exclusion"),
                bound: 0,
            },
            |ch| random(ch, size, count),
        );
        ctx.explore(
            Suite {
                name: "fill".to_owned(),
                about: "all random fillings of a set of capacity 1..3 from up to 3 peers".to_owned(),
                bound: 0,
            },
            |ch| fill(ch, 3, ctx_words()),
        );
        let bound = ctx.tiered(3, 4);
        ctx.explore(
            Suite {
                name: "threads".to_owned(),
                about: "2 threads with 2 of 8 calls on two sets".to_owned(),
                bound,
            },
            |ch| threads(ch, 2, 2),
        );
        let bound = ctx.tiered(2, 3);
        ctx.explore(
            Suite {
                name: "three threads".to_owned(),
                about: "3 threads with one of 8 calls on two sets".to_owned(),
                bound,
            },
            |ch| threads(ch, 3, 1),
        );
    })
}

fn ctx_words() -> usize {
    3
}
