//! C11: the keystore maps tags and identities to keys one to one

use std::collections::BTreeMap;
use std::sync::Arc;

use everscale_network::adnl::{ComputeNodeIds, Key, Keystore, Node, NodeIdShort};
use harness::nodes::{full_id, secret, short_id};
use harness::util::hash_of;
use harness::{check_main, ensure, world, Chooser, Step, Suite};

const KEYS: [u8; 3] = [1, 2, 3];
const TAGS: [usize; 3] = [0, 7, usize::MAX];

#[derive(Default, Clone, Hash)]
struct Model {
    /// Keys by tags
    tags: BTreeMap<usize, u8>,
}

impl Model {
    /// Whether the addition has to succeed
    fn add(&mut self, key: u8, tag: usize) -> bool {
        match self.tags.get(&tag) {
            Some(known) => *known == key,
            None if self.tags.values().any(|k| *k == key) => false,
            None => {
                self.tags.insert(tag, key);
                true
            }
        }
    }
}

struct Data(Vec<u8>);

impl tl_proto::TlWrite for Data {
    type Repr = tl_proto::Boxed;

    fn max_size_hint(&self) -> usize {
        self.0.len()
    }

    fn write_to<P: tl_proto::TlPacket>(&self, packet: &mut P) {
        packet.write_raw_slice(&self.0);
    }
}

fn check_key(key: u8, found: &Key) -> Step {
    ensure!(
        found.id() == &short_id(key) && found.full_id() == &full_id(key),
        "wrong key",
        "key of {} is found instead of {key}",
        found.id()
    );
    let text = b"signed by the key".to_vec();
    let signature = found.sign(Data(text.clone()));
    ensure!(
        full_id(key).verify(Data(text), &signature).is_ok(),
        "wrong signature",
        "the signature of key {key} is invalid"
    );
    Ok(())
}

fn check(
    model: &Model,
    by_tag: &dyn Fn(usize) -> Option<Arc<Key>>,
    by_id: &dyn Fn(&NodeIdShort) -> Option<Arc<Key>>,
) -> Step {
    for tag in TAGS.iter().copied().chain([1, 8]) {
        let found = by_tag(tag);
        match model.tags.get(&tag) {
            Some(key) => {
                ensure!(found.is_some(), "tag not found", "tag {tag} is not found");
                check_key(*key, &found.unwrap())?;
            }
            None => ensure!(
                found.is_none(),
                "unknown tag found",
                "tag {tag} which was never added refers to {}",
                found.unwrap().id()
            ),
        }
    }
    for key in KEYS.iter().copied().chain([4]) {
        let found = by_id(&short_id(key));
        if model.tags.values().any(|k| *k == key) {
            ensure!(found.is_some(), "identity not found", "identity of {key} is not found");
            check_key(key, &found.unwrap())?;
        } else {
            ensure!(found.is_none(), "unknown identity found", "identity of {key} is found");
        }
    }
    Ok(())
}

fn check_keystore(model: &Model, keystore: &Keystore) -> Step {
    ensure!(
        keystore.keys().len() == model.tags.len(),
        "number of keys",
        "{} keys instead of {}",
        keystore.keys().len(),
        model.tags.len()
    );
    for (id, key) in keystore.keys() {
        ensure!(id == key.id(), "key under another identity", "{} under {id}", key.id());
    }
    check(
        model,
        &|tag| keystore.key_by_tag(tag).ok().cloned(),
        &|id| keystore.key_by_id(id).ok().cloned(),
    )
}

fn histories(ch: &mut Chooser<'_>, depth: usize) -> Step {
    let mut keystore = Keystore::default();
    let mut model = Model::default();
    for i in 0..depth {
        let (key, tag) = (ch.one_of(&KEYS), ch.one_of(&TAGS));
        ch.note(|| format!("add key {key} with tag {tag}"));
        ch.step();
        let res = keystore.add_key(secret(key), tag);
        let expected = model.add(key, tag);
        ensure!(
            res.is_ok() == expected,
            "result of an addition",
            "adding key {key} with tag {tag} gives {:?}",
            res.map_err(|e| e.to_string())
        );
        if let Ok(id) = &res {
            ensure!(*id == short_id(key), "identity of the added key", "{id} is returned");
        }
        ch.observe(res.is_ok());
        ch.visit(hash_of(&model));
        // Earlier states were checked by the shorter histories
        if i + 1 == depth || !expected {
            check_keystore(&model, &keystore)?;
        }
    }
    Ok(())
}

/// The same through the builder and the node
fn built(ch: &mut Chooser<'_>, depth: usize) -> Step {
    world::reset(1);
    let mut model = Model::default();
    let len = ch.choose(depth + 1);
    let items: Vec<_> = (0..len)
        .map(|_| (ch.one_of(&KEYS), ch.one_of(&TAGS)))
        .collect();
    let one_by_one = ch.flag();
    ch.note(|| format!("{items:?}, one by one: {one_by_one}"));
    ch.step();
    let expected = items.iter().all(|(key, tag)| model.add(*key, *tag));
    let res = if one_by_one {
        items
            .iter()
            .try_fold(Keystore::builder(), |b, (key, tag)| b.with_tagged_key(secret(*key), *tag))
    } else {
        let (first, second) = items.split_at(len / 2);
        let secrets = |items: &[(u8, usize)]| -> Vec<_> {
            items.iter().map(|(key, tag)| (secret(*key), *tag)).collect()
        };
        Keystore::builder()
            .with_tagged_keys(secrets(first))
            .and_then(|b| b.with_tagged_keys(secrets(second)))
    };
    ensure!(
        res.is_ok() == expected,
        "result of a builder",
        "{items:?} gives {:?}",
        res.map(|_| ()).map_err(|e| e.to_string())
    );
    ch.observe(res.is_ok());
    ch.visit(hash_of(&items));
    if let Ok(builder) = res {
        let keystore = builder.build();
        check_keystore(&model, &keystore)?;
        let node = Node::new(world::addr(0), keystore, Default::default(), None).unwrap();
        check(
            &model,
            &|tag| node.key_by_tag(tag).ok().cloned(),
            &|id| node.key_by_id(id).ok().cloned(),
        )?;
    }
    Ok(())
}

/// Ids of any secret key
fn identities(ch: &mut Chooser<'_>) -> Step {
    let byte = ch.choose(256) as u8;
    let position = ch.choose(32);
    let mut bytes = [0x33; 32];
    bytes[position] = byte;
    let (full, short) = everscale_crypto::ed25519::SecretKey::from_bytes(bytes).compute_node_ids();
    let key = Key::from_bytes(bytes);
    ch.step();
    ensure!(
        key.id() == &short && key.full_id() == &full && full.compute_short_id() == short,
        "identity of a key",
        "{} instead of {short}",
        key.id()
    );
    let signature = key.sign(Data(vec![byte; 8]));
    ensure!(
        full.verify(Data(vec![byte; 8]), &signature).is_ok()
            && full.verify(Data(vec![byte; 9]), &signature).is_err(),
        "wrong signature",
        "{bytes:?}"
    );
    ch.visit(hash_of(&bytes));
    Ok(())
}

fn main() {
    check_main("C11", |ctx| {
        let depth = ctx.tiered(5, 6);
        ctx.explore(
            Suite {
                name: "histories".to_owned(),
                about: format!("all sequences of {depth} additions of 3 keys with 3 tags, every tag and identity is looked up"),
                bound: 0,
            },
            |ch| histories(ch, depth),
        );
        let depth = ctx.tiered(3, 4);
        ctx.explore(
            Suite {
                name: "built".to_owned(),
                about: format!("all sequences of up to {depth} additions through the builder, looked up in the keystore and the node"),
                bound: 0,
            },
            |ch| built(ch, depth),
        );
        ctx.explore(
            Suite {
                name: "identities".to_owned(),
                about: "identities and signatures of all keys which differ in one byte".to_owned(),
                bound: 0,
            },
            identities,
        );
    })
}
