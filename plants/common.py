COMMON = '''
use std::net::{Ipv4Addr, SocketAddrV4};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use crate::adnl::*;
use crate::subscriber::*;

#[derive(Default)]
struct App {
    messages: Mutex<Vec<Vec<u8>>>,
}

#[async_trait::async_trait]
impl MessageSubscriber for App {
    async fn try_consume_custom<'a>(&self, _: SubscriberContext<'a>, _: u32, data: &'a [u8]) -> anyhow::Result<bool> {
        self.messages.lock().unwrap().push(data.to_vec());
        Ok(true)
    }
}

#[async_trait::async_trait]
impl QuerySubscriber for App {
    async fn try_consume_query<'a>(
        &self,
        _: SubscriberContext<'a>,
        _: u32,
        query: std::borrow::Cow<'a, [u8]>,
    ) -> anyhow::Result<QueryConsumingResult<'a>> {
        Ok(QueryConsumingResult::Consumed(Some(query.iter().rev().copied().collect())))
    }
}

fn free_port() -> u16 {
    std::net::UdpSocket::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()
}

#[allow(unused)]
fn node(key: u8) -> (Arc<Node>, Arc<App>, NodeIdShort, NodeIdFull) {
    let keystore = Keystore::builder().with_tagged_key([key; 32], 0).unwrap().build();
    let node = Node::new(
        SocketAddrV4::new(Ipv4Addr::LOCALHOST, free_port()),
        keystore,
        NodeOptions::default(),
        None,
    )
    .unwrap();
    let app = Arc::new(App::default());
    node.add_message_subscriber(app.clone()).unwrap();
    node.add_query_subscriber(app.clone()).unwrap();
    let key = node.key_by_tag(0).unwrap();
    let (short, full) = (*key.id(), *key.full_id());
    (node, app, short, full)
}
'''
