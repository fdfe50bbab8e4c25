//! P37: whom a node is connected to.
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

use bytes::{Bytes, BytesMut};
use core_network::NetworkConfig;
use pbt::{check, check_eq, fail, Facet, Gen, Prop, Res};
use protocol::traits::{Context, Network, PeerTag};
use tentacle::error::DialerErrorKind;
use tentacle::multiaddr::Multiaddr;
use tentacle::secio::{PeerId, SecioKeyPair};
use tentacle::service::{ServiceError, SessionType};
use tentacle::{ProtocolId, SessionId};

use crate::world::*;

const CHAIN: u64 = 2022;
const START: u64 = 1_700_000_000_000;
const DAY: u64 = 24 * 3600 * 1000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Way {
    In,
    Out,
}

impl Way {
    fn ty(self) -> SessionType {
        match self {
            Way::In => SessionType::Inbound,
            Way::Out => SessionType::Outbound,
        }
    }
}

struct Conn {
    sid: usize,
    way: Way,
    identified: bool,
    asked_nodes: bool,
    gave_nodes: bool,
}

/// Peers there may be; some share an address.
struct Peer {
    key: SecioKeyPair,
    id: PeerId,
    ip: String,
    addr: Multiaddr,
}

fn peer(i: usize, ip: String) -> Peer {
    let key = key(10 + i);
    let id = key.peer_id();
    Peer { addr: addr(&ip, 3000 + i as u16, &id), key, id, ip }
}

struct Case {
    w: World,
    peers: Vec<Peer>,
    conns: BTreeMap<usize, Conn>,
    consensus: BTreeSet<usize>,
    bootstraps: BTreeSet<usize>,
    bans: BTreeMap<String, u64>,
    now: u64,
    max_in: usize,
    max_out: usize,
}

impl Case {
    fn banned(&self, i: usize) -> bool {
        self.bans.get(&self.peers[i].ip).map_or(false, |u| *u > self.now)
    }

    fn count(&self, way: Way) -> usize {
        self.conns.values().filter(|c| c.way == way).count()
    }

    fn allowed(&self, i: usize, way: Way) -> bool {
        let limit = if way == Way::In { self.max_in } else { self.max_out };
        let room = self.count(way) < limit && self.conns.len() < self.max_in + self.max_out;
        self.bootstraps.contains(&i) || self.consensus.contains(&i) || (room && !self.banned(i))
    }

    fn ban(&mut self, i: usize, until: u64) {
        self.bans.insert(self.peers[i].ip.clone(), until);
    }

    /// What the node asked for since the last time: sessions to end, protocols to open.
    fn asked(&mut self) -> (Vec<usize>, Vec<(usize, Vec<usize>)>) {
        let (mut end, mut open) = (vec![], vec![]);
        for (_, x) in std::mem::take(&mut self.w.asked) {
            match x {
                Asked::Disconnect(s) => end.push(s),
                Asked::Open(s, p) => open.push((s, p)),
                Asked::Dial(..) => {}
            }
        }
        (end, open)
    }

    fn state(&self) -> Res {
        let want: BTreeSet<PeerId> = self.conns.keys().map(|i| self.peers[*i].id.clone()).collect();
        let got: BTreeSet<PeerId> = self.w.nodes[0].peers.with_registry(|r| r.peers.keys().cloned().collect());
        check_eq!(got, want, "peers", "the peers the node is connected to");
        let n = self.w.nodes[0].handle.peer_count(Context::new()).map_err(|e| fail("peer-count", e.to_string()))?;
        check_eq!(n, want.len(), "peer-count", "the number of peers");
        self.w.quiet()
    }

    async fn open(&mut self, g: &mut Gen, i: usize, way: Way) -> Res {
        let p = &self.peers[i];
        let address = match way {
            Way::Out => p.addr.clone(),
            Way::In => addr(&p.ip, g.range(10_000, 60_000) as u16, &p.id),
        };
        let allowed = self.allowed(i, way);
        let why = format!(
            "peer {i} ({}; consensus: {}, bootstrap: {}, banned: {}) connects {way:?}, there are {} of {} in and {} of {} out",
            p.ip, self.consensus.contains(&i), self.bootstraps.contains(&i), self.banned(i), self.count(Way::In), self.max_in, self.count(Way::Out), self.max_out
        );
        g.note(|| why.clone());
        let key = p.key.clone();
        let banned = self.banned(i);
        let sid = self.w.outsider(0, way.ty(), address, &key).await;
        self.w.commands().await;
        let (end, _) = self.asked();
        if allowed {
            check!(end.is_empty(), "refused", "{why}: it is refused");
            self.conns.insert(i, Conn { sid, way, identified: false, asked_nodes: false, gave_nodes: false });
            self.w.open(0, sid, &[IDENTIFY]).await;
            self.w.commands().await;
            g.label("accepted");
            g.label_if(self.conns.len() > self.max_in + self.max_out, "accepted over the limit");
            g.label_if(banned, "accepted though banned");
        } else {
            check_eq!(end, vec![sid], "accepted", "{why}: the sessions ended");
            g.label(if banned { "refused, banned" } else { "refused, no room" });
            g.hit();
        }
        Ok(())
    }

    async fn arrive(&mut self, sid: usize, proto: usize, data: Bytes) {
        let frame = self.w.nodes[0].parts.frame(ProtocolId::new(proto), data).unwrap();
        self.w.arrive(0, sid, proto, frame).await
    }

    async fn identify(&mut self, g: &mut Gen, i: usize) -> Res {
        let c = &self.conns[&i];
        let (sid, way, again) = (c.sid, c.way, c.identified);
        let a = self.peers[i].addr.clone();
        let fresh = |k: u64, ip: &str| addr(ip, 7000 + k as u16, &self.peers[i].id);
        let kind = g.weighted(&[8, 2, 1, 1, 1]);
        let mut listens: Vec<Multiaddr> = vec![];
        let data = match kind {
            0 | 1 => {
                let max = if g.chance(1, 5) { 12 } else { 4 };
                for _ in 0..g.below(max) {
                    let k = g.below(50);
                    let ip = (*g.pick(&["7.7.7.7", "7.7.8.8", "10.0.0.7", "127.0.0.1", "192.168.3.4", "fe80::1", "2a00::7"])).to_owned();
                    listens.push(fresh(k, &ip));
                }
                identity(if kind == 0 { CHAIN } else { *g.pick(&[CHAIN + 1, 0, 20220, 202]) }, &listens, &a)
            }
            2 => Bytes::from(vec![0x0a, 0x10, 1]),
            3 => wire::bytes(&wire::Identity { chain_id: CHAIN.to_string(), addr_info: None }),
            _ => {
                for _ in 0..11 {
                    let k = g.below(50);
                    listens.push(fresh(k, "7.7.9.9"));
                }
                identity(CHAIN, &listens, &a)
            }
        };
        let bad = kind != 0 || again || listens.len() > 10;
        let why = format!("peer {i} ({way:?}) identifies itself: kind {kind}, {} addresses, again: {again}", listens.len());
        g.note(|| why.clone());
        self.arrive(sid, IDENTIFY, data).await;
        let (end, open) = self.asked();
        if bad {
            check_eq!(end, vec![sid], "identify-accepted", "{why}: the sessions ended");
            self.conns.remove(&i);
            g.label("bad identification");
            g.hit();
            return Ok(());
        }
        check!(end.is_empty(), "identify-refused", "{why}: the session is ended");
        let want = if way == Way::Out { vec![(sid, vec![PING, IDENTIFY, DISCOVERY, TRANSMITTER])] } else { vec![] };
        check_eq!(open, want, "identify-open", "{why}: the protocols opened");
        self.conns.get_mut(&i).unwrap().identified = true;
        if way == Way::In {
            self.w.open(0, sid, &[PING, DISCOVERY, TRANSMITTER]).await;
            self.w.commands().await;
        }
        self.asked();
        // What can be reached of what it said is remembered, the rest is not.
        let known: Vec<Multiaddr> = self.w.nodes[0].peers.with_peer_store(|s| s.addr_manager().addrs_iter().map(|a| a.addr.clone()).collect());
        for l in &listens {
            let reachable = ["7.7.7.7", "7.7.8.8", "2a00::7"].iter().any(|ip| l.to_string().contains(ip));
            let sock = tentacle::utils::multiaddr_to_socketaddr(l);
            let is = known.iter().any(|k| tentacle::utils::multiaddr_to_socketaddr(k) == sock);
            check_eq!(is, reachable, "listen-address", "{why}: whether {l} is remembered");
        }
        g.label("good identification");
        Ok(())
    }

    /// The session of peer `i` must end now.
    fn ends(&mut self, g: &mut Gen, i: usize, why: &str) -> Res {
        let c = self.conns.remove(&i).unwrap();
        let (end, _) = self.asked();
        check_eq!(end, vec![c.sid], "not-ended", "{why}: the sessions ended");
        g.label("ended");
        g.hit();
        Ok(())
    }

    fn stays(&mut self, why: &str) -> Res {
        let (end, _) = self.asked();
        check!(end.is_empty(), "ended", "{why}: the session was ended");
        Ok(())
    }

    async fn discovery(&mut self, g: &mut Gen, i: usize) -> Res {
        let sid = self.conns[&i].sid;
        if !self.w.nodes[0].sessions[&sid].open.contains(&DISCOVERY) {
            return Ok(());
        }
        let some = |n: u64| Bytes::from(addr("7.9.9.9", 1 + n as u16, &self.peers[i].id).to_vec());
        let (name, data, bad): (&str, BytesMut, bool) = match g.below(6) {
            0 | 1 => {
                let n = *g.pick(&[0u32, 1, 3, 1000, 1001, u32::MAX]);
                let port = if g.bool() { Some(g.range(1, 70_000) as u32) } else { None };
                let mut m = vec![];
                field_varint(&mut m, 1, g.below(3));
                field_varint(&mut m, 2, n as u64);
                if let Some(p) = port {
                    field_varint(&mut m, 3, p as u64);
                }
                let mut out = vec![];
                field_bytes(&mut out, 1, &m);
                let again = self.conns[&i].asked_nodes;
                self.conns.get_mut(&i).unwrap().asked_nodes = true;
                self.w.sent.clear();
                let why = format!("peer {i} asks for {n} addresses (again: {again}, port {port:?})");
                g.note(|| why.clone());
                self.arrive(sid, DISCOVERY, Bytes::from(out)).await;
                if again {
                    return self.ends(g, i, &why);
                }
                self.stays(&why)?;
                let s: Vec<&Sent> = self.w.sent.iter().map(|(_, s)| s).filter(|s| s.proto == DISCOVERY).collect();
                check!(s.len() == 1 && s[0].to == [sid], "no-nodes", "{why}: it got {} answers", s.len());
                let got = nodes_in(&s[0].data).ok_or_else(|| fail("nodes-malformed", format!("{why}: {:?}", s[0].data)))?;
                check!(got.len() <= (n as usize).min(1000), "too-many-nodes", "{why}: it got {}", got.len());
                for a in got {
                    let a = Multiaddr::try_from(a).map_err(|e| fail("nodes-malformed", format!("{why}: {e}")))?;
                    let ip = tentacle::utils::multiaddr_to_socketaddr(&a).map(|s| s.ip());
                    check!(ip.map_or(false, tentacle::utils::is_reachable), "unreachable-node", "{why}: it got {a}");
                    g.label("addresses handed on");
                }
                return Ok(());
            }
            2 => {
                let again = self.conns[&i].gave_nodes;
                self.conns.get_mut(&i).unwrap().gave_nodes = true;
                let n = g.below(4);
                let items: Vec<Vec<Bytes>> = (0..n).map(|k| vec![some(k)]).collect();
                ("some addresses", nodes(false, &items), again)
            }
            3 => {
                let n = *g.pick(&[1usize, 9, 10, 11, 12]);
                ("an announcement", nodes(true, &vec![vec![some(1)]; n]), n > 10)
            }
            4 => {
                let n = g.usize(1, 5);
                ("an item of several addresses", nodes(true, &[(0..n as u64).map(some).collect::<Vec<_>>()]), n > 3)
            }
            _ => ("garbage", BytesMut::from(&[0x0a, 9, 1, 2][..]), true),
        };
        let why = format!("peer {i} sends {name} ({} bytes)", data.len());
        g.note(|| why.clone());
        self.arrive(sid, DISCOVERY, data.freeze()).await;
        if bad {
            self.ends(g, i, &why)
        } else {
            self.stays(&why)
        }
    }

    async fn ping(&mut self, g: &mut Gen, i: usize) -> Res {
        let sid = self.conns[&i].sid;
        if !self.w.nodes[0].sessions[&sid].open.contains(&PING) {
            return Ok(());
        }
        let nonce = g.u32();
        let mut m = vec![];
        if g.bool() {
            field_varint(&mut m, 1, nonce as u64);
            self.w.sent.clear();
            self.arrive(sid, PING, Bytes::from(m)).await;
            self.stays("a ping")?;
            let mut pong = vec![];
            field_varint(&mut pong, 2, nonce as u64);
            let ok = matches!(&self.w.sent[..], [(_, s)] if s.proto == PING && s.to == [sid] && s.data == pong);
            check!(ok, "pong", "the ping {nonce} of session {sid} got {:?}", self.w.sent);
            g.label("ping");
        } else if g.bool() {
            // The node's own ping, answered.
            let l = self.w.nodes[0].listens.clone();
            self.w.sent.clear();
            self.w.nodes[0].parts.notify(ProtocolId::new(PING), &l, 0).await;
            self.w.commands().await;
            let pings: Vec<(Vec<usize>, Bytes)> = self.w.sent.iter().filter(|(_, s)| s.proto == PING).map(|(_, s)| (s.to.clone(), s.data.clone())).collect();
            for (to, data) in pings {
                for s in to {
                    let mut pong = data.to_vec();
                    check!(pong.first() == Some(&0x08), "ping-malformed", "a ping is {:?}", pong);
                    pong[0] = 0x10;
                    let wrong = g.chance(1, 4);
                    if wrong {
                        pong[1] ^= 0x15;
                    }
                    let Some((i, _)) = self.conns.iter().find(|(_, c)| c.sid == s).map(|(i, c)| (*i, c.sid)) else { continue };
                    g.note(|| format!("peer {i} is pinged, and answers (wrong: {wrong})"));
                    self.arrive(s, PING, Bytes::from(pong)).await;
                    if wrong {
                        self.ends(g, i, "a wrong pong")?
                    } else {
                        self.stays("a pong")?
                    }
                    g.label("pong");
                }
            }
        } else {
            field_varint(&mut m, 2, 0xffff_0000 | nonce as u64);
            g.note(|| format!("peer {i} answers a ping there was not"));
            self.arrive(sid, PING, Bytes::from(m)).await;
            self.ends(g, i, "a pong without a ping")?
        }
        Ok(())
    }
}

fn varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

fn field_varint(out: &mut Vec<u8>, tag: u64, v: u64) {
    varint(out, tag << 3);
    varint(out, v);
}

fn field_bytes(out: &mut Vec<u8>, tag: u64, v: &[u8]) {
    varint(out, tag << 3 | 2);
    varint(out, v.len() as u64);
    out.extend_from_slice(v);
}

fn nodes(announce: bool, items: &[Vec<Bytes>]) -> BytesMut {
    let mut m = vec![];
    if announce {
        field_varint(&mut m, 1, 1);
    }
    for i in items {
        let mut node = vec![];
        for a in i {
            field_bytes(&mut node, 1, a);
        }
        field_bytes(&mut m, 2, &node);
    }
    let mut out = vec![];
    field_bytes(&mut out, 2, &m);
    BytesMut::from(&out[..])
}

mod nodes_wire {
    #[derive(Clone, PartialEq, Eq, prost::Message)]
    pub struct Node {
        #[prost(bytes, repeated, tag = "1")]
        pub addrs: Vec<Vec<u8>>,
    }
    #[derive(Clone, PartialEq, Eq, prost::Message)]
    pub struct Nodes {
        #[prost(bool, tag = "1")]
        pub announce: bool,
        #[prost(message, repeated, tag = "2")]
        pub items: Vec<Node>,
    }
    #[derive(Clone, PartialEq, Eq, prost::Message)]
    pub struct Message {
        #[prost(message, tag = "2")]
        pub nodes: Option<Nodes>,
    }
}

/// The addresses in a list that is no announcement.
fn nodes_in(data: &Bytes) -> Option<Vec<Vec<u8>>> {
    let m = <nodes_wire::Message as prost::Message>::decode(data.clone()).ok()?.nodes?;
    (!m.announce).then(|| m.items.into_iter().flat_map(|n| n.addrs).collect())
}

fn setup(g: &mut Gen, dir: &std::path::Path, shared: bool) -> Case {
    let n = g.usize(3, 7);
    let peers: Vec<Peer> = (0..n).map(|i| peer(i, format!("9.1.{}.1", if shared { i / 2 } else { i }))).collect();
    let (max_in, max_out) = (g.usize(1, 3), g.usize(1, 3));
    let bootstraps: BTreeSet<usize> = (0..n).filter(|_| g.chance(1, 5)).collect();
    let mut config = NetworkConfig::new().chain_id(CHAIN).peer_store_dir(dir.to_path_buf());
    config.secio_keypair = key(0);
    config.inbound_conn_limit = max_in;
    let mut boots: Vec<Multiaddr> = bootstraps.iter().map(|i| peers[*i].addr.clone()).collect();
    let own = addr("8.1.1.1", 1000, &key(0).peer_id());
    if g.bool() {
        boots.push(own.clone());
    }
    let config = config.max_connections(Some(max_in + max_out)).unwrap().bootstraps(boots);
    let mut w = World::new(vec![Node::new(config, key(0), own)]);
    w.dialing = false;
    Case { w, peers, conns: BTreeMap::new(), consensus: BTreeSet::new(), bootstraps, bans: BTreeMap::new(), now: START, max_in, max_out }
}

/// Sessions come and go, peers behave and misbehave.
fn sessions(g: &mut Gen) -> Res {
    let dir = tempfile::tempdir().unwrap();
    let mut c = setup(g, dir.path(), true);
    let n = c.peers.len();
    run(async {
        c.w.init().await;
        for _ in 0..g.usize(4, 30) {
            let online: Vec<usize> = c.conns.keys().copied().collect();
            let offline: Vec<usize> = (0..n).filter(|i| !online.contains(i)).collect();
            let kind = g.weighted(&[8, 3, 2, 2, 3, 2, 2, 2, 1]);
            if (online.is_empty() && ![0, 4, 5].contains(&kind)) || (offline.is_empty() && kind == 0) {
                continue;
            }
            match kind {
                0 => {
                    let i = *g.pick(&offline);
                    let way = if g.bool() { Way::In } else { Way::Out };
                    c.open(g, i, way).await?;
                    if c.conns.contains_key(&i) && g.chance(2, 3) {
                        c.identify(g, i).await?
                    }
                }
                1 => {
                    let i = *g.pick(&online);
                    c.identify(g, i).await?
                }
                2 => {
                    let i = *g.pick(&online);
                    let sid = c.conns[&i].sid;
                    g.note(|| format!("peer {i} leaves"));
                    c.w.close(0, sid).await;
                    c.conns.remove(&i);
                    c.w.commands().await;
                }
                3 => {
                    let i = *g.pick(&online);
                    let sid = c.conns[&i].sid;
                    g.note(|| format!("peer {i} breaks the protocol"));
                    if g.bool() {
                        let e = ServiceError::ProtocolError {
                            id: SessionId::new(sid),
                            proto_id: ProtocolId::new(IDENTIFY),
                            error: std::io::ErrorKind::InvalidData.into(),
                        };
                        c.w.error(0, e).await;
                    } else {
                        // Not what a packed message looks like.
                        c.w.arrive(0, sid, IDENTIFY, BytesMut::from(&[0u8, 0, 0, 3, 0x80, 0xff, 0xff][..])).await;
                    }
                    c.w.commands().await;
                    c.ban(i, c.now + 300_000);
                    c.ends(g, i, "a protocol error")?;
                }
                4 => {
                    let ids = |c: &Case, s: &BTreeSet<usize>| s.iter().map(|i| Bytes::from(c.peers[*i].id.clone().into_bytes())).collect::<Vec<_>>();
                    let i = g.usize(0, n - 1);
                    let id = Bytes::from(c.peers[i].id.clone().into_bytes());
                    let h = c.w.nodes[0].handle.clone();
                    let r = match g.below(4) {
                        0 => {
                            let s: BTreeSet<usize> = (0..n).filter(|_| g.chance(1, 3)).collect();
                            g.note(|| format!("the consensus peers are {s:?}"));
                            let r = h.tag_consensus(Context::new(), ids(&c, &s));
                            c.consensus = s;
                            r
                        }
                        1 => {
                            g.note(|| format!("peer {i} is no consensus peer"));
                            c.consensus.remove(&i);
                            h.untag(Context::new(), id, &PeerTag::Consensus)
                        }
                        2 => {
                            g.note(|| format!("peer {i} is a consensus peer"));
                            c.consensus.insert(i);
                            h.tag(Context::new(), id, PeerTag::Consensus)
                        }
                        _ => {
                            let bad = Bytes::from(g.bytes(40));
                            let r = h.tag(Context::new(), bad.clone(), PeerTag::Consensus);
                            check!(r.is_err(), "tags-nobody", "a tag for the peer {:?} is accepted", bad);
                            h.untag(Context::new(), id, &PeerTag::AlwaysAllow)
                        }
                    };
                    check!(r.is_ok(), "tag", "a tag is refused: {:?}", r.err().map(|e| e.to_string()));
                    c.w.commands().await;
                    c.stays("a tag")?
                }
                5 => {
                    let ms = *g.pick(&[1u64, 60_000, 299_999, 300_000, 300_001, DAY]);
                    g.note(|| format!("{ms} ms pass"));
                    c.now += ms;
                    faketime::set(Some(c.now));
                }
                6 => {
                    let i = *g.pick(&online);
                    c.discovery(g, i).await?
                }
                7 => {
                    let i = *g.pick(&online);
                    c.ping(g, i).await?
                }
                _ => {
                    let i = *g.pick(&online);
                    let until = *g.pick(&[u64::MAX, START * 2, u64::MAX - START]);
                    g.note(|| format!("peer {i} is banned until {until}"));
                    let id = Bytes::from(c.peers[i].id.clone().into_bytes());
                    let h = c.w.nodes[0].handle.clone();
                    h.tag(Context::new(), id, PeerTag::Ban { until }).map_err(|e| fail("tag", e.to_string()))?;
                    c.ban(i, until);
                    c.w.commands().await;
                    c.ends(g, i, "a ban")?
                }
            }
            c.w.asked.clear();
            c.state()?;
        }
        Ok(())
    })
}

/// The node looks for peers by itself.
fn dials(g: &mut Gen) -> Res {
    let dir = tempfile::tempdir().unwrap();
    let mut c = setup(g, dir.path(), false);
    let n = c.peers.len();
    run(async {
        c.w.init().await;
        let own = c.w.nodes[0].addr.clone();
        // What it knows of the peers: never met, met long ago, met lately.
        for i in 0..n {
            let t = *g.pick(&[None, Some(20 * DAY), Some(4 * DAY), Some(2 * DAY), Some(60_000), Some(1_000)]);
            let a = c.peers[i].addr.clone();
            c.w.nodes[0].peers.with_peer_store_mut(|s| match t {
                None => drop(s.add_addr(a)),
                Some(t) => {
                    faketime::set(Some(START - t));
                    s.add_outbound_addr(a);
                    faketime::set(Some(START));
                }
            });
            g.note(|| format!("peer {i} was met {t:?} ms ago"));
        }
        for i in 0..n {
            if g.chance(1, 6) {
                c.consensus.insert(i);
                let id = Bytes::from(c.peers[i].id.clone().into_bytes());
                c.w.nodes[0].handle.tag(Context::new(), id, PeerTag::Consensus).map_err(|e| fail("tag", e.to_string()))?;
            }
        }
        for i in 0..n {
            if g.chance(1, 3) {
                let way = if g.chance(2, 3) { Way::In } else { Way::Out };
                c.open(g, i, way).await?;
            }
        }
        c.w.asked.clear();
        let service = c.w.nodes[0].service.take().unwrap();
        tokio::spawn(service.run());
        let mut alone = 0;
        for round in 0..g.usize(2, 9) {
            if round > 0 {
                c.now += 10_000;
                faketime::set(Some(c.now));
            }
            // Known addresses worth trying, before the round changes what is known of them.
            let now = c.now;
            let online: BTreeSet<PeerId> = c.conns.keys().map(|i| c.peers[*i].id.clone()).collect();
            let known: Vec<(usize, u64, bool)> = c.w.nodes[0].peers.with_peer_store(|s| {
                s.addr_manager()
                    .addrs_iter()
                    .filter_map(|a| {
                        let i = c.peers.iter().position(|p| p.addr == a.addr)?;
                        Some((i, a.last_connected_at_ms, a.is_connectable(now)))
                    })
                    .collect()
            });
            let good: BTreeSet<usize> = known
                .iter()
                .filter(|(i, t, ok)| *ok && !online.contains(&c.peers[*i].id) && *t > now - 3 * DAY && *t <= now - 15_000)
                .map(|(i, _, _)| *i)
                .collect();
            if round > 0 {
                tokio::time::advance(Duration::from_secs(10)).await;
            }
            c.w.commands().await;
            let mut dialed = vec![];
            for (_, x) in std::mem::take(&mut c.w.asked) {
                match x {
                    Asked::Dial(a, p) => {
                        check_eq!(p, vec![IDENTIFY], "dial-protocols", "the protocols dialed at {a}");
                        if a == own {
                            // It may look whether it can be reached itself.
                            continue;
                        }
                        let Some(i) = c.peers.iter().position(|p| p.addr == a) else {
                            return Err(fail("dials-unknown", format!("round {round}: {a} is dialed, which nobody told the node")));
                        };
                        check!(!c.conns.contains_key(&i), "dials-connected", "round {round}: peer {i} is dialed, and connected");
                        let feeler = c.w.nodes[0].peers.with_registry(|r| r.is_feeler(&a));
                        dialed.push((i, feeler));
                    }
                    x => return Err(fail("asks-else", format!("round {round}: {x:?}"))),
                }
            }
            g.note(|| format!("round {round}: the node dials {dialed:?} (feeler); worth trying {good:?}; {} in, {} out", c.count(Way::In), c.count(Way::Out)));
            let mut seen = BTreeSet::new();
            check!(dialed.iter().all(|(i, _)| seen.insert(*i)), "dials-twice", "round {round}: a peer is dialed twice: {:?}", dialed);
            let feelers = dialed.iter().filter(|(_, f)| *f).count();
            check!(feelers <= 10, "feelers", "round {round}: {feelers} feelers");
            let room = c.max_out.saturating_sub(c.count(Way::Out));
            let plain: BTreeSet<usize> = dialed.iter().filter(|(_, f)| !*f).map(|(i, _)| *i).collect();
            // Consensus peers are looked for wherever they may be.
            for i in c.consensus.intersection(&good) {
                check!(plain.contains(i), "consensus-not-dialed", "round {round}: consensus peer {i} is not connected and not dialed: {:?}", dialed);
                g.label("consensus peer dialed");
            }
            if round > 0 || c.bootstraps.is_empty() {
                let others = plain.iter().filter(|i| !(c.consensus.contains(i) && good.contains(i))).count();
                check!(others <= room, "dials-too-many", "round {round}: there is room for {room} peers, and {others} are dialed");
                let want = room.min(good.len()).saturating_sub(c.consensus.intersection(&good).count());
                let boots = c.bootstraps.iter().filter(|i| !c.conns.contains_key(i)).count();
                check!(others + boots.min(room) >= want, "dials-too-few", "round {round}: there is room for {room} peers, {} are worth trying, {others} are dialed", good.len());
                g.label_if(want > 0, "peers worth dialing");
                g.label_if(room == 0, "no room");
                if want > 0 || room == 0 {
                    g.hit();
                }
            } else {
                for i in c.bootstraps.iter().filter(|i| !c.conns.contains_key(i)) {
                    check!(plain.contains(i), "bootstrap-at-start", "bootstrap peer {i} is not dialed at the start: {:?}", dialed);
                }
            }
            let waiting = c.bootstraps.iter().any(|i| !c.conns.contains_key(i));
            if round > 0 && room > 0 && waiting && !plain.iter().any(|i| c.bootstraps.contains(i)) {
                alone += 1;
            } else {
                alone = 0;
            }
            check!(alone < 5, "bootstraps-forgotten", "for {alone} rounds there was room and no bootstrap was dialed");
            // The dials end one way or another.
            for (i, feeler) in dialed {
                let p = &c.peers[i];
                if g.chance(1, 3) {
                    let (key, a) = (p.key.clone(), p.addr.clone());
                    if !feeler {
                        c.open(g, i, Way::Out).await?;
                        continue;
                    }
                    let sid = c.w.outsider(0, SessionType::Outbound, a.clone(), &key).await;
                    c.w.open(0, sid, &[IDENTIFY]).await;
                    c.w.commands().await;
                    let id = identity(CHAIN, &[], &a);
                    c.arrive(sid, IDENTIFY, id).await;
                    let (end, open) = c.asked();
                    check_eq!(open, vec![(sid, vec![FEELER])], "feeler-open", "the protocols opened to a feeler");
                    check_eq!(end, vec![sid], "feeler-ends", "the sessions ended");
                    let met = c.w.nodes[0].peers.with_peer_store(|s| s.addr_manager().get(&a).map(|a| a.last_connected_at_ms));
                    check_eq!(met, Some(c.now), "feeler-met", "when the node met {a}, which it just probed");
                    g.label("feeler reached");
                } else {
                    let address = p.addr.clone();
                    let error = DialerErrorKind::IoError(std::io::ErrorKind::ConnectionRefused.into());
                    c.w.error(0, ServiceError::DialerError { address, error }).await;
                }
            }
            c.w.asked.clear();
            if g.chance(1, 4) && !c.conns.is_empty() {
                let online: Vec<usize> = c.conns.keys().copied().collect();
                let i = *g.pick(&online);
                let sid = c.conns.remove(&i).unwrap().sid;
                g.note(|| format!("peer {i} leaves"));
                c.w.close(0, sid).await;
            }
            c.state()?;
        }
        Ok(())
    })
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P37",
        rule: "a session was refused or ended for a reason the node has, or the node dialed with room for peers, or had none",
        assume: vec!["tentacle is replaced by a stand-in; time is the check's except where the node measures it itself (timeouts of pings and identification)"],
        facets: vec![Facet::new("sessions", 3000, sessions).deep(12), Facet::new("dials", 2000, dials).deep(12)],
    }]
}
