//! P38: what a node remembers of its peers.
use std::collections::{BTreeMap, BTreeSet};
use std::net::IpAddr;
use std::sync::Arc;

use core_network::peer_manager::{AddrInfo, PeerInfo, PeerStore};
use core_network::{NetworkConfig, PeerManager};
use pbt::{check, check_eq, fail, no_panic, Facet, Gen, Prop, Res};
use tentacle::context::SessionContext;
use tentacle::multiaddr::Multiaddr;
use tentacle::secio::PeerId;
use tentacle::service::SessionType;
use tentacle::SessionId;

use crate::world::*;

const START: u64 = 1_700_000_000_000;
const SECOND: u64 = 1000;
const MINUTE: u64 = 60 * SECOND;
const DAY: u64 = 24 * 3600 * SECOND;
const LIMIT: usize = 16384;

type Place = (IpAddr, u16);

/// What is known of an address.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Entry {
    addr: String,
    peer: usize,
    met: u64,
    tried: u64,
    tries: u32,
}

impl Entry {
    fn tried_lately(&self, now: u64) -> bool {
        self.tried >= now - MINUTE
    }

    /// Never met and tried thrice, or not met for a week and tried ten times: not worth another try.
    fn worth(&self, now: u64) -> bool {
        let hopeless = (self.met == 0 && self.tries >= 3) || (now.saturating_sub(self.met) > 7 * DAY && self.tries >= 10);
        self.tried_lately(now) || !hopeless
    }

    fn met_within(&self, now: u64, span: u64) -> bool {
        self.met > now - span
    }
}

fn is_test_ip(ip: &IpAddr) -> bool {
    ip.is_unspecified() || ip.is_loopback()
}

struct Model {
    m: PeerManager,
    config: Arc<NetworkConfig>,
    ids: Vec<PeerId>,
    ips: Vec<IpAddr>,
    entries: BTreeMap<Place, Entry>,
    online: BTreeMap<usize, (Multiaddr, usize)>,
    bans: BTreeMap<IpAddr, u64>,
    consensus: BTreeSet<usize>,
    now: u64,
    next: usize,
}

impl Model {
    fn pass(&mut self, ms: u64) {
        self.now += ms;
        faketime::set(Some(self.now));
    }

    fn banned(&self, ip: &IpAddr) -> bool {
        self.bans.get(ip).map_or(false, |u| *u > self.now)
    }

    fn some_addr(&self, g: &mut Gen) -> (Place, usize, Multiaddr) {
        let ip = *g.pick(&self.ips);
        let port = g.range(1, 3) as u16;
        let p = g.usize(0, self.ids.len() - 1);
        ((ip, port), p, addr(&ip.to_string(), port, &self.ids[p]))
    }

    fn learn(&mut self, place: Place, peer: usize, addr: &Multiaddr, met: u64) {
        if self.banned(&place.0) || self.entries.get(&place).map_or(false, |e| met <= e.met) {
            return;
        }
        self.entries.insert(place, Entry { addr: addr.to_string(), peer, met, tried: 0, tries: 0 });
    }

    fn read(&self, a: &AddrInfo) -> Result<Entry, pbt::Stop> {
        let id = tentacle::utils::extract_peer_id(&a.addr).ok_or_else(|| fail("no-peer", format!("{} has no peer", a.addr)))?;
        let peer = self.ids.iter().position(|i| *i == id).ok_or_else(|| fail("no-peer", format!("{} is of nobody", a.addr)))?;
        check_eq!(a.score, 100, "score", "the score of {}", a.addr);
        Ok(Entry { addr: a.addr.to_string(), peer, met: a.last_connected_at_ms, tried: a.last_tried_at_ms, tries: a.attempts_count })
    }

    /// Everything the store knows is what the model knows.
    fn same(&self, when: &str) -> Res {
        let (all, n): (Vec<AddrInfo>, usize) =
            self.m.with_peer_store(|s| (s.addr_manager().addrs_iter().cloned().collect(), s.addr_manager().count()));
        let mut got = all.iter().map(|a| self.read(a)).collect::<Result<Vec<_>, _>>()?;
        got.sort();
        let mut want: Vec<Entry> = self.entries.values().cloned().collect();
        want.sort();
        check_eq!(got, want, "addresses", "{when}: the addresses known");
        check_eq!(n, want.len(), "count", "{when}: their number");
        for ip in &self.ips {
            let a = addr(&ip.to_string(), 1, &self.ids[0]);
            check_eq!(self.m.with_peer_store(|s| s.is_addr_banned(&a)), self.banned(ip), "banned", "{when}: whether {ip} is banned");
        }
        check_eq!(self.m.with_peer_store(|s| s.peer_count()), self.online.len(), "online", "{when}: the number of connected peers");
        Ok(())
    }

    /// Whether what was fetched are some of the fitting addresses, as many as there may be.
    fn fits(&self, g: &mut Gen, what: &str, count: usize, got: &[AddrInfo], ok: impl Fn(&Entry) -> bool) -> Res {
        check!(got.len() <= count, "too-many", "{what}: {} for {count}", got.len());
        let mut ips = BTreeSet::new();
        let mut places = BTreeSet::new();
        for a in got {
            let e = self.read(a)?;
            let sock = tentacle::utils::multiaddr_to_socketaddr(&a.addr).ok_or_else(|| fail("no-place", format!("{what}: {}", a.addr)))?;
            let (ip, place) = (sock.ip(), (sock.ip(), sock.port()));
            let known = self.entries.get(&place);
            check_eq!(Some(&e), known, "fetches-stale", "{what}: what is known of {}", a.addr);
            check!(places.insert(place), "fetched-twice", "{what}: {} twice", a.addr);
            check!(is_test_ip(&ip) || ips.insert(ip), "same-ip", "{what}: {ip} twice");
            check!(ok(&e), "unfit", "{what}: {:?} is no such address at {}", e, self.now);
        }
        let mut sure = 0;
        for ip in &self.ips {
            let there: Vec<&Entry> = self.entries.iter().filter(|(p, _)| p.0 == *ip).map(|(_, e)| e).collect();
            sure += if is_test_ip(ip) {
                there.iter().filter(|e| ok(e)).count()
            } else {
                usize::from(!there.is_empty() && there.iter().all(|e| ok(e)))
            };
        }
        check!(got.len() >= count.min(sure), "too-few", "{what}: {} for {count}, and {sure} fit", got.len());
        g.label_if(sure > count, "more than asked for");
        g.label_if(!got.is_empty(), "addresses fetched");
        g.label_if(got.len() < self.entries.len(), "some addresses do not fit");
        if !got.is_empty() && got.len() < self.entries.len() {
            g.hit();
        }
        Ok(())
    }
}

fn new_model(g: &mut Gen, dir: &std::path::Path) -> Model {
    let n = g.usize(2, 5);
    let ids: Vec<PeerId> = (0..n).map(|i| key(10 + i).peer_id()).collect();
    let all = ["9.1.0.1", "9.1.0.2", "9.2.0.1", "2a00::7", "127.0.0.1", "10.0.0.1", "2a00::8", "9.3.3.3"];
    let k = g.usize(2, all.len());
    let ips = all[..k].iter().map(|s| s.parse().unwrap()).collect();
    let mut config = NetworkConfig::new().chain_id(1).peer_store_dir(dir.join("store"));
    config.secio_keypair = key(0);
    let config = Arc::new(config);
    faketime::set(Some(START));
    Model {
        m: PeerManager::new(Arc::clone(&config)),
        config,
        ids,
        ips,
        entries: BTreeMap::new(),
        online: BTreeMap::new(),
        bans: BTreeMap::new(),
        consensus: BTreeSet::new(),
        now: START,
        next: 1,
    }
}

fn histories(g: &mut Gen) -> Res {
    let r = history(g);
    faketime::set(None);
    r
}

fn history(g: &mut Gen) -> Res {
    let dir = tempfile::tempdir().unwrap();
    let path = dir.path().join("store");
    let mut c = new_model(g, dir.path());
    for step in 0..g.usize(5, 60) {
        let mut when = format!("step {step}: ");
        match g.weighted(&[6, 6, 3, 2, 4, 1, 2, 4, 5, 5, 2, 1, 1, 2]) {
            0 => {
                let (place, p, a) = c.some_addr(g);
                when += &format!("{a} (peer {p}) is heard of");
                let r = c.m.with_peer_store_mut(|s| s.add_addr(a.clone()));
                check!(r.is_ok(), "add", "{when}: refused");
                c.learn(place, p, &a, 0);
            }
            1 => {
                let (place, p, a) = c.some_addr(g);
                when += &format!("{a} (peer {p}) was reached");
                c.m.with_peer_store_mut(|s| s.add_outbound_addr(a.clone()));
                c.learn(place, p, &a, c.now);
            }
            2 => {
                let (_, p, a) = c.some_addr(g);
                if !c.online.contains_key(&p) {
                    let ty = if g.bool() { SessionType::Inbound } else { SessionType::Outbound };
                    when += &format!("peer {p} connects as {a}");
                    let sid = c.next;
                    c.next += 1;
                    let ctx = SessionContext { id: SessionId::new(sid), address: a.clone(), ty, remote_pubkey: None };
                    c.m.register(PeerInfo::new(Arc::new(ctx)));
                    c.online.insert(p, (a, sid));
                }
            }
            3 => {
                let on: Vec<usize> = c.online.keys().copied().collect();
                if !on.is_empty() {
                    let p = *g.pick(&on);
                    let (a, _) = c.online.remove(&p).unwrap();
                    when += &format!("peer {p} leaves");
                    c.m.unregister(&a);
                }
            }
            4 => {
                let (place, _, a) = c.some_addr(g);
                let known = c.entries.contains_key(&place);
                when += &format!("{a} is tried");
                let now = c.now;
                let found = c.m.with_peer_store_mut(|s| s.mut_addr_manager().get_mut(&a).map(|i| i.mark_tried(now)).is_some());
                check_eq!(found, known, "get", "{when}: whether it is known");
                if let Some(e) = c.entries.get_mut(&place) {
                    e.tried = c.now;
                    e.tries += 1;
                }
            }
            5 => {
                let (place, _, a) = c.some_addr(g);
                when += &format!("{a} is forgotten");
                let known = c.entries.remove(&place).is_some();
                let found = c.m.with_peer_store_mut(|s| s.mut_addr_manager().remove(&a)).is_some();
                check_eq!(found, known, "remove", "{when}: whether it was known");
            }
            6 => {
                let on: Vec<usize> = c.online.keys().copied().collect();
                let ms = *g.pick(&[1, MINUTE, 5 * MINUTE, DAY, u64::MAX]);
                if !on.is_empty() {
                    let p = *g.pick(&on);
                    let (a, sid) = c.online[&p].clone();
                    let sock = tentacle::utils::multiaddr_to_socketaddr(&a).unwrap();
                    let until = c.now.saturating_add(ms);
                    if c.bans.get(&sock.ip()).map_or(true, |u| *u <= until) {
                        when += &format!("peer {p} ({a}) is banned for {ms} ms");
                        if g.bool() {
                            let r = c.m.ban_id(&c.ids[p], ms, "a reason".into());
                            check_eq!(r, Some(SessionId::new(sid)), "ban-session", "{when}: the session to end");
                        } else {
                            c.m.ban_session_id(SessionId::new(sid), ms, "a reason".into());
                        }
                        c.bans.insert(sock.ip(), until);
                        c.entries.remove(&(sock.ip(), sock.port()));
                        g.label("banned");
                    }
                }
            }
            7 => {
                let ms = *g.pick(&[1, SECOND, 14 * SECOND, 15 * SECOND, 16 * SECOND, MINUTE, MINUTE + 1, 5 * MINUTE, DAY, 3 * DAY, 7 * DAY]);
                when += &format!("{ms} ms pass");
                c.pass(ms);
            }
            8 => {
                let n = *g.pick(&[1usize, 2, 3, 10, 100]);
                let now = c.now;
                let on: BTreeSet<usize> = c.online.keys().copied().collect();
                match g.below(3) {
                    0 => {
                        when += &format!("{n} addresses to dial");
                        let got = c.m.with_peer_store_mut(|s| s.fetch_addrs_to_attempt(n));
                        c.fits(g, &when, n, &got, |e| {
                            e.worth(now) && !on.contains(&e.peer) && e.met_within(now, 3 * DAY) && e.met <= now - 15 * SECOND
                        })?;
                    }
                    1 => {
                        when += &format!("{n} addresses to probe");
                        let got = c.m.with_peer_store_mut(|s| s.fetch_addrs_to_feeler(n));
                        c.fits(g, &when, n, &got, |e| {
                            e.worth(now) && !on.contains(&e.peer) && !e.tried_lately(now) && !e.met_within(now, 3 * DAY)
                        })?;
                    }
                    _ => {
                        when += &format!("{n} addresses to hand on");
                        let got = c.m.with_peer_store_mut(|s| s.fetch_random_addrs(n));
                        c.fits(g, &when, n, &got, |e| e.worth(now) && (on.contains(&e.peer) || e.met_within(now, 7 * DAY)))?;
                    }
                }
            }
            9 => {
                let some: BTreeSet<usize> = (0..c.ids.len()).filter(|_| g.bool()).collect();
                let now = c.now;
                let fit = |c: &Model, some: &BTreeSet<usize>| -> BTreeSet<String> {
                    let it = c.entries.values().filter(|e| {
                        some.contains(&e.peer)
                            && !c.online.contains_key(&e.peer)
                            && e.worth(now)
                            && e.met_within(now, 3 * DAY)
                            && e.met <= now - 15 * SECOND
                    });
                    it.map(|e| e.addr.clone()).collect()
                };
                let got = if g.bool() {
                    when += &format!("the peers {some:?} are looked for");
                    let (on, off) = c.m.peers(some.iter().map(|i| c.ids[*i].clone()).collect());
                    let on: BTreeSet<SessionId> = on.into_iter().collect();
                    let want = c.online.iter().filter(|(p, _)| some.contains(p)).map(|(_, (_, s))| SessionId::new(*s)).collect();
                    check_eq!(on, want, "sessions-of", "{when}: the sessions of those connected");
                    off
                } else {
                    when += &format!("the consensus peers {some:?} are looked for");
                    *c.m.consensus_list.write() = some.iter().map(|i| c.ids[*i].clone()).collect();
                    c.consensus = some.clone();
                    c.m.unconnected_consensus_peer()
                };
                let want = fit(&c, &some);
                g.label_if(!want.is_empty(), "peers looked for");
                let n = got.len();
                let got: BTreeSet<String> = got.iter().map(|a| a.to_string()).collect();
                check_eq!(n, got.len(), "address-twice", "{when}: {:?}", got);
                check_eq!(got, want, "addresses-of", "{when}: the addresses of those not connected");
                for e in c.entries.values_mut().filter(|e| got.contains(&e.addr)) {
                    e.tried = now;
                    e.tries += 1;
                }
            }
            10 => {
                when += "stored and loaded again";
                c.m.with_peer_store(|s| s.dump_to_dir(&path)).map_err(|e| fail("dump", format!("{when}: {e}")))?;
                c.m = PeerManager::new(Arc::clone(&c.config));
                c.online.clear();
                g.label("reloaded");
            }
            11 => {
                // It cannot be stored; what was stored stays.
                let ok = c.m.with_peer_store(|s| s.dump_to_dir(&path));
                check!(ok.is_ok(), "dump", "{when}: {:?}", ok.err().map(|e| e.to_string()));
                let names = ["addr_manager.db", "ban_list.db"];
                let old: Vec<Option<Vec<u8>>> = names.iter().map(|n| std::fs::read(path.join(n)).ok()).collect();
                let kept: BTreeMap<Place, Entry> = c.entries.clone();
                let tmp = path.join("tmp");
                let _ = std::fs::remove_dir_all(&tmp);
                let blocked = g.usize(0, 1);
                std::fs::create_dir_all(tmp.join(names[blocked])).unwrap();
                let (place, p, a) = c.some_addr(g);
                c.m.with_peer_store_mut(|s| s.add_outbound_addr(a.clone()));
                c.learn(place, p, &a, c.now);
                when += "stored with an error";
                let r = c.m.with_peer_store(|s| s.dump_to_dir(&path));
                check!(r.is_err(), "dump-silent", "{when}: no error");
                let new: Vec<Option<Vec<u8>>> = names.iter().map(|n| std::fs::read(path.join(n)).ok()).collect();
                check_eq!(new[blocked], old[blocked], "dump-damages", "{when}: {}", names[blocked]);
                std::fs::remove_dir_all(&tmp).unwrap();
                if blocked == 0 {
                    let again = PeerStore::load_from_dir_or_default(&path);
                    check_eq!(again.addr_manager().count(), kept.len(), "dump-damages", "{when}: the addresses stored before");
                }
                g.label("not stored");
            }
            12 => {
                // Damaged files.
                let ok = c.m.with_peer_store(|s| s.dump_to_dir(&path));
                check!(ok.is_ok(), "dump", "{when}: {:?}", ok.err().map(|e| e.to_string()));
                let other = dir.path().join("damaged");
                std::fs::create_dir_all(&other).unwrap();
                for n in ["addr_manager.db", "ban_list.db"] {
                    let mut f = std::fs::read(path.join(n)).unwrap();
                    match g.below(4) {
                        0 => f.truncate(g.usize(0, f.len())),
                        1 => f = g.mutate(&f),
                        2 => {
                            // Numbers swapped for others.
                            let t = String::from_utf8(f).unwrap();
                            let w = (*g.pick(&["18446744073709551615", "0", "-1", "1e3", "18446744073709551616"])).to_owned();
                            f = t.replace(&c.now.to_string(), &w).replace(":0,", &format!(":{w},")).into_bytes();
                        }
                        _ => {}
                    }
                    std::fs::write(other.join(n), f).unwrap();
                }
                when += "damaged files are loaded";
                let ids = c.ids.clone();
                no_panic(|| {
                    let mut s = PeerStore::load_from_dir_or_default(&other);
                    s.fetch_addrs_to_attempt(10);
                    s.fetch_addrs_to_feeler(10);
                    s.fetch_random_addrs(10);
                    for i in &ids {
                        s.fetch_addr_by_peer_id(i);
                    }
                    let _ = s.add_addr(addr("9.9.9.9", 1, &ids[0]));
                })
                .map_err(|e| fail("load-panics", format!("{when}: {e}")))?;
                std::fs::remove_dir_all(&other).unwrap();
                g.label("damaged");
            }
            _ => {
                // An address nobody can be reached at by this name alone.
                let a: Multiaddr = (*g.pick(&["/ip4/9.1.0.1/tcp/1", "/ip4/9.1.0.1", "/tcp/2", "/ip6/2a00::7/tcp/3"])).parse().unwrap();
                when += &format!("{a} is heard of");
                let _ = c.m.with_peer_store_mut(|s| s.add_addr(a.clone()));
            }
        }
        g.note(|| when.clone());
        c.same(&when)?;
    }
    Ok(())
}

/// A store that is full makes room.
fn full(g: &mut Gen) -> Res {
    let r = full_inner(g);
    faketime::set(None);
    r
}

fn full_inner(g: &mut Gen) -> Res {
    faketime::set(Some(START));
    let dir = tempfile::tempdir().unwrap();
    let mut s = PeerStore::load_from_dir_or_default(dir.path());
    let ids: Vec<PeerId> = (0..8).map(|i| key(10 + i).peer_id()).collect();
    // Addresses by network, few or many in each.
    let per = *g.pick(&[1usize, 4, 5, 40, 4000, LIMIT]);
    let ip = |i: usize| {
        let net = i / per;
        let at = i % per;
        (format!("{}.{}.{}.{}", 11 + net / 250, net % 250, at / 200, at % 200 + 1), 1 + (i % 7) as u16)
    };
    let hopeless = *g.pick(&[0usize, 0, 1, 50]);
    let extra = *g.pick(&[1usize, 30]);
    let bad: BTreeSet<usize> = (0..hopeless).map(|_| g.usize(0, LIMIT - 1)).collect();
    let name = |i: usize| {
        let (ip, port) = ip(i);
        addr(&ip, port, &ids[i % ids.len()])
    };
    g.note(|| format!("{per} addresses in each network, {} of them not worth a try, {extra} more", bad.len()));
    for i in 0..LIMIT {
        let a = name(i);
        check!(s.add_addr(a.clone()).is_ok(), "add", "address {i} is refused");
        if bad.contains(&i) {
            for _ in 0..3 {
                s.mut_addr_manager().get_mut(&a).unwrap().mark_tried(START - 2 * MINUTE);
            }
        }
    }
    check_eq!(s.addr_manager().count(), LIMIT, "count", "addresses known");
    for i in 0..extra {
        let before: BTreeSet<String> = s.addr_manager().addrs_iter().map(|a| a.addr.to_string()).collect();
        let hopeless: BTreeSet<String> =
            s.addr_manager().addrs_iter().filter(|a| a.attempts_count >= 3).map(|a| a.addr.to_string()).collect();
        let a = addr("200.1.1.1", 1 + i as u16, &ids[0]);
        let ok = s.add_addr(a.clone()).is_ok();
        let after: BTreeSet<String> = s.addr_manager().addrs_iter().map(|a| a.addr.to_string()).collect();
        check!(after.len() <= LIMIT && s.addr_manager().count() == after.len(), "over-the-limit", "{} addresses are known", after.len());
        let gone: BTreeSet<&String> = before.difference(&after).collect();
        if !ok {
            check!(gone.is_empty() && after == before, "refused-and-lost", "an address is refused, and {} are gone", gone.len());
            check!(hopeless.is_empty(), "refused-with-room", "an address is refused, and {} are not worth a try", hopeless.len());
            g.label("refused");
            continue;
        }
        check!(after.contains(&a.to_string()), "accepted-and-lost", "{a} was taken, and is not known");
        if !hopeless.is_empty() {
            check!(gone.iter().all(|a| hopeless.contains(*a)), "evicts-good", "{} addresses are gone, {} were not worth a try", gone.len(), hopeless.len());
            g.label("hopeless addresses evicted");
            g.hit();
        } else {
            let mut by: BTreeMap<String, usize> = BTreeMap::new();
            let net = |a: &String| a.split('.').take(2).collect::<Vec<_>>().join(".");
            before.iter().for_each(|a| *by.entry(net(a)).or_default() += 1);
            for a in &gone {
                check!(by[&net(a)] > 4, "evicts-lone", "{a} is evicted, one of {} of its network", by[&net(a)]);
            }
            g.label_if(!gone.is_empty(), "crowded networks evicted");
            if !gone.is_empty() {
                g.hit();
            }
        }
    }
    // Whatever was evicted, what is left can be found.
    let left: Vec<AddrInfo> = s.fetch_addrs_to_feeler(50);
    check!(left.iter().all(|a| s.addr_manager().get(&a.addr).map(|b| b.addr == a.addr) == Some(true)), "lost", "an address fetched is not known");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P38",
        rule: "addresses were fetched while others did not fit, or a full store made room",
        assume: vec!["the clock of the peer store is the check's; what it picks among fitting addresses is its own"],
        facets: vec![Facet::new("histories", 4000, histories).deep(12), Facet::new("full", 8, full).deep(6)],
    }]
}
