//! P46: the command line, each command a process of its own.
use std::path::Path;
use std::process::{Command, Output};
use std::time::{Duration, Instant};

use common_crypto::{BlsPrivateKey, PublicKey, Secp256k1PrivateKey, ToBlsPublicKey, ToPublicKey};
use core_network::{PeerId, PeerIdExt};
use pbt::{check, check_eq, fail, Facet, Gen, Prop, Res, Stop};
use protocol::types::Bytes;
use serde_json::{json, Value};

use crate::hub::Hub;
use crate::nodes::*;
use crate::util::*;

fn axon(dir: &Path, version: &str, args: &[&str]) -> Output {
    Command::new(std::env::current_exe().unwrap()).args(args).current_dir(dir).env("AXON_CLI", version).output().expect("a process")
}

fn said(o: &Output) -> String {
    format!("{}: {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>())
}

/// Refused with a message, as opposed to crashed.
fn refused(o: &Output) -> bool {
    o.status.code() == Some(1)
}

fn read(p: &Path) -> Option<Vec<u8>> {
    std::fs::read(p).ok()
}

fn unhex(v: &Value) -> Result<Vec<u8>, Stop> {
    let s = v.as_str().unwrap_or("?");
    let s = s.strip_prefix("0x").ok_or_else(|| fail("no-prefix", v.to_string()))?;
    (0..s.len()).step_by(2).map(|i| s.get(i..i + 2).and_then(|h| u8::from_str_radix(h, 16).ok()).ok_or_else(|| fail("not-hex", s.to_string()))).collect()
}

/// What is said of a pair of keys is what follows from the private ones.
fn pair(k: &Value, net: &[u8], bls: &[u8]) -> Res {
    check_eq!(unhex(&k["net_private_key"])?, net.to_vec(), "net-key", "of {}", k);
    check_eq!(unhex(&k["bls_private_key"])?, bls.to_vec(), "bls-key", "of {}", k);
    let sk = Secp256k1PrivateKey::try_from(net).map_err(|_| fail("net-key", "does not work"))?;
    let pk: Bytes = sk.pub_key().to_bytes();
    check_eq!(unhex(&k["public_key"])?, pk.to_vec(), "public-key", "of {}", k);
    let mut sk32 = [0u8; 32];
    sk32.copy_from_slice(net);
    let a = address(&sk32);
    check_eq!(unhex(&k["address"])?, a.0.to_vec(), "address", "of {}", k);
    let b = BlsPrivateKey::try_from(bls).map_err(|_| fail("bls-key", "does not work"))?;
    check_eq!(unhex(&k["bls_public_key"])?, b.pub_key(&String::new()).to_bytes().to_vec(), "bls-public-key", "of {}", k);
    Ok(())
}

fn json_of(o: &Output) -> Result<Value, Stop> {
    serde_json::from_slice(&o.stdout).map_err(|e| fail("not-json", format!("{}: {}", e, String::from_utf8_lossy(&o.stdout))))
}

fn key_files(g: &mut Gen) -> Res {
    let dir = Dir::new();
    let d = &dir.0;
    std::fs::create_dir_all(d.join("free-space")).unwrap();
    let n = g.usize(0, 4);
    let named = g.bool();
    let to = if named { "." } else { "free-space" };
    g.note(|| format!("{} pairs, in {}", n, to));
    let count = n.to_string();
    let mut args = vec!["generate-keypair"];
    if n != 1 || g.bool() {
        args.extend(["-n", &count]);
    }
    if named {
        args.extend(["-p", "."]);
    }
    // what was there before is replaced
    if g.bool() {
        std::fs::write(d.join(to).join("net_0.key"), g.bytes(80)).unwrap();
        if n == 0 {
            let _ = std::fs::remove_file(d.join(to).join("net_0.key"));
        }
    }
    let o = axon(d, "0.3.0", &args);
    check!(o.status.success(), "generate", "{}", said(&o));
    let v = json_of(&o)?;
    let list = v["keypairs"].as_array().cloned().unwrap_or_default();
    check_eq!(list.len(), n, "count", "of {}", v);
    let mut all = std::collections::BTreeSet::new();
    for (i, k) in list.iter().enumerate() {
        check_eq!(k["index"].as_u64(), Some(i as u64), "index", "of {}", k);
        let (nf, bf) = (format!("{}/net_{}.key", to, i), format!("{}/bls_{}.key", to, i));
        let net = read(&d.join(&nf)).ok_or_else(|| fail("no-file", nf.clone()))?;
        let bls = read(&d.join(&bf)).ok_or_else(|| fail("no-file", bf.clone()))?;
        pair(k, &net, &bls)?;
        for x in [net, bls, unhex(&k["address"])?, unhex(&k["bls_public_key"])?] {
            check!(all.insert(x), "repeats", "a key is there twice in {}", v);
        }
        let o = axon(d, "0.3.0", &["recover-keypair", "-n", &nf, "-b", &bf]);
        check!(o.status.success(), "recover", "{}", said(&o));
        let mut r = json_of(&o)?;
        r["index"] = json!(i);
        check_eq!(&r, k, "recovered", "differs");
        g.hit();
    }
    check!(read(&d.join(to).join(format!("net_{}.key", n))).is_none(), "more-files", "than pairs");
    // any 32 bytes
    let (net, bls) = (g.arr::<32>(), { let mut b = g.arr::<32>(); b[0] = 0; b });
    let nl = g.weighted(&[4, 1, 1, 1]);
    let nb = match nl {
        0 => net.to_vec(),
        1 => net[..g.usize(0, 31)].to_vec(),
        2 => vec![0xff; 32],
        _ => vec![0; 32],
    };
    std::fs::write(d.join("a.key"), &nb).unwrap();
    std::fs::write(d.join("b.key"), bls).unwrap();
    let o = axon(d, "0.3.0", &["recover-keypair", "-n", "a.key", "-b", "b.key"]);
    let fine = nl == 0 && Secp256k1PrivateKey::try_from(nb.as_slice()).is_ok() && BlsPrivateKey::try_from(bls.as_slice()).is_ok();
    if fine {
        check!(o.status.success(), "recover", "{}", said(&o));
        pair(&json_of(&o)?, &nb, &bls)?;
    } else {
        check!(refused(&o), "bad-key-taken", "{:?}: {}", nb, said(&o));
    }
    Ok(())
}

const PRE: [&str; 8] = ["-alpha", "-alpha.1", "-beta", "-beta.1", "-beta.2", "-beta.10", "-rc.1", ""];

fn version(g: &mut Gen) -> (u64, u64, u64, usize) {
    (g.weighted(&[4, 1]) as u64, g.weighted(&[3, 5, 1]) as u64, g.weighted(&[6, 1, 1]) as u64, g.usize(0, PRE.len() - 1))
}

fn text(v: (u64, u64, u64, usize)) -> String {
    format!("{}.{}.{}{}", v.0, v.1, v.2, PRE[v.3])
}

fn home(d: &Path, g: &mut Gen, interval: u64, forks: bool) {
    let k = keys(1);
    std::fs::write(d.join("net.key"), k[0].sk).unwrap();
    std::fs::write(d.join("bls.key"), k[0].bsk).unwrap();
    let ep = Epoch { end: 1_000_000, who: vec![(0, 1, 1)], interval, tx_num: 10 };
    std::fs::write(d.join("spec.toml"), spec(&ep, &k, forks)).unwrap();
    std::fs::write(d.join("config.toml"), config(g)).unwrap();
}

const INIT: [&str; 5] = ["init", "-c", "config.toml", "-s", "spec.toml"];

fn versions(g: &mut Gen) -> Res {
    let dir = Dir::new();
    let d = &dir.0;
    home(d, g, 1000, false);
    let ver = d.join("data").join("axon.ver");
    let was = version(g);
    // a program that its own data would be too old for is none
    let now = version(g).max((0, 1, 0, 3));
    let kind = g.weighted(&[8, 1, 1, 1]);
    let content = match kind {
        0 => Some(format!("{}{}", text(was), g.pick(&["", "+unknown", "+0a1b2c3", "+ffffff-dirty"]))),
        1 => Some(String::new()),
        2 => None,
        _ => Some(["1", "a.b.c", "0.1", "v1.2.3", "99.99.99.99"][g.usize(0, 4)].to_string()),
    };
    g.note(|| format!("the data is of {:?}, the program {}", content, text(now)));
    if let Some(c) = &content {
        std::fs::create_dir_all(d.join("data")).unwrap();
        std::fs::write(&ver, c).unwrap();
    }
    let mine = format!("{}+unknown", text(now));
    // nothing runs on no data
    if g.bool() {
        let o = axon(d, &text(now), &["run", "-c", "config.toml", "--mine-blocks", "1"]);
        check!(!o.status.success(), "run-without-data", "{}", said(&o));
        let o = axon(d, &text(now), &["hardfork", "-c", "config.toml", "--hardfork-start-number", "5", "--feature", "andromeda"]);
        check!(refused(&o), "hardfork-without-data", "{}", said(&o));
    }
    // the order of versions: numbers, then what comes before a release; not what is behind "+"
    let old = kind == 0 && was < (0, 1, 0, 3);
    let o = axon(d, &text(now), &INIT);
    if kind == 3 {
        check!(!o.status.success(), "no-version", "{:?} was taken: {}", content, said(&o));
        check_eq!(read(&ver), content.map(|c| c.into_bytes()), "version-lost", "of other data");
        return Ok(());
    }
    if old {
        check!(refused(&o), "old-data", "{:?} was taken by {}: {}", content, text(now), said(&o));
        check_eq!(read(&ver), content.map(|c| c.into_bytes()), "version-lost", "of old data");
        check!(!d.join("data").join("rocksdb").exists(), "old-data-changed", "by {}", text(now));
        g.hit();
        return Ok(());
    }
    check!(o.status.success(), "init", "{:?} by {}: {}", content, text(now), said(&o));
    check_eq!(read(&ver), Some(mine.into_bytes()), "version", "after {:?} by {}", content, text(now));
    // a second time, and by another version
    let o = axon(d, &text(now), &INIT);
    check!(refused(&o), "init-twice", "{}", said(&o));
    let bad = g.bool();
    let other = version(g);
    if bad {
        std::fs::write(&ver, text(other)).unwrap();
    }
    let o = axon(d, &text(now), &["run", "-c", "config.toml", "--mine-blocks", "0"]);
    let last = if bad { other } else { now };
    if last < (0, 1, 0, 3) {
        check!(refused(&o), "old-data-run", "{} was run by {}: {}", text(last), text(now), said(&o));
    }
    g.label_if(last < (0, 1, 0, 3), "run on old data");
    if kind == 0 {
        g.hit();
    }
    Ok(())
}

struct One {
    net: Net,
    h: u64,
}

impl One {
    fn path(&self) -> std::path::PathBuf {
        self.net.home(0)
    }

    fn fork(&self, at: u64, feature: &str) -> Result<bool, Stop> {
        let o = axon(&self.path(), "0.3.0", &["hardfork", "-c", "config.toml", "--hardfork-start-number", &at.to_string(), "--feature", feature]);
        if o.status.success() || refused(&o) {
            return Ok(o.status.success());
        }
        Err(fail("hardfork-crashed", said(&o)))
    }

    /// The height of the data at rest: a hard fork can start above it only.
    fn at(&self, h: u64) -> Res {
        let above = self.fork(h + 1, "none")?;
        let here = h == 0 || !self.fork(h, "none")?;
        check!(above, "height", "is above {}, or a hard fork at {} is refused", h, h + 1);
        check!(here, "height", "is below {}, or a hard fork at {} is taken", h, h);
        Ok(())
    }

    fn go(&mut self, args: &[&str]) -> Res {
        let mut k = self.net.spawn(0, args);
        let limit = Instant::now() + PATIENCE;
        loop {
            if let Some(st) = k.try_wait().unwrap() {
                self.net.hub.cut(0);
                check!(st.success(), "run", "{:?}: {}: {}", args, st, self.net.said(0));
                return Ok(());
            }
            if Instant::now() > limit {
                let _ = k.kill();
                let _ = k.wait();
                return Err(fail("goes-on", format!("{:?} does not end: {}", args, self.net.said(0))));
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }

    fn block(&mut self, h: u64) -> Result<Value, Stop> {
        self.net.must(0, "eth_getBlockByNumber", json!([hexn(h), true]))
    }
}

fn life(g: &mut Gen) -> Res {
    let dir = Dir::new();
    let k = keys(1);
    let ids = vec![PeerId::from_pubkey_bytes(&k[0].pk).unwrap().into_bytes_ext().to_vec()];
    let hub = Hub::start(&dir.0, ids, 1);
    let mut o = One { net: Net { dir, hub, kids: vec![None], stop: None, done: Default::default() }, h: 0 };
    std::fs::create_dir_all(o.path()).unwrap();
    let interval = *g.pick(&[20u64, 40]);
    let forks = g.chance(1, 6);
    home(&o.path(), g, interval, forks);
    o.go(&INIT)?;
    // a hard fork that is asked for, where it starts and at what height it was asked for
    let mut asked: Option<(u64, u64)> = None;
    let mut sure = true;
    let mut set: Option<u64> = forks.then_some(0);
    let mut seen: Vec<(u64, Value)> = vec![];
    let mut story = vec![];
    let steps = g.usize(2, 6);
    let mut kills = 0;
    for i in 0..steps {
        let what = g.weighted(&[3, 3, 4, 2]);
        match what {
            0 | 1 => {
                let n = g.range(1, 5);
                story.push(format!("{} {}", if what == 0 { "mine" } else { "mine to" }, if what == 0 { n } else { o.h + n }));
                let (a, b) = (n.to_string(), (o.h + n).to_string());
                let more = if what == 0 { ["--mine-blocks", &a] } else { ["--mine-to-height", &b] };
                o.go(&["run", "-c", "config.toml", more[0], more[1]])?;
                o.h += n;
                o.at(o.h)?;
            }
            2 => {
                let at = match g.below(6) {
                    0 => g.range(0, o.h),
                    1 => o.h + 1 + g.below(3),
                    _ => o.h + 4 + g.below(8),
                };
                story.push(format!("hard fork at {}", at));
                let taken = o.fork(at, "andromeda")?;
                check_eq!(taken, at > o.h, "hard-fork", "at {} with height {}", at, o.h);
                if taken && set.is_none() {
                    // one that takes the place of another that may have been accepted
                    sure &= asked.map_or(true, |a| a.1 == o.h);
                    sure &= at >= o.h + 4;
                    asked = Some((at, o.h));
                }
            }
            _ => {
                story.push("run and be killed".into());
                o.net.start(0);
                let limit = Instant::now() + PATIENCE;
                o.net.up(0, limit)?;
                let goal = o.h + g.range(0, 3);
                let mut got = 0;
                while got < goal {
                    got = o.net.height(0)?;
                    o.net.alive()?;
                    check!(Instant::now() < limit, "stuck", "at {}, below {}: {}", got, goal, o.net.said(0));
                    std::thread::sleep(Duration::from_millis(5));
                }
                check!(got >= o.h, "height-lost", "{} after {}", got, o.h);
                let b = o.block(got)?;
                seen.push((got, b));
                o.net.kill(0);
                kills += 1;
                // it may have got further
                let mut h = got;
                while !o.fork(h + 1, "none")? {
                    h += 1;
                    check!(h < got + 1000, "height", "no hard fork is taken at {}..{}", got, h);
                }
                o.h = h;
                o.at(h)?;
            }
        }
        if let Some((at, from)) = asked {
            if o.h >= from + 3 && sure {
                set = Some(at);
            }
        }
        let _ = i;
    }
    // as the node tells it
    o.net.start(0);
    let limit = Instant::now() + PATIENCE;
    o.net.up(0, limit)?;
    let first = o.net.height(0)?;
    check!(first >= o.h, "height-lost", "{} after {}: {:?}", first, o.h, story);
    let goal = asked.map_or(o.h, |a| a.0.max(a.1 + 3).min(a.1 + 20)).max(o.h) + 2;
    loop {
        let a = o.net.height(0)?;
        let info = o.net.must(0, "axon_getHardforkInfo", json!([]))?;
        let b = o.net.height(0)?;
        let it = info["Andromeda"].as_str().unwrap_or("").to_string();
        match asked {
            None if forks => check_eq!(it, "enabled", "hard-fork-info", "{} though it is on from the start", info),
            None => check_eq!(it, "", "hard-fork-info", "{} though none was asked for", info),
            Some((at, from)) if sure && b >= from + 3 && a == b => {
                let want = if a >= at { "enabled" } else if a >= from + 3 { "determined" } else { "" };
                if want != "" {
                    check_eq!(it, want, "hard-fork-info", "at height {}, the fork at {} asked for at {}: {:?}", a, at, from, story);
                }
            }
            _ => {}
        }
        if a >= goal {
            break;
        }
        check!(Instant::now() < limit, "stuck", "at {}, below {}: {}", a, goal, o.net.said(0));
        o.net.alive()?;
        std::thread::sleep(Duration::from_millis(15));
    }
    for (h, b) in seen {
        let now = o.block(h)?;
        check_eq!(now, b, "block-lost", "block {}", h);
    }
    g.note(|| format!("{:?}, then up to {}", story, goal));
    g.label_if(asked.is_some() && sure, "a hard fork");
    g.label_if(asked.is_some() && !sure, "a hard fork too near, or two");
    g.label_if(forks, "on from the start");
    g.label_if(kills > 0, "killed");
    g.hit();
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P46",
        rule: "a case counts when keys were made, data of another version was met, or a node ran",
        assume: vec![],
        facets: vec![Facet::new("key files", 200, key_files).deep(6000), Facet::new("versions", 150, versions).deep(4000), Facet::new("a node's life", 48, life).deep(800)],
    }]
}
