//! The network between the nodes: what is sent arrives later, elsewhere or never.
use std::collections::{BTreeMap, HashMap};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::net::{UnixListener, UnixStream};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

use core_network::{Frame, Kind};
use serde_json::{json, Value};

#[derive(Clone, Debug, Default)]
pub struct Rules {
    /// Nodes in different groups do not hear each other.
    pub group: Vec<u8>,
    /// In 256 messages, how many are lost, and how many come twice.
    pub lost: u64,
    pub twice: u64,
    /// Milliseconds.
    pub delay: u64,
}

#[derive(Default)]
struct In {
    rules: Rules,
    rng: u64,
    /// By node: the connection, and which of its connections it is.
    out: HashMap<usize, (u64, Arc<Mutex<UnixStream>>)>,
    rpc: HashMap<usize, UnixStream>,
    next: u64,
    wait: BTreeMap<(Instant, u64), (usize, u64, Frame)>,
    pub passed: BTreeMap<String, u64>,
}

impl In {
    fn below(&mut self, n: u64) -> u64 {
        self.rng = self.rng.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        (z ^ (z >> 31)) % n
    }
}

pub struct Hub {
    dir: PathBuf,
    ids: Vec<Vec<u8>>,
    s: Mutex<In>,
    more: Condvar,
    over: AtomicBool,
}

impl Hub {
    pub fn start(dir: &Path, ids: Vec<Vec<u8>>, seed: u64) -> Arc<Hub> {
        let n = ids.len();
        let h = Arc::new(Hub { dir: dir.to_path_buf(), ids, s: Mutex::default(), more: Condvar::new(), over: AtomicBool::new(false) });
        {
            let mut s = h.s.lock().unwrap();
            s.rng = seed;
            s.rules.group = vec![0; n];
        }
        let l = UnixListener::bind(h.hub_path()).expect("a socket");
        let h2 = Arc::clone(&h);
        std::thread::spawn(move || {
            for c in l.incoming() {
                if h2.over.load(SeqCst) {
                    return;
                }
                let h = Arc::clone(&h2);
                if let Ok(c) = c {
                    std::thread::spawn(move || h.listen(c));
                }
            }
        });
        let l = UnixListener::bind(h.rpc_path()).expect("a socket");
        let h2 = Arc::clone(&h);
        std::thread::spawn(move || {
            for c in l.incoming() {
                if h2.over.load(SeqCst) {
                    return;
                }
                let Ok(c) = c else { continue };
                let mut line = String::new();
                let mut b = [0u8; 1];
                while std::io::Read::read_exact(&mut &c, &mut b).is_ok() && b[0] != b'\n' {
                    line.push(b[0] as char);
                }
                let _ = c.set_read_timeout(Some(Duration::from_secs(30)));
                if let Ok(i) = line.parse() {
                    h2.s.lock().unwrap().rpc.insert(i, c);
                }
            }
        });
        let h2 = Arc::clone(&h);
        std::thread::spawn(move || h2.deliver());
        h
    }

    pub fn hub_path(&self) -> PathBuf {
        self.dir.join("hub")
    }

    pub fn rpc_path(&self) -> PathBuf {
        self.dir.join("rpc")
    }

    pub fn rules(&self, f: impl FnOnce(&mut Rules)) {
        f(&mut self.s.lock().unwrap().rules)
    }

    pub fn passed(&self) -> BTreeMap<String, u64> {
        self.s.lock().unwrap().passed.clone()
    }

    /// Nothing is said to or heard from this node's present connection from now on.
    pub fn cut(&self, i: usize) {
        let mut s = self.s.lock().unwrap();
        s.out.remove(&i);
        s.rpc.remove(&i);
    }

    fn listen(&self, mut c: UnixStream) {
        let Ok(hello) = Frame::read(&mut c) else { return };
        let Some(me) = self.ids.iter().position(|id| hello.ids.first() == Some(id)) else {
            eprintln!("a node with an unknown id");
            return;
        };
        let Ok(w) = c.try_clone() else { return };
        {
            let mut s = self.s.lock().unwrap();
            s.next += 1;
            let gen = s.next;
            s.out.insert(me, (gen, Arc::new(Mutex::new(w))));
        }
        while let Ok(f) = Frame::read(&mut c) {
            let to: Vec<usize> = match f.kind {
                Kind::Hello => vec![],
                Kind::Broadcast => (0..self.ids.len()).filter(|i| *i != me).collect(),
                Kind::Gossip => (0..self.ids.len()).filter(|i| *i != me && *i as u32 + 1 != f.peer).collect(),
                Kind::Multicast => (0..self.ids.len()).filter(|i| *i != me && f.ids.contains(&self.ids[*i])).collect(),
                _ => vec![f.peer as usize - 1],
            };
            let mut s = self.s.lock().unwrap();
            let s = &mut *s;
            for i in to {
                let Some(gen) = s.out.get(&i).map(|o| o.0) else { continue };
                if s.rules.group[i] != s.rules.group[me] {
                    continue;
                }
                let copies = if s.below(256) < s.rules.lost {
                    0
                } else if s.below(256) < s.rules.twice {
                    2
                } else {
                    1
                };
                *s.passed.entry(f.end.clone()).or_default() += copies;
                for _ in 0..copies {
                    let ms = if s.rules.delay == 0 { 0 } else { s.below(s.rules.delay + 1) };
                    s.next += 1;
                    let g = Frame { peer: me as u32 + 1, ids: vec![], ..f.clone() };
                    s.wait.insert((Instant::now() + Duration::from_millis(ms), s.next), (i, gen, g));
                }
            }
            self.more.notify_all();
        }
    }

    fn deliver(&self) {
        let mut s = self.s.lock().unwrap();
        while !self.over.load(SeqCst) {
            let now = Instant::now();
            let first = s.wait.keys().next().copied();
            match first {
                Some(k) if k.0 <= now => {
                    let (i, gen, f) = s.wait.remove(&k).unwrap();
                    let to = s.out.get(&i).filter(|o| o.0 == gen).map(|o| Arc::clone(&o.1));
                    drop(s);
                    if let Some(w) = to {
                        let _ = f.write(&mut *w.lock().unwrap());
                    }
                    s = self.s.lock().unwrap();
                }
                Some(k) => s = self.more.wait_timeout(s, k.0 - now).unwrap().0,
                None => s = self.more.wait_timeout(s, Duration::from_millis(50)).unwrap().0,
            }
        }
    }

    pub fn up(&self, i: usize) -> bool {
        self.s.lock().unwrap().rpc.contains_key(&i)
    }

    /// None: no answer.
    pub fn ask(&self, i: usize, method: &str, params: Value) -> Option<Result<Value, Value>> {
        let c = self.s.lock().unwrap().rpc.get(&i)?.try_clone().ok()?;
        let mut w = &c;
        writeln!(w, "{}", json!({"method": method, "params": params})).ok()?;
        let mut line = String::new();
        BufReader::new(&c).read_line(&mut line).ok()?;
        let mut v: Value = serde_json::from_str(&line).ok()?;
        Some(if v.get("error").is_some() { Err(v["error"].take()) } else { Ok(v["result"].take()) })
    }

    pub fn end(&self) {
        self.over.store(true, SeqCst);
        self.more.notify_all();
        let _ = UnixStream::connect(self.hub_path());
        let _ = UnixStream::connect(self.rpc_path());
        let mut s = self.s.lock().unwrap();
        s.out.clear();
        s.rpc.clear();
    }
}
