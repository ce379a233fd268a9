//! UdpNode: behaviours replayed on real nodes of vru-udp over loopback sockets
use std::{
    collections::HashSet,
    net::{SocketAddr, UdpSocket},
    sync::{Arc, Mutex, atomic::{AtomicBool, Ordering::SeqCst}},
    time::{Duration, Instant},
};
use rac::{Array, LineValid};
use rand::{Rng, SeedableRng, rngs::StdRng};
use serde::{Deserialize, Serialize};
use vru_session::handshake::{xx, Identity, PublicKey, SecretKey};
use vru_udp::{Command, Error, Event, LocalCommand, Node, NodeRef};
use crate::{common::{self, until, PANICS}, util::{guard, Fail, Report}};

#[derive(Deserialize)]
struct Entry {
    op: String,
    a: usize,
    p: usize,
    k: String,
    ev: String,
    hs: bool,
    n: usize,
}

#[derive(Clone, PartialEq, Debug, Serialize)]
struct Ev {
    k: &'static str,
    a: usize,
}

pub fn key(seed: u64) -> (PublicKey, SecretKey) {
    let mut s = Array::default();
    StdRng::seed_from_u64(seed).fill(s.as_mut());
    PublicKey::gen(&s)
}

pub fn identities() -> Vec<Identity> {
    (0..3).map(|i| key(1000 + i).0.identity()).collect()
}

struct World {
    node: Option<Node>,
    /// None: given up
    rf: Option<NodeRef>,
    running: Arc<AtomicBool>,
    to: SocketAddr,
    socks: Vec<UdpSocket>,
    /// addresses, 1-based in the specification
    addr: Vec<SocketAddr>,
    events: Vec<Ev>,
    ended: bool,
    /// the caller does not look at the events
    away: bool,
    /// handshakes by address
    hs: Vec<usize>,
    last: Vec<Vec<u8>>,
}

static SEEN: Mutex<Option<HashSet<Vec<u8>>>> = Mutex::new(None);

fn bind(a: &str) -> UdpSocket {
    let s = UdpSocket::bind(a).unwrap_or_else(|e| panic!("harness: bind {a}: {e}"));
    s.set_nonblocking(true).unwrap();
    s
}

fn try_bind(a: &str) -> Option<UdpSocket> {
    UdpSocket::bind(a).ok().map(|s| {
        s.set_nonblocking(true).unwrap();
        s
    })
}

impl World {
    fn new(pk: &PublicKey, sk: &SecretKey) -> Self {
        let (s1, s3) = loop {
            let s1 = bind("127.0.0.1:0");
            let p = s1.local_addr().unwrap().port();
            if let Some(s3) = try_bind(&format!("127.0.0.2:{p}")) {
                break (s1, s3);
            }
        };
        let socks = vec![s1, bind("127.0.0.1:0"), s3, bind("127.0.0.3:0")];
        let mut addr: Vec<_> = socks.iter().map(|s| s.local_addr().unwrap()).collect();
        addr.push("127.0.0.1:1".parse().unwrap());
        addr.push(format!("[::1]:{}", addr[0].port()).parse().unwrap());
        let running = Arc::new(AtomicBool::new(true));
        for _ in 0..200 {
            let probe = UdpSocket::bind("0.0.0.0:0").unwrap();
            let port = probe.local_addr().unwrap().port();
            drop(probe);
            if let Ok((node, rf)) = Node::spawn(sk.clone(), pk.clone(), port, running.clone()) {
                let n = addr.len();
                return World {
                    node: Some(node), rf: Some(rf), running, to: ([127, 0, 0, 1], port).into(), socks, addr,
                    events: vec![], ended: false, away: false, hs: vec![0; n], last: vec![],
                };
            }
        }
        panic!("harness: no free port")
    }

    fn name(&self, a: &SocketAddr) -> usize {
        self.addr.iter().position(|x| x == a).map(|i| i + 1).unwrap_or(0)
    }

    /// takes what the node reported and sent
    fn collect(&mut self) -> Result<(), String> {
        while let (Some(rf), false) = (&self.rf, self.away) {
            match rf.try_recv() {
                Err(_) => {
                    self.ended = true;
                    break;
                },
                Ok(None) => break,
                Ok(Some(Event::Info(s))) => {
                    if s.contains("incoming") {
                        let a = self.addr.iter().position(|a| s.ends_with(&a.to_string())
                            || s.contains(&format!("{a} ")) || s.contains(&format!("{a},"))).map(|i| i + 1).unwrap_or(0);
                        self.events.push(Ev { k: "incoming", a });
                    }
                },
                Ok(Some(Event::Error(Error::FrameSize(a, _)))) => self.events.push(Ev { k: "size", a: self.name(&a) }),
                Ok(Some(Event::Error(Error::ConnectionFailed(a)))) => self.events.push(Ev { k: "failed", a: self.name(&a) }),
                Ok(Some(e)) => return Err(format!("unexpected event {e:?}")),
            }
        }
        let mut buf = [0; 65536];
        for i in 0..self.socks.len() {
            while let Ok((n, from)) = self.socks[i].recv_from(&mut buf) {
                if from != self.to {
                    continue;
                }
                self.hs[i] += 1;
                handshake(&buf[..n]).map_err(|e| format!("the handshake sent to peer {}: {e}", i + 1))?;
                self.last.push(buf[..n].to_vec());
            }
        }
        Ok(())
    }

    /// waits until everything sent so far has been read: the node answers a request for one more peer
    fn barrier(&mut self, id: &Identity) -> bool {
        let extra = bind("127.0.0.1:0");
        let address = extra.local_addr().unwrap();
        let node = self.node.as_ref().unwrap();
        if common::call(|| "a request".into(), || node.command(Command::Connect { peer_pi: id.clone(), address })).is_err() {
            return false;
        }
        extra.send_to(&[9; 1280], self.to).expect("harness: send");
        until(Duration::from_secs(10), || (!self.running.load(SeqCst) || extra.recv_from(&mut [0; 2000]).is_ok()).then_some(())).is_some()
    }

    fn content(&mut self, n: usize, rng: &mut StdRng) -> Vec<u8> {
        let mut d = vec![0; n];
        match rng.gen_range(0..6) {
            0 => (),
            1 => d.iter_mut().for_each(|b| *b = 255),
            2 | 3 if !self.last.is_empty() => {
                // something sent or received before
                let x = &self.last[rng.gen_range(0..self.last.len())];
                let m = n.min(x.len());
                d[..m].copy_from_slice(&x[..m]);
            },
            _ => rng.fill(&mut d[..]),
        }
        self.last.push(d.clone());
        d
    }
}

const BAD: [usize; 14] = [0, 1, 15, 16, 17, 256, 1119, 1120, 1279, 1281, 1400, 2560, 9000, 65507];

fn size(k: &str, rng: &mut StdRng) -> usize {
    if k == "good" {
        return 1280;
    }
    match rng.gen_range(0..20) {
        i if i < 14 => BAD[i],
        14..=16 => rng.gen_range(0..1280),
        _ => rng.gen_range(1281..3000),
    }
}

/// 1280 bytes, beginning with a key never seen before
fn handshake(d: &[u8]) -> Result<(), String> {
    if d.len() != 1280 {
        return Err(format!("{} bytes", d.len()));
    }
    let k = match <xx::Message0 as LineValid>::try_clone_array(Array::from_slice(&d[..1120])) {
        Ok(k) => k,
        Err(_) => return Err("not a key".into()),
    };
    if guard(|| PublicKey::try_decompress(k).is_ok()) != Ok(true) {
        return Err("not a valid key".into());
    }
    let mut seen = SEEN.lock().unwrap();
    let seen = seen.get_or_insert_with(HashSet::new);
    for part in [&d[..32], &d[32..1088], &d[1088..1120]] {
        if !seen.insert(part.to_vec()) {
            return Err("a key that was already used".into());
        }
    }
    Ok(())
}

enum Traffic {
    Nothing,
    Drip(u64),
    Flood,
}

/// clears the flag (if it is not yet) and joins; what went wrong
fn finish(w: &mut World, traffic: Traffic, rng: &mut StdRng) -> Vec<(&'static str, String)> {
    let mut bad = vec![];
    w.running.store(false, SeqCst);
    let node = w.node.take().unwrap();
    w.away = false;
    let stop = Arc::new(AtomicBool::new(false));
    let noise = {
        let (stop, to) = (stop.clone(), w.to);
        let s = w.socks[rng.gen_range(0..4)].try_clone().unwrap();
        let (mut d, dirty) = (vec![7u8; 1280], rng.gen::<bool>());
        if dirty {
            d.push(1);
        }
        std::thread::spawn(move || {
            common::mine();
            let pause = match traffic {
                Traffic::Nothing => return,
                Traffic::Drip(ms) => Duration::from_millis(ms),
                Traffic::Flood => Duration::from_micros(200),
            };
            let t = Instant::now();
            while !stop.load(SeqCst) && t.elapsed() < Duration::from_secs(20) {
                let _ = s.send_to(&d, to);
                std::thread::sleep(pause);
            }
        })
    };
    let t = Instant::now();
    let joining = std::thread::spawn(move || {
        common::mine();
        guard(|| node.join())
    });
    match until(Duration::from_secs(15), || joining.is_finished().then_some(())) {
        None => bad.push(("join-hangs", format!("join did not return within {:?}", t.elapsed()))),
        Some(()) => {
            if let Err(e) = joining.join().unwrap() {
                bad.push(("join-panics", format!("join panicked: {e}")));
            }
            let mut err = None;
            if rng.gen_range(0..4) == 0 {
                // the end must be seen by who waits for it, too
                if let Some(rf) = w.rf.take() {
                    let (tx, rx) = std::sync::mpsc::channel();
                    std::thread::spawn(move || {
                        common::mine();
                        while rf.recv().is_ok() {}
                        let _ = tx.send(());
                    });
                    w.ended = rx.recv_timeout(Duration::from_secs(5)).is_ok();
                    if !w.ended {
                        bad.push(("stream-open", "waiting for events did not end after join".into()));
                    }
                    w.ended = true;
                }
            }
            until(Duration::from_secs(5), || {
                if let Err(e) = w.collect() {
                    err = Some(e);
                }
                (w.ended || w.rf.is_none()).then_some(())
            });
            if let Some(e) = err {
                bad.push(("effect", e));
            }
            if !w.ended && w.rf.is_some() {
                bad.push(("stream-open", "the event stream did not end after join".into()));
            }
        },
    }
    stop.store(true, SeqCst);
    noise.join().unwrap();
    bad
}

/// no port at all to start a node on
fn no_node(rep: &Report, pk: &PublicKey, sk: &SecretKey) -> bool {
    let mut why = String::new();
    for _ in 0..50 {
        let probe = UdpSocket::bind("0.0.0.0:0").expect("harness: bind");
        let port = probe.local_addr().unwrap().port();
        drop(probe);
        let running = Arc::new(AtomicBool::new(true));
        match guard(|| Node::spawn(sk.clone(), pk.clone(), port, running.clone())) {
            Ok(Ok(_)) => {
                running.store(false, SeqCst);
                return false;
            },
            Ok(Err(e)) => why = e.to_string(),
            Err(e) => why = e,
        }
    }
    rep.fail(Fail::new("no-node", format!("a node cannot be started on any of 50 free ports: {why}"), String::new()));
    true
}

pub fn run(lines: &[String], effects: bool, seed: u64, rep: &Report) {
    let (pk, sk) = key(1);
    if no_node(rep, &pk, &sk) {
        return;
    }
    let ids = identities();
    common::par(lines.len(), 96, |i| {
        let line = &lines[i];
        let fail = |class: &str, what: String| {
            let effect = !class.starts_with("join") && class != "stream-open" && class != "command-panics";
            if effect == effects {
                rep.fail(Fail::new(class, what, format!("seed {seed} behaviour {i}: {line}")));
            }
        };
        let log: Vec<Entry> = serde_json::from_str(line).expect("harness: line");
        let mut rng = StdRng::seed_from_u64(seed ^ (i as u64) << 20);
        let mut w = World::new(&pk, &sk);
        let (mut want, mut events) = (vec![0usize; w.addr.len()], vec![]);
        let mut pending = vec![0usize; w.addr.len()];
        let mut cleared = false;
        let (mut crowd, mut crowds): (Vec<SocketAddr>, u32) = (vec![], 0);
        let limit = if effects { Duration::from_secs(10) } else { Duration::from_millis(1500) };
        let mut steps = 0;
        if !effects {
            // things that happen whatever the behaviour is doing
            match rng.gen_range(0..4) {
                0 => {
                    let (s, to, running, pause) = (w.socks[3].try_clone().unwrap(), w.to, w.running.clone(), rng.gen_range(0..2000));
                    std::thread::spawn(move || {
                        common::mine();
                        let t = Instant::now();
                        for i in 0.. {
                            if !running.load(SeqCst) || t.elapsed() > Duration::from_secs(20) {
                                break;
                            }
                            let _ = s.send_to(&vec![i as u8; if i % 3 == 0 { 1279 } else { 1280 }], to);
                            std::thread::sleep(Duration::from_micros(pause));
                        }
                    });
                },
                1 => {
                    let (running, pause) = (w.running.clone(), rng.gen_range(0..20));
                    std::thread::spawn(move || {
                        common::mine();
                        std::thread::sleep(Duration::from_millis(pause));
                        running.store(false, SeqCst);
                    });
                },
                _ => (),
            }
        }
        for (n, e) in log.iter().enumerate() {
            steps += 1;
            let at = |x: &str| format!("action {} ({} a={} p={} {}): {x}", n + 1, e.op, e.a, e.p, e.k);
            match e.op.as_str() {
                "connect" | "local" => {
                    let c = if e.op == "connect" {
                        Command::Connect { peer_pi: ids[e.p - 1].clone(), address: w.addr[e.a - 1] }
                    } else {
                        let text = (0..rng.gen_range(0..2000)).map(|_| 'x').collect();
                        Command::Local { destination: ids[e.p - 1].clone(), command: LocalCommand::SendText(text) }
                    };
                    let node = w.node.as_ref().unwrap();
                    if let Err(m) = common::call(|| format!("seed {seed} behaviour {i}: {line}"), || node.command(c)) {
                        return fail("command-panics", at(&m));
                    }
                    if e.op == "connect" && (cleared || e.ev.is_empty()) {
                        pending[e.a - 1] += 1;
                    }
                },
                "send" => {
                    let n = size(&e.k, &mut rng);
                    let d = w.content(n, &mut rng);
                    w.socks[e.a - 1].send_to(&d, w.to).expect("harness: send");
                },
                "deaf" => {
                    if std::mem::take(&mut w.away) && effects {
                        let _ = until(limit, || (w.collect().is_err() || w.events.len() >= events.len()).then_some(()));
                    }
                    w.rf = None;
                },
                "away" => w.away = e.k == "on",
                "idle" => std::thread::sleep(Duration::from_millis(if effects { rng.gen_range(2050..2700) } else { rng.gen_range(0..2700) })),
                "volley" => {
                    let mut left = e.n;
                    while left > 0 && !cleared {
                        for _ in 0..left.min(8) {
                            let n = size(&e.k, &mut rng).min(3000);
                            let d = w.content(n, &mut rng);
                            w.socks[e.a - 1].send_to(&d, w.to).expect("harness: send");
                            if !e.ev.is_empty() {
                                events.push(Ev { k: if e.ev == "size" { "size" } else { "incoming" }, a: e.a });
                            }
                            left -= 1;
                        }
                        if w.rf.is_none() || w.away {
                            if !w.barrier(&ids[0]) && w.running.load(SeqCst) {
                                break;
                            }
                        } else if left > 0 && until(limit, || (!w.running.load(SeqCst) || w.collect().is_err() || w.events.len() >= events.len()).then_some(())).is_none() {
                            break;
                        }
                    }
                },
                "rounds" => {
                    for i in 0..e.n {
                        let node = w.node.as_ref().unwrap();
                        let c = Command::Connect { peer_pi: ids[e.p - 1].clone(), address: w.addr[e.a - 1] };
                        if let Err(m) = common::call(|| format!("seed {seed} behaviour {i}: {line}"), || node.command(c)) {
                            return fail("command-panics", at(&m));
                        }
                        let d = w.content(1280, &mut rng);
                        w.socks[e.a - 1].send_to(&d, w.to).expect("harness: send");
                        let want = want[e.a - 1] + i + 1;
                        if cleared || until(limit, || (!w.running.load(SeqCst) || w.collect().is_err() || w.hs[e.a - 1] >= want).then_some(())).is_none() {
                            break;
                        }
                    }
                    if cleared {
                        pending[e.a - 1] += e.n;
                    }
                },
                "crowd" => {
                    if e.k == "new" {
                        crowd = (0..e.n).map(|i| {
                            crowds += 1;
                            let [_, h, m, l] = crowds.to_be_bytes();
                            match i % 3 {
                                0 => ([127, 1 + h, m, l], 9).into(),
                                1 => ([127, 100 + h, m, 1], 10000 + l as u16).into(),
                                _ => ([0, 0, 0, 0, 0, 0xffff, 0x7f01 + h as u16, crowds as u16], 11).into(),
                            }
                        }).collect();
                    }
                    let node = w.node.as_ref().unwrap();
                    for a in &crowd {
                        let c = Command::Connect { peer_pi: ids[e.p - 1].clone(), address: *a };
                        if let Err(m) = common::call(|| format!("seed {seed} behaviour {i}: {line}"), || node.command(c)) {
                            return fail("command-panics", at(&m));
                        }
                        if !e.ev.is_empty() {
                            events.push(Ev { k: "failed", a: 0 });
                        }
                    }
                },
                "signal" => common::signal_nodes(),
                "clear" => {
                    if effects && w.away {
                        w.away = false;
                        let _ = until(limit, || (w.collect().is_err() || w.events.len() >= events.len()).then_some(()));
                        if w.events != events {
                            fail("wrong-effect", at(&format!("{} events, expected {}", w.events.len(), events.len())));
                            break;
                        }
                    }
                    w.running.store(false, SeqCst);
                    cleared = true;
                    if !effects && rng.gen_range(0..3) == 0 {
                        std::thread::sleep(Duration::from_millis(rng.gen_range(0..2500)));
                    }
                },
                "join" => {
                    let traffic = match rng.gen_range(0..6) {
                        0 | 1 => Traffic::Drip(rng.gen_range(50..1900)),
                        2 => Traffic::Flood,
                        _ => Traffic::Nothing,
                    };
                    for (c, m) in finish(&mut w, if effects { Traffic::Nothing } else { traffic }, &mut rng) {
                        fail(c, at(&m));
                    }
                },
                _ => panic!("harness: op {}", e.op),
            }
            if e.op == "join" || cleared {
                continue;
            }
            if (w.rf.is_none() || w.away) && e.op == "send" && !e.hs && !w.barrier(&ids[0]) && w.running.load(SeqCst) {
                fail("no-effect", at("a later request and datagram had no effect within 10 s"));
                break;
            }
            if matches!(e.op.as_str(), "connect" | "send") && !e.ev.is_empty() {
                events.push(Ev { k: match e.ev.as_str() { "failed" => "failed", "size" => "size", _ => "incoming" }, a: e.a });
            }
            if e.hs {
                want[e.a - 1] += e.n;
                pending[e.a - 1] = 0;
            }
            let mut err = None;
            let ok = until(limit, || {
                if !effects && !w.running.load(SeqCst) {
                    return Some(());
                }
                match w.collect() {
                    Err(m) => err = Some(m),
                    Ok(()) if (w.away || w.events.len() >= events.len()) && w.hs.iter().zip(&want).all(|(a, b)| a >= b) => (),
                    Ok(()) => return None,
                }
                Some(())
            });
            if let Some(m) = err {
                fail("effect", at(&m));
            } else if !w.away && w.events != events || w.hs != want {
                fail(if ok.is_none() { "no-effect" } else { "wrong-effect" }, at(&format!(
                    "events {:?}, expected {:?}; handshakes by peer {:?}, expected {:?}",
                    w.events.last(), events.last(), w.hs, want)));
            } else {
                continue;
            }
            if effects {
                // the rest is not comparable any more
                break;
            }
            if !w.away {
                events = w.events.clone();
            }
            want = w.hs.clone();
        }
        if w.node.is_some() {
            for (c, m) in finish(&mut w, Traffic::Nothing, &mut rng) {
                fail(c, m);
            }
        }
        if effects && (0..w.addr.len()).any(|a| w.hs[a] > want[a] + pending[a]) {
            fail("extra-handshake", format!("handshakes by peer {:?}, at most {:?} + {:?}", w.hs, want, pending));
        }
        rep.ok(steps);
    });
    panics(rep, !effects);
}

fn panics(rep: &Report, report: bool) {
    let p = PANICS.lock().unwrap();
    if report && !p.is_empty() {
        rep.fail(Fail::new("node-panics", format!("a thread of the node panicked: {}", p[0]), p.join("\n")));
    }
}

#[derive(Serialize)]
struct Trace {
    id: usize,
    batches: Vec<Batch>,
    events: Vec<Ev>,
    sent: Vec<usize>,
}

#[derive(Serialize, Default)]
struct Batch {
    acts: Vec<Act>,
    sends: Vec<Msg>,
}

#[derive(Serialize)]
struct Act {
    a: usize,
    p: usize,
}

#[derive(Serialize, Clone)]
struct Msg {
    a: usize,
    k: &'static str,
}

/// commands and datagrams at the same time, in bursts; what came of it is recorded
pub fn record(n: usize, seed: u64, out: &str, rep: &Report) {
    let (pk, sk) = key(1);
    if no_node(rep, &pk, &sk) {
        return std::fs::write(out, "").unwrap();
    }
    let ids = identities();
    let traces = Mutex::new(vec![]);
    common::par(n, 48, |i| {
        let mut rng = StdRng::seed_from_u64(seed ^ (i as u64) << 20 ^ 77);
        let mut w = World::new(&pk, &sk);
        let mut t = Trace { id: i + 1, batches: vec![], events: vec![], sent: vec![] };
        let mut total = 0;
        for _ in 0..rng.gen_range(3..9) {
            let mut b = Batch::default();
            let few = rng.gen_range(1..5);
            for _ in 0..rng.gen_range(0..9) {
                b.acts.push(Act { a: rng.gen_range(0..few) + 1, p: rng.gen_range(1..4) });
            }
            let mut big = 0;
            let mut data = vec![vec![]; 4];
            for _ in 0..rng.gen_range(0..13) {
                let a = rng.gen_range(0..few);
                let k = if rng.gen_range(0..4) == 0 { "bad" } else { "good" };
                let mut n = size(k, &mut rng);
                if n > 3000 {
                    big += 1;
                    if big > 1 {
                        n = 3;
                    }
                }
                let d = w.content(n, &mut rng);
                data[a].push(d);
                b.sends.push(Msg { a: a + 1, k });
            }
            total += b.sends.len();
            let (to, socks, addr) = (w.to, &w.socks, &w.addr);
            let node = w.node.as_ref().unwrap();
            let go = std::sync::Barrier::new(4);
            let pauses: Vec<u64> = (0..4).map(|_| rng.gen_range(0..60)).collect();
            let crash = std::thread::scope(|s| {
                for a in 0..4 {
                    let (data, go, pause) = (&data[a], &go, pauses[a]);
                    if a == 3 && data.is_empty() {
                        continue;
                    }
                    s.spawn(move || {
                        common::mine();
                        if a < 3 {
                            go.wait();
                        }
                        for d in data {
                            socks[a].send_to(d, to).expect("harness: send");
                            std::thread::sleep(Duration::from_micros(pause));
                        }
                    });
                }
                go.wait();
                let mut r = Ok(());
                for x in &b.acts {
                    let c = Command::Connect { peer_pi: ids[x.p - 1].clone(), address: addr[x.a - 1] };
                    r = r.and(common::call(|| "recording".into(), || node.command(c)));
                    let c = Command::Local { destination: ids[x.p - 1].clone(), command: LocalCommand::SendText("x".into()) };
                    r = r.and(common::call(|| "recording".into(), || node.command(c)));
                }
                r
            });
            if let Err(m) = crash {
                rep.fail(Fail::new("command-panics", m, String::new()));
                return;
            }
            // every datagram has one effect
            let mut err = None;
            let done = |w: &World| w.events.iter().filter(|e| e.k != "failed").count() + w.hs.iter().sum::<usize>();
            until(Duration::from_secs(10), || {
                err = w.collect().err();
                (err.is_some() || done(&w) >= total).then_some(())
            });
            t.batches.push(b);
            if let Some(m) = err {
                rep.fail(Fail::new("effect", m, serde_json::to_string(&t).unwrap()));
                return;
            }
            if done(&w) != total {
                rep.fail(Fail::new("effects-count", format!("{} datagrams had {} effects", total, done(&w)), serde_json::to_string(&t).unwrap()));
                return;
            }
        }
        finish(&mut w, Traffic::Nothing, &mut rng);
        t.events = w.events.clone();
        t.sent = w.hs[..].to_vec();
        rep.ok(t.batches.iter().map(|b| b.acts.len() + b.sends.len()).sum());
        traces.lock().unwrap().push(t);
    });
    let mut v = traces.into_inner().unwrap();
    v.sort_by_key(|t| t.id);
    std::fs::write(out, v.iter().map(|t| serde_json::to_string(t).unwrap() + "\n").collect::<String>()).unwrap();
}
