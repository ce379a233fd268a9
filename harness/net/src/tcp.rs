//! TcpNode: behaviours replayed on real nodes of vru-tcp over loopback connections
use std::{
    net::{SocketAddr, TcpListener, TcpStream},
    sync::{Arc, atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst}},
    time::{Duration, Instant},
};
use rand::{Rng, SeedableRng, rngs::StdRng};
use serde::Deserialize;
use vru_session::{Command, Event, Node as _, NodeRef as _};
use vru_tcp::{Node, NodeRef};
use crate::{common::{self, until, PANICS}, udp::{identities, key}, util::{guard, Fail, Report}};

#[derive(Deserialize)]
struct Entry {
    op: String,
    k: String,
    ok: bool,
    n: usize,
}

static PORT: AtomicUsize = AtomicUsize::new(0);

/// a port nobody uses, outside of the range of automatic ones
pub fn port() -> u16 {
    let start = std::process::id() as usize * 131;
    for _ in 0..20000 {
        let p = (10000 + (start + PORT.fetch_add(1, SeqCst)) % 20000) as u16;
        if TcpListener::bind(("0.0.0.0", p)).is_ok() {
            return p;
        }
    }
    panic!("harness: no free port")
}

struct Life {
    node: Node<()>,
    /// None: given up
    rf: Option<NodeRef>,
    running: Arc<AtomicBool>,
    at: SocketAddr,
    asked: usize,
    incoming: usize,
    events: usize,
    away: bool,
}

fn drain(l: &mut Life) -> (Option<String>, bool) {
    let (Some(rf), false) = (&l.rf, l.away) else { return (None, false) };
    loop {
        match rf.try_recv() {
            Err(_) => return (None, true),
            Ok(None) => return (None, false),
            Ok(Some(e)) => {
                l.events += 1;
                if l.incoming == 0 && !matches!(e, Event::Error(_)) {
                    return (Some(format!("unexpected event {e:?}")), false);
                }
                if l.incoming == 0 && l.events > l.asked {
                    return (Some(format!("{} events of {} commands, the last {e:?}", l.events, l.asked)), false);
                }
            },
        }
    }
}

pub fn run(lines: &[String], seed: u64, rep: &Report) {
    let (pk, sk) = key(1);
    let ids = identities();
    let six = TcpListener::bind("[::1]:0").is_ok();
    let listening = TcpListener::bind("127.0.0.1:0").unwrap();
    let far1 = listening.local_addr().unwrap();
    let listening2 = TcpListener::bind("127.0.0.2:0").unwrap();
    let far2 = listening2.local_addr().unwrap();
    let silent = common::Silent::new([127, 0, 0, 4]);
    let hung = AtomicBool::new(false);
    for l in [listening, listening2] {
        std::thread::spawn(move || {
            common::mine();
            for s in l.incoming() {
                drop(s);
            }
        });
    }
    common::par(lines.len(), 48, |i| {
        let line = &lines[i];
        let fail = |class: &str, what: String| rep.fail(Fail::new(class, what, format!("seed {seed} behaviour {i}: {line}")));
        let log: Vec<Entry> = serde_json::from_str(line).expect("harness: line");
        let mut rng = StdRng::seed_from_u64(seed ^ (i as u64) << 20);
        let taken = TcpListener::bind("127.0.0.1:0").unwrap();
        let mut life: Option<Life> = None;
        let mut last: Option<SocketAddr> = None;
        for (n, e) in log.iter().enumerate() {
            let at = |x: &str| format!("action {} ({} {}): {x}", n + 1, e.op, e.k);
            if e.op == "spawn" {
                let a: SocketAddr = match e.k.as_str() {
                    "any" => ([0, 0, 0, 0], port()).into(),
                    "loop6" if six => ([0, 0, 0, 0, 0, 0, 0, 1], port()).into(),
                    "same" => last.unwrap_or_else(|| ([127, 0, 0, 1], port()).into()),
                    "loop" | "loop6" => ([127, 0, 0, 1], port()).into(),
                    "taken" => taken.local_addr().unwrap(),
                    "foreign" => ([192, 0, 2, 1], port()).into(),
                    "foreign6" => ([0x2001, 0xdb8, 0, 0, 0, 0, 0, 1], port()).into(),
                    k => panic!("harness: address {k}"),
                };
                let running = Arc::new(AtomicBool::new(true));
                let t = Instant::now();
                let r = guard(|| Node::spawn(sk.clone(), pk.clone(), a, (), running.clone()));
                if t.elapsed() > Duration::from_secs(10) {
                    fail("spawn-hangs", at(&format!("{:?}", t.elapsed())));
                }
                match r {
                    Err(m) => return fail("spawn-panics", at(&m)),
                    Ok(Ok((node, rf))) => {
                        if !e.ok {
                            fail("spawn-unusable", at(&format!("started on {a}")));
                            running.store(false, SeqCst);
                            return;
                        }
                        last = Some(a);
                        life = Some(Life { node, rf: Some(rf), running, at: a, asked: 0, incoming: 0, events: 0, away: false });
                    },
                    Ok(Err(m)) => {
                        if e.ok {
                            return fail("spawn-refused", at(&format!("{a}: {m}")));
                        }
                    },
                }
                continue;
            }
            let l = life.as_mut().expect("harness: no node");
            let reach: SocketAddr = (if l.at.is_ipv6() { "::1" } else { "127.0.0.1" }.parse::<std::net::IpAddr>().unwrap(), l.at.port()).into();
            match e.op.as_str() {
                "connect" | "local" => for nth in 1..=e.n {
                    let c = if e.op == "local" {
                        Command::Local { destination: ids[rng.gen_range(0..3)].clone(), command: vec![1; rng.gen_range(0..3000)] }
                    } else {
                        let address = match e.k.as_str() {
                            "listening" => far1,
                            "listening2" => far2,
                            "refused" => "127.0.0.1:1".parse().unwrap(),
                            "discard" => "127.0.0.3:9".parse().unwrap(),
                            "foreign" => "198.51.100.1:80".parse().unwrap(),
                            "foreign6" => "[2001:db8::2]:80".parse().unwrap(),
                            "multicast" => ([224, 0, 0, rng.gen_range(1..9)], 80).into(),
                            "broadcast" => "255.255.255.255:80".parse().unwrap(),
                            "zero" => "0.0.0.0:0".parse().unwrap(),
                            // once a command has hung there, no more of it
                            "silent" if hung.load(SeqCst) => far1,
                            "silent" => silent.address(),
                            "self" => {
                                l.incoming += 1;
                                reach
                            },
                            k => panic!("harness: address {k}"),
                        };
                        l.asked += 1;
                        Command::Connect { peer_pi: ids[rng.gen_range(0..3)].clone(), address }
                    };
                    let t = Instant::now();
                    if let Err(m) = common::call(|| format!("seed {seed} behaviour {i}: {line}"), || l.node.command(c)) {
                        return fail("command-panics", at(&m));
                    }
                    if t.elapsed() > Duration::from_secs(10) {
                        hung.store(true, SeqCst);
                        fail("command-hangs", at(&format!("{:?}", t.elapsed())));
                    }
                    if nth < e.n {
                        continue;
                    }
                    let (bad, over) = drain(l);
                    if let Some(m) = bad {
                        fail("wrong-event", at(&m));
                    }
                    if over {
                        fail("stream-ended", at("the event stream ended before join"));
                    }
                },
                "incoming" => {
                    l.incoming += 1;
                    for _ in 0..if rng.gen_range(0..8) == 0 { 20 } else { 1 } {
                        match TcpStream::connect_timeout(&reach, Duration::from_secs(5)) {
                            Ok(mut s) => {
                                use std::io::Write;
                                if rng.gen() {
                                    let _ = s.write_all(&[7; 100]);
                                }
                                if rng.gen() {
                                    // stays open for a while
                                    std::thread::spawn(move || {
                                        common::mine();
                                        std::thread::sleep(Duration::from_secs(1));
                                        drop(s);
                                    });
                                }
                            },
                            Err(_) if !e.ok => (),
                            Err(m) => return fail("node-down", at(&format!("the node does not listen any more: {m}"))),
                        }
                    }
                    std::thread::sleep(Duration::from_millis(rng.gen_range(0..30)));
                },
                "deaf" => l.rf = None,
                "away" => l.away = true,
                // the poll of the node ends meanwhile
                "idle" => std::thread::sleep(Duration::from_millis(rng.gen_range(1000..2400))),
                "signal" => common::signal_nodes(),
                "clear" => {
                    l.running.store(false, SeqCst);
                    if rng.gen_range(0..3) == 0 {
                        std::thread::sleep(Duration::from_millis(rng.gen_range(0..1500)));
                    }
                },
                "join" => {
                    let mut l = life.take().unwrap();
                    let stop = Arc::new(AtomicBool::new(false));
                    match rng.gen_range(0..6) {
                        0 => {
                            // connections all the while
                            let stop = stop.clone();
                            std::thread::spawn(move || {
                                common::mine();
                                let t = Instant::now();
                                while !stop.load(SeqCst) && t.elapsed() < Duration::from_secs(20) {
                                    let _ = TcpStream::connect_timeout(&reach, Duration::from_secs(1));
                                    std::thread::sleep(Duration::from_micros(500));
                                }
                            });
                            l.incoming += 1;
                        },
                        1 => {
                            let (running, pause) = (l.running.clone(), rng.gen_range(0..50));
                            std::thread::spawn(move || {
                                common::mine();
                                std::thread::sleep(Duration::from_millis(pause));
                                running.store(false, SeqCst);
                            });
                        },
                        2 if l.incoming > 0 => std::thread::sleep(Duration::from_millis(rng.gen_range(0..40))),
                        _ => (),
                    }
                    let Life { node, rf, running, at: a, asked, incoming, events, .. } = l;
                    let t = Instant::now();
                    let joining = std::thread::spawn(move || {
                        common::mine();
                        guard(|| node.join())
                    });
                    if until(Duration::from_secs(15), || joining.is_finished().then_some(())).is_none() {
                        stop.store(true, SeqCst);
                        fail("join-hangs", at(&format!("join did not return within {:?}", t.elapsed())));
                        running.store(false, SeqCst);
                        return;
                    }
                    stop.store(true, SeqCst);
                    if let Err(m) = joining.join().unwrap() {
                        return fail("join-panics", at(&m));
                    }
                    // the stream ends; recv gives the rest and then the end
                    last = Some(a);
                    let Some(rf) = rf else { continue };
                    let polled = rng.gen::<bool>();
                    let (tx, rx) = std::sync::mpsc::channel();
                    std::thread::spawn(move || {
                        common::mine();
                        let mut n = events;
                        let (mut odd, mut ended) = (None, false);
                        let r = guard(|| {
                            let t = Instant::now();
                            loop {
                                let e = if polled {
                                    match rf.try_recv() {
                                        Ok(None) if t.elapsed() > Duration::from_secs(4) => return,
                                        Ok(None) => {
                                            std::thread::sleep(Duration::from_millis(5));
                                            continue;
                                        },
                                        Ok(Some(e)) => e,
                                        Err(_) => break,
                                    }
                                } else {
                                    match rf.recv() {
                                        Ok(e) => e,
                                        Err(_) => break,
                                    }
                                };
                                n += 1;
                                if incoming == 0 && (n > asked || !matches!(e, Event::Error(_))) {
                                    odd = Some(format!("{n} events of {asked} commands, the last {e:?}"));
                                }
                            }
                            ended = true;
                        });
                        let _ = tx.send((ended, r.err().or(odd)));
                    });
                    match rx.recv_timeout(Duration::from_secs(5)) {
                        Ok((_, Some(m))) => fail("wrong-event", at(&m)),
                        Ok((true, None)) => (),
                        _ => return fail("stream-open", at(&format!("the event stream did not end after join (polled: {polled})"))),
                    }
                },
                _ => panic!("harness: op {}", e.op),
            }
        }
        rep.ok(log.len());
    });
    let p = PANICS.lock().unwrap();
    if !p.is_empty() {
        rep.fail(Fail::new("node-panics", format!("a thread of the node panicked: {}", p[0]), p.join("\n")));
    }
}
