//! Client: runs of the command-line client against a socket that records what arrives
use std::{
    io::Read, net::SocketAddr, os::unix::net::UnixListener, path::Path, process::{Command as Cmd, Stdio}, time::Duration,
};
use rand::{Rng, SeedableRng, rngs::StdRng};
use serde::Deserialize;
use vru_session::Command;
use crate::{common, udp::identities, util::{Fail, Report}};

#[derive(Deserialize)]
struct Entry {
    op: String,
    p: usize,
    x: String,
    up: bool,
}

fn place(k: &str, rng: &mut StdRng) -> SocketAddr {
    let port = [0, 1, 80, 255, 256, 32768, 65535, rng.gen()][rng.gen_range(0..8)];
    match k {
        "v4" => (rng.gen::<[u8; 4]>(), port).into(),
        "loop" => ([127, 0, 0, 1], port).into(),
        "zero" => ([0, 0, 0, 0], port).into(),
        "broadcast" => ([255; 4], port).into(),
        "v6" => (rng.gen::<[u16; 8]>(), port).into(),
        "loop6" => ([0, 0, 0, 0, 0, 0, 0, 1], port).into(),
        "zero6" => ([0u16; 8], port).into(),
        "mapped" => ([0, 0, 0, 0, 0, 0xffff, rng.gen(), rng.gen()], port).into(),
        k => panic!("harness: place {k}"),
    }
}

fn text(k: &str, rng: &mut StdRng) -> String {
    let word = |rng: &mut StdRng| (0..rng.gen_range(1..9)).map(|_| rng.gen_range(b'!'..b'~') as char).collect::<String>();
    match k {
        "empty" => String::new(),
        "word" => word(rng),
        "spaces" => format!("{} {}\t{}  ", ["", " ", "  "][rng.gen_range(0..3)], word(rng), word(rng)),
        "lines" => format!("{}\n{}\r\n{}\n", ["", "\n"][rng.gen_range(0..2)], word(rng), word(rng)),
        "unicode" => ["\u{fc}", "\u{1f600}\u{202e}x", "e\u{301}", "\u{feff}a", "\u{0}x".trim_start_matches('\0')][rng.gen_range(0..5)].repeat(rng.gen_range(1..40)),
        "dash" => ["-", "--", "-x", "--path", "--help"][rng.gen_range(0..5)].into(),
        "quotes" => ["\"", "'", "\\", "$HOME", "%s%n", "a,b", "{}", "`id`"][rng.gen_range(0..8)].into(),
        "long" => (0..[255, 256, 257, 1000, 1024, 4096, 5000, 8192][rng.gen_range(0..8)]).map(|i| (b'a' + (i % 26) as u8) as char).collect(),
        "huge" => (0..rng.gen_range(30_000..120_000)).map(|i| (b'a' + (i % 23) as u8) as char).collect(),
        "identity" => identities()[rng.gen_range(0..3)].to_string(),
        "nul-like" => ["\u{1}", "\u{7f}", "\u{80}", "0", "\\0", "null"][rng.gen_range(0..6)].into(),
        k => panic!("harness: text {k}"),
    }
}

pub fn run(lines: &[String], bin: &Path, scratch: &Path, seed: u64, rep: &Report) {
    let ids = identities();
    common::par(lines.len(), 16, |i| {
        let line = &lines[i];
        let mut rng = StdRng::seed_from_u64(seed ^ (i as u64) << 20 ^ 5);
        let log: Vec<Entry> = serde_json::from_str(line).expect("harness: line");
        let dir = scratch.join(format!("{i}{}", ["", " d", "\u{fc}", ".x"][i % 4]));
        std::fs::create_dir_all(&dir).unwrap();
        let sock = dir.join("ctrl.sock");
        let mut listener: Option<UnixListener> = None;
        for (n, e) in log.iter().enumerate() {
            if e.op == "toggle" {
                listener = None;
                // what is left of the socket stays at times
                if e.up || rng.gen() {
                    let _ = std::fs::remove_file(&sock);
                }
                if e.up {
                    let l = UnixListener::bind(&sock).unwrap_or_else(|e| panic!("harness: bind {e}"));
                    l.set_nonblocking(true).unwrap();
                    listener = Some(l);
                }
                continue;
            }
            let peer = &ids[e.p - 1];
            let mut c = Cmd::new(bin.join("vru-udp"));
            c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped());
            c.arg("--path").arg(&dir).arg(&e.op);
            let want = if e.op == "connect" {
                let address = place(&e.x, &mut rng);
                c.arg(peer.to_string()).arg(address.to_string());
                Command::Connect { peer_pi: peer.clone(), address }
            } else {
                let t = text(&e.x, &mut rng);
                if t.starts_with('-') {
                    c.arg("--");
                }
                c.arg(peer.to_string()).arg(&t);
                Command::Local { destination: peer.clone(), command: t.into_bytes() }
            };
            let mut child = c.spawn().unwrap_or_else(|e| panic!("harness: spawn {e}"));
            // whatever comes until it has ended
            let mut got = vec![];
            let t = std::time::Instant::now();
            let mut ended = false;
            loop {
                let last = ended;
                ended = child.try_wait().unwrap().is_some();
                while let Some(Ok((mut s, _))) = listener.as_ref().map(|l| l.accept()) {
                    let mut b = vec![];
                    s.set_nonblocking(false).unwrap();
                    let _ = s.set_read_timeout(Some(Duration::from_secs(5)));
                    let _ = s.read_to_end(&mut b);
                    if !b.is_empty() {
                        got.push(b);
                    }
                }
                if last || t.elapsed() > Duration::from_secs(20) {
                    break;
                }
                std::thread::sleep(Duration::from_micros(300));
            }
            let _ = child.kill();
            let _ = child.wait();
            let show = |b: &Vec<u8>| match bincode::deserialize::<Command<SocketAddr>>(b) {
                Ok(c) => format!("{c:?}"),
                Err(e) => format!("{} bytes that are no command ({e})", b.len()),
            };
            let (want, got) = (if e.up { vec![format!("{want:?}")] } else { vec![] }, got.iter().map(show).collect::<Vec<_>>());
            if want != got {
                let cut = |v: &[String]| v.iter().map(|s| s.chars().take(300).collect::<String>()).collect::<Vec<_>>();
                rep.fail(Fail::new("client", format!("run {} ({} {}): {:?} arrived, asked for {:?}", n + 1, e.op, e.x, cut(&got), cut(&want)), format!("seed {seed} behaviour {i}: {line}")));
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
        rep.ok(log.len());
    });
}
