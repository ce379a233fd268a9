//! Scripts of NodeProc run with real node processes; what happens is recorded for NodeTrace
use std::{
    collections::{BTreeMap, HashMap, HashSet, VecDeque},
    io::{BufRead, Write},
    net::{IpAddr, SocketAddr, TcpListener, TcpStream},
    os::unix::{net::UnixStream, process::{CommandExt, ExitStatusExt}},
    path::{Path, PathBuf},
    process::{Child, Command as Cmd, Stdio},
    sync::{mpsc, Arc, Mutex, atomic::{AtomicBool, Ordering::SeqCst}},
    time::{Duration, Instant},
};
use rand::{Rng, SeedableRng, rngs::StdRng};
use serde::{Deserialize, Serialize};
use vru_session::{Command, handshake::Identity};
use crate::{common::{self, until}, tcp::port, udp::identities, util::{Fail, Report}};

#[derive(Deserialize)]
struct Entry {
    op: String,
    d: usize,
    c: usize,
    k: String,
}

#[derive(Serialize, Clone, Debug)]
struct Ev {
    e: &'static str,
    d: usize,
    c: usize,
    k: String,
}

#[derive(Serialize)]
struct Trace {
    id: usize,
    ev: Vec<Ev>,
}

pub struct Env {
    /// where the binaries are
    pub bin: PathBuf,
    pub shim: PathBuf,
    pub scratch: PathBuf,
    pub files: u64,
    pub seed: u64,
    pub silent: crate::common::Silent,
}

struct Proc {
    child: Child,
    lines: mpsc::Receiver<String>,
    text: Arc<Mutex<String>>,
    doomed: bool,
    port: u16,
    interrupted: bool,
    /// to be acted on, by number
    due: HashSet<usize>,
    stalls: u32,
}

struct Run<'a> {
    env: &'a Env,
    n: usize,
    ev: Vec<Ev>,
    names: Vec<String>,
    procs: HashMap<usize, Proc>,
    acted: mpsc::Receiver<(usize, usize)>,
    /// connections whose command names an address, by the connection the address is of
    waiting: HashMap<(usize, usize), VecDeque<usize>>,
    /// the last whole command of this life of the process, to be given again
    last: HashMap<usize, (usize, Identity)>,
    /// addresses are sometimes written as those of the other family
    mapped: bool,
    target: u16,
    conns: usize,
    /// the script's number of a late connection: ours, the rest, when it was opened
    late: BTreeMap<usize, (usize, usize, UnixStream, Vec<u8>, Instant)>,
    open: Vec<UnixStream>,
    drips: Arc<AtomicBool>,
    rng: StdRng,
    slowest_stop: Duration,
}

/// given up: something never came
struct Hang;

impl Run<'_> {
    fn log(&mut self, e: &'static str, d: usize, c: usize, k: &str) {
        self.ev.push(Ev { e, d, c, k: k.into() });
    }

    fn dir(&self, d: usize) -> PathBuf {
        self.env.scratch.join(self.rel(d))
    }

    /// directories beside each other, of the same name, with odd names, inside of another
    fn rel(&self, d: usize) -> String {
        let n = self.n;
        match n % 4 {
            0 => format!("{n}-{d}"),
            1 => format!("{n}-{d}/data"),
            2 => format!("{n} \u{fc} {d}"),
            _ => format!("{n}{}", "/sub".repeat(d - 1)),
        }
    }

    fn address(&self, d: usize, c: usize) -> SocketAddr {
        ([127, 10 + d as u8, (c / 250) as u8, (c % 250) as u8 + 1], self.target).into()
    }

    fn collect(&mut self) {
        while let Ok((d, a)) = self.acted.try_recv() {
            let c = self.waiting.get_mut(&(d, a)).and_then(|w| w.pop_front()).unwrap_or(a);
            if let Some(p) = self.procs.get_mut(&d) {
                p.due.remove(&c);
            }
            self.log("acted", d, c, "");
        }
    }

    fn announced(&mut self, d: usize) -> bool {
        let mut any = false;
        while let Ok(l) = self.procs[&d].lines.try_recv() {
            any = true;
            let i = match self.names.iter().position(|x| *x == l) {
                Some(i) => i,
                None => {
                    self.names.push(l);
                    self.names.len() - 1
                },
            };
            self.log("announce", d, i + 1, "");
        }
        any
    }

    /// has the process ended? then everything it did is recorded, and how it ended
    fn dead(&mut self, d: usize, told: bool) -> bool {
        let Some(p) = self.procs.get_mut(&d) else { return true };
        match p.child.try_wait() {
            Ok(None) => false,
            Ok(Some(s)) => {
                // the reader of the log ends with it; what was accepted by the kernel is there by now
                std::thread::sleep(Duration::from_millis(120));
                self.announced(d);
                self.collect();
                let p = self.procs.remove(&d).unwrap();
                if s.signal() == Some(libc::SIGKILL) && (p.doomed || told) || told {
                    self.log("killed", d, 0, "");
                } else if s.success() {
                    let t = p.text.lock().unwrap().clone();
                    self.log("exit", d, 0, if p.interrupted { "" } else { &t[t.len().saturating_sub(600)..] });
                } else {
                    let t = p.text.lock().unwrap().clone();
                    self.log("crashed", d, 0, &format!("{s} {}", &t[t.len().saturating_sub(600)..]));
                }
                true
            },
            Err(e) => panic!("harness: wait {e}"),
        }
    }

    fn start(&mut self, d: usize, at: usize, how: &str) -> Result<(), Hang> {
        let dir = self.dir(d);
        std::fs::create_dir_all(&dir).unwrap();
        let stale = dir.join("ctrl.sock").exists();
        self.last.remove(&d);
        let port = port();
        let mut c = Cmd::new(self.env.bin.join("vru-node"));
        // the same directory by other names
        let name = self.rel(d);
        let path = match self.rng.gen_range(0..9) {
            0 => format!("{}/", dir.display()),
            1 => format!("{}/.", dir.display()),
            2 => {
                c.current_dir(self.env.scratch.parent().unwrap());
                Path::new(self.env.scratch.file_name().unwrap()).join(name).display().to_string()
            },
            3 => format!("{}/../{}", dir.display(), dir.file_name().unwrap().to_str().unwrap()),
            4 => {
                let link = self.env.scratch.join(format!("{}-{d}.link", self.n));
                let _ = std::fs::remove_file(&link);
                std::os::unix::fs::symlink(&dir, &link).unwrap();
                link.display().to_string()
            },
            _ => dir.display().to_string(),
        };
        c.arg("--path").arg(path).arg("--port").arg(port.to_string());
        c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
        if at > 0 {
            c.env("LD_PRELOAD", &self.env.shim).env("VRU_KILL_AT", at.to_string()).env("VRU_KILL_HOW", how);
        }
        let files = self.env.files;
        unsafe {
            c.pre_exec(move || {
                if files > 0 {
                    let l = libc::rlimit { rlim_cur: files, rlim_max: files };
                    libc::setrlimit(libc::RLIMIT_NOFILE, &l);
                }
                // whatever happens to the harness
                libc::prctl(libc::PR_SET_PDEATHSIG, 0);
                Ok(())
            });
        }
        self.log("start", d, 0, if stale { "stale" } else { "" });
        let mut child = c.spawn().unwrap_or_else(|e| panic!("harness: spawn {e}"));
        let (tx, lines) = mpsc::channel();
        let text = Arc::new(Mutex::new(String::new()));
        let (o, e) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
        for (r, announce) in [(Box::new(o) as Box<dyn std::io::Read + Send>, true), (Box::new(e), false)] {
            let (tx, text) = (tx.clone(), text.clone());
            std::thread::spawn(move || {
                common::mine();
                let mut r = std::io::BufReader::new(r);
                let mut l = vec![];
                while let Ok(n) = r.read_until(b'\n', &mut l) {
                    if n == 0 {
                        break;
                    }
                    let s = String::from_utf8_lossy(&l).to_string();
                    if announce && s.ends_with('\n') {
                        if let Some((_, x)) = s.split_once("identity: ") {
                            let x: String = x.chars().take_while(|c| c.is_ascii_alphanumeric() || "+/=".contains(*c)).collect();
                            let _ = tx.send(x);
                        }
                    }
                    let mut t = text.lock().unwrap();
                    if t.len() < 20000 {
                        t.push_str(&s);
                    }
                    l.clear();
                }
            });
        }
        self.procs.insert(d, Proc { child, lines, text, doomed: at > 0, port, interrupted: false, due: HashSet::new(), stalls: 0 });
        let t = Instant::now();
        let mut said = false;
        let sock = dir.join("ctrl.sock");
        loop {
            if self.dead(d, false) {
                return Ok(());
            }
            said = self.announced(d) || said;
            if said && listening(&sock, self.env.scratch.parent().unwrap()) {
                self.log("ready", d, 0, "");
                return Ok(());
            }
            if t.elapsed() > Duration::from_secs(30) {
                let k = self.procs[&d].text.lock().unwrap().clone();
                self.log("mute", d, 0, &k[k.len().saturating_sub(400)..]);
                return Err(Hang);
            }
            std::thread::sleep(Duration::from_millis(3));
        }
    }

    /// one control connection
    fn open(&mut self, d: usize, script: usize, kind: &str) {
        if self.dead(d, false) {
            return;
        }
        self.conns += 1;
        let c = self.conns;
        let ids = identities();
        let mut peer_pi = ids[self.rng.gen_range(0..3)].clone();
        let mut of = c;
        if kind == "good" && self.rng.gen_range(0..6) == 0 {
            // the same command once more
            if let Some((a, pi)) = self.last.get(&d) {
                of = *a;
                peer_pi = pi.clone();
            }
        }
        let mut address = self.address(d, of);
        if let (true, IpAddr::V4(a)) = (self.mapped && (c + d) % 3 == 0, address.ip()) {
            address.set_ip(a.to_ipv6_mapped().into());
        }
        let text = |rng: &mut StdRng| Command::<SocketAddr>::Local {
            destination: ids[0].clone(),
            command: vec![b'x'; [0, 1, 10, 1000, 70000][rng.gen_range(0..5)]],
        };
        // without an effect to be seen: for a peer nobody knows, or to a place that never answers
        let silent = match kind == "text" && self.rng.gen_range(0..3) == 0 {
            true => Some(self.env.silent.address()),
            false => None,
        };
        let good = bincode::serialize(&Command::Connect { peer_pi: peer_pi.clone(), address }).unwrap();
        self.collect();
        let at = self.ev.len();
        self.log("opened", d, c, kind);
        let t = Instant::now();
        if matches!(kind, "good" | "text") && self.env.files == 0 && self.rng.gen_range(0..5) == 0 {
            // by the command-line client
            let mut cmd = Cmd::new(self.env.bin.join("vru-udp"));
            cmd.arg("--path").arg(self.dir(d)).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped());
            if kind == "good" {
                cmd.arg("connect").arg(peer_pi.to_string()).arg(address.to_string());
            } else if let Some(a) = silent {
                cmd.arg("connect").arg(peer_pi.to_string()).arg(a.to_string());
            } else {
                cmd.arg("send-text").arg(peer_pi.to_string()).arg("some text");
            }
            let o = cmd.output().unwrap_or_else(|e| panic!("harness: client {e}"));
            if !o.status.success() {
                return self.refused(d, at, &String::from_utf8_lossy(&o.stderr));
            }
        } else {
            let mut s = match UnixStream::connect(self.dir(d).join("ctrl.sock")) {
                Ok(s) => s,
                Err(e) => return self.refused(d, at, &e.to_string()),
            };
            let mut keep = self.rng.gen_range(0..3) == 0;
            match kind {
                "good" | "text" => {
                    let b = if kind == "good" { good } else if let Some(address) = silent {
                        bincode::serialize(&Command::Connect { peer_pi: peer_pi.clone(), address }).unwrap()
                    } else { bincode::serialize(&text(&mut self.rng)).unwrap() };
                    if self.rng.gen_range(0..3) == 0 {
                        let cut = self.rng.gen_range(0..=b.len());
                        let _ = s.write_all(&b[..cut]);
                        std::thread::sleep(Duration::from_millis(self.rng.gen_range(0..50)));
                        let _ = s.write_all(&b[cut..]);
                    } else {
                        let _ = s.write_all(&b);
                    }
                },
                "bad" => {
                    let b = bad(&good, &mut self.rng);
                    let _ = s.write_all(&b);
                    keep = false;
                },
                "short" => {
                    let _ = s.write_all(&good[..self.rng.gen_range(1..good.len())]);
                    keep = false;
                },
                "empty" => keep = false,
                "late" => {
                    let cut = self.rng.gen_range(0..good.len());
                    let _ = s.write_all(&good[..cut]);
                    self.late.insert(script, (d, at, s, good[cut..].to_vec(), t));
                    return;
                },
                "stall" => {
                    let cut = self.rng.gen_range(0..good.len());
                    keep = true;
                    if let Some(p) = self.procs.get_mut(&d) {
                        p.stalls += 1;
                    }
                    if self.rng.gen() {
                        let _ = s.write_all(&good[..cut]);
                    } else {
                        // byte by byte, never complete
                        let stop = self.drips.clone();
                        let mut b = bincode::serialize(&Command::<SocketAddr>::Local { destination: peer_pi.clone(), command: vec![1; 4000] }).unwrap();
                        b.truncate(3990);
                        let mut s = s.try_clone().unwrap();
                        std::thread::spawn(move || {
                            common::mine();
                            for x in b {
                                if stop.load(SeqCst) || s.write_all(&[x]).is_err() {
                                    break;
                                }
                                std::thread::sleep(Duration::from_millis(30));
                            }
                        });
                    }
                },
                k => panic!("harness: kind {k}"),
            }
            if keep {
                self.open.push(s);
            }
        }
        if kind == "good" {
            self.waiting.entry((d, of)).or_default().push_back(c);
            if t.elapsed() > Duration::from_millis(1000) {
                self.ev[at].k = "maybe".into();
                self.last.remove(&d);
            } else {
                self.last.insert(d, (of, peer_pi));
                if let Some(p) = self.procs.get_mut(&d) {
                    p.due.insert(c);
                }
            }
        }
    }

    /// a connection was refused: only if the process ends
    fn refused(&mut self, d: usize, at: usize, m: &str) {
        let interrupted = self.procs.get(&d).map_or(true, |p| p.interrupted);
        let gone = until(Duration::from_millis(500), || self.dead(d, false).then_some(())).is_some();
        if gone || interrupted {
            self.ev.retain({
                let mut i = 0;
                move |_| {
                    i += 1;
                    i != at + 1
                }
            });
            for l in self.late.values_mut() {
                if l.1 > at {
                    l.1 -= 1;
                }
            }
        } else {
            self.log("refused", d, 0, m);
        }
    }

    fn finish(&mut self, script: usize) {
        let Some((d, at, mut s, rest, t)) = self.late.remove(&script) else { return };
        if self.dead(d, false) {
            // never finished
            self.ev[at].k = "stall".into();
            return;
        }
        let c = self.ev[at].c;
        self.collect();
        let at2 = self.ev.len();
        self.log("finished", d, c, "");
        let r = s.write_all(&rest);
        if t.elapsed() > Duration::from_millis(1000) {
            self.ev[at].k = "maybe".into();
            self.ev[at2].e = "nothing";
        } else if r.is_ok() || !self.dead(d, false) {
            if let Some(p) = self.procs.get_mut(&d) {
                p.due.insert(c);
            }
        }
    }

    /// a late connection that is not going to be finished
    fn abandon(&mut self, d: usize) {
        let keys: Vec<_> = self.late.iter().filter(|(_, l)| l.0 == d).map(|(k, _)| *k).collect();
        for k in keys {
            let (_, at, s, _, _) = self.late.remove(&k).unwrap();
            self.ev[at].k = "stall".into();
            if let Some(p) = self.procs.get_mut(&d) {
                p.stalls += 1;
            }
            self.open.push(s);
        }
    }

    fn settle(&mut self, d: usize) -> Result<(), Hang> {
        let Some(p) = self.procs.get(&d) else { return Ok(()) };
        let late = self.late.values().filter(|l| l.0 == d).count() as u32;
        let limit = Duration::from_secs(10) + Duration::from_secs(3) * (p.stalls + late);
        let t = Instant::now();
        loop {
            if self.dead(d, false) {
                return Ok(());
            }
            self.collect();
            if self.procs[&d].due.is_empty() {
                break;
            }
            if t.elapsed() > limit {
                self.log("settled", d, 0, "");
                return Err(Hang);
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        self.log("settled", d, 0, "");
        Ok(())
    }

    fn signal(&mut self, d: usize, s: i32) {
        if let Some(p) = self.procs.get(&d) {
            unsafe { libc::kill(p.child.id() as i32, s) };
        }
    }

    fn kill(&mut self, d: usize) {
        if self.dead(d, false) {
            return;
        }
        let s = [libc::SIGKILL, libc::SIGKILL, libc::SIGTERM, libc::SIGHUP][self.rng.gen_range(0..4)];
        self.signal(d, s);
        if until(Duration::from_secs(5), || self.dead(d, true).then_some(())).is_none() {
            // a process may handle the gentle ones
            self.signal(d, libc::SIGKILL);
            until(Duration::from_secs(20), || self.dead(d, true).then_some(()));
        }
    }

    fn interrupt(&mut self, d: usize) -> Result<(), Hang> {
        self.abandon(d);
        if self.dead(d, false) {
            return Ok(());
        }
        self.collect();
        self.log("int", d, 0, "");
        let t = Instant::now();
        self.procs.get_mut(&d).unwrap().interrupted = true;
        for _ in 0..[1, 1, 1, 2, 5][self.rng.gen_range(0..5)] {
            self.signal(d, libc::SIGINT);
        }
        if until(Duration::from_secs(15), || self.dead(d, false).then_some(())).is_none() {
            self.collect();
            let k = self.procs[&d].text.lock().unwrap().clone();
            self.log("hang", d, 0, &k[k.len().saturating_sub(400)..]);
            return Err(Hang);
        }
        self.slowest_stop = self.slowest_stop.max(t.elapsed());
        Ok(())
    }

    /// one more process, on a directory in use or a port in use: the identity it announced, 0 if none
    fn other(&mut self, d: usize, port: u16) -> (usize, bool) {
        let mut c = Cmd::new(self.env.bin.join("vru-node"));
        c.arg("--path").arg(self.dir(d)).arg("--port").arg(port.to_string());
        c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
        let mut child = c.spawn().unwrap_or_else(|e| panic!("harness: spawn {e}"));
        let mut out = child.stdout.take().unwrap();
        let reader = std::thread::spawn(move || {
            common::mine();
            let mut v = vec![];
            let _ = std::io::Read::read_to_end(&mut out, &mut v);
            String::from_utf8_lossy(&v).to_string()
        });
        let ended = until(Duration::from_secs(10), || child.try_wait().unwrap().map(|_| ())).is_some();
        let _ = child.kill();
        let _ = child.wait();
        let text = reader.join().unwrap();
        let told = text.split_once("identity: ").map(|(_, x)| x.chars().take_while(|c| c.is_ascii_alphanumeric() || "+/=".contains(*c)).collect::<String>());
        let i = match told {
            None => 0,
            Some(l) => match self.names.iter().position(|x| *x == l) {
                Some(i) => i + 1,
                None => {
                    self.names.push(l);
                    self.names.len()
                },
            },
        };
        (i, ended)
    }

    fn rival(&mut self, d: usize) {
        if self.dead(d, false) {
            return;
        }
        let (i, ended) = self.other(d, port());
        // the first may have been on the point of ending
        if self.dead(d, false) {
            return;
        }
        self.collect();
        self.log("rival", d, i, if ended { "" } else { "did not end" });
    }

    /// a start that cannot have its port
    fn busy(&mut self, d: usize) {
        if !self.dead(d, false) {
            return;
        }
        std::fs::create_dir_all(self.dir(d)).unwrap();
        let l = TcpListener::bind("0.0.0.0:0").unwrap();
        let (i, _) = self.other(d, l.local_addr().unwrap().port());
        self.log("busy", d, i, "");
    }

    fn play(&mut self, log: &[Entry]) -> Result<(), Hang> {
        for e in log {
            let d = e.d;
            match e.op.as_str() {
                "start" => {
                    self.abandon(d);
                    if self.dead(d, false) {
                        self.start(d, e.c, &e.k)?;
                    }
                },
                "open" => self.open(d, e.c, &e.k),
                "finish" => self.finish(e.c),
                "settle" => self.settle(d)?,
                "pause" => {
                    // stopped and continued by job control, or only time
                    let stop = !self.dead(d, false) && self.rng.gen_range(0..3) == 0;
                    if stop {
                        self.signal(d, libc::SIGSTOP);
                    }
                    std::thread::sleep(Duration::from_millis(e.c as u64));
                    if stop {
                        self.signal(d, libc::SIGCONT);
                    }
                },
                "rival" => self.rival(d),
                "busy" => self.busy(d),
                "tcp" => {
                    if let Some(p) = self.procs.get(&d) {
                        let a: SocketAddr = ([127, 0, 0, 1], p.port).into();
                        if let Ok(mut s) = TcpStream::connect_timeout(&a, Duration::from_secs(2)) {
                            let _ = s.write_all(b"hello");
                        }
                    }
                },
                "kill" => {
                    let doomed = self.procs.get(&d).map_or(false, |p| p.doomed);
                    self.abandon(d);
                    if doomed && self.rng.gen() {
                        self.interrupt(d)?;
                    } else {
                        self.kill(d);
                    }
                },
                "int" => {
                    if self.rng.gen() && !self.dead(d, false) {
                        for _ in 0..self.rng.gen_range(0..25) {
                            let k = ["good", "good", "good", "bad", "short", "empty", "text", "stall"][self.rng.gen_range(0..8)];
                            let many = self.procs.get(&d).map_or(0, |p| p.stalls) > 3;
                            self.open(d, 0, if k == "stall" && many { "good" } else { k });
                        }
                    }
                    self.interrupt(d)?;
                },
                o => panic!("harness: op {o}"),
            }
            self.collect();
        }
        let ds: Vec<usize> = self.procs.keys().copied().collect();
        for d in ds {
            self.abandon(d);
            self.settle(d)?;
            self.interrupt(d)?;
        }
        Ok(())
    }
}

/// does a process listen on this socket, by whatever name?
fn listening(p: &Path, base: &Path) -> bool {
    if std::fs::symlink_metadata(p).is_err() {
        return false;
    }
    let Ok(p) = p.canonicalize() else { return false };
    let text = std::fs::read("/proc/net/unix").unwrap_or_default();
    String::from_utf8_lossy(&text).lines().any(|l| {
        // the last of eight fields may have spaces
        let mut rest = l.trim_end();
        let mut f = vec![];
        for _ in 0..7 {
            let (x, r) = rest.trim_start().split_once(' ').unwrap_or((rest, ""));
            f.push(x);
            rest = r;
        }
        let x = rest.trim_start();
        f[3] == "00010000" && x.ends_with("ctrl.sock") && base.join(x).canonicalize().map_or(false, |x| x == p)
    })
}

/// bytes that are not, and do not begin with, a command; the reader can tell at once
fn bad(good: &[u8], rng: &mut StdRng) -> Vec<u8> {
    for _ in 0..1000 {
        let mut b = good.to_vec();
        match rng.gen_range(0..5) {
            0 => b = (0..rng.gen_range(1..3000)).map(|_| rng.gen()).collect(),
            1 => b[rng.gen_range(0..4)] = rng.gen_range(2..=255),
            2 => {
                // the kind of the address
                let i = rng.gen_range(4..b.len());
                b[i] ^= rng.gen_range(1..=255);
            },
            3 => {
                // a text that would be longer than what follows
                b = bincode::serialize(&Command::<SocketAddr>::Local { destination: identities()[0].clone(), command: vec![0; 3] }).unwrap();
                let n = b.len();
                let l: u64 = [4, 4096, 1 << 32, 1 << 62, u64::MAX][rng.gen_range(0..5)];
                b[n - 11..n - 3].copy_from_slice(&l.to_le_bytes());
            },
            _ => b = vec![[0xff, 0x80, b'{', b'\n'][rng.gen_range(0..4)]; rng.gen_range(1..9000)],
        }
        if bincode::deserialize::<Command<SocketAddr>>(&b).is_err() {
            return b;
        }
    }
    panic!("harness: no bad command")
}

pub fn run(lines: &[String], env: &Env, out: &str, rep: &Report) {
    let traces = Mutex::new(vec![]);
    let all = Mutex::new(HashMap::<String, usize>::new());
    let slowest = Mutex::new(Duration::default());
    common::par(lines.len(), 24, |i| {
        let log: Vec<Entry> = serde_json::from_str(&lines[i]).expect("harness: script");
        let l = TcpListener::bind("0.0.0.0:0").unwrap();
        let target = l.local_addr().unwrap().port();
        let (tx, acted) = mpsc::channel();
        let end = Arc::new(AtomicBool::new(false));
        let seen = {
            let end = end.clone();
            std::thread::spawn(move || {
                common::mine();
                for s in l.incoming() {
                    if end.load(SeqCst) {
                        break;
                    }
                    // the connection may be closed already, its address is known all the same
                    let Ok(s) = s else { continue };
                    if let Ok(a) = s.local_addr() {
                        if let IpAddr::V4(a) = a.ip() {
                            let o = a.octets();
                            if o[1] >= 10 {
                                let _ = tx.send(((o[1] - 10) as usize, o[2] as usize * 250 + o[3] as usize - 1));
                            }
                        }
                    }
                }
            })
        };
        let mapped = TcpStream::connect((std::net::Ipv4Addr::LOCALHOST.to_ipv6_mapped(), target)).is_ok();
        let mut r = Run {
            env, n: i, ev: vec![], names: vec![], procs: HashMap::new(), acted, target, conns: 0,
            waiting: HashMap::new(), last: HashMap::new(), mapped,
            late: BTreeMap::new(), open: vec![], drips: Arc::new(AtomicBool::new(false)),
            rng: StdRng::seed_from_u64(env.seed ^ (i as u64) << 24), slowest_stop: Duration::default(),
        };
        let _ = r.play(&log);
        r.drips.store(true, SeqCst);
        for (_, mut p) in r.procs.drain() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
        end.store(true, SeqCst);
        let _ = TcpStream::connect(("127.0.0.1", target));
        let _ = seen.join();
        std::thread::sleep(Duration::from_millis(20));
        r.collect();
        for d in 1..4 {
            let _ = std::fs::remove_dir_all(r.dir(d));
            let _ = std::fs::remove_file(env.scratch.join(format!("{i}-{d}.link")));
        }
        // identities of different runs are of different directories
        for x in &r.names {
            if let Some(j) = all.lock().unwrap().insert(x.clone(), i) {
                rep.fail(Fail::new("same-identity", format!("runs {i} and {j}, on different directories, announced {x}"), lines[i].clone()));
            }
        }
        let mut s = slowest.lock().unwrap();
        *s = (*s).max(r.slowest_stop);
        drop(s);
        r.ev.retain(|e| e.e != "nothing");
        rep.ok(r.ev.len());
        for (k, w) in [("starts", "start"), ("kills", "killed"), ("interrupts", "int"), ("control_connections", "opened"), ("commands_acted", "acted"), ("second_starts", "rival"), ("busy_ports", "busy")] {
            rep.count(k, r.ev.iter().filter(|e| e.e == w).count() as u64);
        }
        traces.lock().unwrap().push(Trace { id: i + 1, ev: r.ev });
    });
    rep.extra("slowest_stop", format!("{:?}", slowest.into_inner().unwrap()));
    let mut v = traces.into_inner().unwrap();
    v.sort_by_key(|t| t.id);
    std::fs::write(out, v.iter().map(|t| serde_json::to_string(t).unwrap() + "\n").collect::<String>()).unwrap();
}
