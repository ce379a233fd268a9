use std::{cell::Cell, sync::Mutex};

/// threads of the harness
static THREADS: Mutex<Vec<i32>> = Mutex::new(Vec::new());

thread_local! { static MINE: Cell<bool> = const { Cell::new(false) }; }

/// panics of threads that are not the harness'
pub static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn mine() {
    MINE.with(|m| m.set(true));
    THREADS.lock().unwrap().push(unsafe { libc::gettid() });
}

extern "C" fn nothing(_: i32) {}

/// the application handles this signal, in a way that interrupts system calls
pub fn handle_signal() {
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = nothing as extern "C" fn(i32) as usize;
        libc::sigaction(libc::SIGUSR1, &a, std::ptr::null_mut());
    }
}

/// every thread that is not the harness' gets the signal
pub fn signal_nodes() {
    let mine = THREADS.lock().unwrap().clone();
    for t in std::fs::read_dir("/proc/self/task").into_iter().flatten().flatten() {
        if let Some(t) = t.file_name().to_str().and_then(|t| t.parse::<i32>().ok()) {
            if !mine.contains(&t) {
                unsafe { libc::syscall(libc::SYS_tgkill, libc::getpid(), t, libc::SIGUSR1) };
            }
        }
    }
}

pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        if !MINE.with(|m| m.get()) {
            let t = std::thread::current();
            PANICS.lock().unwrap().push(format!("thread {:?}: {}", t.name().unwrap_or(""), i));
        }
    }));
}

/// f for every index, that many at a time
pub fn par(n: usize, threads: usize, f: impl Fn(usize) + Sync) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads.min(n.max(1)) {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, || {
                    mine();
                    loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        if i >= n {
                            break;
                        }
                        f(i);
                    }
                })
                .unwrap();
        }
    });
}

/// waits until `f` gives something, at most that long
pub fn until<T>(limit: std::time::Duration, mut f: impl FnMut() -> Option<T>) -> Option<T> {
    let t = std::time::Instant::now();
    let mut pause = 20;
    loop {
        if let Some(x) = f() {
            return Some(x);
        }
        if t.elapsed() > limit {
            return None;
        }
        std::thread::sleep(std::time::Duration::from_micros(pause));
        pause = (pause * 3 / 2).min(20_000);
    }
}

/// a listener that answers nothing: its backlog is full, and connecting to it waits for minutes
pub struct Silent {
    listener: std::net::TcpListener,
    waiting: Vec<std::net::TcpStream>,
}

impl Silent {
    pub fn new(ip: [u8; 4]) -> Self {
        use std::os::unix::io::AsRawFd;
        let listener = std::net::TcpListener::bind((std::net::Ipv4Addr::from(ip), 0)).unwrap();
        unsafe { libc::listen(listener.as_raw_fd(), 0) };
        let a = listener.local_addr().unwrap();
        let mut waiting = Vec::new();
        while let Ok(s) = std::net::TcpStream::connect_timeout(&a, std::time::Duration::from_millis(300)) {
            waiting.push(s);
            assert!(waiting.len() < 100, "harness: the backlog does not fill");
        }
        Silent { listener, waiting }
    }

    pub fn address(&self) -> std::net::SocketAddr {
        assert!(!self.waiting.is_empty());
        self.listener.local_addr().unwrap()
    }
}

/// calls of the caller that have not returned yet
static CALLS: Mutex<std::collections::BTreeMap<usize, (std::time::Instant, String)>> = Mutex::new(std::collections::BTreeMap::new());

/// a call that must return to the caller, and what it is for the report
pub fn call<T>(what: impl Fn() -> String, f: impl FnOnce() -> T) -> Result<T, String> {
    static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let i = NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    CALLS.lock().unwrap().insert(i, (std::time::Instant::now(), what()));
    let r = crate::util::guard(f);
    CALLS.lock().unwrap().remove(&i);
    r
}

/// a call that does not return is the end of the run, the harness cannot get the thread back
pub fn watch(rep: std::sync::Arc<crate::util::Report>) {
    std::thread::spawn(move || {
        mine();
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let over = CALLS.lock().unwrap().values().find(|c| c.0.elapsed().as_secs() >= 40).cloned();
            if let Some((t, what)) = over {
                rep.fail(crate::util::Fail::new("call-hangs", format!("a command did not return within {:?}", t.elapsed()), what));
                println!("{}", rep.finish());
                std::process::exit(0);
            }
        }
    });
}
