use std::sync::{Mutex, atomic::{AtomicUsize, Ordering::SeqCst}};
use serde::Serialize;

#[derive(Serialize, Clone)]
pub struct Fail {
    pub class: String,
    pub what: String,
    pub replay: String,
}

impl Fail {
    pub fn new(class: &str, what: String, replay: String) -> Self {
        Fail { class: class.into(), what, replay }
    }
}

#[derive(Default)]
pub struct Report {
    traces: AtomicUsize,
    steps: AtomicUsize,
    fails: Mutex<Vec<Fail>>,
    nfails: AtomicUsize,
    samples: Mutex<Vec<serde_json::Value>>,
    extra: Mutex<std::collections::BTreeMap<String, String>>,
    counters: Mutex<std::collections::BTreeMap<String, u64>>,
}

impl Report {
    pub fn ok(&self, steps: usize) {
        self.traces.fetch_add(1, SeqCst);
        self.steps.fetch_add(steps, SeqCst);
    }
    pub fn fail(&self, f: Fail) {
        let mut v = self.fails.lock().unwrap();
        self.nfails.fetch_add(1, SeqCst);
        // keep a few of each class, so that one class does not hide another
        if v.iter().filter(|x| x.class == f.class).count() < 5 {
            v.push(f);
        }
    }
    pub fn sample(&self, v: serde_json::Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 5 {
            s.push(v);
        }
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.counters.lock().unwrap().entry(k.into()).or_default() += n;
    }
    pub fn extra(&self, k: &str, v: String) {
        self.extra.lock().unwrap().insert(k.into(), v);
    }
    pub fn finish(&self) -> String {
        serde_json::json!({
            "traces": self.traces.load(SeqCst),
            "steps": self.steps.load(SeqCst),
            "nfails": self.nfails.load(SeqCst),
            "fails": *self.fails.lock().unwrap(),
            "samples": *self.samples.lock().unwrap(),
            "extra": *self.extra.lock().unwrap(),
            "counters": *self.counters.lock().unwrap(),
        })
        .to_string()
    }
}

/// runs code under test; a panic there is a result, not an error of the harness
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        if m.starts_with("harness:") {
            eprintln!("{m}");
            std::process::exit(2);
        }
        format!("panic: {m}")
    })
}

pub fn par(n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= n {
                        break;
                    }
                    f(i);
                })
                .unwrap();
        }
    });
}
