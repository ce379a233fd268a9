mod util;
mod common;
mod udp;
mod tcp;
mod proc;
mod client;

use util::Report;

fn lines(path: &str) -> Vec<String> {
    std::fs::read_to_string(path).unwrap().lines().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect()
}

fn main() {
    common::hook();
    let r = std::panic::catch_unwind(run);
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
        eprintln!("harness error: {:?}", m);
        std::process::exit(2);
    }
}

fn run() {
    common::mine();
    common::handle_signal();
    let args: Vec<String> = std::env::args().collect();
    let rep = std::sync::Arc::new(Report::default());
    common::watch(rep.clone());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let arg = |i: usize| args[i].as_str();
    match arg(1) {
        "udp-effects" => udp::run(&lines(arg(2)), true, seed, &rep),
        "udp-ends" => udp::run(&lines(arg(2)), false, seed, &rep),
        "tcp" => tcp::run(&lines(arg(2)), seed, &rep),
        // node SCRIPTS BIN SHIM SCRATCH FILES OUT
        "node" => {
            let env = proc::Env { bin: arg(3).into(), shim: arg(4).into(), scratch: arg(5).into(), files: arg(6).parse().unwrap(), seed, silent: common::Silent::new([127, 0, 0, 5]) };
            proc::run(&lines(arg(2)), &env, arg(7), &rep)
        },
        // client RUNS BIN SCRATCH
        "client" => client::run(&lines(arg(2)), arg(3).as_ref(), arg(4).as_ref(), seed, &rep),
        "udp-record" => udp::record(arg(2).parse().unwrap(), seed, arg(3), &rep),
        m => panic!("unknown mode {m}"),
    }
    println!("{}", rep.finish());
    // threads of nodes that did not end
    std::process::exit(0);
}
