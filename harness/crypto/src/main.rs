mod term;
mod util;
mod vectors;
mod sym;
mod channel;
mod kyber_ref;
mod kem;
mod field;
mod curve;
mod schnorr;
mod codec;
mod keys;
mod xx;

use util::Report;

fn lines(path: &str) -> Vec<String> {
    std::fs::read_to_string(path).unwrap().lines().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(run);
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
        eprintln!("harness error: {:?}", m);
        std::process::exit(2);
    }
}

fn run() {
    let args: Vec<String> = std::env::args().collect();
    let rep = Report::default();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let arg = |i: usize| args[i].as_str();
    match arg(1) {
        "symlong" => sym::run_long(&lines(arg(2)), seed, &rep),
        "sym" => sym::run_sym(&lines(arg(2)), seed, &rep),
        "patterns" => {
            let v: vectors::Vectors = serde_json::from_str(&std::fs::read_to_string(arg(3)).unwrap()).unwrap();
            sym::run_patterns(&lines(arg(2)), &v.vectors, &rep)
        },
        "channel" => channel::run(&lines(arg(2)), false, seed, &rep),
        "channel-panics" => channel::run(&lines(arg(2)), true, seed, &rep),
        "long" => channel::run_long(arg(2).parse().unwrap(), &rep),
        "kyber-diff" => kem::run_diff(arg(2).parse().unwrap(), seed, &rep),
        "kyber-records" => kem::run_records(arg(2).parse().unwrap(), seed, arg(3), &rep),
        "kem" => kem::run_kem(&lines(arg(3)), arg(2), seed, &rep),
        "curve" => curve::run(&lines(arg(2)), seed, &rep),
        "curve-diff" => curve::run_diff(arg(2).parse().unwrap(), seed, &rep),
        "schnorr" => schnorr::run(&lines(arg(3)), arg(2), arg(4).parse().unwrap(), seed, &rep),
        "schnorr-bits" => schnorr::run_bits(arg(2).parse().unwrap(), true, seed, &rep),
        "schnorr-honest" => schnorr::run_bits(arg(2).parse().unwrap(), false, seed, &rep),
        "codec" => codec::run(&lines(arg(2)), arg(3).parse().unwrap(), seed, &rep),
        "keys" => keys::run(&lines(arg(2)), arg(3).parse().unwrap(), seed, &rep),
        "id-records" => keys::record(arg(2).parse().unwrap(), seed, arg(3), &rep),
        "kem-bits" => kem::run_bits(arg(2).parse().unwrap(), seed, &rep),
        "kem-honest" => kem::run_honest(arg(2).parse().unwrap(), seed, &rep),
        // xx PROP native|exact FILE REPETITIONS
        "xx" => xx::run(arg(2), if arg(3) == "exact" { xx::How::Exact } else { xx::How::Native }, &lines(arg(4)), arg(5).parse().unwrap(), seed, &rep),
        "xx-bytes" => xx::run_bytes(arg(2), &lines(arg(3)), arg(4).parse().unwrap(), seed, &rep),
        m => panic!("unknown mode {m}"),
    }
    println!("{}", rep.finish());
}
