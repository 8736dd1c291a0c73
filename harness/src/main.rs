mod bmsim;
mod buildsim;
mod cli;
mod codec;
mod codecsim;
mod strict;
mod gen;
mod logsub;
mod noise;
mod run;
mod scen;
mod table;
mod world;

#[global_allocator]
static ALLOC: simrt::mem::Tracking = simrt::mem::Tracking;

fn main() {
    run::install_hooks();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("one") => {
            let seed: u64 = a[3].parse().unwrap();
            let sc = cli::generate(&a[2], seed);
            if let cli::Sc::Broker(b) = &sc {
                println!("{:?} {:?}", b.cfg, b.sim);
            }
            let o = cli::run_any(&sc, seed, None, true);
            for t in &o.trace {
                println!("{}", t);
            }
            println!("herr {:?} digest {:x} faults {:?} hits {:?}", o.harness_error, o.digest, o.faults, o.hits);
        }
        Some("scan") => {
            let from: u64 = a[3].parse().unwrap();
            let n: u64 = a[4].parse().unwrap();
            let t = std::time::Instant::now();
            let mut seen = std::collections::BTreeMap::<String, (u64, u64)>::new();
            let mut polls = 0;
            for seed in from..from + n {
                let sc = cli::generate(&a[2], seed);
                let o = cli::run_any(&sc, seed, None, false);
                polls += o.polls;
                if let Some(h) = &o.harness_error {
                    println!("seed {} HARNESS {}", seed, h);
                }
                for v in &o.violations {
                    let k: String = v.msg.chars().filter(|c| !c.is_ascii_digit()).take(70).collect();
                    let e = seen.entry(format!("{:?} {}", v.tags, k)).or_insert((0, seed));
                    e.0 += 1;
                }
            }
            println!("{} runs in {:?}, {} polls", n, t.elapsed(), polls);
            let mut v: Vec<_> = seen.into_iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
            for (k, (c, s)) in v {
                println!("{:>5} first seed {:>6}  {}", c, s, k);
            }
        }
        // digest <PROP> <from> <n>: for comparing processes
        Some("digest") => {
            let from: u64 = a[3].parse().unwrap();
            let n: u64 = a[4].parse().unwrap();
            for seed in from..from + n {
                let sc = cli::generate(&a[2], seed);
                let o = cli::run_any(&sc, seed, None, false);
                println!("{} {:016x} {} {}", seed, o.digest, o.polls, o.violations.len());
            }
        }
        Some("worker") => cli::worker(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap()),
        Some("minimise") => cli::minimise(&a[2], a[3].parse().unwrap(), &a[4], &a[5], &a[6], a[7].parse().unwrap(), a[8].parse().unwrap(), a[9].parse().unwrap()),
        // after <PROP> <seed> <path> <seed>,<seed>,...
        Some("after") => cli::after(&a[2], a[3].parse().unwrap(), a[5].split(',').filter_map(|s| s.parse().ok()).collect(), &a[4]),
        Some("replay") => std::process::exit(cli::replay(&a[2], a.get(3).is_some())),
        Some("probe") => cli::probe(&a[2]),
        // check <PROP> <tier> <seed> <seconds>
        Some("check") => std::process::exit(cli::check(&a[2], &a[3], a[4].parse().unwrap(), a[5].parse().unwrap())),
        // soak <base> <seconds each> <PROP>...
        Some("soak") => cli::soak(&a[4..], a[2].parse().unwrap(), a[3].parse().unwrap()),
        Some("samples") => samples(),
        _ => eprintln!("usage"),
    }
}

/// the malformed samples must be rejected as a whole, the unsupported ones must be accepted
fn samples() {
    use apiformes_packet::prelude::*;
    let mut r = simrt::Rng::new(7);
    for k in (0..45).chain(100..110) {
        for _ in 0..30 {
            let (b, s) = gen::malformed_k(&mut r, k);
            match Packet::from_bytes(&mut &b[..]) {
                Ok(_) => println!("{} accepted: {} {:02x?}", k, s, b),
                Err(DataParseError::InsufficientBuffer { .. }) => println!("{} waits: {} {:02x?}", k, s, b),
                Err(_) => (),
            }
        }
    }
    for _ in 0..500 {
        let (b, s) = gen::unsupported(&mut r);
        if let Err(e) = Packet::from_bytes(&mut &b[..]) {
            println!("rejected: {} {:?}", s, e)
        }
    }
}
