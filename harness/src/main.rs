#[global_allocator]
static ALLOC: harness::cost::Counting = harness::cost::Counting;

use harness::engine::{self, CheckArgs, RunCfg};

fn cfg(a: &[String]) -> RunCfg {
    RunCfg {
        id: a[0].clone(),
        tier: a[1].clone(),
        seed: a[2].parse().expect("seed"),
        profile: a[3].clone(),
        known: a[4].split(',').filter(|s| !s.is_empty()).map(|s| s.to_owned()).collect(),
    }
}

fn bins(a: &[String]) -> Vec<(String, String)> {
    a.iter().filter_map(|s| s.split_once('=')).map(|(p, b)| (p.to_owned(), b.to_owned())).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    // Keeps the coverage hooks linked in.
    let _ = harness::cov::present();
    let code = match a.first().map(|s| s.as_str()) {
        // check ID TIER SEED VERIF profile=bin...
        Some("check") if a.len() >= 6 => engine::check(CheckArgs {
            id: a[1].clone(),
            tier: a[2].clone(),
            seed: a[3].parse().unwrap_or_else(|_| harness::src::hash_bytes(0, a[3].as_bytes()) >> 1),
            verif: a[4].clone(),
            bins: bins(&a[5..]),
        }),
        // worker <cfg> SHARD DIR [FAMILY,INDEX]
        Some("worker") if a.len() >= 8 => {
            let until = a.get(8).and_then(|s| s.split_once(',')).map(|(f, i)| (f.parse().unwrap(), i.parse().unwrap()));
            engine::worker(cfg(&a[1..6]), a[6].parse().expect("shard"), a[7].clone(), until)
        }
        // one <cfg> FAMILY index:N|FILE TRACE
        Some("one") if a.len() >= 9 => {
            let trace = if a[8] == "-" { None } else { Some(a[8].clone()) };
            engine::one(cfg(&a[1..6]), a[6].parse().expect("family"), a[7].clone(), trace)
        }
        // replay FILE VERIF profile=bin...
        Some("replay") if a.len() >= 4 => engine::replay(&a[1], &bins(&a[3..]), &a[2]),
        Some("list") => {
            for id in harness::props::all_ids() {
                println!("{}", id);
            }
            0
        }
        _ => {
            eprintln!("usage: harness check ID TIER SEED VERIF profile=bin...");
            2
        }
    };
    std::process::exit(code);
}
