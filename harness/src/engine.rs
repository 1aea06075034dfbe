//! Running properties: deterministic sharded workers in their own processes,
//! a supervisor that survives crashes and hangs of the code under test,
//! shrinking, replay files and evidence.

use crate::cov;
use crate::guided::{Candidate, Search};
use crate::imp;
use crate::json;
use crate::props::{self, Case, Family, Kind, Prop};
use crate::src::{hash_bytes, Src};
use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const SHARDS: u64 = 8;
const STACK: usize = 2 << 20;
/// CPU seconds on one case after which it counts as not terminating. Ordinary
/// cases take far less than a second.
const HANG_CPU: f64 = 40.0;

/// Wall seconds on one case, asleep throughout, after which it counts as
/// deadlocked.
const HANG_ASLEEP: f64 = 60.0;
/// Wall seconds after which the quick tier starts no further case (a slow or
/// busy machine); the evidence says so.
const QUICK_WALL: u64 = 540;

/// Share of the random counts that the coverage-guided search runs.
const GUIDED: f64 = 0.5;

#[derive(Clone)]
pub struct RunCfg {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub profile: String,
    pub known: Vec<String>,
}

fn scale_of() -> f64 {
    std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
}

/// Factor on the random counts of the quick tier.
const QUICK: f64 = 2.0;

fn random_count(quick: u64, thorough: u64, tier: &str) -> f64 {
    scale_of() * if tier == "thorough" { thorough as f64 } else { quick as f64 * QUICK }
}

pub fn family_count(f: &Family, cfg: &RunCfg) -> u64 {
    let release = cfg.profile == "release";
    if cfg.profile == "guided" {
        return match f.kind {
            // Not the few large cases, and not what starts threads.
            Kind::Random(q, t) if q >= 2000 && !f.name.contains("thread") => {
                ((random_count(q, t, &cfg.tier) * GUIDED) as u64).max(1)
            }
            _ => 0,
        };
    }
    match f.kind {
        Kind::Random(q, t) => {
            let n = random_count(q, t, &cfg.tier);
            ((if release { n / 2.0 } else { n }) as u64).max(1)
        }
        Kind::Exhaustive { alphabet, quick, thorough } => {
            let len = if cfg.tier == "thorough" { thorough } else { quick };
            let len = if scale_of() < 0.5 && len > 3 { len - 1 } else { len };
            props::sequence_total(alphabet, if release && len > 2 && alphabet != 4 { len - 1 } else { len })
        }
    }
}

pub fn case_src(f: &Family, cfg: &RunCfg, index: u64) -> Src {
    match f.kind {
        Kind::Random(..) => {
            let key = format!("{}/{}/{}/{}/{}", cfg.seed, cfg.profile, cfg.id, f.name, index);
            Src::random(hash_bytes(0, key.as_bytes()))
        }
        Kind::Exhaustive { alphabet, .. } => Src::replay(props::sequence_choices(alphabet, index)),
    }
}

/// Runs one case; known findings that are not listed count as failures.
fn run_case(f: &Family, src: &mut Src, case: &mut Case, known: &[String]) -> Result<(), String> {
    (f.f)(src, case)?;
    for k in &case.known {
        if !known.iter().any(|x| x == k) {
            return Err(format!("finding `{}` is not in the list of known findings", k));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- shrinking

/// Greedy minimisation of a failing choice list.
pub fn shrink(
    start: Vec<u64>,
    budget: Duration,
    max_tries: usize,
    mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>,
) -> Vec<u64> {
    let t0 = Instant::now();
    let mut best = start;
    let mut tries = 0;
    let mut attempt = |cand: &[u64], tries: &mut usize| -> Option<Vec<u64>> {
        *tries += 1;
        fails(cand)
    };
    let smaller = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    loop {
        let before = best.clone();
        // Delete chunks.
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed() > budget || tries > max_tries {
                    return best;
                }
                let end = (i + size).min(best.len());
                let mut cand = best[..i].to_vec();
                cand.extend(&best[end..]);
                match attempt(&cand, &mut tries) {
                    Some(r) if smaller(&r, &best) => best = r,
                    _ => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero chunks, then lower single values.
        for size in [8usize, 3, 1] {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed() > budget || tries > max_tries {
                    return best;
                }
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|&v| v != 0) {
                    let mut cand = best.clone();
                    cand[i..end].iter_mut().for_each(|v| *v = 0);
                    if let Some(r) = attempt(&cand, &mut tries) {
                        if smaller(&r, &best) {
                            best = r;
                        }
                    }
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0;
            while i < best.len() && lo < best[i] {
                if t0.elapsed() > budget || tries > max_tries {
                    return best;
                }
                let mid = lo + (best[i] - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                match attempt(&cand, &mut tries) {
                    Some(r) if smaller(&r, &best) => best = r,
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

// --------------------------------------------------------------------- worker

fn put_progress(file: &std::fs::File, state: u64, family: u64, index: u64) {
    let mut b = [0u8; 24];
    b[..8].copy_from_slice(&state.to_le_bytes());
    b[8..16].copy_from_slice(&family.to_le_bytes());
    b[16..].copy_from_slice(&index.to_le_bytes());
    let _ = file.write_at(&b, 0);
}

fn get_progress(path: &str) -> Option<(u64, u64, u64)> {
    let b = std::fs::read(path).ok()?;
    if b.len() < 24 {
        return None;
    }
    let g = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
    Some((g(0), g(8), g(16)))
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_owned()
    } else {
        let head: String = s.chars().take(n).collect();
        format!("{}... ({} bytes)", head, s.len())
    }
}

fn choices_text(c: &[u64]) -> String {
    c.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")
}

fn parse_choices(s: &str) -> Vec<u64> {
    s.split_whitespace().filter_map(|w| w.parse().ok()).collect()
}

fn in_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(STACK).spawn(f).expect("spawn").join().unwrap_or_else(|_| {
        eprintln!("internal error in the harness");
        std::process::exit(3)
    })
}

/// Whether the time given by the supervisor is used up.
fn late() -> bool {
    use std::sync::OnceLock;
    static END: OnceLock<Option<u64>> = OnceLock::new();
    let end = END.get_or_init(|| std::env::var("VERIF_END").ok().and_then(|s| s.parse().ok()));
    match end {
        Some(t) => unix_now() > *t,
        None => false,
    }
}

fn unix_now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs()).unwrap_or(0)
}

/// `until`: stop after that case (used to replay a history).
pub fn worker(cfg: RunCfg, shard: u64, dir: String, until: Option<(u64, u64)>) -> i32 {
    imp::install_hook();
    in_thread(move || worker_body(&cfg, shard, &dir, until))
}

fn worker_body(cfg: &RunCfg, shard: u64, dir: &str, until: Option<(u64, u64)>) -> i32 {
    let prop = props::prop(&cfg.id).expect("property");
    let base = format!("{}/{}-{}", dir, cfg.profile, shard);
    let progress = std::fs::File::create(format!("{}.progress", base)).expect("progress file");
    let cand_file = std::fs::File::create(format!("{}.cand", base)).expect("candidate file");
    let mut out = std::io::BufWriter::new(std::fs::File::create(format!("{}.out", base)).expect("out file"));
    let mut hashes: Vec<u64> = vec![];
    let mut labels: HashMap<String, u64> = HashMap::new();
    let mut known: BTreeMap<&'static str, (u64, String)> = BTreeMap::new();
    for (fi, f) in prop.families.iter().enumerate() {
        let total = family_count(f, cfg);
        let random = matches!(f.kind, Kind::Random(..));
        let (mut evals, mut nontrivial, mut samples) = (0u64, 0u64, 0);
        let mut index = shard;
        let mut search = None;
        if cfg.profile == "guided" && total > 0 {
            if !cov::present() {
                eprintln!("the guided build is not instrumented");
                return 3;
            }
            let key = format!("{}/guided/{}/{}/{}", cfg.seed, cfg.id, f.name, shard);
            search = Some(Search::new(hash_bytes(0, key.as_bytes())));
        }
        while index < total {
            if late() {
                let _ = writeln!(out, "late\t{}", fi);
                break;
            }
            put_progress(&progress, 1, fi as u64, index);
            let mut src = match &mut search {
                Some(s) => {
                    let c = s.next();
                    let _ = cand_file.write_at(&c.to_bytes(), 0);
                    cov::reset();
                    c.src()
                }
                None => case_src(f, cfg, index),
            };
            let mut case = Case::default();
            let r = run_case(f, &mut src, &mut case, &cfg.known);
            evals += 1;
            *labels.entry(std::mem::take(&mut case.label)).or_default() += 1;
            if let Err(msg) = r {
                put_progress(&progress, 2, fi as u64, index);
                let rec = src.rec.clone();
                fail_record(&mut out, fi, index, &msg, &rec, &case.text, "first");
                let _ = out.flush();
                if until.is_some() {
                    return 1;
                }
                minimise(f, cfg, rec, &mut out, fi, index);
                let _ = out.flush();
                return 1;
            }
            if let Some(s) = &mut search {
                s.learn(src);
            }
            for k in &case.known {
                let e = known.entry(k).or_insert((0, case.text.clone()));
                e.0 += 1;
            }
            if case.nontrivial {
                nontrivial += 1;
                if random {
                    hashes.push(case.hash());
                }
                if shard == 0 && samples < 2 && (index / SHARDS) % 3 == 1 {
                    samples += 1;
                    let _ = writeln!(out, "sample\t{}\t{}", json::esc(&f.name), json::esc(&clip(&case.text, 600)));
                }
            }
            if until == Some((fi as u64, index)) {
                return 0;
            }
            index += SHARDS;
        }
        let _ = writeln!(out, "count\t{}\t{}\t{}", fi, evals, nontrivial);
        if let Some(s) = search {
            let _ = writeln!(out, "guided\t{}\t{}\t{}", fi, s.corpus_len(), s.features());
        }
    }
    for (l, n) in labels {
        let _ = writeln!(out, "label\t{}\t{}", json::esc(&l), n);
    }
    for (k, (n, text)) in known {
        let _ = writeln!(out, "known\t{}\t{}\t{}", k, n, json::esc(&clip(&text, 300)));
    }
    let bytes: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
    let _ = std::fs::write(format!("{}.hashes", base), bytes);
    let _ = writeln!(out, "done");
    let _ = out.flush();
    put_progress(&progress, 3, 0, 0);
    0
}

fn fail_record(out: &mut impl Write, fi: usize, index: u64, msg: &str, rec: &[u64], text: &str, stage: &str) {
    let text = if text.len() > 400_000 { clip(text, 2000) } else { text.to_owned() };
    let _ = writeln!(
        out,
        "fail\t{}\t{}\t{}\t{}\t{}\t{}",
        stage,
        fi,
        index,
        choices_text(rec),
        json::esc(&clip(msg, 4000)),
        json::esc(&text)
    );
}

fn minimise(f: &Family, cfg: &RunCfg, rec: Vec<u64>, out: &mut impl Write, fi: usize, index: u64) {
    let again = |c: &[u64]| -> Option<(Vec<u64>, String, String)> {
        let mut src = Src::replay(c.to_vec());
        let mut case = Case::default();
        match run_case(f, &mut src, &mut case, &cfg.known) {
            Err(m) => Some((src.rec, m, case.text)),
            Ok(()) => None,
        }
    };
    if again(&rec).is_none() {
        // Depends on what this process did before.
        let _ = writeln!(out, "history");
        return;
    }
    let best = shrink(rec, Duration::from_secs(20), 6000, |c| again(c).map(|x| x.0));
    if let Some((rec, msg, text)) = again(&best) {
        fail_record(out, fi, index, &msg, &rec, &text, "shrunk");
    }
}

/// One case, by index or by choices. With a trace file, the choices made so
/// far are written before each call into the library.
pub fn one(cfg: RunCfg, fi: usize, what: String, trace: Option<String>) -> i32 {
    imp::install_hook();
    in_thread(move || {
        let prop = props::prop(&cfg.id).expect("property");
        let f = &prop.families[fi];
        let mut src = match what.strip_prefix("index:") {
            Some(i) => case_src(f, &cfg, i.parse().expect("index")),
            None if what.starts_with("cand:") => {
                let b = std::fs::read(&what[5..]).expect("candidate");
                Candidate::from_bytes(&b).expect("candidate").src()
            }
            None => Src::replay(parse_choices(&std::fs::read_to_string(&what).expect("choices"))),
        };
        src.trace = trace;
        let mut case = Case::default();
        match run_case(f, &mut src, &mut case, &cfg.known) {
            Ok(()) => 0,
            Err(m) => {
                println!("{}", m);
                1
            }
        }
    })
}

// ------------------------------------------------------------------ supervisor

fn spawn(bin: &str, args: &[String]) -> Child {
    // Workers get a memory limit, so that runaway allocation ends only them.
    let mut cmd = Command::new("/bin/sh");
    cmd.arg("-c").arg("ulimit -v 8000000; ulimit -c 0; exec \"$0\" \"$@\"").arg(bin).args(args);
    cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    cmd.process_group(0);
    cmd.spawn().expect("cannot start a worker")
}

fn cpu_seconds(pid: u32) -> f64 {
    let Ok(s) = std::fs::read_to_string(format!("/proc/{}/stat", pid)) else { return 0.0 };
    let Some(i) = s.rfind(')') else { return 0.0 };
    let v: Vec<&str> = s[i + 1..].split_whitespace().collect();
    let t: f64 = [11, 12].iter().filter_map(|&k| v.get(k)).filter_map(|x| x.parse::<f64>().ok()).sum();
    t / 100.0
}

/// Whether every thread of the process is asleep.
fn asleep(pid: u32) -> bool {
    let Ok(dir) = std::fs::read_dir(format!("/proc/{}/task", pid)) else { return false };
    for t in dir.flatten() {
        let Ok(s) = std::fs::read_to_string(t.path().join("stat")) else { return false };
        let Some(i) = s.rfind(')') else { return false };
        if s[i + 1..].trim_start().chars().next() != Some('S') {
            return false;
        }
    }
    true
}

#[derive(Debug)]
#[allow(dead_code)]
enum End {
    Code(i32),
    Crash(String),
    Hang,
}

/// Waits for a single case, at most `HANG_CPU` CPU seconds.
fn wait_one(mut child: Child) -> (End, String) {
    use std::io::Read;
    let mut awake = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(st)) => {
                let mut s = String::new();
                if let Some(mut o) = child.stdout.take() {
                    let _ = o.read_to_string(&mut s);
                }
                let mut err = String::new();
                if let Some(mut o) = child.stderr.take() {
                    let _ = o.read_to_string(&mut err);
                }
                return match (st.code(), st.signal()) {
                    (Some(c), _) if c == 0 || c == 1 => (End::Code(c), s),
                    (c, sig) => (End::Crash(format!("exit {:?}, signal {:?}: {}", c, sig, clip(err.trim(), 500))), s),
                };
            }
            Ok(None) => {}
            Err(e) => return (End::Crash(e.to_string()), String::new()),
        }
        if !asleep(child.id()) {
            awake = Instant::now();
        }
        if cpu_seconds(child.id()) > HANG_CPU || awake.elapsed().as_secs_f64() > HANG_ASLEEP / 2.0 {
            let _ = child.kill();
            let _ = child.wait();
            return (End::Hang, String::new());
        }
        std::thread::sleep(Duration::from_millis(3));
    }
}

struct Running {
    child: Child,
    profile: String,
    shard: u64,
    at: (u64, u64, u64),
    cpu_then: f64,
    /// Last seen awake or advancing.
    awake: Instant,
}

struct Failure {
    profile: String,
    shard: u64,
    family: usize,
    index: u64,
    message: String,
    choices: Option<Vec<u64>>,
    text_json: String,
    /// Fails only after the earlier cases of its shard.
    history: bool,
}

fn common_args(cfg: &RunCfg) -> Vec<String> {
    vec![cfg.id.clone(), cfg.tier.clone(), cfg.seed.to_string(), cfg.profile.clone(), cfg.known.join(",")]
}

pub struct CheckArgs {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    /// (profile, binary)
    pub bins: Vec<(String, String)>,
    pub verif: String,
}

/// `known` lines: `KNOWN <key> property=<id> <what fails>`.
fn read_known(path: &str, id: &str) -> Vec<(String, String)> {
    let Ok(s) = std::fs::read_to_string(path) else { return vec![] };
    let mut out = vec![];
    for l in s.lines() {
        if let Some(rest) = l.strip_prefix("KNOWN ") {
            let mut w = rest.splitn(3, ' ');
            if let (Some(k), Some(p), Some(t)) = (w.next(), w.next(), w.next()) {
                if p == format!("property={}", id) {
                    out.push((k.to_owned(), t.to_owned()));
                }
            }
        }
    }
    out
}

pub fn check(a: CheckArgs) -> i32 {
    let t0 = Instant::now();
    let Some(prop) = props::prop(&a.id) else {
        eprintln!("no such property: {}", a.id);
        return 2;
    };
    let known = read_known(&format!("{}/known_findings.txt", a.verif), &a.id);
    let dir = format!("{}/run-{}-{}", std::env::temp_dir().display(), a.id, std::process::id());
    let _ = std::fs::remove_dir_all(&dir);
    if let Err(e) = std::fs::create_dir_all(&dir) {
        eprintln!("{}: {}", dir, e);
        return 2;
    }
    let cfg_for = |profile: &str| RunCfg {
        id: a.id.clone(),
        tier: a.tier.clone(),
        seed: a.seed,
        profile: profile.to_owned(),
        known: known.iter().map(|k| k.0.clone()).collect(),
    };
    if a.tier != "thorough" {
        std::env::set_var("VERIF_END", (unix_now() + QUICK_WALL).to_string());
    }
    let result = supervise(&a, &prop, &dir, &cfg_for);
    let code = match result {
        Err(e) => {
            eprintln!("{}: error of the check: {}", a.id, e);
            2
        }
        Ok(failure) => report(&a, &prop, &dir, &known, failure, t0, &cfg_for),
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn supervise(a: &CheckArgs, _prop: &Prop, dir: &str, cfg_for: &dyn Fn(&str) -> RunCfg) -> Result<Option<Failure>, String> {
    let bins: HashMap<&str, &str> = a.bins.iter().map(|(p, b)| (p.as_str(), b.as_str())).collect();
    let mut queue: Vec<(String, u64)> = vec![];
    for (p, _) in a.bins.iter().rev() {
        for s in (0..SHARDS).rev() {
            queue.push((p.clone(), s));
        }
    }
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16);
    let mut running: Vec<Running> = vec![];
    let mut failure: Option<Failure> = None;
    let mut error: Option<String> = None;
    while failure.is_none() && error.is_none() && (!queue.is_empty() || !running.is_empty()) {
        while running.len() < cores {
            let Some((profile, shard)) = queue.pop() else { break };
            let mut args = vec!["worker".to_owned()];
            args.extend(common_args(&cfg_for(&profile)));
            args.push(shard.to_string());
            args.push(dir.to_owned());
            let child = spawn(bins[profile.as_str()], &args);
            running.push(Running { child, profile, shard, at: (0, 0, 0), cpu_then: 0.0, awake: Instant::now() });
        }
        std::thread::sleep(Duration::from_millis(10));
        let mut i = 0;
        while i < running.len() && failure.is_none() && error.is_none() {
            let base = format!("{}/{}-{}", dir, running[i].profile, running[i].shard);
            match running[i].child.try_wait() {
                Ok(Some(st)) => {
                    let r = running.remove(i);
                    match st.code() {
                        Some(0) => {}
                        Some(1) => match read_failure(&base, &r) {
                            Some(f) => failure = failure.or(Some(f)),
                            None => error = Some(format!("worker {} gave no failure record", base)),
                        },
                        Some(3) => {
                            use std::io::Read;
                            let mut err = String::new();
                            if let Some(mut o) = { r.child }.stderr.take() {
                                let _ = o.read_to_string(&mut err);
                            }
                            error = Some(format!("worker {}: {}", base, err));
                        }
                        _ => {
                            let how = format!("{} ", st);
                            match after_crash(&base, &r, bins[r.profile.as_str()], dir, cfg_for, &how) {
                                Ok(f) => failure = failure.or(Some(f)),
                                Err(e) => error = Some(e),
                            }
                        }
                    }
                    continue;
                }
                Ok(None) => {
                    let r = &mut running[i];
                    if let Some(now) = get_progress(&format!("{}.progress", base)) {
                        let cpu = cpu_seconds(r.child.id());
                        if now != r.at || !asleep(r.child.id()) {
                            r.awake = Instant::now();
                        }
                        if now != r.at {
                            r.at = now;
                            r.cpu_then = cpu;
                        } else if r.awake.elapsed().as_secs_f64() > HANG_ASLEEP || cpu - r.cpu_then > if now.0 == 2 { 120.0 } else { HANG_CPU } {
                            let mut r = running.remove(i);
                            let _ = r.child.kill();
                            let _ = r.child.wait();
                            if r.at.0 == 2 {
                                match read_failure(&base, &r) {
                                    Some(f) => failure = failure.or(Some(f)),
                                    None => error = Some(format!("worker {} gave no failure record", base)),
                                }
                            } else {
                                match after_crash(&base, &r, bins[r.profile.as_str()], dir, cfg_for, "no end in sight") {
                                    Ok(f) => failure = failure.or(Some(f)),
                                    Err(e) => error = Some(e),
                                }
                            }
                            continue;
                        }
                    }
                }
                Err(e) => {
                    error = Some(e.to_string());
                }
            }
            i += 1;
        }
    }
    for mut r in running {
        let _ = r.child.kill();
        let _ = r.child.wait();
    }
    match (failure, error) {
        (Some(f), _) => Ok(Some(f)),
        (None, Some(e)) => Err(e),
        _ => Ok(None),
    }
}

fn read_failure(base: &str, r: &Running) -> Option<Failure> {
    let s = std::fs::read_to_string(format!("{}.out", base)).ok()?;
    let mut best = None;
    let history = s.lines().any(|l| l == "history");
    for l in s.lines() {
        let w: Vec<&str> = l.split('\t').collect();
        if w[0] == "fail" && w.len() == 7 {
            best = Some(Failure {
                profile: r.profile.clone(),
                shard: r.shard,
                family: w[2].parse().ok()?,
                index: w[3].parse().ok()?,
                choices: Some(parse_choices(w[4])),
                message: w[5].to_owned(),
                text_json: w[6].to_owned(),
                history,
            });
        }
    }
    best
}

/// The worker died or hung: rerun the case it was on, alone.
fn after_crash(
    base: &str,
    r: &Running,
    bin: &str,
    dir: &str,
    cfg_for: &dyn Fn(&str) -> RunCfg,
    how: &str,
) -> Result<Failure, String> {
    let Some((state, fi, index)) = get_progress(&format!("{}.progress", base)) else {
        return Err(format!("worker {} ended before its first case: {}", base, how));
    };
    if state == 2 {
        // While shrinking: the unshrunk failure is on record.
        return read_failure(base, r).ok_or_else(|| format!("worker {} ended: {}", base, how));
    }
    let cfg = cfg_for(&r.profile);
    let trace = format!("{}/trace", dir);
    let single = |what: &str| -> (End, String) {
        let _ = std::fs::remove_file(&trace);
        let mut args = vec!["one".to_owned()];
        args.extend(common_args(&cfg));
        args.extend([fi.to_string(), what.to_owned(), trace.clone()]);
        wait_one(spawn(bin, &args))
    };
    let (end, _) = if r.profile == "guided" {
        single(&format!("cand:{}.cand", base))
    } else {
        single(&format!("index:{}", index))
    };
    let read_trace = || -> Option<Vec<u64>> { std::fs::read_to_string(&trace).ok().map(|s| parse_choices(&s)) };
    let bad = |e: &End| !matches!(e, End::Code(0));
    if !bad(&end) {
        // Not on its own: the history of the shard matters. Rerun the shard.
        let mut args = vec!["worker".to_owned()];
        args.extend(common_args(&cfg));
        args.push(r.shard.to_string());
        args.push(format!("{}/again", dir));
        let _ = std::fs::create_dir_all(format!("{}/again", dir));
        args.push(format!("{},{}", fi, index));
        let mut child = spawn(bin, &args);
        let t0 = Instant::now();
        let st = loop {
            if let Ok(Some(st)) = child.try_wait() {
                break Some(st);
            }
            if t0.elapsed() > Duration::from_secs(200) {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(10));
        };
        if st.map(|s| s.code() == Some(0)).unwrap_or(false) {
            // A crash of its own making counts even so; being killed does not.
            let own = ["signal: 4 ", "signal: 6 ", "signal: 7 ", "signal: 8 ", "signal: 11 "].iter().any(|s| how.contains(s));
            if !own || r.profile == "guided" {
                return Err(format!("worker {} ended ({}) at family {} case {}, which could not be repeated", base, how, fi, index));
            }
        }
        return Ok(Failure {
            profile: r.profile.clone(),
            shard: r.shard,
            family: fi as usize,
            index,
            message: json::esc(&format!("the process ended abnormally ({}) at this case, after the earlier cases of its shard", how)),
            choices: None,
            text_json: json::esc(""),
            history: true,
        });
    }
    let mut message = format!("the process ended abnormally: {:?}", end);
    let mut choices = read_trace();
    if let (Some(start), false) = (choices.clone(), matches!(end, End::Hang)) {
        let file = format!("{}/choices", dir);
        let best = shrink(start, Duration::from_secs(40), 600, |c| {
            let _ = std::fs::write(&file, choices_text(c));
            let (e, _) = single(&file);
            if bad(&e) {
                message = format!("the process ended abnormally: {:?}", e);
                read_trace()
            } else {
                None
            }
        });
        choices = Some(best);
    }
    Ok(Failure {
        profile: r.profile.clone(),
        shard: r.shard,
        family: fi as usize,
        index,
        message: json::esc(&message),
        choices,
        text_json: json::esc("(the text is regenerated from the choices)"),
        history: false,
    })
}

fn report(
    a: &CheckArgs,
    prop: &Prop,
    dir: &str,
    known: &[(String, String)],
    failure: Option<Failure>,
    t0: Instant,
    cfg_for: &dyn Fn(&str) -> RunCfg,
) -> i32 {
    // Collect what the workers counted.
    let mut families: Vec<(u64, u64)> = vec![(0, 0); prop.families.len()];
    let mut exhaustive_nontrivial = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut hashes: Vec<u64> = vec![];
    let mut met: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut guided = (0u64, 0u64);
    let mut late = 0u64;
    for (p, _) in &a.bins {
        for s in 0..SHARDS {
            let base = format!("{}/{}-{}", dir, p, s);
            if let Ok(text) = std::fs::read_to_string(format!("{}.out", base)) {
                for l in text.lines() {
                    let w: Vec<&str> = l.split('\t').collect();
                    match w[0] {
                        "count" if w.len() == 4 => {
                            let (f, e, n): (usize, u64, u64) =
                                (w[1].parse().unwrap_or(0), w[2].parse().unwrap_or(0), w[3].parse().unwrap_or(0));
                            families[f].0 += e;
                            families[f].1 += n;
                            if matches!(prop.families[f].kind, Kind::Exhaustive { .. }) && *p == a.bins[0].0 {
                                exhaustive_nontrivial += n;
                            }
                        }
                        "late" => late += 1,
                        "guided" if w.len() == 4 => {
                            guided.0 += w[2].parse::<u64>().unwrap_or(0);
                            guided.1 = guided.1.max(w[3].parse::<u64>().unwrap_or(0));
                        }
                        "label" if w.len() == 3 => *labels.entry(w[1].to_owned()).or_default() += w[2].parse().unwrap_or(0),
                        "sample" if w.len() == 3 && *p == a.bins[0].0 => {
                            samples.push(format!("{{\"family\": {}, \"case\": {}}}", w[1], w[2]))
                        }
                        "known" if w.len() == 4 => {
                            let e = met.entry(w[1].to_owned()).or_insert((0, w[3].to_owned()));
                            e.0 += w[2].parse().unwrap_or(0);
                        }
                        _ => {}
                    }
                }
            }
            if let Ok(b) = std::fs::read(format!("{}.hashes", base)) {
                hashes.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
        }
    }
    hashes.sort_unstable();
    hashes.dedup();
    let evaluations: u64 = families.iter().map(|f| f.0).sum();
    let distinct = hashes.len() as u64 + exhaustive_nontrivial;

    let mut code = 0;
    let mut replay_path = String::new();
    if let Some(f) = &failure {
        code = 1;
        replay_path = write_replay(a, prop, f, dir, cfg_for);
    } else {
        for (k, what) in known {
            if met.contains_key(k) {
                println!("KNOWN-FINDING: property={} {}", a.id, what);
            }
        }
    }

    let fam_json: Vec<String> = prop
        .families
        .iter()
        .zip(&families)
        .map(|(f, c)| {
            let bound = match f.kind {
                Kind::Random(..) => "\"random\"".to_owned(),
                Kind::Exhaustive { alphabet, quick, thorough } => {
                    let len = if a.tier == "thorough" { thorough } else { quick };
                    json::esc(&format!("all sequences of up to {} of {} symbols", len, alphabet))
                }
            };
            format!(
                "{{\"family\": {}, \"kind\": {}, \"evaluations\": {}, \"nontrivial\": {}}}",
                json::esc(&f.name),
                bound,
                c.0,
                c.1
            )
        })
        .collect();
    let mut top: Vec<(&String, &u64)> = labels.iter().collect();
    top.sort_by(|x, y| y.1.cmp(x.1));
    let labels_json: Vec<String> = top.iter().take(40).map(|(l, n)| format!("{}: {}", l, n)).collect();
    if let Some(f) = &failure {
        samples.insert(0, format!("{{\"violation\": {}, \"case\": {}}}", f.message, clip_json(&f.text_json, 4000)));
    }
    let evidence = format!(
        "{{\n  \"property\": {id},\n  \"tier\": {tier},\n  \"seed\": {seed},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {ev},\n    \"distinct_nontrivial\": {dn},\n    \"rule\": {rule},\n    \"families\": [{fams}],\n    \"labels\": {{{labels}}},\n    \"known_findings_met\": {{{met}}},\n    \"profiles\": {profiles},\n    \"guided_search\": {{\"kept_cases\": {gc}, \"most_features_in_one_search\": {gf}}},\n    \"families_cut_short_by_time\": {late},\n    \"samples\": [{samples}]\n  }},\n  \"assumptions\": {assume},\n  \"wall_s\": {wall:.2},\n  \"violations\": {viol}\n}}\n",
        id = json::esc(&a.id),
        tier = json::esc(&a.tier),
        seed = a.seed,
        ev = evaluations,
        dn = distinct,
        rule = json::esc(&format!(
            "Cases come from the listed families (random ones by a choice-sequence generator seeded with VERIF_SEED, exhaustive ones enumerated); non-trivial: {}. Random cases are counted distinct by a 64-bit hash of their text over both build profiles, enumerated ones are distinct by construction and counted for one profile.",
            prop.rule
        )),
        fams = fam_json.join(", "),
        labels = labels_json.join(", "),
        met = met.iter().map(|(k, v)| format!("{}: {}", json::esc(k), v.0)).collect::<Vec<_>>().join(", "),
        profiles = json::list(&a.bins.iter().map(|b| b.0.clone()).collect::<Vec<_>>()),
        gc = guided.0,
        gf = guided.1,
        samples = samples.join(", "),
        assume = json::list(&[
            "The reference semantics in harness/src/model.rs and harness/src/refp.rs state the intended meaning of the formats.".to_owned(),
            "str::parse::<f64> of the standard library rounds correctly (oracle for numbers).".to_owned(),
            "Held on every generated case; not a proof for the cases not generated.".to_owned(),
        ]),
        wall = t0.elapsed().as_secs_f64(),
        viol = failure.is_some() as u8,
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", a.verif));
    let path = format!("{}/evidence/{}.json", a.verif, a.id);
    if let Err(e) = std::fs::write(&path, evidence) {
        eprintln!("{}: {}", path, e);
        return 2;
    }
    if code == 1 {
        println!("VIOLATION property={} replay={}", a.id, replay_path);
    } else {
        println!(
            "OK property={} tier={} seed={} evaluations={} distinct_nontrivial={} wall={:.1}s",
            a.id,
            a.tier,
            a.seed,
            evaluations,
            distinct,
            t0.elapsed().as_secs_f64()
        );
    }
    code
}

fn clip_json(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_owned()
    } else {
        json::esc("(long; see the replay file)")
    }
}

fn write_replay(a: &CheckArgs, prop: &Prop, f: &Failure, dir: &str, cfg_for: &dyn Fn(&str) -> RunCfg) -> String {
    let rdir = format!("{}/replays", a.verif);
    let _ = std::fs::create_dir_all(&rdir);
    let path = format!("{}/{}-{}-{}.replay", rdir, a.id, a.tier, a.seed);
    // Does it fail on its own, in a fresh process?
    let bin = a.bins.iter().find(|b| b.0 == f.profile).map(|b| b.1.clone()).unwrap_or_default();
    let mut mode = "history";
    if let (Some(c), false) = (&f.choices, f.history) {
        let file = format!("{}/final", dir);
        let _ = std::fs::write(&file, choices_text(c));
        let mut args = vec!["one".to_owned()];
        args.extend(common_args(&cfg_for(&f.profile)));
        args.extend([f.family.to_string(), file, "-".to_owned()]);
        if !matches!(wait_one(spawn(&bin, &args)).0, End::Code(0)) {
            mode = "case";
        }
    }
    let mut s = String::new();
    s.push_str("# Replay with: bash replay.sh <this file>\n");
    s.push_str(&format!("property\t{}\n", a.id));
    s.push_str(&format!("tier\t{}\n", a.tier));
    s.push_str(&format!("seed\t{}\n", a.seed));
    s.push_str(&format!("profile\t{}\n", f.profile));
    s.push_str(&format!("mode\t{}\n", mode));
    s.push_str(&format!("family\t{}\t{}\n", f.family, prop.families[f.family].name));
    s.push_str(&format!("shard\t{}\n", f.shard));
    s.push_str(&format!("index\t{}\n", f.index));
    s.push_str(&format!("choices\t{}\n", f.choices.as_ref().map(|c| choices_text(c)).unwrap_or_default()));
    s.push_str(&format!("message\t{}\n", f.message));
    s.push_str(&format!("case\t{}\n", f.text_json));
    let _ = std::fs::write(&path, s);
    println!("{}: {}", a.id, f.message);
    println!("{}: family `{}`, case {}", a.id, prop.families[f.family].name, clip_json(&f.text_json, 3000));
    path
}

/// Runs a replay file against the current build: exit 1 if it still fails.
pub fn replay(path: &str, bins: &[(String, String)], verif: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {}", path);
        return 2;
    };
    let mut kv: HashMap<&str, &str> = HashMap::new();
    for l in s.lines() {
        if let Some((k, v)) = l.split_once('\t') {
            kv.insert(k, v);
        }
    }
    let get = |k: &str| kv.get(k).copied().unwrap_or("");
    let profile = get("profile").to_owned();
    let known = read_known(&format!("{}/known_findings.txt", verif), get("property"));
    let cfg = RunCfg {
        id: get("property").to_owned(),
        tier: get("tier").to_owned(),
        seed: get("seed").parse().unwrap_or(1),
        profile: profile.clone(),
        known: known.into_iter().map(|k| k.0).collect(),
    };
    let Some((_, bin)) = bins.iter().find(|b| b.0 == profile) else {
        eprintln!("no build for profile {}", profile);
        return 2;
    };
    let dir = format!("{}/replay-{}", std::env::temp_dir().display(), std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let family = get("family").split('\t').next().unwrap_or("0").to_owned();
    let (end, out) = if get("mode") == "case" {
        let file = format!("{}/choices", dir);
        let _ = std::fs::write(&file, get("choices"));
        let mut args = vec!["one".to_owned()];
        args.extend(common_args(&cfg));
        args.extend([family, file, "-".to_owned()]);
        wait_one(spawn(bin, &args))
    } else {
        let mut args = vec!["worker".to_owned()];
        args.extend(common_args(&cfg));
        args.extend([get("shard").to_owned(), dir.clone(), format!("{},{}", family, get("index"))]);
        let mut child = spawn(bin, &args);
        match child.wait() {
            Ok(st) => match st.code() {
                Some(c) if c == 0 || c == 1 => (End::Code(c), String::new()),
                _ => (End::Crash(format!("{:?}", st)), String::new()),
            },
            Err(e) => (End::Crash(e.to_string()), String::new()),
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    match end {
        End::Code(0) => {
            println!("the case passes");
            0
        }
        e => {
            println!("the case fails: {:?} {}", e, out.trim());
            println!("VIOLATION property={} replay={}", cfg.id, path);
            1
        }
    }
}
