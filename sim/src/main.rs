//! Deterministic simulation of hash-roll. See /verif/DESIGN.md.
mod alloc;
mod cfg;
mod engine;
mod gen;
mod haul;
mod reel;
mod model;
mod props;
mod rng;
mod scenario;
mod shrink;
mod sut;
mod tables;

use scenario::Scenario;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

/// Number of the run in progress + 1, and when it began: for the watchdog.
static RUN: AtomicU64 = AtomicU64::new(0);
/// Whether it is a long haul.
static LONG: AtomicBool = AtomicBool::new(false);

fn cpu_s() -> f64 {
    let t = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = t.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.);
    (n(11) + n(12)) / 100.
}
/// Ends the process with status 9 when one run eats `limit` seconds of CPU, or ten times that of
/// wall time.
fn watchdog(limit: f64) {
    std::thread::spawn(move || {
        let (mut run, mut c0, mut t0) = (0, 0., Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let r = RUN.load(Ordering::SeqCst);
            if r != run {
                run = r;
                c0 = cpu_s();
                t0 = Instant::now();
                continue;
            }
            let limit = if LONG.load(Ordering::SeqCst) { limit.max(40.) * 5. } else { limit };
            if r != 0 && (cpu_s() - c0 > limit || t0.elapsed().as_secs_f64() > 10. * limit) {
                std::process::exit(9);
            }
        }
    });
}
fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}
fn oneline(s: &str) -> String {
    s.replace('\n', " ")
}

struct Line<'a>(std::io::StdoutLock<'a>);
impl Line<'_> {
    fn put(&mut self, s: String) {
        let _ = self.0.write_all(s.as_bytes());
        let _ = self.0.write_all(b"\n");
        let _ = self.0.flush();
    }
}

fn worker(prop: &str, seed: u64, thorough: bool, from: u64, count: u64) {
    quiet_panics();
    watchdog(40.);
    let mut o = Line(std::io::stdout().lock());
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut cov: HashSet<u64> = HashSet::new();
    for i in from..from + count {
        RUN.store(i + 1, Ordering::SeqCst);
        o.put(format!("B {}", i));
        let sc = gen::of_run(seed, prop, i, thorough);
        LONG.store(sc.haul.is_some() || sc.reel.is_some(), Ordering::SeqCst);
        let (v, r) = props::judge(&sc);
        let faults: u64 = r.faults.values().sum();
        let nt = faults > 0 && v.hits > 0 && v.checks > 0;
        o.put(format!("R {} {:x} {:x} {} {}", i, r.trace, r.shape, nt as u8, v.checks));
        if let Some(m) = v.viol {
            o.put(format!("V {} {}", i, oneline(&m)));
        }
        if let Some(m) = v.known {
            o.put(format!("K {} {}", i, oneline(&m)));
        }
        for (k, n) in &r.faults {
            *stats.entry(format!("fault {}", k)).or_insert(0) += n;
        }
        for (k, n) in &v.probes {
            *stats.entry(format!("probe {}", k)).or_insert(0) += n;
        }
        *stats.entry("calls".into()).or_insert(0) += r.calls;
        *stats.entry("bytes".into()).or_insert(0) += r.bytes;
        *stats.entry("sim_us".into()).or_insert(0) += r.sim_us;
        *stats.entry("sessions".into()).or_insert(0) += r.sess.len() as u64;
        for c in &sc.insts {
            *stats.entry(format!("algo {:?}", c.algo())).or_insert(0) += 1;
        }
        cov.extend(r.cov.iter());
    }
    RUN.store(0, Ordering::SeqCst);
    for (k, n) in stats {
        o.put(format!("S {} {}", n, k));
    }
    let mut s = String::from("C");
    for c in cov {
        s.push_str(&format!(" {:x}", c));
    }
    o.put(s);
    o.put("END".into());
}

fn exec(text: &str) -> (Option<String>, Option<String>, u64) {
    let sc = Scenario::parse(text);
    LONG.store(sc.haul.is_some() || sc.reel.is_some(), Ordering::SeqCst);
    let (v, r) = props::judge(&sc);
    (v.viol, v.known, r.trace)
}

fn me() -> Command {
    Command::new(std::env::current_exe().unwrap())
}

#[derive(Default)]
struct Batch {
    runs: Vec<(u64, u64, u64, bool, u64)>,
    viol: Vec<(u64, String)>,
    known: Vec<String>,
    stats: BTreeMap<String, u64>,
    cov: Vec<u64>,
    died: Option<(u64, String)>,
}
fn run_batch(prop: &str, seed: u64, tier: &str, from: u64, count: u64) -> Batch {
    let mut b = Batch::default();
    let mut ch = me()
        .args(["worker", prop, &seed.to_string(), tier, &from.to_string(), &count.to_string()])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn worker");
    let mut begun = from;
    let mut ended = false;
    for l in BufReader::new(ch.stdout.take().unwrap()).lines() {
        let Ok(l) = l else { break };
        let t: Vec<&str> = l.splitn(3, ' ').collect();
        match t[0] {
            "B" => begun = t[1].parse().unwrap(),
            "R" => {
                let f: Vec<&str> = l.split(' ').collect();
                b.runs.push((
                    f[1].parse().unwrap(),
                    u64::from_str_radix(f[2], 16).unwrap(),
                    u64::from_str_radix(f[3], 16).unwrap(),
                    f[4] == "1",
                    f[5].parse().unwrap(),
                ));
            }
            "V" => b.viol.push((t[1].parse().unwrap(), t[2].into())),
            "K" => b.known.push(t[2].into()),
            "S" => {
                b.stats.insert(t[2].into(), t[1].parse().unwrap());
            }
            "C" => b.cov = l.split(' ').skip(1).map(|x| u64::from_str_radix(x, 16).unwrap()).collect(),
            "END" => ended = true,
            _ => {}
        }
    }
    let st = ch.wait().unwrap();
    if !ended {
        let why = if st.code() == Some(9) { "hang: a call did not return within the CPU limit".into() } else { format!("process ended abnormally ({})", st) };
        b.died = Some((begun, why));
    }
    b
}

/// Run one scenario file in a fresh process: its violation, if any.
fn exec_fresh(path: &std::path::Path, limit: f64) -> (Option<String>, Option<u64>) {
    let out = me()
        .args(["exec", path.to_str().unwrap(), &limit.to_string()])
        .stderr(Stdio::null())
        .output()
        .expect("spawn");
    let t = String::from_utf8_lossy(&out.stdout);
    let mut trace = None;
    for l in t.lines() {
        if let Some(x) = l.strip_prefix("T ") {
            trace = u64::from_str_radix(x, 16).ok();
        }
    }
    for l in t.lines() {
        if let Some(m) = l.strip_prefix("V ") {
            return (Some(m.to_string()), trace);
        }
    }
    if trace.is_none() {
        let why = if out.status.code() == Some(9) { "hang: a call did not return within the CPU limit".to_string() } else { format!("process ended abnormally ({})", out.status) };
        return (Some(why), None);
    }
    (None, trace)
}

struct Tier {
    runs: u64,
    batch: u64,
    wall: f64,
}
fn tier(prop: &str, thorough: bool, over: Option<u64>) -> Tier {
    let base = match prop {
        "C08" | "C11" => 50_000,
        _ => 90_000,
    };
    let runs = over.unwrap_or(if thorough { base * 10 } else { base });
    Tier { runs, batch: gen::BATCH, wall: if thorough { 700. } else { 400. } }
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn json_map(m: &BTreeMap<String, u64>, prefix: &str) -> String {
    let v: Vec<String> = m.iter().filter_map(|(k, n)| k.strip_prefix(prefix).map(|k| format!("{}: {}", json(k), n))).collect();
    format!("{{{}}}", v.join(", "))
}

fn check(prop: &str, dir: &std::path::Path, thorough: bool, over: Option<u64>, jobs: usize) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tname = if thorough { "thorough" } else { "quick" };
    let t = tier(prop, thorough, over);
    let nb = t.runs.div_ceil(t.batch);
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let done: std::sync::Mutex<BTreeMap<u64, Batch>> = Default::default();
    std::thread::scope(|s| {
        for _ in 0..jobs {
            s.spawn(|| loop {
                let b = next.fetch_add(1, Ordering::SeqCst);
                if b >= nb || b > stop_at.load(Ordering::SeqCst) || t0.elapsed().as_secs_f64() > t.wall {
                    return;
                }
                let from = b * t.batch;
                let r = run_batch(prop, seed, tname, from, t.batch.min(t.runs - from));
                if !r.viol.is_empty() || r.died.is_some() {
                    stop_at.fetch_min(b, Ordering::SeqCst);
                }
                done.lock().unwrap().insert(b, r);
            });
        }
    });
    let done = done.into_inner().unwrap();
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut cov: HashSet<u64> = HashSet::new();
    let mut shapes: HashSet<u64> = HashSet::new();
    let (mut runs, mut checks, mut nontrivial) = (0u64, 0u64, 0u64);
    let mut viol: Option<(u64, u64, String)> = None;
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut traces: BTreeMap<u64, u64> = BTreeMap::new();
    for (bi, b) in &done {
        for &(i, tr, sh, nt, ck) in &b.runs {
            runs += 1;
            checks += ck;
            traces.insert(i, tr);
            if nt && shapes.insert(sh) {
                nontrivial += 1;
            }
        }
        for (k, n) in &b.stats {
            *stats.entry(k.clone()).or_insert(0) += n;
        }
        cov.extend(&b.cov);
        for k in &b.known {
            *known.entry(k.clone()).or_insert(0) += 1;
        }
        let mut c: Vec<(u64, String)> = b.viol.clone();
        c.extend(b.died.clone());
        if let Some((i, m)) = c.into_iter().min() {
            if viol.is_none() {
                viol = Some((i, bi * t.batch, m));
            }
        }
    }
    // the same runs, alone in a process of their own: same results?
    let out = dir.join("out");
    let _ = std::fs::create_dir_all(out.join("replays"));
    let mut fresh = 0u64;
    let mut differs: Option<u64> = None;
    if viol.is_none() {
        let want = if prop == "C08" { 400 } else { 24 };
        let pick: Vec<u64> = traces.keys().copied().filter(|i| rng::mix(*i ^ seed).is_multiple_of((runs / want).max(1))).collect();
        let idx = AtomicU64::new(0);
        let bad = std::sync::Mutex::new(Vec::new());
        std::thread::scope(|s| {
            for _ in 0..jobs {
                s.spawn(|| loop {
                    let k = idx.fetch_add(1, Ordering::SeqCst) as usize;
                    if k >= pick.len() {
                        return;
                    }
                    let b = run_batch(prop, seed, tname, pick[k], 1);
                    if b.runs.first().map(|r| r.1) != traces.get(&pick[k]).copied() {
                        bad.lock().unwrap().push(pick[k]);
                    }
                });
            }
        });
        fresh = pick.len() as u64;
        differs = bad.into_inner().unwrap().into_iter().min();
    }
    let listed = std::fs::read_to_string(dir.join("known-findings.txt")).unwrap_or_default();
    let mut viols = 0;
    if viol.is_none() {
        // a known deviation counts only where the committed file lists it
        for (k, n) in &known {
            let l = listed.lines().find(|l| l.starts_with(&format!("finding: property={} ", prop)) && l.contains(k.as_str()));
            match l {
                Some(_) => println!("KNOWN-FINDING: property={} {} ({} runs)", prop, k, n),
                None => {
                    let i = done.values().flat_map(|b| b.runs.iter()).map(|r| r.0).min().unwrap_or(0);
                    viol = Some((i, i, format!("not listed: {}", k)));
                }
            }
        }
    }
    if let Some((i, from, m)) = &viol {
        viols = 1;
        let path = report(prop, &out, seed, tname, *i, *from, m, jobs);
        println!("VIOLATION property={} replay={}", prop, path.display());
    } else if let Some(i) = differs {
        if prop == "C08" {
            viols = 1;
            let path = out.join("replays").join(format!("{}-{}-{}.txt", prop, seed, i));
            let text = format!(
                "# run {} gives other results in a process of its own than after the runs before it\nbatch {} {} {} {} {} differs\n",
                i,
                prop,
                seed,
                tname,
                i / t.batch * t.batch,
                i
            );
            let _ = std::fs::write(&path, text);
            println!("run {}: results depend on what ran before in the same process", i);
            println!("VIOLATION property={} replay={}", prop, path.display());
        } else {
            println!("note: run {} gives other results in a process of its own (see C08)", i);
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let samples: Vec<String> = (0..3u64)
        .map(|k| {
            let i = k * runs / 3;
            let sc = gen::of_run(seed, prop, i, thorough);
            let objs: Vec<usize> = (0..sc.objs.len()).map(|o| sc.objs[o].iter().map(|&p| sc.parts[p].len()).sum()).collect();
            let full = sc.ser();
            let steps: Vec<&str> = full.lines().filter(|l| l.starts_with("step") || l.starts_with("sess") || l.starts_with("inst")).take(28).collect();
            json(&format!("run {} (seed {:#x}): object bytes {:?}; {}{}", i, gen::run_seed(seed, prop, i), objs, steps.join("; "), if sc.steps.len() > 20 { "; ..." } else { "" }))
        })
        .collect();
    let cpu_wall_h = wall / 3600.;
    let ev = format!(
        r#"{{
 "property": {p}, "tier": {tier}, "seed": {seed}, "level": "exploration",
 "coverage": {{
  "evaluations": {runs},
  "distinct_nontrivial": {nt},
  "rule": "One evaluation is one simulated execution generated from its own seed (configuration, objects, schedule, faults). Non-trivial: at least one injected fault or irregular delivery took effect, at least one boundary was reported in a disturbed session and at least one oracle comparison was made. Distinct: by hash of the sequence of (session, worker, operation kind, boundaries so far, magnitude of delivered bytes, algorithm and interface).",
  "samples": [{samples}],
  "oracle_comparisons": {checks},
  "simulated_runs_per_hour": {rph},
  "seeds_per_hour": {rph},
  "simulated_seconds": {sim},
  "library_calls": {calls},
  "stream_bytes_processed": {bytes},
  "sessions": {sessions},
  "faults_injected": {faults},
  "probes": {probes},
  "configurations_by_algorithm": {algos},
  "distinct_abstract_states": {cov},
  "abstract_state_measure": "(algorithm, interface, call kind, log2 of open chunk, log2 of new bytes, log2 of boundaries so far, boundary found, scale class)",
  "runs_repeated_in_a_fresh_process": {fresh},
  "fresh_process_disagreements": {dis},
  "known_findings_seen": {kn},
  "real_code": "all chunkers and both slice iterators of /repo/src through the public API, rebuilt from the working tree",
  "stubs": "storage, reader, scheduler, consumer, byte-hash callback (table of the crate behind a hook), allocator accounting"
 }},
 "assumptions": ["Objects are steered by the reference models in sim/src/model.rs; bounded by object and schedule length", "Degenerate configurations (zero window, zero modulus, zero or full-width bit counts, maximum not above minimum) are outside the generated space"],
 "wall_s": {wall:.2},
 "violations": {viols}
}}
"#,
        p = json(prop),
        tier = json(tname),
        seed = seed,
        runs = runs,
        nt = nontrivial,
        samples = samples.join(", "),
        checks = checks,
        rph = (runs as f64 / cpu_wall_h) as u64,
        sim = stats.get("sim_us").copied().unwrap_or(0) / 1_000_000,
        calls = stats.get("calls").copied().unwrap_or(0),
        bytes = stats.get("bytes").copied().unwrap_or(0),
        sessions = stats.get("sessions").copied().unwrap_or(0),
        faults = json_map(&stats, "fault "),
        probes = json_map(&stats, "probe "),
        algos = json_map(&stats, "algo "),
        cov = cov.len(),
        fresh = fresh,
        dis = differs.is_some() as u8,
        kn = known.values().sum::<u64>(),
        wall = wall,
        viols = viols,
    );
    let _ = std::fs::create_dir_all(dir.join("evidence"));
    std::fs::write(dir.join("evidence").join(format!("{}.json", prop)), ev).expect("evidence");
    println!(
        "{} {}: {} runs, {} distinct non-trivial, {} comparisons, {} abstract states, {:.1} s{}",
        prop,
        tname,
        runs,
        nontrivial,
        checks,
        cov.len(),
        wall,
        if runs < t.runs && viols == 0 { " (stopped at the time limit)" } else { "" }
    );
    viols
}

/// Minimise and write the replay file; make sure it reproduces in a fresh process.
#[allow(clippy::too_many_arguments)]
fn report(prop: &str, out: &std::path::Path, seed: u64, tname: &str, i: u64, from: u64, msg: &str, jobs: usize) -> std::path::PathBuf {
    let t0 = Instant::now();
    let path = out.join("replays").join(format!("{}-{}-{}.txt", prop, seed, i));
    println!("run {} (seed {:#x}): {}", i, gen::run_seed(seed, prop, i), msg);
    let sc = gen::of_run(seed, prop, i, tname == "thorough");
    let head = |m: &str| format!("# run {} of VERIF_SEED={} ({}), seed {:#x}\n# {}\n", i, seed, tname, gen::run_seed(seed, prop, i), m);
    let write = |sc: &Scenario, m: &str| std::fs::write(&path, format!("{}{}", head(m), sc.ser())).expect("replay file");
    write(&sc, msg);
    let dead = msg.starts_with("hang") || msg.starts_with("process ended");
    let lim = if dead { 4. } else { 40. };
    if exec_fresh(&path, 40.).0.is_none() {
        // only together with the runs before it
        let text = format!("{}batch {} {} {} {} {} violates\n", head(msg), prop, seed, tname, from, i);
        std::fs::write(&path, text).expect("replay file");
        return path;
    }
    if sc.haul.is_some() {
        // one chunk of one byte: nothing to leave out
        return path;
    }
    if sc.reel.is_some() {
        // shorter and shorter streams
        let mut best = sc;
        for part in [2u64, 2, 2, 2, 2, 2, 2, 2, 2, 2, 4, 4, 8, 8, 16, 16] {
            let mut s = best.clone();
            let h = s.reel.as_mut().unwrap();
            h.total -= h.total / part;
            if t0.elapsed().as_secs() < 90 && h.total > 0 {
                write(&s, msg);
                if exec_fresh(&path, 40.).0.is_some() {
                    best = s;
                }
            }
        }
        write(&best, msg);
        let m = exec_fresh(&path, 40.).0.unwrap_or_default();
        println!("minimised ({} bytes of stream, {} object bytes): {}", best.reel.as_ref().unwrap().total, best.parts[0].len(), m);
        write(&best, &m);
        return path;
    }
    let budget = std::cell::Cell::new(if dead { 64 } else { 2500 });
    let tmp = out.join(format!("min-{}-{}", prop, std::process::id()));
    let _ = std::fs::create_dir_all(&tmp);
    let small = shrink::minimise(sc, |cands| {
        if budget.get() <= 0 || t0.elapsed().as_secs() > 90 {
            return None;
        }
        budget.set(budget.get() - cands.len() as i64);
        let res = std::sync::Mutex::new(vec![false; cands.len()]);
        let idx = AtomicU64::new(0);
        std::thread::scope(|s| {
            for j in 0..jobs.min(cands.len()) {
                let (res, idx, tmp) = (&res, &idx, &tmp);
                s.spawn(move || loop {
                    let k = idx.fetch_add(1, Ordering::SeqCst) as usize;
                    if k >= cands.len() {
                        return;
                    }
                    let f = tmp.join(format!("c{}.txt", j));
                    let _ = std::fs::write(&f, cands[k].ser());
                    let bad = exec_fresh(&f, lim).0.is_some();
                    res.lock().unwrap()[k] = bad;
                });
            }
        });
        let r = res.into_inner().unwrap();
        r.iter().position(|&b| b)
    });
    for k in 0..jobs {
        let _ = std::fs::remove_file(tmp.join(format!("c{}.txt", k)));
    }
    let _ = std::fs::remove_dir(&tmp);
    write(&small, msg);
    let (again, _) = exec_fresh(&path, 40.);
    match again {
        Some(m) => {
            write(&small, &m);
            println!("minimised ({} steps, {} object bytes): {}", small.steps.len(), small.parts.iter().map(|p| p.len()).sum::<usize>(), m);
        }
        None => {
            let sc = gen::of_run(seed, prop, i, tname == "thorough");
            write(&sc, msg);
        }
    }
    path
}

fn replay(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    if let Some(l) = text.lines().find(|l| l.starts_with("batch ")) {
        let t: Vec<&str> = l.split_whitespace().collect();
        let (seed, from, last): (u64, u64, u64) = (t[2].parse().unwrap(), t[4].parse().unwrap(), t[5].parse().unwrap());
        let b = run_batch(t[1], seed, t[3], from, last - from + 1);
        let one = run_batch(t[1], seed, t[3], last, 1);
        for (i, m) in &b.viol {
            println!("run {}: {}", i, m);
        }
        if let Some((i, m)) = &b.died {
            println!("run {}: {}", i, m);
        }
        let d = b.runs.last().map(|r| r.1) != one.runs.first().map(|r| r.1);
        if d {
            println!("run {}: other results in a process of its own", last);
        }
        let bad = d || !b.viol.is_empty() || b.died.is_some();
        println!("{}", if bad { "reproduced" } else { "not reproduced" });
        return bad as i32;
    }
    let sc = Scenario::parse(&text);
    let (v, tr) = exec_fresh(std::path::Path::new(path), 40.);
    let (v2, tr2) = exec_fresh(std::path::Path::new(path), 40.);
    match (&v, v == v2 && tr == tr2) {
        (Some(m), true) => {
            println!("{}: {}", sc.prop, m);
            println!("VIOLATION property={} replay={}", sc.prop, path);
            1
        }
        (None, true) => {
            println!("{}: holds on this execution", sc.prop);
            0
        }
        _ => {
            println!("{}: not repeatable: {:?} / {:?}", sc.prop, v, v2);
            1
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| -> u64 { a[i].parse().unwrap() };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            worker(&a[2], n(3), a[4] == "thorough", n(5), n(6));
            0
        }
        Some("exec") => {
            quiet_panics();
            watchdog(a.get(3).and_then(|x| x.parse().ok()).unwrap_or(40.));
            RUN.store(1, Ordering::SeqCst);
            let (v, k, t) = exec(&std::fs::read_to_string(&a[2]).unwrap());
            if let Some(m) = v {
                println!("V {}", oneline(&m));
            }
            if let Some(m) = k {
                println!("K {}", oneline(&m));
            }
            println!("T {:x}", t);
            0
        }
        Some("replay") => replay(&a[2]),
        Some("show") => {
            print!("{}", gen::of_run(n(3), &a[2], n(4), a.get(5).is_some_and(|x| x == "thorough")).ser());
            0
        }
        Some("check") => {
            let mut dir = std::path::PathBuf::from(".");
            let mut thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
            let mut over = None;
            let mut jobs = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
            let mut i = 3;
            while i < a.len() {
                match a[i].as_str() {
                    "--dir" => dir = a[i + 1].clone().into(),
                    "--tier" => thorough = a[i + 1] == "thorough",
                    "--runs" => over = a[i + 1].parse().ok(),
                    "--jobs" => jobs = a[i + 1].parse().unwrap(),
                    _ => panic!("bad argument {}", a[i]),
                }
                i += 2;
            }
            check(&a[2], &dir, thorough, over, jobs)
        }
        _ => {
            eprintln!("usage: hrsim check ID [--dir D] [--tier quick|thorough] [--runs N] | replay FILE | show ID SEED RUN");
            2
        }
    };
    std::process::exit(code);
}
