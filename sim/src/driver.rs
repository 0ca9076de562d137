//! Cases, checks, workers, replays and evidence.
use crate::minimise::{minimise, Budget};
use crate::rng::{derive, hash_bytes, Rng};
use crate::sched::{install_panic_hook, Schedule, Violation, PROGRESS};
use crate::server::Outcome;
use crate::{churn, harness_error, link, link_gen, result, server, server_gen};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum AnyPlan {
    Server(server::Plan),
    Link(link::Plan),
    Churn(churn::Plan),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    pub plan: AnyPlan,
    pub schedule: Schedule,
}

pub const PROPERTIES: [&str; 15] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C17"];

fn property(name: &str) -> &'static str {
    match PROPERTIES.iter().find(|x| **x == name) {
        Some(x) => x,
        None => harness_error(&format!("no property {name}")),
    }
}

pub fn case(property: &str, seed: u64) -> Case {
    let mut rng = Rng::new(seed);
    let world = rng.below(1000);
    let schedule = Schedule::Search { seed: rng.next() };
    // chances of the link and the churn world
    let (l, c) = match property {
        "C01" => (350, 0),
        "C10" => (400, 0),
        "C13" => (480, 25),
        "C07" | "C08" | "C09" | "C11" | "C12" => (1000, 0),
        _ => (0, 0),
    };
    let plan = if world < l {
        AnyPlan::Link(link_gen::plan(property, &mut rng))
    } else if world < l + c {
        AnyPlan::Churn(churn::plan(&mut rng))
    } else {
        AnyPlan::Server(server_gen::plan(property, &mut rng))
    };
    Case { plan, schedule }
}

pub fn run_case(case: &Case, trace: bool) -> Outcome {
    match &case.plan {
        AnyPlan::Server(p) => server::run(p, case.schedule.clone(), trace),
        AnyPlan::Link(p) => link::run(p, trace),
        AnyPlan::Churn(p) => churn::run(p, case.schedule.clone(), trace),
    }
}

/// whether a violation of a class is one of the property
fn relevant(property: &str, class: &str) -> bool {
    // to look into what a search meets on the way
    if std::env::var_os("SIMCHECK_ALL_CLASSES").is_some() {
        return true;
    }
    if matches!(class, "panic" | "abort" | "hang" | "livelock" | "deadlock" | "bind") {
        return true;
    }
    let list: &[&str] = match property {
        "C01" => &["initial-lost", "lost-connection", "undelivered", "delivery", "duplicate-delivery", "opener-lost", "decode-missing", "decode-wrong"],
        "C02" => &["delivery", "duplicate-delivery", "undelivered", "order", "opener-lost"],
        "C03" => &["initial-lost", "double-open", "open-cause", "opener-lost", "issued-id", "lost-connection", "undelivered", "delivery", "duplicate-delivery"],
        "C04" => &["not-closed", "lost-connection", "delivery", "undelivered", "duplicate-delivery", "opener-lost", "decode-missing", "decode-wrong", "pn-count"],
        "C05" => &["initial-lost"],
        "C06" => &["error-report", "lost-connection", "undelivered", "initial-lost", "delivery", "duplicate-delivery", "opener-lost", "open-cause", "order"],
        "C07" | "C08" => &["build-failed", "wire", "wire-unreadable", "decode-missing", "decode-wrong"],
        "C09" => &["forged"],
        "C10" => &["pn-reuse", "pn-order", "pn-count", "wire-unreadable"],
        "C11" => &["pn-length", "build-failed", "decode-missing", "decode-wrong", "wire-unreadable"],
        "C12" => &["coalesce", "decode-missing", "decode-wrong"],
        "C13" => &["memory", "retained"],
        "C14" => &["decode-missing", "decode-wrong", "forged"],
        "C17" => &["log"],
        _ => &[],
    };
    list.contains(&class)
}

fn runs(property: &str, tier: &str) -> u64 {
    let quick = match property {
        "C01" => 96_000,
        "C02" => 32_000,
        "C03" => 48_000,
        "C04" => 60_000,
        "C05" => 52_000,
        "C06" => 52_000,
        "C10" => 100_000,
        "C13" => 60_000,
        "C14" => 40_000,
        "C17" => 40_000,
        "C12" => 500_000,
        _ => 700_000,
    };
    match tier {
        "thorough" => quick * 30,
        _ => quick,
    }
}

fn seed_of(property: &str, seed: u64, index: u64) -> u64 {
    derive(seed, &[hash_bytes(0, property.as_bytes()), index])
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

// ---------------------------------------------------------------- worker

#[derive(Debug, Default, Serialize, Deserialize)]
struct Summary {
    runs: u64,
    sim_time: u64,
    steps: u64,
    switches: u64,
    max_peak: i64,
    worlds: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    runs_with_fault: u64,
    probes: BTreeMap<String, u64>,
    other: BTreeMap<String, u64>,
    hashes: Vec<u64>,
    rechecked: u64,
    differing: u64,
    cut_short: bool,
}

fn cpu_seconds() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}

/// ends the process if the code under simulation does not come back
fn watch() {
    std::thread::spawn(|| {
        let mut last = PROGRESS.load(Ordering::Relaxed);
        let mut cpu = cpu_seconds();
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = PROGRESS.load(Ordering::Relaxed);
            if now != last {
                last = now;
                cpu = cpu_seconds();
                since = Instant::now();
            } else if cpu_seconds() - cpu > 15.0 || since.elapsed() > Duration::from_secs(240) {
                result("HANG");
                unsafe { libc::_exit(4) }
            }
        }
    });
}

fn world_name(p: &AnyPlan) -> &'static str {
    match p {
        AnyPlan::Server(_) => "server",
        AnyPlan::Link(_) => "link",
        AnyPlan::Churn(_) => "churn",
    }
}

fn note_found(path: &PathBuf, index: u64) {
    if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(path) {
        let _ = f.write_all(format!("{index}\n").as_bytes());
    }
}

pub fn worker(args: &[&str]) -> i32 {
    let n = |i: usize| args[i].parse::<u64>().unwrap();
    let prop = property(args[0]);
    let (seed, first, stride, end, seconds) = (n(1), n(2), n(3), n(4), n(5));
    // nobody needs to look further than the first violation anybody has found
    let stop = args.get(6).map(PathBuf::from);
    let first_found = || -> u64 {
        stop.as_ref().and_then(|x| std::fs::read_to_string(x).ok()).and_then(|x| x.lines().filter_map(|l| l.parse().ok()).min()).unwrap_or(u64::MAX)
    };
    crate::silence();
    install_panic_hook();
    watch();
    let known = known_findings(prop);
    let deadline = Instant::now() + Duration::from_secs(seconds);
    let mut s = Summary::default();
    let mut i = first;
    while i < end {
        if Instant::now() > deadline {
            s.cut_short = true;
            break;
        }
        if s.runs % 16 == 0 && first_found() < i {
            s.cut_short = true;
            break;
        }
        result(&format!("AT {i}"));
        let c = case(prop, seed_of(prop, seed, i));
        let out = run_case(&c, false);
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        s.runs += 1;
        s.sim_time += out.sim_time;
        s.steps += out.steps;
        s.switches += out.switches;
        s.max_peak = s.max_peak.max(out.max_peak);
        *s.worlds.entry(world_name(&c.plan).into()).or_insert(0) += 1;
        let mut faulty = false;
        for (k, v) in &out.faults {
            faulty |= *v > 0;
            *s.faults.entry(k.clone()).or_insert(0) += v;
        }
        s.runs_with_fault += u64::from(faulty);
        for (k, v) in &out.probes {
            *s.probes.entry(k.clone()).or_insert(0) += v;
        }
        let seen = ["datagrams received", "datagrams decoded", "packets built", "rounds of churn"].iter().any(|k| out.probes.contains_key(*k));
        if seen && (faulty || out.switches > 10) {
            s.hashes.push(out.hash);
        }
        let mut found = None;
        for v in &out.violations {
            if !relevant(prop, &v.class) {
                *s.other.entry(v.class.clone()).or_insert(0) += 1;
            } else if let Some(k) = known.iter().find(|k| k.matches(v)) {
                result(&format!("KNOWN {}", k.text));
            } else if found.is_none() {
                found = Some(v.clone());
            }
        }
        if let Some(v) = found {
            result(&format!("FOUND {}", json!({"index": i, "class": v.class, "detail": v.detail, "deviations": out.deviations})));
            if let Some(x) = &stop {
                note_found(x, i);
            }
            break;
        }
        if out.leaked {
            harness_error("a run did not end");
        }
        if s.rechecked < 4 {
            let again = run_case(&c, false);
            s.rechecked += 1;
            if again.hash != out.hash || again.steps != out.steps || again.max_peak != out.max_peak {
                s.differing += 1;
                result(&format!("NOTE case {i} differs when run again"));
            }
        }
        i += stride;
    }
    result(&format!("SUMMARY {}", serde_json::to_string(&s).unwrap()));
    0
}

// ---------------------------------------------------------------- trials

#[derive(Debug, Serialize, Deserialize)]
struct Trial {
    plan: Value,
    schedules: Vec<Schedule>,
    class: String,
}

/// runs a plan under several schedules until it fails in the given way
pub fn trial(args: &[&str]) -> i32 {
    let text = std::fs::read_to_string(args[0]).unwrap_or_default();
    let trace = args.get(1) == Some(&"trace");
    let Ok(t) = serde_json::from_str::<Trial>(&text) else { return 2 };
    let Ok(plan) = serde_json::from_value::<AnyPlan>(t.plan) else { return 2 };
    crate::silence();
    install_panic_hook();
    watch();
    for (i, schedule) in t.schedules.iter().enumerate() {
        result(&format!("AT {i}"));
        let out = run_case(&Case { plan: plan.clone(), schedule: schedule.clone() }, trace);
        let v = out.violations.iter().find(|v| v.class == t.class || t.class.is_empty());
        if v.is_some() || t.schedules.len() == 1 {
            result(&format!(
                "RESULT {}",
                json!({"index": i, "violation": v, "all": out.violations, "deviations": out.deviations, "hash": out.hash, "steps": out.steps, "sim_time": out.sim_time, "faults": out.faults, "trace": out.trace})
            ));
            return 0;
        }
    }
    0
}

fn exe() -> PathBuf {
    std::env::current_exe().unwrap_or_else(|x| harness_error(&format!("{x}")))
}

struct Scratch(PathBuf);

impl Scratch {
    fn new(name: &str) -> Self {
        let base = std::env::temp_dir();
        let p = base.join(format!("simcheck-{}-{name}", std::process::id()));
        if let Err(x) = std::fs::create_dir_all(&p) {
            harness_error(&format!("cannot create {}: {x}", p.display()));
        }
        Self(p)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct Started {
    child: Child,
    schedules: Vec<Schedule>,
    plan: Value,
    class: String,
}

fn start_trial(scratch: &Scratch, n: usize, plan: &Value, schedules: Vec<Schedule>, class: &str, trace: bool) -> Started {
    let path = scratch.0.join(format!("trial-{n}.json"));
    let t = Trial { plan: plan.clone(), schedules: schedules.clone(), class: class.into() };
    std::fs::write(&path, serde_json::to_string(&t).unwrap()).unwrap_or_else(|x| harness_error(&format!("{x}")));
    let mut c = Command::new(exe());
    c.arg("trial").arg(&path);
    if trace {
        c.arg("trace");
    }
    let child = c.stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap_or_else(|x| harness_error(&format!("{x}")));
    Started { child, schedules, plan: plan.clone(), class: class.into() }
}

/// the failing case and what was seen, if it failed in the expected way
fn end_trial(mut s: Started) -> Option<(Value, Schedule, Value)> {
    let mut text = String::new();
    let _ = s.child.stdout.take().unwrap().read_to_string(&mut text);
    let status = s.child.wait().ok()?;
    let mut at = 0;
    let mut hang = false;
    for line in text.lines() {
        if let Some(x) = line.strip_prefix("AT ") {
            at = x.parse().unwrap_or(0);
        } else if line == "HANG" {
            hang = true;
        } else if let Some(x) = line.strip_prefix("RESULT ") {
            let r: Value = serde_json::from_str(x).ok()?;
            if r["violation"].is_null() {
                return None;
            }
            let i = r["index"].as_u64()? as usize;
            let schedule = match (&s.plan.get("Link"), serde_json::from_value::<Vec<(u32, u16)>>(r["deviations"].clone())) {
                (None, Ok(deviations)) => Schedule::Explicit { deviations },
                _ => s.schedules[i].clone(),
            };
            return Some((s.plan, schedule, r));
        }
    }
    let class = crash_class(hang, status.code())?;
    if class != s.class {
        return None;
    }
    Some((s.plan, s.schedules[at].clone(), json!({"violation": {"class": class, "detail": "the process ended"}, "hash": 0, "trace": []})))
}

fn crash_class(hang: bool, code: Option<i32>) -> Option<&'static str> {
    if hang {
        Some("hang")
    } else if code.is_none() {
        Some("abort")
    } else {
        None
    }
}

// ---------------------------------------------------------------- known findings

struct Known {
    class: String,
    contains: String,
    text: String,
}

impl Known {
    fn matches(&self, v: &Violation) -> bool {
        v.class == self.class && v.detail.contains(&self.contains)
    }
}

/// lines `finding: property=<id> class=<class> contains="<text>" <what fails>`
fn known_findings(property: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    let mut v = Vec::new();
    for line in text.lines() {
        let Some(rest) = line.strip_prefix(&format!("finding: property={property} class=")) else { continue };
        let Some((class, rest)) = rest.split_once(" contains=\"") else { continue };
        let Some((contains, what)) = rest.split_once('"') else { continue };
        v.push(Known { class: class.into(), contains: contains.into(), text: what.trim().into() });
    }
    v
}

// ---------------------------------------------------------------- check

#[derive(Debug, Clone)]
struct Found {
    index: u64,
    class: String,
    detail: String,
    deviations: Option<Vec<(u32, u16)>>,
}

pub fn check(args: &[&str]) -> i32 {
    let Some(name) = args.first() else { return 2 };
    let prop = property(name);
    let env = |k: &str| std::env::var(k).ok();
    let seed: u64 = env("VERIF_SEED").and_then(|x| x.parse().ok()).unwrap_or(1);
    let tier = match env("VERIF_TIER").as_deref() {
        Some("thorough") => "thorough",
        _ => "quick",
    };
    let tier = if args.contains(&"--thorough") { "thorough" } else { tier };
    let mut total = runs(prop, tier);
    if let Some(x) = env("SIM_RUNS").and_then(|x| x.parse().ok()) {
        total = x;
    }
    let guard = match env("SIM_SECONDS").and_then(|x| x.parse().ok()) {
        Some(x) => x,
        None if tier == "thorough" => 780,
        None => 240,
    };
    let workers = std::thread::available_parallelism().map_or(4, |x| x.get() as u64).clamp(1, 16);
    let began = Instant::now();
    let scratch = Scratch::new("check");
    let stop = scratch.0.join("found");
    let mut children: Vec<(u64, Child)> = (0..workers)
        .map(|k| {
            let c = Command::new(exe())
                .arg("worker")
                .arg(prop)
                .args([seed, k, workers, total, guard].map(|x| x.to_string()))
                .arg(&stop)
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .unwrap_or_else(|x| harness_error(&format!("{x}")));
            (k, c)
        })
        .collect();
    let readers: Vec<_> = children
        .iter_mut()
        .map(|(k, c)| {
            let out = c.stdout.take().unwrap();
            let k = *k;
            let stop = stop.clone();
            std::thread::spawn(move || {
                let mut at = k;
                let mut other = Vec::new();
                for line in BufReader::new(out).lines().map_while(Result::ok) {
                    if let Some(x) = line.strip_prefix("AT ") {
                        at = x.parse().unwrap_or(at);
                    } else {
                        other.push(line);
                    }
                }
                if !other.iter().any(|x| x.starts_with("SUMMARY ") || x.starts_with("ERROR ")) {
                    note_found(&stop, at);
                }
                (at, other)
            })
        })
        .collect();
    let mut all = Summary::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut found: Vec<Found> = Vec::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut notes: Vec<String> = Vec::new();
    let mut trouble: Vec<String> = Vec::new();
    for ((_, mut child), reader) in children.into_iter().zip(readers) {
        let (at, lines) = reader.join().unwrap();
        let status = child.wait().ok().and_then(|x| x.code());
        let mut done = false;
        let mut hang = false;
        for line in lines {
            if let Some(x) = line.strip_prefix("SUMMARY ") {
                let s: Summary = serde_json::from_str(x).unwrap();
                done = true;
                all.runs += s.runs;
                all.sim_time += s.sim_time;
                all.steps += s.steps;
                all.switches += s.switches;
                all.max_peak = all.max_peak.max(s.max_peak);
                all.runs_with_fault += s.runs_with_fault;
                all.rechecked += s.rechecked;
                all.differing += s.differing;
                all.cut_short |= s.cut_short;
                for (a, b) in [(&mut all.worlds, s.worlds), (&mut all.faults, s.faults), (&mut all.probes, s.probes), (&mut all.other, s.other)] {
                    for (k, v) in b {
                        *a.entry(k).or_insert(0) += v;
                    }
                }
                hashes.extend(s.hashes);
            } else if let Some(x) = line.strip_prefix("FOUND ") {
                let v: Value = serde_json::from_str(x).unwrap();
                found.push(Found {
                    index: v["index"].as_u64().unwrap(),
                    class: v["class"].as_str().unwrap().into(),
                    detail: v["detail"].as_str().unwrap().into(),
                    deviations: serde_json::from_value(v["deviations"].clone()).ok(),
                });
            } else if let Some(x) = line.strip_prefix("KNOWN ") {
                *known.entry(x.into()).or_insert(0) += 1;
            } else if line == "HANG" {
                hang = true;
            } else if let Some(x) = line.strip_prefix("NOTE ") {
                notes.push(x.into());
            } else if let Some(x) = line.strip_prefix("ERROR ") {
                trouble.push(x.into());
            }
        }
        if !done {
            match crash_class(hang, status) {
                Some(class) => found.push(Found {
                    index: at,
                    class: class.into(),
                    detail: if hang { "the code under simulation does not come back".into() } else { "the process was ended by a signal (out of memory, stack overflow or abort)".into() },
                    deviations: None,
                }),
                None if trouble.is_empty() => trouble.push(format!("a worker ended with {status:?}")),
                None => {}
            }
        }
    }
    let search = began.elapsed().as_secs_f64();
    // of what was found, the one that needs least explanation
    found.sort_by_key(|f| (matches!(f.class.as_str(), "abort" | "hang"), f.index));
    if found.is_empty() && !trouble.is_empty() {
        for t in &trouble {
            println!("simulator error: {t}");
        }
        return 3;
    }
    let replay = found.first().map(|f| report(prop, seed, workers, f));
    for (k, n) in &known {
        println!("KNOWN-FINDING: property={prop} {k} ({n} times)");
    }
    let samples: Vec<Value> = (0..3).map(|i| sample(prop, seed, i)).collect();
    let hours = search / 3600.0;
    let evidence = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "wall_s": began.elapsed().as_secs_f64(),
        "violations": found.len(),
        "coverage": {
            "evaluations": all.runs,
            "distinct_nontrivial": hashes.len(),
            "rule": "Each evaluation is one simulated run, generated from one seed: a plan (connections, datagrams, threads, faults) and, where threads are involved, a schedule. It counts as non-trivial if datagrams were received, decoded or built and at least one fault fired or threads were switched more than ten times; distinct means a different hash of the sequence of scheduling decisions, deliveries with their bytes, receives and random values.",
            "samples": samples,
            "runs_per_hour": (all.runs as f64 / hours) as u64,
            "seeds_per_hour": (all.runs as f64 / hours) as u64,
            "worlds": all.worlds,
            "simulated_time_ms": all.sim_time,
            "scheduling_steps": all.steps,
            "thread_switches": all.switches,
            "faults_injected": all.faults,
            "runs_with_a_fault": all.runs_with_fault,
            "situations_reached": all.probes,
            "largest_allocation_while_handling_a_datagram": all.max_peak,
            "runs_repeated": all.rechecked,
            "runs_that_differed_when_repeated": all.differing,
            "violations_of_other_properties_seen": all.other,
            "stopped_by_time_limit": all.cut_short,
            "real_code": real_code(prop),
            "simulated": stubs(prop),
        },
        "assumptions": [
            "The scheduler switches threads at operations on locks, channels, atomics, sockets, output and the random source; code between them is sequential, as the crate uses no unsafe code. Atomics are sequentially consistent.",
            "The reference peer is right: it is tested against the examples of RFC 9000 and RFC 9001 at every start.",
            "Seeds are searched, not enumerated: a property that held on all of them may still fail on another."
        ],
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(x) = std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&evidence).unwrap()) {
        println!("simulator error: cannot write evidence: {x}");
        return 3;
    }
    for n in notes.iter().take(5) {
        println!("note: {n}");
    }
    println!(
        "{prop} {tier}: {} runs, {} distinct, {:.1} s, {} violations{}",
        all.runs,
        hashes.len(),
        began.elapsed().as_secs_f64(),
        found.len(),
        if all.other.is_empty() { String::new() } else { format!(", of other properties: {:?}", all.other) }
    );
    match replay {
        Some((path, class, detail)) => {
            println!("{class}: {detail}");
            println!("VIOLATION property={prop} replay={path}");
            1
        }
        None => 0,
    }
}

fn real_code(prop: &str) -> Value {
    let link = ["connection.rs", "packet.rs", "frame.rs", "utils.rs", "version.rs", "error.rs", "quictls/* (key derivation, AEAD, header protection)"];
    let server = ["interface.rs (QuicSocket, QuicStream)", "routing.rs (accept, routing, connection table, inbound queues, drop)"];
    let both: Vec<&str> = server.iter().chain(link.iter()).copied().collect();
    match prop {
        "C07" | "C08" | "C09" | "C11" | "C12" => json!({"link": link}),
        "C01" | "C10" | "C13" => json!({"link": link, "server": both}),
        _ => json!({"server": both}),
    }
}

fn stubs(prop: &str) -> Value {
    let link = ["network", "processing of acknowledgements (the crate has none)", "handshake (secrets are installed; the crate has none)", "reference RFC 9000/9001 peer"];
    let server = ["udp socket", "network", "clients (reference RFC 9000/9001 peer)", "scheduling at locks, channels and socket calls (wrapping std's own)", "random source", "hash map seeds", "handshake (secrets are installed; the crate has none)"];
    match prop {
        "C07" | "C08" | "C09" | "C11" | "C12" => json!({"link": link}),
        "C01" | "C10" | "C13" => json!({"link": link, "server": server}),
        _ => json!({"server": server}),
    }
}

/// a case of this run, written out
fn sample(prop: &str, seed: u64, index: u64) -> Value {
    let s = seed_of(prop, seed, index);
    let c = case(prop, s);
    let scratch = Scratch::new("sample");
    let t = start_trial(&scratch, 0, &serde_json::to_value(&c.plan).unwrap(), vec![c.schedule.clone()], "", true);
    let mut text = String::new();
    let mut child = t.child;
    let _ = child.stdout.take().unwrap().read_to_string(&mut text);
    let _ = child.wait();
    let r: Value = text.lines().find_map(|l| l.strip_prefix("RESULT ")).and_then(|x| serde_json::from_str(x).ok()).unwrap_or(Value::Null);
    let trace: Vec<Value> = r["trace"].as_array().cloned().unwrap_or_default().into_iter().take(25).collect();
    json!({"index": index, "seed": s, "world": world_name(&c.plan), "faults": r["faults"], "steps": r["steps"], "simulated_ms": r["sim_time"], "beginning": trace})
}

/// minimises what was found, writes the replay file and makes sure that it reproduces
fn report(prop: &str, seed: u64, workers: u64, f: &Found) -> (String, String, String) {
    let scratch = Scratch::new("trials");
    let case_seed = seed_of(prop, seed, f.index);
    let c = case(prop, case_seed);
    let search = match &c.schedule {
        Schedule::Search { seed } => *seed,
        _ => 0,
    };
    let is_link = matches!(c.plan, AnyPlan::Link(_));
    let plan = serde_json::to_value(&c.plan).unwrap();
    let mut schedule = match &f.deviations {
        Some(d) if !is_link => Schedule::Explicit { deviations: d.clone() },
        _ => c.schedule.clone(),
    };
    let slow = f.class == "hang";
    // does it reproduce at all?
    let first = end_trial(start_trial(&scratch, 0, &plan, vec![schedule.clone()], &f.class, false));
    let mut best = plan;
    let mut minimised = false;
    if first.is_some() && !slow {
        let mut budget = Budget::new(50, 1500);
        let mut current = schedule.clone();
        let mut fails = |cands: &[Value]| -> Option<Value> {
            let started: Vec<Started> = cands
                .iter()
                .enumerate()
                .map(|(n, v)| {
                    let mut s = vec![current.clone()];
                    if !is_link {
                        s.extend((0..8).map(|k| Schedule::Search { seed: search.wrapping_add(k) }));
                    }
                    start_trial(&scratch, n, v, s, &f.class, false)
                })
                .collect();
            let mut rv = None;
            for s in started {
                if rv.is_some() {
                    let mut c = s.child;
                    let _ = c.kill();
                    let _ = c.wait();
                    continue;
                }
                if let Some((v, s, _)) = end_trial(s) {
                    current = s;
                    rv = Some(v);
                }
            }
            rv
        };
        best = minimise(best, &mut budget, &mut fails);
        schedule = current;
        minimised = true;
        // fewer deviations from the default schedule
        if let Schedule::Explicit { deviations } = &schedule {
            let mut budget = Budget::new(20, 600);
            let start = json!({ "deviations": deviations });
            let class = f.class.clone();
            let plan = best.clone();
            let of = |v: &Value| Schedule::Explicit { deviations: serde_json::from_value(v["deviations"].clone()).unwrap_or_default() };
            let mut fails = |cands: &[Value]| -> Option<Value> {
                let started: Vec<Started> = cands.iter().enumerate().map(|(n, v)| start_trial(&scratch, n, &plan, vec![of(v)], &class, false)).collect();
                let mut rv = None;
                for (s, v) in started.into_iter().zip(cands) {
                    if end_trial(s).is_some() && rv.is_none() {
                        rv = Some(v.clone());
                    }
                }
                rv
            };
            let d = minimise(start, &mut budget, &mut fails);
            schedule = of(&d);
        }
    }
    let last = end_trial(start_trial(&scratch, 0, &best, vec![schedule.clone()], &f.class, true));
    let again = end_trial(start_trial(&scratch, 1, &best, vec![schedule.clone()], &f.class, true));
    let (seen, reproduced) = match (&last, &again) {
        (Some(a), Some(b)) => (a.2.clone(), a.2["hash"] == b.2["hash"] && a.2["violation"] == b.2["violation"]),
        (Some(a), None) | (None, Some(a)) => (a.2.clone(), false),
        _ => (json!({"violation": {"class": f.class, "detail": f.detail}}), false),
    };
    let detail = match f.class.as_str() {
        "abort" | "hang" => f.detail.clone(),
        _ => seen["violation"]["detail"].as_str().unwrap_or(&f.detail).to_string(),
    };
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}-{}-{case_seed:016x}.json", f.class));
    // it may depend on state the code under simulation keeps for the whole process
    let mut history = Value::Null;
    let mut reproduced = reproduced;
    if first.is_none() {
        let h = json!({"seed": seed, "first": f.index % workers, "stride": workers, "index": f.index});
        reproduced = run_history(prop, &h, &f.class).is_some();
        if reproduced {
            history = h;
        }
    }
    let file = json!({
        "after_other_cases": history,
        "property": prop,
        "class": f.class,
        "detail": detail,
        "seed": case_seed,
        "found_as": format!("case {} of VERIF_SEED={seed}", f.index),
        "minimised": minimised,
        "reproduced_twice": reproduced,
        "hash": seen["hash"],
        "schedule": schedule,
        "faults": seen["faults"],
        "plan": best,
        "trace": seen["trace"],
    });
    if let Err(x) = std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()) {
        println!("cannot write {}: {x}", path.display());
    }
    (path.display().to_string(), f.class.clone(), detail)
}

/// runs a case after those that a worker ran before it
fn run_history(prop: &str, h: &Value, class: &str) -> Option<String> {
    let n = |k: &str| h[k].as_u64().unwrap_or(0);
    let out = Command::new(exe())
        .args(["worker", prop])
        .args([n("seed"), n("first"), n("stride").max(1), n("index") + 1, 600].map(|x| x.to_string()))
        .stderr(Stdio::null())
        .output()
        .ok()?;
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let hang = text.lines().any(|x| x == "HANG");
    let ended = text.lines().any(|x| x.starts_with("SUMMARY "));
    if !ended && crash_class(hang, out.status.code()) == Some(class) {
        return Some("the process ended".into());
    }
    let v: Value = text.lines().find_map(|x| x.strip_prefix("FOUND ")).and_then(|x| serde_json::from_str(x).ok())?;
    (v["index"] == h["index"] && v["class"] == class).then(|| v["detail"].as_str().unwrap_or("").to_string())
}

pub fn replay(args: &[&str]) -> i32 {
    let Some(path) = args.first() else { return 2 };
    let Ok(v) = std::fs::read_to_string(path).map_err(|_| ()).and_then(|x| serde_json::from_str::<Value>(&x).map_err(|_| ())) else {
        println!("cannot read {path}");
        return 2;
    };
    let Ok(schedule) = serde_json::from_value::<Schedule>(v["schedule"].clone()) else { return 2 };
    let class = v["class"].as_str().unwrap_or("").to_string();
    if !v["after_other_cases"].is_null() {
        let prop = v["property"].as_str().unwrap_or("?");
        return match run_history(prop, &v["after_other_cases"], &class) {
            Some(detail) => {
                println!("{class}: {detail}");
                println!("VIOLATION property={prop} replay={path}");
                1
            }
            None => {
                println!("the violation does not occur");
                0
            }
        };
    }
    let scratch = Scratch::new("trials");
    match end_trial(start_trial(&scratch, 0, &v["plan"], vec![schedule], &class, true)) {
        Some((_, _, r)) => {
            for l in r["trace"].as_array().cloned().unwrap_or_default() {
                println!("{}", l.as_str().unwrap_or(""));
            }
            println!("{}: {}", class, r["violation"]["detail"].as_str().unwrap_or(""));
            println!("same execution as recorded: {}", r["hash"] == v["hash"]);
            println!("VIOLATION property={} replay={path}", v["property"].as_str().unwrap_or("?"));
            1
        }
        None => {
            println!("the violation does not occur");
            0
        }
    }
}

/// every case in two processes and twice in each
pub fn determinism(args: &[&str]) -> i32 {
    let n: u64 = args.first().and_then(|x| x.parse().ok()).unwrap_or(200);
    if args.get(1) == Some(&"inner") {
        crate::silence();
        install_panic_hook();
        for p in PROPERTIES {
            let mut h = 0u64;
            for i in 0..n {
                let c = case(p, seed_of(p, 77, i));
                let out = run_case(&c, true);
                let text = format!("{:?}{:?}{:?}{}{}{}", out.violations, out.faults, out.probes, out.steps, out.switches, out.max_peak);
                h = hash_bytes(h ^ out.hash, text.as_bytes());
                h = hash_bytes(h, out.trace.join("\n").as_bytes());
            }
            result(&format!("{p} {h:016x}"));
        }
        return 0;
    }
    let start = || {
        Command::new(exe()).args(["determinism", &n.to_string(), "inner"]).stdout(Stdio::piped()).spawn().unwrap_or_else(|x| harness_error(&format!("{x}")))
    };
    let children: Vec<Child> = (0..4).map(|_| start()).collect();
    let outs: Vec<String> = children
        .into_iter()
        .map(|mut c| {
            let mut s = String::new();
            let _ = c.stdout.take().unwrap().read_to_string(&mut s);
            let _ = c.wait();
            s
        })
        .collect();
    print!("{}", outs[0]);
    let same = outs.iter().all(|x| *x == outs[0]);
    println!("{} processes agree: {same}", outs.len());
    let _ = std::io::stdout().flush();
    i32::from(!same)
}

/// runs one case of a check with its trace
pub fn show_case(args: &[&str]) -> i32 {
    let prop = property(args[0]);
    let seed = args.get(1).and_then(|x| x.parse().ok()).unwrap_or(1);
    let index = args.get(2).and_then(|x| x.parse().ok()).unwrap_or(0);
    let c = case(prop, seed_of(prop, seed, index));
    crate::silence();
    install_panic_hook();
    let out = run_case(&c, true);
    result(&serde_json::to_string_pretty(&c).unwrap());
    for l in &out.trace {
        result(l);
    }
    result(&format!("{:#?}", Outcome { trace: vec![], ..out }));
    0
}
