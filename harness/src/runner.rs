//! Parent/worker orchestration, replay files, evidence.
//!
//! Every case runs in a worker process, so that an abort (a panic crossing the
//! C boundary, a refused allocation) is an observation and not the end of the
//! check.
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    io::Write,
    os::unix::{fs::FileExt, process::ExitStatusExt},
    path::{Path, PathBuf},
    process::{Command, ExitStatus, Stdio},
    sync::atomic::{AtomicU64, Ordering},
    time::{Duration, Instant},
};

use serde::{Deserialize, Serialize};

use crate::pbt::*;

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    sub: String,
    seed: u64,
    index: u64,
    message: String,
    case: String,
    choices: Vec<u64>,
    how_to_replay: String,
}

fn verif() -> PathBuf {
    std::env::var("VERIF_DIR").map_or_else(|_| PathBuf::from("/verif"), PathBuf::from)
}
fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(d)
}

/// Signatures of the known findings that are open: (property, signature, text)
fn known(prop: &str) -> Vec<(String, String)> {
    let Ok(s) = fs::read_to_string(verif().join("known_findings.txt")) else { return vec![] };
    let mut v = vec![];
    for l in s.lines() {
        let Some(rest) = l.strip_prefix("open: property=") else { continue };
        let mut it = rest.splitn(3, ' ');
        let (Some(p), Some(sig), Some(what)) = (it.next(), it.next(), it.next()) else { continue };
        if p == prop {
            if let Some(s) = sig.strip_prefix("sig=") {
                v.push((s.to_string(), what.to_string()));
            }
        }
    }
    v
}

pub fn main(args: &[String]) -> i32 {
    match args.first().map(String::as_str) {
        Some("run") => run(&args[1]),
        Some("worker") => worker(&args[1..]),
        Some("one") => one(&args[1], &args[2], &args[3]),
        Some("replay") => replay(&args[1]),
        Some("fresh") => match crate::props_scheme::fresh_set(2) {
            Ok(v) => {
                println!("{}", serde_json::to_string(&v).unwrap());
                0
            }
            Err(e) => {
                eprintln!("{e}");
                1
            }
        },
        Some("pure") => crate::props_more::pure(&args[1]),
        Some("fork") => crate::props_scheme::forked(args[1].parse().unwrap_or(1)),
        Some("golden") => {
            i32::from(crate::golden::write(Path::new(&args[1])).is_err())
        }
        Some("stats") => {
            // one sub-check, in process, for development: stats PROP SUB N
            let sub = crate::subs(&args[1]).into_iter().find(|s| s.name == args[2]).expect("sub");
            let n: u64 = args[3].parse().unwrap();
            let t = Instant::now();
            let mut st = SubStats::default();
            for i in 0..n {
                let o = run_case(&sub, Src::random(case_seed(env_u64("VERIF_SEED", 1), &args[1], sub.name, i)));
                record(&mut st, &o);
                if let Some(f) = o.fail {
                    println!("case {i} FAILED: {} {:?}\n  {}", f.msg, f.sig, o.ctx.text);
                    if f.sig.is_none() && std::env::var_os("KEEP").is_none() {
                        break;
                    }
                } else if i < 5 {
                    println!("case {i}: {}", o.ctx.text);
                }
            }
            println!(
                "{} evaluations, {} checks, {} distinct nontrivial, {:?}, {:.2}s",
                st.evaluations,
                st.checks,
                st.nontrivial.iter().collect::<BTreeSet<_>>().len(),
                st.labels,
                t.elapsed().as_secs_f64()
            );
            0
        }
        _ => {
            eprintln!("usage: gpsw_check run PROP | replay FILE");
            2
        }
    }
}

fn record(st: &mut SubStats, o: &Outcome) {
    st.evaluations += 1;
    st.checks += o.ctx.checks;
    for l in &o.ctx.labels {
        *st.labels.entry(l.clone()).or_default() += 1;
    }
    if o.ctx.nontrivial {
        st.nontrivial.push(hash64(o.ctx.text.as_bytes()));
        if st.samples.len() < 2 {
            let mut t = o.ctx.text.clone();
            if t.len() > 700 {
                let mut k = 700;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                t.truncate(k);
                t.push('…');
            }
            st.samples.push(t);
        }
    }
}

// ---------------------------------------------------------------- watchdog

/// exit codes of a worker whose case waits for ever, or computes for ever
const STALL_EXIT: i32 = 91;
const SPIN_EXIT: i32 = 92;
static CASES: AtomicU64 = AtomicU64::new(0);

/// Processor time of this process and its descendants, in clock ticks.
fn cpu_ticks() -> u64 {
    let me = u64::from(std::process::id());
    let mut parent = BTreeMap::new();
    let mut used = BTreeMap::new();
    for e in fs::read_dir("/proc").into_iter().flatten().flatten() {
        let Some(pid) = e.file_name().to_str().and_then(|n| n.parse::<u64>().ok()) else { continue };
        let s = fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
        let Some((_, rest)) = s.rsplit_once(')') else { continue };
        let f: Vec<u64> = rest.split_whitespace().skip(1).take(16).map(|x| x.parse().unwrap_or(0)).collect();
        if f.len() < 14 {
            continue;
        }
        parent.insert(pid, f[0]);
        used.insert(pid, f[10..14].iter().sum::<u64>());
    }
    let mut sum = 0;
    for (pid, t) in &used {
        let mut p = *pid;
        for _ in 0..20 {
            if p == me {
                sum += t;
                break;
            }
            match parent.get(&p) {
                Some(q) => p = *q,
                None => break,
            }
        }
    }
    sum
}

/// Ends the process when the case under way makes no progress: nothing
/// computes during `PBT_STALL` seconds (a deadlock), or the case has used
/// `PBT_SPIN` seconds of processor time. Measured in processor time, so that a
/// busy machine is not mistaken for either.
fn watchdog() {
    let stall = env_u64("PBT_STALL", 45) / 5;
    let quick = std::env::var("VERIF_TIER").map_or(true, |t| t != "thorough");
    let spin = env_u64("PBT_SPIN", if quick { 150 } else { 400 }) * unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as u64;
    std::thread::spawn(move || {
        let mut case = (CASES.load(Ordering::Relaxed), cpu_ticks());
        let mut last = case;
        let mut quiet = 0;
        loop {
            std::thread::sleep(Duration::from_secs(5));
            let now = (CASES.load(Ordering::Relaxed), cpu_ticks());
            if now.0 == u64::MAX {
                return;
            }
            if now.0 != case.0 {
                case = now;
            }
            quiet = if now.0 == last.0 && now.1 < last.1 + 4 { quiet + 1 } else { 0 };
            last = now;
            if quiet >= stall {
                unsafe { libc::_exit(STALL_EXIT) };
            }
            if now.1 > case.1 + spin {
                unsafe { libc::_exit(SPIN_EXIT) };
            }
        }
    });
}

// ------------------------------------------------------------------ worker

// worker PROP TIER SEED WID NW STATUS OUT
fn worker(a: &[String]) -> i32 {
    let (prop, tier) = (&a[0], &a[1]);
    let seed: u64 = a[2].parse().unwrap();
    let wid: u64 = a[3].parse().unwrap();
    let nw: u64 = a[4].parse().unwrap();
    let status = fs::OpenOptions::new().write(true).create(true).truncate(true).open(&a[5]).unwrap();
    let deadline = Instant::now() + Duration::from_secs(if tier == "quick" { 420 } else { env_u64("PBT_BUDGET", 3000) });
    let known: Vec<String> = known(prop).into_iter().map(|k| k.0).collect();
    let mut out: BTreeMap<String, SubStats> = BTreeMap::new();
    watchdog();
    for (si, sub) in crate::subs(prop).iter().enumerate() {
        let n = if tier == "quick" { sub.quick } else { sub.thorough };
        let mut st = SubStats::default();
        ALLOC_MAX.store(0, std::sync::atomic::Ordering::Relaxed);
        let mut i = wid;
        while i < n {
            if Instant::now() > deadline {
                *st.labels.entry("truncated by the time cap".into()).or_default() += 1;
                break;
            }
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&(si as u64).to_le_bytes());
            b[8..].copy_from_slice(&i.to_le_bytes());
            status.write_at(&b, 0).unwrap();
            CASES.fetch_add(1, Ordering::Relaxed);
            let o = run_case(sub, Src::random(case_seed(seed, prop, sub.name, i)));
            record(&mut st, &o);
            if let Some(f) = &o.fail {
                match &f.sig {
                    Some(s) if known.contains(s) => *st.known.entry(s.clone()).or_default() += 1,
                    sig => {
                        let sig = sig.clone();
                        let (choices, evals) = shrink(o.choices.clone(), Duration::from_secs(40), 1500, |c| {
                            CASES.fetch_add(1, Ordering::Relaxed);
                            let o = run_case(sub, Src::replay(c));
                            let f = o.fail?;
                            if f.sig == sig { Some(o.choices) } else { None }
                        });
                        let fin = run_case(sub, Src::replay(choices.clone()));
                        let (msg, text, choices) = match fin.fail {
                            Some(f) => (f.msg, fin.ctx.text, choices),
                            None => (f.msg.clone(), o.ctx.text.clone(), o.choices.clone()),
                        };
                        st.failure = Some(Failure { sub: sub.name.into(), idx: i, msg, text, choices, shrink_evals: evals });
                        break;
                    }
                }
            }
            i += nw;
        }
        st.max_alloc = ALLOC_MAX.load(std::sync::atomic::Ordering::Relaxed);
        out.insert(sub.name.to_string(), st);
    }
    fs::write(&a[6], serde_json::to_vec(&out).unwrap()).unwrap();
    0
}

// one PROP SUB FILE : FILE holds a JSON list of choices, or {"seed":..,"idx":..}
// Exit 0: passes; 1: fails (message on stdout); anything else: died.
fn one(prop: &str, sub: &str, file: &str) -> i32 {
    let sub = crate::subs(prop).into_iter().find(|s| s.name == sub).expect("sub-check");
    let v: serde_json::Value = serde_json::from_slice(&fs::read(file).unwrap()).unwrap();
    let src = if let Some(l) = v.as_array() {
        Src::replay(l.iter().map(|x| x.as_u64().unwrap()).collect())
    } else {
        Src::random(case_seed(v["seed"].as_u64().unwrap(), prop, sub.name, v["idx"].as_u64().unwrap()))
    };
    watchdog();
    let mut src = src;
    src.tap(Path::new(&format!("{file}.out")));
    let o = run_case(&sub, src);
    println!("{}", o.ctx.text);
    match o.fail {
        None => 0,
        Some(f) => {
            println!("FAIL {}", f.msg);
            1
        }
    }
}

enum End {
    Pass,
    Fail(String),
    Died(String),
    Error(String),
}

fn classify(st: ExitStatus) -> Option<String> {
    if st.code() == Some(ALLOC_EXIT) {
        return Some("asked for a single allocation out of proportion to its input".into());
    }
    if st.code() == Some(STALL_EXIT) {
        return Some("waited for ever (a deadlock)".into());
    }
    if st.code() == Some(SPIN_EXIT) {
        return Some("did not end".into());
    }
    match st.signal() {
        Some(libc::SIGABRT) => Some("aborted the process".into()),
        Some(libc::SIGSEGV) | Some(libc::SIGBUS) => Some("accessed invalid memory (or overflowed the stack)".into()),
        Some(libc::SIGILL) | Some(libc::SIGTRAP) => Some("trapped".into()),
        _ => None,
    }
}

fn run_one(prop: &str, sub: &str, dir: &Path, input: &str) -> (End, Vec<u64>) {
    let f = dir.join("one.json");
    fs::write(&f, input).unwrap();
    let tap = dir.join("one.json.out");
    let _ = fs::remove_file(&tap);
    let r = Command::new(std::env::current_exe().unwrap())
        .args(["one", prop, sub, f.to_str().unwrap()])
        .stderr(Stdio::piped())
        .stdout(Stdio::piped())
        .output();
    let used: Vec<u64> = fs::read(&tap)
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .collect();
    let e = match r {
        Err(e) => End::Error(e.to_string()),
        Ok(o) => {
            let out = String::from_utf8_lossy(&o.stdout).into_owned();
            let err = String::from_utf8_lossy(&o.stderr).into_owned();
            match (o.status.code(), classify(o.status)) {
                (Some(0), _) => End::Pass,
                (Some(1), _) => End::Fail(out),
                (_, Some(w)) => End::Died(format!("{w}. {}", err.lines().take(3).collect::<Vec<_>>().join(" "))),
                (c, None) => End::Error(format!("exit {c:?} {:?}: {err}", o.status)),
            }
        }
    };
    (e, used)
}

// ------------------------------------------------------------------ parent

fn run(prop: &str) -> i32 {
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let subs = crate::subs(prop);
    if subs.is_empty() {
        eprintln!("no such property: {prop}");
        return 2;
    }
    let work = verif().join("work").join(format!("{prop}-{}", std::process::id()));
    fs::create_dir_all(&work).unwrap();
    let nw = env_u64("PBT_WORKERS", 8);
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for w in 0..nw {
        let status = work.join(format!("status{w}"));
        let out = work.join(format!("out{w}"));
        let err = fs::File::create(work.join(format!("err{w}"))).unwrap();
        let child = Command::new(&exe)
            .args(["worker", prop, tier, &seed.to_string(), &w.to_string(), &nw.to_string()])
            .arg(&status)
            .arg(&out)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(err)
            .spawn()
            .expect("spawn worker");
        kids.push((w, child, status, out));
    }
    let mut merged: BTreeMap<String, SubStats> = BTreeMap::new();
    let mut failures: Vec<Failure> = vec![];
    let mut error: Option<String> = None;
    for (w, mut child, status, out) in kids {
        let st = child.wait().expect("wait");
        if st.success() {
            let m: BTreeMap<String, SubStats> = serde_json::from_slice(&fs::read(&out).unwrap()).unwrap();
            for (k, s) in m {
                let d = merged.entry(k).or_default();
                d.evaluations += s.evaluations;
                d.checks += s.checks;
                d.nontrivial.extend(s.nontrivial);
                for (l, n) in s.labels {
                    *d.labels.entry(l).or_default() += n;
                }
                if d.samples.len() < 4 {
                    d.samples.extend(s.samples);
                }
                for (l, n) in s.known {
                    *d.known.entry(l).or_default() += n;
                }
                d.max_alloc = d.max_alloc.max(s.max_alloc);
                failures.extend(s.failure);
            }
            continue;
        }
        // The worker died in the middle of a case.
        let b = fs::read(&status).unwrap_or_default();
        let err = fs::read_to_string(work.join(format!("err{w}"))).unwrap_or_default();
        let Some(why) = classify(st) else {
            error = Some(format!("worker ended with {st:?}: {err}"));
            continue;
        };
        if b.len() < 16 {
            error = Some(format!("worker {why} before its first case: {err}"));
            continue;
        }
        let si = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
        let idx = u64::from_le_bytes(b[8..16].try_into().unwrap());
        let sub = &subs[si];
        if failures.iter().any(|f| f.sub == sub.name) {
            continue; // one witness per sub-check is enough
        }
        let input = format!("{{\"seed\":{seed},\"idx\":{idx}}}");
        if matches!(st.code(), Some(STALL_EXIT | SPIN_EXIT)) {
            // once more, for the choices of the case; too slow to shrink
            std::env::set_var("PBT_SPIN", "60");
            let (_, choices) = run_one(prop, sub.name, &work, &input);
            failures.push(Failure {
                sub: sub.name.into(),
                idx,
                msg: format!("the call {why}"),
                text: format!("case {idx} of seed {seed}"),
                choices,
                shrink_evals: 0,
            });
            continue;
        }
        let mut hit = None;
        let mut passed = vec![];
        for _ in 0..6 {
            match run_one(prop, sub.name, &work, &input) {
                (End::Died(m), used) => {
                    hit = Some((m, used));
                    break;
                }
                (End::Pass | End::Fail(_), used) => passed = used,
                _ => {}
            }
        }
        let Some((msg, used)) = hit else {
            // it depends on the schedule of the threads
            failures.push(Failure {
                sub: sub.name.into(),
                idx,
                msg: format!("the call {why} (not every time)"),
                text: err.lines().take(3).collect::<Vec<_>>().join(" "),
                choices: passed,
                shrink_evals: 0,
            });
            continue;
        };
        let (choices, evals) = shrink(used, Duration::from_secs(60), 400, |c| {
            match run_one(prop, sub.name, &work, &serde_json::to_string(&c).unwrap()) {
                (End::Died(_), u) => Some(u),
                _ => None,
            }
        });
        let text = match run_one(prop, sub.name, &work, &serde_json::to_string(&choices).unwrap()).0 {
            End::Died(m) | End::Fail(m) | End::Error(m) => m,
            End::Pass => msg.clone(),
        };
        failures.push(Failure { sub: sub.name.into(), idx, msg: format!("the call {msg}"), text, choices, shrink_evals: evals });
    }
    let _ = fs::remove_dir_all(&work);

    // ---- report
    let mut evals = 0;
    let mut checks = 0;
    let mut distinct = 0;
    let mut samples = vec![];
    let mut per = serde_json::Map::new();
    let mut rules = vec![];
    for s in &subs {
        let Some(st) = merged.get(s.name) else { continue };
        let d = st.nontrivial.iter().collect::<BTreeSet<_>>().len();
        evals += st.evaluations;
        checks += st.checks;
        distinct += d;
        samples.extend(st.samples.iter().take(2).map(|t| serde_json::json!({"sub": s.name, "case": t})));
        rules.push(format!("[{}] {}", s.name, s.rule));
        per.insert(
            s.name.into(),
            serde_json::json!({
                "evaluations": st.evaluations, "oracle_decisions": st.checks, "distinct_nontrivial": d,
                "labels": st.labels, "known_findings_hit": st.known,
                "largest_single_allocation": st.max_alloc,
            }),
        );
    }
    let mut shown = BTreeSet::new();
    let known = known(prop);
    for st in merged.values() {
        for s in st.known.keys() {
            if let Some((_, what)) = known.iter().find(|k| k.0 == *s) {
                if shown.insert(s.clone()) {
                    println!("KNOWN-FINDING: property={prop} {what}");
                }
            }
        }
    }
    failures.sort_by_key(|f| (subs.iter().position(|s| s.name == f.sub), f.idx));
    let mut seen = BTreeSet::new();
    failures.retain(|f| seen.insert(f.sub.clone()));
    for f in &failures {
        let dir = verif().join("replays");
        fs::create_dir_all(&dir).unwrap();
        let path = dir.join(format!("{prop}-{}.json", f.sub));
        let r = Replay {
            property: prop.into(),
            sub: f.sub.clone(),
            seed,
            index: f.idx,
            message: f.msg.clone(),
            case: f.text.clone(),
            choices: f.choices.clone(),
            how_to_replay: format!("./check.sh {prop} --replay {}", path.display()),
        };
        fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).unwrap();
        println!("VIOLATION property={prop} replay={}", path.display());
        println!("  [{}] {}", f.sub, f.msg);
        println!("  case: {}", f.text);
    }
    let level = std::env::var("PBT_LEVEL").unwrap_or_else(|_| "exploration".into());
    let mut cov = serde_json::json!({
        "evaluations": evals,
        "oracle_decisions": checks,
        "distinct_nontrivial": distinct,
        "rule": rules.join(" "),
        "samples": samples,
        "sub_checks": per,
    });
    if let Ok(extra) = std::env::var("PBT_EXTRA") {
        if let Ok(serde_json::Value::Object(m)) = serde_json::from_str(&extra) {
            for (k, v) in m {
                cov[k] = v;
            }
        }
    }
    let ev = serde_json::json!({
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": cov,
        "assumptions": [
            "cosmian_bls12_381, AES-256-GCM, SHAKE256 and abe_policy behave as published (trusted base of the oracles)",
            "randomness of the library comes from the operating system and is not controlled by the harness; oracles do not depend on its values",
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": failures.len(),
    });
    let dir = verif().join("evidence");
    fs::create_dir_all(&dir).unwrap();
    fs::write(dir.join(format!("{prop}.json")), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    println!(
        "{prop}: {evals} cases, {distinct} distinct non-trivial, {checks} oracle decisions, {} violation(s), {:.1}s",
        failures.len(),
        t0.elapsed().as_secs_f64()
    );
    let _ = std::io::stdout().flush();
    if !failures.is_empty() {
        return 1;
    }
    if let Some(e) = error {
        eprintln!("error of the check: {e}");
        return 3;
    }
    0
}

fn replay(file: &str) -> i32 {
    let r: Replay = serde_json::from_slice(&fs::read(file).expect("replay file")).expect("replay file");
    let work = verif().join("work").join(format!("replay-{}", std::process::id()));
    fs::create_dir_all(&work).unwrap();
    let (e, _) = run_one(&r.property, &r.sub, &work, &serde_json::to_string(&r.choices).unwrap());
    let _ = fs::remove_dir_all(&work);
    match e {
        End::Pass => {
            println!("replay passes: {}", r.message);
            0
        }
        End::Fail(m) | End::Died(m) => {
            println!("{m}");
            println!("VIOLATION property={} replay={file}", r.property);
            1
        }
        End::Error(m) => {
            eprintln!("{m}");
            3
        }
    }
}
