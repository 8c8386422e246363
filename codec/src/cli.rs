//! The command line of the checks: a supervising process, a worker which explores, and the evidence they leave.
use crate::ck::{self, known, Ck, Slot, HANG_SECS, THREADS};
use serde_json::{json, Value as J};
use std::{
    collections::BTreeMap,
    path::{Path, PathBuf},
    process::{Command, ExitCode, Stdio},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").map_or_else(|_| PathBuf::from("/verif"), PathBuf::from)
}

fn map_slots(path: &Path, create: bool) -> *const Slot {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(false).open(path).expect("slot file");
    let len = std::mem::size_of::<Slot>() * THREADS;
    f.set_len(len as u64).expect("slot file");
    let p = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    assert!(p != libc::MAP_FAILED, "mmap");
    p.cast()
}

///Runs the exploration in this process and writes what it found to `out`.
fn worker(id: &str, thorough: bool, out: &Path, slots: &Path, only: Option<(String, u64)>, mem_cap: u64) -> ExitCode {
    unsafe {
        let lim = libc::rlimit { rlim_cur: mem_cap, rlim_max: mem_cap };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &none);
    }
    ck::install_panic_hook();
    let ck = Ck {
        id: id.to_string(),
        thorough,
        start: Instant::now(),
        only,
        only_section: std::env::var("VERIF_SECTION").ok(),
        fails: Mutex::default(),
        stats: Mutex::default(),
        samples: Mutex::default(),
        slots: map_slots(slots, true),
        stop: AtomicBool::new(false),
        nfails: AtomicU64::new(0),
        news: AtomicU64::new(0),
        known: known(id, root().join("known-findings.txt").to_str().unwrap()),
        section_names: Mutex::default(),
    };
    let done = AtomicBool::new(false);
    let ok = std::thread::scope(|sc| {
        let ckr = &ck;
        let done = &done;
        sc.spawn(move || {
            let ck = ckr;
            //a case which never ends: name it and give up
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(50));
                let now = ck.start.elapsed().as_millis() as u64;
                for t in 0..THREADS {
                    let s = unsafe { &*ck.slots.add(t) };
                    if s.active.load(Ordering::Acquire) == 1 {
                        let st = s.started_ms.load(Ordering::Relaxed);
                        if now > st + HANG_SECS * 1000 {
                            s.active.store(2, Ordering::Release);
                            unsafe { libc::_exit(77) };
                        }
                    }
                }
            }
        });
        //sections may build corpora with deep values
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, || crate::run_property(ckr))
            .unwrap();
        let ok = h.join().unwrap_or(false);
        done.store(true, Ordering::Relaxed);
        ok
    });
    if !ok {
        eprintln!("no such property or the exploration itself failed: {id}");
        return ExitCode::from(3);
    }
    let stats: Vec<J> = ck.stats.lock().unwrap().iter().map(|s| json!({"section": s.name, "bounds": s.bounds, "cases": s.cases, "runs": s.runs, "distinct_nontrivial": s.distinct, "calls": s.calls, "comparisons": s.compared, "distinct_outcomes": s.outcomes, "complete": s.exhaustive, "seconds": (s.secs * 100.0).round() / 100.0})).collect();
    let fails: Vec<J> = ck.fails.lock().unwrap().iter().map(|f| json!({"section": f.section, "index": f.index, "key": f.key, "msg": f.msg})).collect();
    let res = json!({"stats": stats, "fails": fails, "samples": *ck.samples.lock().unwrap(), "nfails": ck.nfails.load(Ordering::Relaxed)});
    std::fs::write(out, serde_json::to_vec(&res).unwrap()).expect("writing results");
    ExitCode::SUCCESS
}

enum End {
    Finished(J),
    Died(String, Vec<(u64, u64)>),
    Error(String),
}

fn spawn_worker(id: &str, tier: &str, scratch: &Path, tag: &str, only: Option<(&str, u64)>, limit: Duration, mem_cap: u64) -> End {
    let out = scratch.join(format!("{tag}.json"));
    let slots = scratch.join(format!("{tag}.slots"));
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::remove_file(&slots);
    let mut c = Command::new(std::env::current_exe().expect("own path"));
    c.arg("worker").arg(id).arg(tier).arg(&out).arg(&slots).arg(mem_cap.to_string());
    if let Some((s, i)) = only {
        c.arg(s).arg(i.to_string());
    }
    c.stdin(Stdio::null());
    let t0 = Instant::now();
    let mut child = match c.spawn() {
        Ok(c) => c,
        Err(e) => return End::Error(format!("cannot start worker: {e}")),
    };
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {
                if t0.elapsed() > limit {
                    let _ = child.kill();
                    let _ = child.wait();
                    return End::Error(format!("worker over its time limit of {}s", limit.as_secs()));
                }
                std::thread::sleep(Duration::from_millis(10));
            }
            Err(e) => return End::Error(format!("waiting for worker: {e}")),
        }
    };
    if status.success() {
        return match std::fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
            Some(v) => End::Finished(v),
            None => End::Error("worker left no results".into()),
        };
    }
    use std::os::unix::process::ExitStatusExt;
    let how = if status.code() == Some(77) {
        "never returned".to_string()
    } else if let Some(sig) = status.signal() {
        if sig == libc::SIGKILL {
            return End::Error("worker was killed".into());
        }
        format!("killed the process with signal {sig}")
    } else {
        return End::Error(format!("worker exited with {:?}", status.code()));
    };
    let p = map_slots(&slots, true);
    let mut active = vec![];
    for t in 0..THREADS {
        let s = unsafe { &*p.add(t) };
        if s.active.load(Ordering::Acquire) != 0 {
            active.push((s.section.load(Ordering::Relaxed), s.index.load(Ordering::Relaxed)));
        }
    }
    End::Died(how, active)
}

fn check(id: &str, tier: &str) -> ExitCode {
    let t0 = Instant::now();
    let root = root();
    let outdir = root.join("out");
    let scratch = outdir.join(format!("scratch-{id}-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    std::fs::create_dir_all(root.join("evidence")).expect("evidence");
    let limit = Duration::from_secs(if tier == "thorough" { 6 * 3600 } else { 780 });
    let mem_cap: u64 = 20 << 30;
    let end = spawn_worker(id, tier, &scratch, "main", None, limit, mem_cap);
    let known = known(id, root.join("known-findings.txt").to_str().unwrap());

    let mut violations: Vec<(String, String, u64, String)> = vec![];
    let mut found_known: BTreeMap<String, String> = BTreeMap::new();
    let mut stats = vec![];
    let mut samples = vec![];
    let mut code = 0_u8;
    match end {
        End::Finished(v) => {
            stats = v["stats"].as_array().cloned().unwrap_or_default();
            samples = v["samples"].as_array().cloned().unwrap_or_default();
            for f in v["fails"].as_array().into_iter().flatten() {
                let key = f["key"].as_str().unwrap_or_default().to_string();
                let msg = f["msg"].as_str().unwrap_or_default().to_string();
                if let Some(d) = known.get(&key) {
                    found_known.insert(key, d.clone());
                } else {
                    violations.push((f["section"].as_str().unwrap_or_default().into(), key, f["index"].as_u64().unwrap_or(0), msg));
                }
            }
        }
        End::Died(how, active) => {
            //which of the cases being run did it? run each alone
            let mut confirmed = false;
            for (n, (sec, idx)) in active.iter().enumerate() {
                let Some(name) = section_name(id, tier, *sec, &scratch) else { continue };
                match spawn_worker(id, tier, &scratch, &format!("alone{n}"), Some((&name, *idx)), Duration::from_secs(HANG_SECS * 3), 12 << 30) {
                    End::Died(how, _) => {
                        violations.push((name.clone(), format!("{name}:dies"), *idx, format!("case {name}[{idx}] {how}")));
                        confirmed = true;
                    }
                    End::Finished(v) if v["nfails"].as_u64() > Some(0) => {
                        for f in v["fails"].as_array().into_iter().flatten() {
                            let key = f["key"].as_str().unwrap_or_default().to_string();
                            if !known.contains_key(&key) {
                                violations.push((name.clone(), key, *idx, f["msg"].as_str().unwrap_or_default().to_string()));
                                confirmed = true;
                            }
                        }
                    }
                    _ => {}
                }
            }
            if !confirmed {
                eprintln!("ERROR: the exploration died ({how}) but no single case does so alone: {active:?}");
                code = 2;
            }
        }
        End::Error(e) => {
            eprintln!("ERROR: {e}");
            code = 2;
        }
    }
    for (k, d) in &found_known {
        println!("KNOWN-FINDING: property={id} {k} {d}");
    }
    let sum = |k: &str| stats.iter().map(|s| s[k].as_u64().unwrap_or(0)).sum::<u64>();
    let complete = !stats.is_empty() && stats.iter().all(|s| s["complete"] == json!(true));
    let evidence = json!({
        "property": id,
        "tier": tier,
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": {
            "states": sum("distinct_nontrivial"),
            "transitions": sum("calls"),
            "traces_validated_against_impl": sum("runs"),
            "cases": sum("cases"),
            "comparisons_with_reference": sum("comparisons"),
            "samples": samples,
            "exhaustive": complete,
            "rule": crate::RULE,
            "sections": stats,
        },
        "assumptions": crate::assumptions(id),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
        "known_findings_seen": found_known.keys().collect::<Vec<_>>(),
    });
    std::fs::write(root.join("evidence").join(format!("{id}.json")), serde_json::to_string_pretty(&evidence).unwrap()).expect("evidence");
    if !violations.is_empty() {
        //the first case of the smallest index is the simplest
        violations.sort_by_key(|v| v.2);
        let replay = outdir.join(format!("{id}-replay.json"));
        let (sec, key, idx, msg) = &violations[0];
        let all: Vec<J> = violations.iter().take(50).map(|(s, k, i, m)| json!({"section": s, "key": k, "index": i, "msg": m})).collect();
        let r = json!({"property": id, "tier": tier, "section": sec, "index": idx, "key": key, "what": msg, "how": format!("cd {} && ./check replay {}", root.display(), replay.display()), "all": all});
        std::fs::write(&replay, serde_json::to_string_pretty(&r).unwrap()).expect("replay");
        println!("VIOLATION property={id} replay={}", replay.display());
        for (_, k, i, m) in violations.iter().take(8) {
            println!("  {k} [{i}] {m}");
        }
        code = 1;
    }
    if code == 0 {
        println!("{id}: held on {} states, {} transitions, in {:.1}s", sum("distinct_nontrivial"), sum("calls"), t0.elapsed().as_secs_f64());
        for s in &stats {
            println!("  {:<26} {:>10} cases  {}", s["section"].as_str().unwrap_or(""), s["cases"], s["bounds"].as_str().unwrap_or(""));
        }
    }
    for e in ["main.json", "main.slots"] {
        let _ = std::fs::remove_file(scratch.join(e));
    }
    let _ = std::fs::remove_dir_all(&scratch);
    ExitCode::from(code)
}

///The section names in order, found by running a worker which runs nothing.
fn section_name(id: &str, tier: &str, no: u64, scratch: &Path) -> Option<String> {
    let out = scratch.join("names.json");
    let ok = Command::new(std::env::current_exe().ok()?).arg("names").arg(id).arg(tier).arg(&out).status().ok()?.success();
    if !ok {
        return None;
    }
    let v: Vec<String> = serde_json::from_slice(&std::fs::read(&out).ok()?).ok()?;
    v.get(no as usize).cloned()
}

fn names(id: &str, thorough: bool, out: &Path) -> ExitCode {
    let ck = Ck {
        id: id.to_string(),
        thorough,
        start: Instant::now(),
        only: Some((String::new(), 0)),
        only_section: None,
        fails: Mutex::default(),
        stats: Mutex::default(),
        samples: Mutex::default(),
        slots: std::ptr::null(),
        stop: AtomicBool::new(false),
        nfails: AtomicU64::new(0),
        news: AtomicU64::new(0),
        known: known(id, root().join("known-findings.txt").to_str().unwrap()),
        section_names: Mutex::default(),
    };
    let ok = std::thread::scope(|sc| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || crate::run_property(&ck)).unwrap().join().unwrap_or(false));
    if !ok {
        return ExitCode::from(3);
    }
    std::fs::write(out, serde_json::to_vec(&*ck.section_names.lock().unwrap()).unwrap()).expect("names");
    ExitCode::SUCCESS
}

fn replay(file: &str) -> ExitCode {
    let v: J = serde_json::from_slice(&std::fs::read(file).expect("replay file")).expect("replay file");
    let (id, tier) = (v["property"].as_str().unwrap(), v["tier"].as_str().unwrap());
    let scratch = root().join("out").join(format!("scratch-replay-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    let mut bad = false;
    for n in 0..2 {
        match spawn_worker(id, tier, &scratch, "r", Some((v["section"].as_str().unwrap(), v["index"].as_u64().unwrap())), Duration::from_secs(HANG_SECS * 3), 12 << 30) {
            End::Finished(r) => {
                println!("run {n}: {}", serde_json::to_string_pretty(&r["fails"]).unwrap());
                bad |= r["nfails"].as_u64() > Some(0);
            }
            End::Died(how, _) => {
                println!("run {n}: {how}");
                bad = true;
            }
            End::Error(e) => println!("run {n}: error: {e}"),
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    ExitCode::from(u8::from(bad))
}

pub fn main() -> ExitCode {
    let a: Vec<String> = std::env::args().collect();
    let arg = |n: usize| a.get(n).map_or("", String::as_str);
    match arg(1) {
        "check" => check(arg(2), if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" }),
        "worker" => {
            let only = if a.len() > 8 { Some((arg(7).to_string(), arg(8).parse().unwrap())) } else { None };
            worker(arg(2), arg(3) == "thorough", Path::new(arg(4)), Path::new(arg(5)), only, arg(6).parse().unwrap())
        }
        "names" => names(arg(2), arg(3) == "thorough", Path::new(arg(4))),
        "replay" => replay(arg(2)),
        _ => {
            eprintln!("usage: check <ID> | replay <file>");
            ExitCode::from(3)
        }
    }
}
