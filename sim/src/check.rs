//! `sim check <property>`: seeded search, minimisation, replay file, evidence.
use crate::case::*;
use crate::exec::*;
use crate::props;
use crate::rng::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::os::unix::io::FromRawFd;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

pub fn verif() -> PathBuf {
    let d = std::env::var("VERIF_DIR").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/..").to_string());
    std::fs::canonicalize(&d).unwrap_or_else(|_| PathBuf::from(d))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub message: String,
    pub seed: u64,
    pub index: u64,
    pub digest: u64,
    /// schedule keys, operations, faults: everything that decides the run
    pub run: Case,
}

#[derive(Serialize, Deserialize, Default, Debug)]
struct Part {
    runs: u64,
    nontrivial: u64,
    tags: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    ticks: u64,
    sim_ns: u64,
    digests: Vec<u64>,
    harness: Vec<String>,
    mismatches: u64,
    repeated: u64,
    known: BTreeMap<String, u64>,
    found: Option<(u64, Case, Report)>,
}

pub fn case_hash(c: &Case) -> u64 {
    let mut d = Digest::new();
    d.str(&serde_json::to_string(c).unwrap());
    d.0
}

/// Listed findings that are not repaired: the replay files of this property.
fn known(prop: &str) -> Vec<(String, Replay)> {
    let dir = verif().join("findings");
    let mut out = vec![];
    let mut names: Vec<PathBuf> = match std::fs::read_dir(&dir) {
        Ok(d) => d.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
        Err(_) => return out,
    };
    names.sort();
    for n in names {
        if n.extension().map(|e| e == "json").unwrap_or(false) {
            let txt = std::fs::read_to_string(&n).unwrap();
            let r: Replay = serde_json::from_str(&txt).expect("findings file");
            if r.property == prop {
                out.push((n.file_name().unwrap().to_string_lossy().into_owned(), r));
            }
        }
    }
    out
}

fn mine<'a>(prop: &str, r: &'a Report) -> Option<&'a Viol> {
    r.viol.iter().find(|v| props::decides(prop, &v.class))
}

fn write_all(fd: i32, b: &[u8]) {
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { libc::write(fd, b[o..].as_ptr() as *const _, b.len() - o) };
        if n <= 0 {
            unsafe { libc::_exit(45) }
        }
        o += n as usize;
    }
}

fn worker(prop: &str, seed: u64, w: u64, workers: u64, n: u64, best: &AtomicU64, listed: &BTreeSet<u64>) -> Part {
    let mut p = Part::default();
    let mut dg: BTreeSet<u64> = BTreeSet::new();
    let mut i = w;
    while i < n && i < best.load(SeqCst) {
        let c = props::gen(prop, mix(seed, i));
        match run(&c) {
            Outcome::Harness(m) => p.harness.push(format!("#{}: {}", i, m)),
            Outcome::Report(r) => {
                p.runs += 1;
                if props::nontrivial(prop, &r) {
                    p.nontrivial += 1;
                    dg.insert(r.digest);
                }
                if i % 97 == 0 && r.viol.is_empty() {
                    p.repeated += 1;
                    match run(&c) {
                        Outcome::Report(r2) if r2.digest == r.digest && r2.ticks == r.ticks => {}
                        _ => p.mismatches += 1,
                    }
                }
                for (k, v) in &r.tags {
                    *p.tags.entry(k.clone()).or_insert(0) += v;
                }
                for (k, v) in &r.maxima {
                    let e = p.maxima.entry(k.clone()).or_insert(0);
                    *e = (*e).max(*v);
                }
                let e = p.maxima.entry("max_ticks".into()).or_insert(0);
                *e = (*e).max(r.ticks);
                p.ticks += r.ticks;
                p.sim_ns += r.sim_ns;
                if let Some(v) = mine(prop, &r) {
                    if listed.contains(&case_hash(&c)) {
                        *p.known.entry(v.class.clone()).or_insert(0) += 1;
                    } else {
                        best.fetch_min(i, SeqCst);
                        p.found = Some((i, c, r));
                        break;
                    }
                }
            }
        }
        i += workers;
    }
    p.digests = dg.into_iter().collect();
    p
}

/// smallest run found that still violates the property in the same class
pub fn minimise(prop: &str, c: Case, class: &str, budget_s: f64) -> (Case, Report, u64) {
    let t0 = std::time::Instant::now();
    let mut tried = 0;
    let fails = |c: &Case, tried: &mut u64| -> Option<Report> {
        *tried += 1;
        match run(c) {
            Outcome::Report(r) if mine(prop, &r).map(|v| v.class == class).unwrap_or(false) => Some(r),
            _ => None,
        }
    };
    let mut cur = c;
    let mut rep = match fails(&cur, &mut tried) {
        Some(r) => r,
        None => return (cur, Report::default(), tried),
    };
    loop {
        let mut better = false;
        let mut k = 0;
        loop {
            let cands = props::shrink(&cur);
            if k >= cands.len() || t0.elapsed().as_secs_f64() > budget_s {
                break;
            }
            let c = cands[k].clone();
            k += 1;
            if c == cur {
                continue;
            }
            if let Some(r) = fails(&c, &mut tried) {
                cur = c;
                rep = r;
                better = true;
                // candidates before k were just refused: mostly still are
                k = k.saturating_sub(1);
            }
        }
        if !better || t0.elapsed().as_secs_f64() > budget_s {
            break;
        }
    }
    (cur, rep, tried)
}

fn no_aslr() {
    // addresses are no source of nondeterminism either
    const ADDR_NO_RANDOMIZE: libc::c_ulong = 0x0040000;
    if std::env::var_os("SIM_NO_ASLR").is_some() {
        return;
    }
    unsafe {
        let p = libc::personality(0xffffffff);
        if p >= 0 && libc::personality(p as libc::c_ulong | ADDR_NO_RANDOMIZE) >= 0 {
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("SIM_NO_ASLR", "1").exec();
            eprintln!("no re-exec: {}", e);
        }
    }
}

pub fn main(prop: &str) -> i32 {
    no_aslr();
    let t0 = std::time::Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let def = match props::find(prop) {
        Some(d) => d,
        None => {
            eprintln!("no property {}", prop);
            return 2;
        }
    };
    let scale: f64 = std::env::var("SIM_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let n = ((if thorough { def.thorough } else { def.quick }) as f64 * scale) as u64;
    println!("property {} seed {} tier {} runs {}", prop, seed, if thorough { "thorough" } else { "quick" }, n);
    props::prepare(prop);

    // listed findings
    let mut listed: BTreeSet<u64> = BTreeSet::new();
    let mut known_lines = vec![];
    for (name, r) in known(prop) {
        listed.insert(case_hash(&r.run));
        match run(&r.run) {
            Outcome::Report(rep) => {
                if rep.viol.iter().any(|v| v.class == r.class) {
                    println!("KNOWN-FINDING: property={} {} ({})", prop, r.message, name);
                    known_lines.push(name);
                } else {
                    println!("note: listed finding {} no longer fails", name);
                }
            }
            Outcome::Harness(m) => {
                println!("harness error on {}: {}", name, m);
                props::cleanup();
                return 2;
            }
        }
    }

    let workers: u64 = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let best: &AtomicU64 = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(p as *const AtomicU64)
    };
    best.store(u64::MAX, SeqCst);
    let mut pipes = vec![];
    for w in 0..workers {
        let mut fds = [0i32; 2];
        unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) };
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            let p = worker(prop, seed, w, workers, n, best, &listed);
            write_all(fds[1], serde_json::to_string(&p).unwrap().as_bytes());
            unsafe { libc::_exit(0) };
        }
        unsafe { libc::close(fds[1]) };
        pipes.push((pid, fds[0]));
    }
    let mut all = Part::default();
    let mut digests: BTreeSet<u64> = BTreeSet::new();
    for (pid, f) in pipes {
        let mut f = unsafe { std::fs::File::from_raw_fd(f) };
        let mut s = String::new();
        f.read_to_string(&mut s).unwrap();
        unsafe { libc::waitpid(pid, std::ptr::null_mut(), 0) };
        let p: Part = match serde_json::from_str(&s) {
            Ok(p) => p,
            Err(e) => {
                all.harness.push(format!("a worker died: {}", e));
                continue;
            }
        };
        all.runs += p.runs;
        all.nontrivial += p.nontrivial;
        all.ticks += p.ticks;
        all.sim_ns += p.sim_ns;
        all.mismatches += p.mismatches;
        all.repeated += p.repeated;
        all.harness.extend(p.harness);
        digests.extend(p.digests);
        for (k, v) in p.tags {
            *all.tags.entry(k).or_insert(0) += v;
        }
        for (k, v) in p.known {
            *all.known.entry(k).or_insert(0) += v;
        }
        for (k, v) in p.maxima {
            let e = all.maxima.entry(k).or_insert(0);
            *e = (*e).max(v);
        }
        if let Some(x) = p.found {
            if all.found.as_ref().map(|y| x.0 < y.0).unwrap_or(true) {
                all.found = Some(x);
            }
        }
    }
    let search_s = t0.elapsed().as_secs_f64();

    let mut violation: Option<(PathBuf, Replay, u64)> = None;
    if let Some((i, c, r)) = &all.found {
        let v = mine(prop, r).unwrap();
        println!("run {} violates {}: {} [{}]; minimising", i, prop, v.msg, v.class);
        let (c2, r2, tried) = minimise(prop, c.clone(), &v.class, if thorough { 120.0 } else { 40.0 });
        let v2 = mine(prop, &r2).cloned().unwrap_or(v.clone());
        let rp = Replay { property: prop.into(), class: v2.class.clone(), message: v2.msg.clone(), seed, index: *i, digest: r2.digest, run: c2 };
        let dir = verif().join("replays");
        std::fs::create_dir_all(&dir).ok();
        let path = dir.join(format!("{}-{}-{:016x}.json", prop, v2.class.replace(|c: char| !c.is_ascii_alphanumeric(), "-"), case_hash(&rp.run)));
        std::fs::write(&path, serde_json::to_string_pretty(&rp).unwrap()).unwrap();
        violation = Some((path, rp, tried));
    }

    // evidence
    let samples: Vec<Value> = (0..n.min(400))
        .map(|i| (i, props::gen(prop, mix(seed, i))))
        .filter_map(|(i, c)| match run(&c) {
            Outcome::Report(r) if props::nontrivial(prop, &r) => Some(json!({"index": i, "run": c, "observed": r})),
            _ => None,
        })
        .take(2)
        .collect();
    props::cleanup();
    let hours = search_s / 3600.0;
    let faults: BTreeMap<&String, &u64> = all.tags.iter().filter(|(k, _)| k.starts_with("fault:")).collect();
    let reach: BTreeMap<&String, &u64> = all.tags.iter().filter(|(k, _)| !k.starts_with("fault:")).collect();
    let ev = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": all.runs,
            "distinct_nontrivial": digests.len(),
            "rule": def.rule,
            "samples": samples,
            "runs_per_hour": (all.runs as f64 / hours) as u64,
            "seeds_per_hour": (all.runs as f64 / hours) as u64,
            "simulated_time": {"allocation_ticks": all.ticks, "simulated_clock_seconds": all.sim_ns as f64 / 1e9},
            "faults_fired": faults,
            "reached": reach,
            "maxima": all.maxima,
            "distinct_executions": {"measure": "digest of every observation of a run, in order", "nontrivial_runs": all.nontrivial, "distinct": digests.len()},
            "determinism": {"runs_executed_twice": all.repeated, "differing": all.mismatches},
            "components": def.components,
            "harness_errors": all.harness.len(),
            "listed_findings_reproduced": known_lines,
        },
        "assumptions": def.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if violation.is_some() { 1 } else { 0 },
    });
    let dir = verif().join("evidence");
    std::fs::create_dir_all(&dir).ok();
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", prop)), serde_json::to_string_pretty(&ev).unwrap()) {
        println!("evidence not written: {}", e);
        return 2;
    }
    println!(
        "{} runs, {} distinct non-trivial, {} ticks, {:.1} s ({:.0} runs/h)",
        all.runs,
        digests.len(),
        all.ticks,
        search_s,
        all.runs as f64 / hours
    );
    if all.mismatches > 0 {
        println!("warning: {} of {} repeated runs differed", all.mismatches, all.repeated);
    }
    if let Some((path, rp, tried)) = violation {
        println!("{} [{}], minimised in {} runs", rp.message, rp.class, tried);
        println!("VIOLATION property={} replay={}", prop, path.display());
        return 1;
    }
    if !all.harness.is_empty() {
        println!("harness errors: {:?}", &all.harness[..all.harness.len().min(3)]);
        return 2;
    }
    0
}

pub fn replay(path: &str) -> i32 {
    no_aslr();
    let txt = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let rp: Replay = match serde_json::from_str(&txt) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    props::prepare(&rp.property);
    let o = run(&rp.run);
    props::cleanup();
    match o {
        Outcome::Harness(m) => {
            println!("harness error: {}", m);
            2
        }
        Outcome::Report(r) => {
            for v in &r.viol {
                println!("step {}: {} [{}]", v.step, v.msg, v.class);
            }
            println!("digest {:016x}, recorded {:016x}", r.digest, rp.digest);
            match mine(&rp.property, &r) {
                Some(_) => {
                    println!("VIOLATION property={} replay={}", rp.property, path);
                    1
                }
                None => {
                    println!("property {} holds on this run", rp.property);
                    0
                }
            }
        }
    }
}

/// `sim determinism <property> <runs>`: each seed twice, in two processes
pub fn determinism(prop: &str, n: u64) -> i32 {
    no_aslr();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    props::prepare(prop);
    let mut d = Digest::new();
    for i in 0..n {
        let c = props::gen(prop, mix(seed, i));
        if let Outcome::Report(r) = run(&c) {
            d.u64(r.digest);
            d.u64(r.ticks);
        }
    }
    props::cleanup();
    println!("{} {} seeds: {:016x}", prop, n, d.0);
    0
}
