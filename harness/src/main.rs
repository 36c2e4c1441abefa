//! Property-based checks of dcv-color-primitives. See /verif/DESIGN.md
//!
//!   dcpv run ID TIER          run a check: 8 worker processes, evidence, verdict
//!   dcpv replay FILE          execute the case of a replay file
//!   dcpv list                 properties and sub-checks
//!   dcpv worker ...           (internal) one worker of a run
//!   dcpv helper NAME CHOICES  (internal) a fresh process for one observation

mod alloc;
mod capi;
mod cpuid;
mod engine;
mod gen;
mod mem;
mod model;
mod props_api;
mod props_color;
mod props_mem;
mod props_rel;
mod props_res;

use engine::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const WORKERS: u64 = 8;

fn props() -> Vec<Prop> {
    let mut v = props_color::props();
    v.extend(props_mem::props());
    v.extend(props_rel::props());
    v.extend(props_api::props());
    v.extend(props_res::props());
    v.sort_by_key(|p| p.id);
    if cfg!(target_pointer_width = "32") {
        let all = everywhere(&v);
        v.push(all);
    }
    v
}

/// The checks of the other properties, executed by a 32-bit process
fn everywhere(v: &[Prop]) -> Prop {
    let mut subs = Vec::new();
    for p in v {
        for s in &p.subs {
            // Pictures of more than 4 GiB
            if p.id == "C21" && (s.name == "wide" || s.name == "rows") {
                continue;
            }
            // The colours: those of C04, C06, C23 and C24 are enough
            if s.name == "cube" && !["C04", "C06"].contains(&p.id) {
                continue;
            }
            let kind = match s.kind {
                Kind::Random(q, t) => Kind::Random(q / 8, t / 8),
                Kind::Enum(q, t) => Kind::Enum(q, t.min(4 * q)),
            };
            let name = Box::leak(format!("{} {}", p.id, s.name).into_boxed_str());
            subs.push(Sub { name, kind, f: s.f });
        }
    }
    Prop {
        id: "C29",
        rule: "the cases of the other checks, generated and executed by a 32-bit x86 process built with overflow checks; non-trivial: as in the respective check",
        assumptions: &["the C library and the processor execute 32-bit programs correctly"],
        subs,
    }
}

fn find(id: &str) -> Prop {
    props()
        .into_iter()
        .find(|p| p.id == id)
        .unwrap_or_else(|| harness_error(&format!("no property {id}")))
}

fn tier(s: &str) -> Tier {
    match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => harness_error(&format!("no tier {s}")),
    }
}

fn env_f64(name: &str, default: f64) -> f64 {
    std::env::var(name).ok().and_then(|v| v.parse().ok()).unwrap_or(default)
}

fn root() -> String {
    std::env::var("DCPV_ROOT").unwrap_or_else(|_| "/verif".into())
}

/// Lines `known: property=ID sig=SIGNATURE TEXT` of the known-findings file
fn known(id: &str) -> Vec<(String, String)> {
    let Ok(text) = std::fs::read_to_string(format!("{}/known-findings.txt", root())) else {
        return Vec::new();
    };
    text.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| {
            let (p, rest) = l.split_once(" sig=")?;
            let (sig, what) = rest.split_once(' ')?;
            (p == id).then(|| (sig.to_string(), what.to_string()))
        })
        .collect()
}

fn worker_main(a: &[String]) -> ! {
    let [id, t, seed, worker, isolate, skip_sub, skip_case, seconds, path] = a else {
        harness_error("worker arguments");
    };
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &none);
    }
    let n = |s: &String| -> u64 { s.parse().unwrap_or_else(|_| harness_error("worker arguments")) };
    if cfg!(not(dcp_verif)) && !["C18", "C19", "C26"].contains(&id.as_str()) {
        // The library does not build with the override of the instruction set: each worker
        // makes it choose another one
        props_api::restrict(n(worker) % 3);
    }
    let sigs: Vec<String> = known(id).into_iter().map(|k| k.0).collect();
    let r = run_worker(
        &find(id),
        &WorkerArgs {
            tier: tier(t),
            seed: n(seed),
            worker: n(worker),
            workers: WORKERS,
            isolate: isolate == "1",
            known: &sigs,
            scale: env_f64("DCPV_SCALE", 1.0),
            deadline: Instant::now() + Duration::from_secs(n(seconds)),
            progress: Progress::create(&format!("{path}.progress")),
            skip: (n(skip_sub), n(skip_case)),
        },
    );
    if let Err(e) = save_worker(path, &r) {
        harness_error(&format!("{path}: {e}"));
    }
    // No destructors: arenas are many and large
    unsafe { libc::_exit(0) }
}

fn start_worker(id: &str, t: Tier, seed: u64, w: u64, isolate: bool, skip: (u64, u64), seconds: u64, path: &str) -> Child {
    Command::new(std::env::current_exe().unwrap())
        .arg("worker")
        .args([id, t.name(), &seed.to_string(), &w.to_string()])
        .args([if isolate { "1" } else { "0" }, &skip.0.to_string(), &skip.1.to_string()])
        .args([&seconds.to_string(), path])
        .stdin(Stdio::null())
        .stderr(std::fs::File::create(format!("{path}.err")).map_or_else(|_| Stdio::inherit(), Stdio::from))
        .spawn()
        .unwrap_or_else(|e| harness_error(&format!("cannot start a worker: {e}")))
}

/// The end of what a worker wrote
fn show_stderr(path: &str) {
    let text = std::fs::read(format!("{path}.err")).unwrap_or_default();
    let text = String::from_utf8_lossy(&text);
    let l: Vec<&str> = text.lines().collect();
    for s in &l[l.len().saturating_sub(20)..] {
        eprintln!("worker: {s}");
    }
}

enum End {
    Done(WorkerResult),
    Crashed(i32),
}

/// Wait for workers; a worker that errs or does not end is an error of the check
fn wait_workers(mut w: Vec<(u64, Child, String)>, limit: Instant) -> Vec<(u64, End)> {
    let mut out = Vec::new();
    while !w.is_empty() {
        let mut i = 0;
        while i < w.len() {
            let st = w[i].1.try_wait().unwrap_or_else(|e| harness_error(&e.to_string()));
            let Some(st) = st else {
                i += 1;
                continue;
            };
            let (k, _, path) = w.swap_remove(i);
            let end = if st.success() {
                match load_worker(&path) {
                    Some(r) => End::Done(r),
                    None => {
                        show_stderr(&path);
                        harness_error(&format!("worker {k} left no result"))
                    }
                }
            } else if let Some(sig) = st.signal() {
                match sig {
                    libc::SIGSEGV | libc::SIGABRT | libc::SIGILL | libc::SIGFPE | libc::SIGTRAP | libc::SIGALRM => End::Crashed(sig),
                    _ => {
                        for (_, c, _) in &mut w {
                            let _ = c.kill();
                        }
                        harness_error(&format!("worker {k} was killed by signal {sig}"))
                    }
                }
            } else {
                for (_, c, _) in &mut w {
                    let _ = c.kill();
                }
                show_stderr(&path);
                harness_error(&format!("worker {k} ended with {st}"));
            };
            out.push((k, end));
        }
        if Instant::now() > limit {
            for (_, c, _) in &mut w {
                let _ = c.kill();
            }
            harness_error("the check did not end in time");
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    out
}

fn run_main(id: &str, t: Tier) -> ! {
    let start = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let prop = find(id);
    // Generation stops after `soft`; shrinking and reruns come on top
    let soft = env_f64("DCPV_SECONDS", if t == Tier::Quick { 240.0 } else { 1500.0 }) as u64;
    let limit = start + Duration::from_secs(soft + if t == Tier::Quick { 420 } else { 1800 });
    let dir = std::env::temp_dir().join(format!("dcpv.{}", std::process::id()));
    if let Err(e) = std::fs::create_dir_all(&dir) {
        harness_error(&e.to_string());
    }
    let path = |k: u64, pass: u64| dir.join(format!("{k}.{pass}")).to_string_lossy().into_owned();

    let first: Vec<_> = (0..WORKERS)
        .map(|k| (k, start_worker(id, t, seed, k, false, (0, 0), soft, &path(k, 0)), path(k, 0)))
        .collect();
    let mut results = Vec::new();
    let mut crashed = Vec::new();
    for (k, e) in wait_workers(first, limit) {
        match e {
            End::Done(r) => results.push(r),
            End::Crashed(sig) => crashed.push((k, sig, Progress::read(&format!("{}.progress", path(k, 0))))),
        }
    }
    // The case during which a worker died is executed again in a process of its own, and
    // reduced; if it does not fail on its own, so are all the cases before it
    crashed.sort_by_key(|c| c.2);
    for pass in 1..=2 {
        if crashed.is_empty() || results.iter().any(|r| !r.violations.is_empty()) {
            break;
        }
        let w: Vec<_> = crashed
            .iter()
            .map(|&(k, _, at)| {
                let skip = if pass == 1 { at } else { (0, 0) };
                (k, start_worker(id, t, seed, k, true, skip, soft.min(200), &path(k, pass)), path(k, pass))
            })
            .collect();
        for (k, e) in wait_workers(w, limit) {
            match e {
                End::Done(r) => results.push(r),
                End::Crashed(sig) => harness_error(&format!("isolated worker {k} was killed by signal {sig}")),
            }
        }
    }

    let mut st = Stats::default();
    let mut violations: Vec<Violation> = Vec::new();
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    for r in results {
        st.evals += r.stats.evals;
        st.inner += r.stats.inner;
        st.keys.extend(r.stats.keys);
        for (k, v) in r.stats.labels {
            *st.labels.entry(k).or_default() += v;
        }
        st.samples.extend(r.stats.samples);
        for (k, v) in r.stats.measures {
            let e = st.measures.entry(k).or_insert(v);
            *e = (e.0.min(v.0), e.1.max(v.1));
        }
        violations.extend(r.violations);
        for (k, v) in r.known {
            *hits.entry(k).or_default() += v;
        }
    }
    // The smallest reproduction comes first
    violations.sort_by_key(|v| (v.choices.iter().filter(|&&c| c != 0).count(), v.desc.len()));

    let out_dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&out_dir);
    let mut replay = String::new();
    if let Some(v) = violations.first() {
        replay = format!("{out_dir}/{id}.replay");
        let c: Vec<String> = v.choices.iter().map(u64::to_string).collect();
        let text = format!(
            "property {id}\nsub {}\nchoices {}\nfailure {}\ncase {}\n",
            v.sub,
            c.join(","),
            v.msg.replace('\n', " "),
            v.desc.replace('\n', " ")
        );
        if let Err(e) = std::fs::write(&replay, text) {
            harness_error(&format!("{replay}: {e}"));
        }
    } else if let Some((k, sig, at)) = crashed.first() {
        if *sig == libc::SIGALRM {
            harness_error(&format!("case {} of worker {k} did not return, but it does on its own", at.1));
        }
        replay = format!("{out_dir}/{id}.replay");
        let text = format!(
            "property {id}\nworker {} {seed} {k}\nfailure the worker was killed by signal {sig} in case {} of {}, after the cases before it\n",
            t.name(),
            at.1,
            prop.subs.get(at.0 as usize).map_or("?", |s| s.name)
        );
        if let Err(e) = std::fs::write(&replay, text) {
            harness_error(&format!("{replay}: {e}"));
        }
    } else {
        let _ = std::fs::remove_file(format!("{out_dir}/{id}.replay"));
    }
    let nviol = violations.len().max(usize::from(!replay.is_empty()));

    let mut samples: Vec<String> = Vec::new();
    // A few per sub-check
    for sub in &prop.subs {
        let head = format!("[{}]", sub.name);
        samples.extend(st.samples.iter().filter(|s| s.starts_with(&head)).take(4).cloned());
    }
    let mut j = String::from("{\n");
    let _ = writeln!(j, " \"property\": {},", json_str(id));
    let _ = writeln!(j, " \"tier\": {},", json_str(t.name()));
    let _ = writeln!(j, " \"seed\": {seed},");
    let _ = writeln!(j, " \"level\": \"exploration\",");
    let _ = writeln!(j, " \"coverage\": {{");
    let _ = writeln!(j, "  \"evaluations\": {},", st.evals);
    let _ = writeln!(j, "  \"distinct_nontrivial\": {},", st.keys.len());
    let _ = writeln!(j, "  \"items_within_cases\": {},", st.inner);
    let _ = writeln!(j, "  \"rule\": {},", json_str(prop.rule));
    let subs: Vec<String> = prop
        .subs
        .iter()
        .map(|s| {
            let (k, (q, th)) = match s.kind {
                Kind::Random(q, t) => ("random", (q, t)),
                Kind::Enum(q, t) => ("enumerated", (q, t)),
            };
            format!("{}: {} {k}", s.name, if t == Tier::Quick { q } else { th })
        })
        .collect();
    let _ = writeln!(j, "  \"planned\": {},", json_str(&subs.join(", ")));
    let l: Vec<String> = st.labels.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect();
    let _ = writeln!(j, "  \"distribution\": {{{}}},", l.join(", "));
    if !st.measures.is_empty() {
        let l: Vec<String> = st
            .measures
            .iter()
            .map(|(k, (lo, hi))| format!("{}: [{lo:.5}, {hi:.5}]", json_str(k)))
            .collect();
        let _ = writeln!(j, "  \"extreme_errors\": {{{}}},", l.join(", "));
    }
    let s: Vec<String> = samples.iter().map(|s| format!("   {}", json_str(s))).collect();
    let _ = writeln!(j, "  \"samples\": [\n{}\n  ]", s.join(",\n"));
    let _ = writeln!(j, " }},");
    let a: Vec<String> = prop.assumptions.iter().map(|s| json_str(s)).collect();
    let _ = writeln!(j, " \"assumptions\": [{}],", a.join(", "));
    let _ = writeln!(j, " \"wall_s\": {:.2},", start.elapsed().as_secs_f64());
    let _ = writeln!(j, " \"violations\": {nviol}\n}}");
    if let Err(e) = std::fs::write(format!("{out_dir}/{id}.json"), j) {
        harness_error(&format!("evidence: {e}"));
    }
    let _ = std::fs::remove_dir_all(&dir);

    for (sig, what) in known(id) {
        let n = hits.get(&sig).copied().unwrap_or(0);
        println!("KNOWN-FINDING: property={id} {what} ({n} cases of this run)");
    }
    println!(
        "{id} {}: {} cases, {} distinct non-trivial, {:.1} s",
        t.name(),
        st.evals,
        st.keys.len(),
        start.elapsed().as_secs_f64()
    );
    if nviol > 0 {
        if let Some(v) = violations.first() {
            println!("case: {}", v.desc);
            println!("failure: {}", v.msg);
        }
        println!("VIOLATION property={id} replay={replay}");
        std::process::exit(1);
    }
    if st.evals == 0 {
        harness_error("no case was executed");
    }
    std::process::exit(0)
}

fn replay_main(path: &str) -> ! {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| harness_error(&format!("{path}: {e}")));
    let field = |n: &str| text.lines().find_map(|l| l.strip_prefix(n)).map(str::to_string);
    let Some(id) = field("property ") else { harness_error("not a replay file") };
    if let Some(w) = field("worker ") {
        let p: Vec<&str> = w.split(' ').collect();
        let dir = std::env::temp_dir().join(format!("dcpv.{}", std::process::id()));
        let _ = std::fs::create_dir_all(&dir);
        let out = dir.join("0").to_string_lossy().into_owned();
        let c = start_worker(&id, tier(p[0]), p[1].parse().unwrap(), p[2].parse().unwrap(), false, (0, 0), 600, &out);
        let r = wait_workers(vec![(0, c, out)], Instant::now() + Duration::from_secs(1200));
        let _ = std::fs::remove_dir_all(&dir);
        if let Some((_, End::Crashed(sig))) = r.first() {
            println!("the worker was killed by signal {sig}");
            println!("VIOLATION property={id} replay={path}");
            std::process::exit(1);
        }
        println!("held");
        std::process::exit(0);
    }
    let prop = find(&id);
    let sub = field("sub ").unwrap_or_default();
    let choices: Vec<u64> = field("choices ")
        .unwrap_or_default()
        .split(',')
        .map(|c| c.parse().unwrap_or_else(|_| harness_error("choices")))
        .collect();
    let Some(s) = prop.subs.iter().find(|s| s.name == sub) else {
        harness_error(&format!("no sub-check {sub}"));
    };
    let mut ctx = Ctx::default();
    let mut r = Ok(());
    // Found with another instruction set, maybe, in a build that cannot force it (see worker_main)
    if let Ok(level) = std::env::var("DCPV_RESTRICT") {
        props_api::restrict(level.parse().unwrap_or(0));
    } else if cfg!(not(dcp_verif)) {
        for level in ["1", "2"] {
            let exe = std::env::current_exe().unwrap();
            let o = Command::new(exe).args(["replay", path]).env("DCPV_RESTRICT", level).output().unwrap();
            if o.status.code() == Some(1) {
                print!("{}", String::from_utf8_lossy(&o.stdout));
                std::process::exit(1);
            }
        }
    }
    for _ in 0..20 {
        r = run_isolated(s.f, &choices, &mut ctx);
        if r.is_err() {
            break;
        }
    }
    println!("case: {}", ctx.desc);
    match r {
        Ok(()) => {
            println!("held");
            std::process::exit(0)
        }
        Err(e) => {
            println!("failure: {}", e.msg);
            println!("VIOLATION property={id} replay={path}");
            std::process::exit(1)
        }
    }
}

fn helper_main(name: &str, list: &str) -> ! {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &none);
    }
    let choices: Vec<u64> = list
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|c| c.parse().unwrap_or_else(|_| harness_error("choices")))
        .collect();
    let f: fn(&mut Src) -> String = match name {
        "firstuse" => props_rel::firstuse_helper,
        "op" => props_rel::op_helper,
        "seq" => props_rel::seq_helper,
        "long" => props_rel::long_helper,
        "longone" => props_rel::long_one_helper,
        "cpu" => props_api::cpu_helper,
        "real" => props_api::real_helper,
        _ => harness_error(&format!("no helper {name}")),
    };
    let r = std::panic::catch_unwind(|| f(&mut Src::new(&choices)));
    match r {
        Ok(s) => {
            use std::io::Write;
            let mut o = std::io::stdout().lock();
            if o.write_all(s.as_bytes()).and_then(|()| o.flush()).is_err() {
                harness_error("stdout");
            }
            unsafe { libc::_exit(0) }
        }
        Err(p) => {
            let (lib, at) = library_panic();
            eprintln!("{at}: {}", panic_msg(&p));
            unsafe { libc::_exit(if lib { 3 } else { 2 }) }
        }
    }
}

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s: Vec<&str> = a.iter().map(String::as_str).collect();
    match s[..] {
        ["run", id, t] => run_main(id, tier(t)),
        ["replay", path] => replay_main(path),
        ["helper", name, list] => helper_main(name, list),
        ["worker", ..] => worker_main(&a[1..]),
        ["list"] => {
            for p in props() {
                let subs: Vec<&str> = p.subs.iter().map(|s| s.name).collect();
                println!("{} {}", p.id, subs.join(", "));
            }
        }
        _ => harness_error("usage: dcpv run ID quick|thorough | replay FILE | list"),
    }
}
