//! Seeded search over simulated runs: workers, verdicts, minimisation, replay files, evidence.
use crate::world::{Stats, Verdict, World};
use serde_json::{Value, json};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::time::{Duration, Instant};

pub struct Cfg {
    pub verif: String,
    pub seed: u64,
    pub thorough: bool,
    pub secs: f64,
    pub workers: u64,
    pub max_runs: u64,
}

pub fn cfg() -> Cfg {
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let num = |k: &str| std::env::var(k).ok().and_then(|v| v.parse::<f64>().ok());
    Cfg {
        verif: std::env::var("CAVSIM_VERIF").unwrap_or_else(|_| "/verif".into()),
        seed: std::env::var("VERIF_SEED").ok().and_then(|v| v.trim().parse::<i64>().ok()).unwrap_or(1) as u64,
        thorough,
        secs: num("CAVSIM_SECS").unwrap_or(if thorough { 600.0 } else { 60.0 }),
        workers: num("CAVSIM_WORKERS").unwrap_or(8.0) as u64,
        max_runs: num("CAVSIM_RUNS").unwrap_or(1e15) as u64,
    }
}

fn pick<'a>(worlds: &'a [World], prop: &str) -> &'a World {
    match worlds.iter().find(|w| w.props.contains(&prop)) {
        Some(w) => w,
        None => {
            println!("ERROR no world decides {prop}");
            std::process::exit(2);
        }
    }
}

struct Finding {
    prop: String,
    class: String,
    text: String,
    what: String,
}

/// `known: property=<id> class=<class> match=<text> :: <what fails>`
fn known(cfg: &Cfg) -> Vec<Finding> {
    let s = std::fs::read_to_string(format!("{}/known_findings.txt", cfg.verif)).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: ")?;
            let (l, what) = l.split_once(" :: ")?;
            let (p, l) = l.strip_prefix("property=")?.split_once(' ')?;
            let (c, l) = l.strip_prefix("class=")?.split_once(' ')?;
            let m = l.strip_prefix("match=")?;
            Some(Finding { prop: p.into(), class: c.into(), text: m.into(), what: what.into() })
        })
        .collect()
}

fn is_known<'a>(f: &'a [Finding], prop: &str, class: &str, detail: &str) -> Option<&'a Finding> {
    f.iter().find(|k| k.prop == prop && k.class == class && detail.contains(&k.text))
}

/// The same simulator around the library as it is shipped: without debug assertions and overflow
/// checks.  Every second worker runs it.
fn shipped() -> bool {
    !cfg!(debug_assertions)
}

fn build_name() -> &'static str {
    if shipped() { "shipped" } else { "checked" }
}

fn binary_of(build: &str) -> Option<String> {
    let me = std::env::current_exe().ok()?.to_string_lossy().to_string();
    let (here, there) = if shipped() { ("/ship/", "/release/") } else { ("/release/", "/ship/") };
    let p = if build == build_name() { me } else { me.replace(here, there) };
    std::path::Path::new(&p).is_file().then_some(p)
}

fn twin(worlds: &[World]) -> Option<String> {
    if worlds.iter().any(|w| w.twin) { binary_of("shipped") } else { None }
}

struct Shared {
    stop: *mut u32,
    fd: i32,
}

fn shared(fd: Option<i32>) -> Shared {
    unsafe {
        let fd = fd.unwrap_or_else(|| {
            let fd = libc::memfd_create(c"stop".as_ptr(), 0);
            assert!(fd >= 0 && libc::ftruncate(fd, 4096) == 0);
            fd
        });
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
        assert!(p != libc::MAP_FAILED);
        Shared { stop: p as *mut u32, fd }
    }
}

fn corpus_of(cfg: &Cfg, prop: &str) -> Vec<Value> {
    let mut corpus = vec![];
    if let Ok(d) = std::fs::read_dir(format!("{}/corpus", cfg.verif)) {
        let mut names: Vec<_> = d.flatten().map(|e| e.path()).collect();
        names.sort();
        for p in names {
            let Ok(s) = std::fs::read_to_string(&p) else { continue };
            let Ok(v) = serde_json::from_str::<Value>(&s) else { continue };
            if v["property"] == prop {
                corpus.push(v["plan"].clone());
            }
        }
    }
    corpus
}

/// Entry of a worker that runs in another binary: where to report, the stop flag, which worker, when
/// the search ends.
pub fn remote_worker(worlds: &[World], prop: &str, w: u64, out: i32, stop: i32, secs_left: f64) -> i32 {
    let mut cfg = cfg();
    cfg.secs = secs_left;
    let world = *pick(worlds, prop);
    let sh = shared(Some(stop));
    let corpus = corpus_of(&cfg, prop);
    let v = worker(w, &world, prop, &cfg, &sh, Instant::now(), &corpus);
    let mut f = unsafe { std::fs::File::from_raw_fd(out) };
    let _ = f.write_all(v.to_string().as_bytes());
    0
}

fn worker(w: u64, world: &World, prop: &str, cfg: &Cfg, sh: &Shared, t0: Instant, corpus: &[Value]) -> Value {
    (world.init)();
    let kf = known(cfg);
    let mut st = Stats::default();
    let mut fail = Value::Null;
    let mut knowns: Vec<String> = vec![];
    let deadline = t0 + Duration::from_secs_f64(cfg.secs);
    let mut n = 0u64;
    let mut harness: Vec<String> = vec![];
    // one worker of each build goes through the corpus first
    let corpus = if w < 2 { corpus } else { &[] };
    loop {
        let corp = (n as usize) < corpus.len();
        let run = if corp { u64::MAX - n } else { (n - corpus.len() as u64) * cfg.workers + w };
        if (!corp && run >= cfg.max_runs) || (Instant::now() > deadline && !corp) || unsafe { std::ptr::read_volatile(sh.stop) } != 0 {
            break;
        }
        let plan = if corp { corpus[n as usize].clone() } else { (world.generate)(prop, cfg.seed, run, cfg.thorough) };
        n += 1;
        st.count("runs", 1);
        if world.twin && shipped() {
            st.count("runs of the library as shipped (no debug assertions, no overflow checks)", 1);
        }
        if corp {
            st.count("runs from the regression corpus", 1);
        }
        let t1 = Instant::now();
        let v = (world.execute)(&plan, &mut st);
        let ms = t1.elapsed().as_millis() as u64;
        st.max("longest run (ms of wall clock)", ms);
        match v {
            Verdict::Pass { digest, nontrivial } => {
                if nontrivial {
                    st.digests.insert(digest);
                    if st.samples.len() < 2 && w < 2 {
                        let s = plan.to_string();
                        let s = if s.len() > 1500 { format!("{}..", s.chars().take(1500).collect::<String>()) } else { s };
                        st.samples.push(json!({"seed": cfg.seed, "run": run, "digest": format!("{digest:016x}"), "plan": s}));
                    }
                }
                if run % 61 == 7 {
                    // the same seed must be the same execution
                    let mut scratch = Stats::default();
                    st.count("runs executed twice", 1);
                    match (world.execute)(&plan, &mut scratch) {
                        Verdict::Pass { digest: d2, .. } if d2 == digest => {}
                        Verdict::Pass { .. } => {
                            st.count("runs whose second execution differed", 1);
                            harness.push(format!("run {run}: two executions of one plan differ"));
                        }
                        Verdict::Fail { class, detail, plan } => {
                            st.count("runs whose second execution differed", 1);
                            fail = json!({"run": run, "build": build_name(), "class": class, "detail": detail, "plan": plan});
                        }
                        Verdict::Harness(e) => harness.push(e),
                    }
                }
            }
            Verdict::Fail { class, detail, plan } => {
                if let Some(k) = is_known(&kf, prop, &class, &detail) {
                    st.count("known findings met", 1);
                    if !knowns.contains(&k.what) {
                        knowns.push(k.what.clone());
                    }
                } else {
                    fail = json!({"run": run, "build": build_name(), "class": class, "detail": detail, "plan": plan});
                }
            }
            Verdict::Harness(e) => {
                st.count("runs without a verdict", 1);
                if harness.len() < 5 {
                    harness.push(format!("run {run}: {e}"));
                }
            }
        }
        if !fail.is_null() {
            // only a failure that comes back ends the search
            let class = fail["class"].as_str().unwrap_or("").to_string();
            if (0..3).any(|_| same_failure(world, &fail["plan"], &class).is_some()) {
                unsafe { std::ptr::write_volatile(sh.stop, 1) };
                break;
            }
            st.count("failures that did not come back", 1);
            if harness.len() < 5 {
                harness.push(format!("run {} failed once but not again: {}", fail["run"], fail["detail"]));
            }
            fail = Value::Null;
        }
    }
    json!({"stats": serde_json::to_value(&st).unwrap(), "fail": fail, "harness": harness, "knowns": knowns})
}

pub fn check(worlds: &[World], prop: &str) -> i32 {
    let cfg = cfg();
    let world = *pick(worlds, prop);
    let t0 = Instant::now();
    let sh = shared(None);
    let corpus = corpus_of(&cfg, prop);
    let other = if world.twin { twin(worlds) } else { None };
    let mut kids = vec![];
    for w in 0..cfg.workers {
        unsafe {
            let mut fds = [0i32; 2];
            assert!(libc::pipe(fds.as_mut_ptr()) == 0);
            let _ = std::io::stdout().flush();
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                if let (Some(o), true) = (&other, w % 2 == 1) {
                    let left = (cfg.secs - t0.elapsed().as_secs_f64()).max(0.1);
                    let args = ["worker", prop, &w.to_string(), &fds[1].to_string(), &sh.fd.to_string(), &left.to_string()];
                    use std::os::unix::process::CommandExt;
                    let e = std::process::Command::new(o).args(args).exec();
                    eprintln!("cannot start {o}: {e}");
                    libc::_exit(3);
                }
                let v = worker(w, &world, prop, &cfg, &sh, t0, &corpus);
                let mut f = std::fs::File::from_raw_fd(fds[1]);
                let _ = f.write_all(v.to_string().as_bytes());
                drop(f);
                libc::_exit(0);
            }
            libc::close(fds[1]);
            kids.push((pid, fds[0]));
        }
    }
    let mut st = Stats::default();
    let mut fails: Vec<Value> = vec![];
    let mut harness: Vec<String> = vec![];
    let mut knowns: Vec<String> = vec![];
    for (pid, fd) in kids {
        let mut s = String::new();
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        let _ = f.read_to_string(&mut s);
        let mut status = 0;
        unsafe { libc::waitpid(pid, &mut status, 0) };
        match serde_json::from_str::<Value>(&s) {
            Ok(v) => {
                st.merge(serde_json::from_value(v["stats"].clone()).unwrap());
                if !v["fail"].is_null() {
                    fails.push(v["fail"].clone());
                }
                for h in v["harness"].as_array().unwrap() {
                    harness.push(h.as_str().unwrap().into());
                }
                for h in v["knowns"].as_array().unwrap() {
                    let h = h.as_str().unwrap().to_string();
                    if !knowns.contains(&h) {
                        knowns.push(h);
                    }
                }
            }
            Err(_) => harness.push(format!("a worker died (status {status})")),
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    fails.sort_by_key(|f| f["run"].as_u64().unwrap_or(0));
    let mut code = 0;
    let mut violations = 0;
    // listed findings of this property are shown by replaying them
    for k in known(&cfg).iter().filter(|k| k.prop == prop) {
        println!("KNOWN-FINDING: property={prop} {}", k.what);
    }
    for f in fails.iter().take(3) {
        let build = f["build"].as_str().unwrap_or("checked");
        let found = if build == build_name() {
            (world.init)();
            confirm_and_minimise(&world, prop, f, &cfg)
        } else {
            confirm_elsewhere(prop, f, &cfg)
        };
        match found {
            Some(path) => {
                violations = 1;
                println!("violated: {}", f["detail"].as_str().unwrap_or(""));
                println!("VIOLATION property={prop} replay={path}");
                code = 1;
                break;
            }
            None => harness.push(format!("run {} failed once but not again: {}", f["run"], f["detail"])),
        }
    }
    let runs = st.get("runs");
    let judged = runs - st.get("runs without a verdict").min(runs);
    // a few runs the simulator cannot judge are reported; a check that judged little is an error
    if code == 0 && (judged == 0 || harness.iter().any(|h| h.contains("worker died")) || st.get("runs without a verdict") * 20 > runs) {
        code = 2;
    }
    if st.get("runs whose second execution differed") > 0 && code == 0 {
        println!("WARNING {} runs were not repeatable", st.get("runs whose second execution differed"));
    }
    for h in harness.iter().take(5) {
        println!("NOTE {h}");
    }
    let (reached, total) = (world.edges)();
    let wall = t0.elapsed().as_secs_f64();
    let per_hour = runs as f64 / search_s * 3600.0;
    let steps = st.get("simulated steps");
    let ev = json!({
        "property": prop,
        "tier": if cfg.thorough { "thorough" } else { "quick" },
        "seed": cfg.seed as i64,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": st.digests.len(),
            "rule": (world.rule)(prop),
            "samples": st.samples.iter().take(3).collect::<Vec<_>>(),
            "runs_and_seeds_per_hour": per_hour.round(),
            "simulated_steps": steps,
            "simulated_seconds": if st.counts.contains_key("simulated milliseconds") {
                st.get("simulated milliseconds") as f64 / 1e3
            } else {
                // the simulated clock of the library worlds ticks a microsecond per step
                steps as f64 / 1e6
            },
            "faults_injected": st.faults,
            "distinct_histories": st.traces.len(),
            "distinct_histories_measure": "hash of the complete hand-over sequence (who was stopped where, who ran next) or of the event history with its outcome",
            "operations": st.ops,
            "counts": st.counts,
            "maxima": st.maxes,
            "edges_reached": reached,
            "edges_instrumented": total,
            "real_components": world.real,
            "stubbed_components": world.stubs,
            "known_findings_met": knowns,
            "notes": harness.iter().take(5).collect::<Vec<_>>(),
        },
        "assumptions": (world.assumptions)(prop),
        "wall_s": (wall * 10.0).round() / 10.0,
        "violations": violations,
    });
    let dir = format!("{}/evidence", cfg.verif);
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        println!("ERROR cannot write evidence: {e}");
        code = 2;
    }
    println!(
        "{prop}: {runs} runs ({} distinct non-trivial, {} distinct histories), {} steps, {:.0} runs/hour, {:.1} s, faults {:?}, exit {code}",
        st.digests.len(),
        st.traces.len(),
        steps,
        per_hour,
        wall,
        st.faults
    );
    code
}

fn same_failure(world: &World, plan: &Value, class: &str) -> Option<(String, Value)> {
    let mut s = Stats::default();
    match (world.execute)(plan, &mut s) {
        Verdict::Fail { class: c, detail, plan } if c == class => Some((detail, plan)),
        _ => None,
    }
}

fn confirm_and_minimise(world: &World, prop: &str, f: &Value, cfg: &Cfg) -> Option<String> {
    let class = f["class"].as_str().unwrap().to_string();
    let (mut detail, mut plan) = (0..3).find_map(|_| same_failure(world, &f["plan"], &class))?;
    let limit = Instant::now() + Duration::from_secs_f64(if cfg.thorough { 180.0 } else { 45.0 });
    let mut tried = 0;
    'outer: loop {
        for cand in (world.shrink)(&plan) {
            if Instant::now() > limit {
                break 'outer;
            }
            tried += 1;
            if let Some((d, p)) = same_failure(world, &cand, &class) {
                detail = d;
                plan = p;
                continue 'outer;
            }
        }
        break;
    }
    // what is written must fail as written
    let text = serde_json::to_string_pretty(&json!({
        "property": prop,
        "class": class,
        "build": build_name(),
        "detail": detail,
        "seed": cfg.seed as i64,
        "run": f["run"],
        "minimisation_attempts": tried,
        "plan": plan,
    }))
    .unwrap();
    let dir = format!("{}/replays", cfg.verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{}-{}.json", cfg.seed, f["run"].as_u64().unwrap_or(0));
    std::fs::write(&path, text + "\n").ok()?;
    println!("minimised after {tried} attempts: {detail}");
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&path).ok()?).ok()?;
    if same_failure(world, &v["plan"], &class).is_none() {
        println!("NOTE the replay file does not reproduce the violation; replaying the original run instead");
        let text = json!({"property": prop, "class": class, "build": build_name(), "detail": f["detail"], "plan": f["plan"]}).to_string();
        std::fs::write(&path, text + "\n").ok()?;
    }
    Some(path)
}

/// A failure of the shipped build is confirmed and minimised by the shipped build.
fn confirm_elsewhere(prop: &str, f: &Value, cfg: &Cfg) -> Option<String> {
    let b = binary_of(f["build"].as_str()?)?;
    let dir = format!("{}/replays", cfg.verif);
    let _ = std::fs::create_dir_all(&dir);
    let tmp = format!("{dir}/.{prop}-{}.tmp", std::process::id());
    std::fs::write(&tmp, f.to_string()).ok()?;
    let o = std::process::Command::new(b).args(["confirm", prop, &tmp]).output().ok();
    let _ = std::fs::remove_file(&tmp);
    let o = String::from_utf8_lossy(&o?.stdout).to_string();
    let mut path = None;
    for l in o.lines() {
        match l.strip_prefix("confirmed ") {
            Some(p) => path = Some(p.to_string()),
            None => println!("{l}"),
        }
    }
    path
}

pub fn confirm(worlds: &[World], prop: &str, file: &str) -> i32 {
    let cfg = cfg();
    let world = *pick(worlds, prop);
    let Some(f) = std::fs::read_to_string(file).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) else { return 2 };
    (world.init)();
    if let Some(p) = confirm_and_minimise(&world, prop, &f, &cfg) {
        println!("confirmed {p}");
    }
    0
}

pub fn replay(worlds: &[World], path: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else {
        println!("ERROR cannot read {path}");
        return 2;
    };
    let v: Value = serde_json::from_str(&s).expect("replay file is not JSON");
    let prop = v["property"].as_str().unwrap_or("").to_string();
    let world = pick(worlds, &prop);
    let build = v["build"].as_str().unwrap_or(build_name());
    if world.twin && build != build_name() {
        let Some(b) = binary_of(build) else {
            println!("ERROR the {build} build is missing");
            return 2;
        };
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(&b).args(["replay", path]).exec();
        println!("ERROR cannot start {b}: {e}");
        return 2;
    }
    (world.init)();
    let mut st = Stats::default();
    match (world.execute)(&v["plan"], &mut st) {
        Verdict::Pass { digest, .. } => {
            println!("held: property={prop} digest={digest:016x}");
            0
        }
        Verdict::Fail { class, detail, .. } => {
            println!("violated ({class}): {detail}");
            println!("VIOLATION property={prop} replay={path}");
            1
        }
        Verdict::Harness(e) => {
            println!("ERROR {e}");
            2
        }
    }
}

/// One seeded run, shown (for debugging).
pub fn one(worlds: &[World], prop: &str, run: u64) -> i32 {
    let cfg = cfg();
    let world = pick(worlds, prop);
    (world.init)();
    let plan = (world.generate)(prop, cfg.seed, run, cfg.thorough);
    println!("{}", serde_json::to_string_pretty(&plan).unwrap());
    let mut st = Stats::default();
    match (world.execute)(&plan, &mut st) {
        Verdict::Pass { digest, nontrivial } => {
            println!("pass {digest:016x} nontrivial {nontrivial}\n{:?}\n{:?}", st.counts, st.faults);
            0
        }
        Verdict::Fail { class, detail, .. } => {
            println!("FAIL {class}: {detail}");
            1
        }
        Verdict::Harness(e) => {
            println!("HARNESS {e}");
            2
        }
    }
}

/// Digests of the first runs, to compare executions of the whole search across processes.
pub fn digests(worlds: &[World], prop: &str, n: u64) -> i32 {
    let cfg = cfg();
    let world = pick(worlds, prop);
    (world.init)();
    for run in 0..n {
        let plan = (world.generate)(prop, cfg.seed, run, cfg.thorough);
        let mut st = Stats::default();
        match (world.execute)(&plan, &mut st) {
            Verdict::Pass { digest, .. } => println!("{prop} {run} {digest:016x}"),
            Verdict::Fail { class, .. } => println!("{prop} {run} fail {class}"),
            Verdict::Harness(e) => println!("{prop} {run} harness {e}"),
        }
    }
    0
}
