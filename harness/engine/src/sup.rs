//! Supervisor: runs the exploration in a child process, turns crashes and hangs of the code under test
//! into confirmed single-case counterexamples, writes evidence and the verdict.
use crate::*;
use serde_json::{json, Value};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus, Stdio};

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let s = s.trim();
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VP_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn known_file(id: &str) -> Vec<(Vec<u8>, String)> {
    // lines: KNOWN property=<id> case=<hex> <what fails>
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(root().join("known_findings.txt")) {
        for l in s.lines() {
            let mut it = l.splitn(4, ' ');
            if it.next() == Some("KNOWN") && it.next() == Some(&format!("property={id}")) {
                if let Some(c) = it.next().and_then(|c| c.strip_prefix("case=")).and_then(unhex) {
                    v.push((c, it.next().unwrap_or("").to_string()));
                }
            }
        }
    }
    v
}

fn map_slots(path: &Path, n: usize, create: bool) -> *mut Slot {
    let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(false).open(path).expect("slot file");
    if create {
        f.set_len((n * SLOT_SIZE) as u64).expect("slot file size");
    }
    use std::os::fd::AsRawFd;
    let p = unsafe { libc::mmap(std::ptr::null_mut(), n * SLOT_SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    assert!(p != libc::MAP_FAILED, "mmap");
    p as *mut Slot
}

pub fn main(props: &[&dyn Prop]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let Some(prop) = props.iter().find(|p| p.id() == id) else {
        eprintln!("unknown property {id}; known: {}", props.iter().map(|p| p.id()).collect::<Vec<_>>().join(" "));
        std::process::exit(2);
    };
    let tier = match args.iter().position(|a| a == "--tier").and_then(|i| args.get(i + 1).cloned()).or(std::env::var("VERIF_TIER").ok()).as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let code = match std::env::var("VP_MODE").as_deref() {
        Ok("child") => child(*prop, tier, seed),
        Ok("one") => one(*prop, &args[2]),
        _ => match args.iter().position(|a| a == "--replay") {
            Some(i) => replay(*prop, &args[i + 1]),
            None => parent(*prop, tier, seed),
        },
    };
    std::io::stdout().flush().ok();
    std::process::exit(code)
}

fn one(prop: &dyn Prop, case_file: &str) -> i32 {
    install_panic_hook();
    let case = unhex(&std::fs::read_to_string(case_file).expect("case file")).expect("hex");
    // run on a thread with the same stack as a worker
    let v = std::thread::scope(|s| s.spawn(|| prop.check(&case, &mut Io::default())).join());
    match v {
        Ok(Ok(o)) => {
            println!("HELD {}", o.class);
            0
        }
        Ok(Err(Bad::Violation(m))) => {
            println!("VIOLATED {m}");
            1
        }
        Ok(Err(Bad::Harness(m))) => {
            println!("HARNESS {m}");
            2
        }
        Err(_) => 2,
    }
}

enum One {
    Held,
    Violated(String),
    Harness(String),
}

fn signal_name(s: i32) -> String {
    match s {
        libc::SIGSEGV => "SIGSEGV (invalid memory access)".into(),
        libc::SIGABRT => "SIGABRT (abort)".into(),
        libc::SIGBUS => "SIGBUS".into(),
        libc::SIGILL => "SIGILL".into(),
        libc::SIGKILL => "SIGKILL".into(),
        _ => format!("signal {s}"),
    }
}

fn self_cmd(id: &str) -> Command {
    let mut c = Command::new(std::env::current_exe().expect("exe"));
    c.arg(id);
    c
}

fn run_one(prop: &dyn Prop, case: &[u8], dir: &Path, cpu: u64) -> One {
    let f = dir.join("one.case");
    std::fs::write(&f, hex(case)).expect("write case");
    let mut c = self_cmd(prop.id());
    c.arg(&f).env("VP_MODE", "one").stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    use std::os::unix::process::CommandExt;
    unsafe {
        c.pre_exec(move || {
            let r = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &r);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            Ok(())
        });
    }
    let out = c.output().expect("replay process");
    let text = String::from_utf8_lossy(&out.stdout).trim().to_string();
    let err = String::from_utf8_lossy(&out.stderr).trim().to_string();
    match (out.status.code(), out.status.signal()) {
        (Some(0), _) => One::Held,
        (Some(1), _) => One::Violated(text.trim_start_matches("VIOLATED ").to_string()),
        (_, Some(s)) if s == libc::SIGXCPU => One::Violated(format!("the call does not return (more than {cpu} s of CPU time)")),
        (_, Some(s)) => One::Violated(format!("the call crashes the process: {} {}", signal_name(s), err.lines().last().unwrap_or(""))),
        _ => One::Harness(format!("{text} {err}")),
    }
}

fn replay(prop: &dyn Prop, file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let case = unhex(v["case"].as_str().expect("case")).expect("hex");
    println!("replaying: {}", prop.describe(&case));
    let dir = scratch(prop.id());
    let r = run_one(prop, &case, &dir, 4 * prop.hang_s());
    std::fs::remove_dir_all(&dir).ok();
    match r {
        One::Held => {
            println!("property {} held on this case", prop.id());
            0
        }
        One::Violated(m) => {
            println!("{m}");
            println!("VIOLATION property={} replay={file}", prop.id());
            1
        }
        One::Harness(m) => {
            println!("error: {m}");
            2
        }
    }
}

fn scratch(id: &str) -> PathBuf {
    let d = root().join("out").join(format!("run-{id}-{}", std::process::id()));
    std::fs::create_dir_all(&d).expect("scratch dir");
    d
}

fn threads() -> usize {
    std::env::var("VP_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8)).clamp(1, 16)
}

fn budget(tier: Tier) -> Duration {
    let d = match tier {
        Tier::Quick => 420,
        Tier::Thorough => 3000,
    };
    Duration::from_secs(std::env::var("VP_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(d))
}

fn child(prop: &dyn Prop, tier: Tier, seed: u64) -> i32 {
    install_panic_hook();
    let n = threads();
    let dir = PathBuf::from(std::env::var("VP_DIR").expect("VP_DIR"));
    let slots = map_slots(&dir.join("slots"), n, false);
    let known: HashSet<Vec<u8>> = known_file(prop.id()).into_iter().map(|(c, _)| c).collect();
    let x = Explorer::new(prop, tier, seed, slots, n, budget(tier), known);
    let finished = AtomicBool::new(false);
    let hang = std::env::var("VP_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(prop.hang_s());
    std::thread::scope(|s| {
        let (x, finished, dir) = (&x, &finished, &dir);
        s.spawn(move || {
            // hang monitor: CPU time spent by a worker inside one and the same case
            let mut seen: BTreeMap<usize, (u64, f64)> = BTreeMap::new();
            while !finished.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(250));
                let map = x.pthreads.lock().unwrap();
                for (&t, &pt) in map.iter() {
                    let slot = unsafe { &*((x.slots as *mut u8).add(t * SLOT_SIZE) as *const Slot) };
                    let seq = slot.seq.load(SeqCst);
                    let mut clock: libc::clockid_t = 0;
                    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
                    unsafe {
                        if libc::pthread_getcpuclockid(pt, &mut clock) != 0 || libc::clock_gettime(clock, &mut ts) != 0 {
                            continue;
                        }
                    }
                    let now = ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9;
                    match seen.get(&t) {
                        Some(&(s0, t0)) if s0 == seq => {
                            if slot.in_call.load(SeqCst) == 1 && now - t0 > hang as f64 {
                                std::fs::write(dir.join("hang"), format!("{t}")).ok();
                                std::process::exit(77);
                            }
                        }
                        _ => {
                            seen.insert(t, (seq, now));
                        }
                    }
                }
            }
        });
        prop.explore(x);
        finished.store(true, SeqCst);
    });
    let mut g = x.global.into_inner().unwrap();
    if let Some(h) = &g.harness {
        std::fs::write(dir.join("result.json"), json!({"harness": h}).to_string()).expect("result");
        return 0;
    }
    let s = &mut g.stats;
    let res = json!({
        "states": s.states, "transitions": s.transitions, "execs": s.execs, "steps": s.steps,
        "distinct_outcomes": s.outcomes.len(), "classes": s.classes,
        "families": g.families.iter().map(|f| json!({"family": f.name, "work_items": f.planned, "executions": f.execs, "states": f.states, "transitions": f.transitions, "complete": f.complete, "wall_ms": f.wall_ms})).collect::<Vec<_>>(),
        "samples": g.samples, "known": g.known, "notes": g.notes, "capped": g.capped,
        "found": g.found.as_ref().map(|f| json!({"family": f.family, "index": f.index, "case": hex(&f.case), "msg": f.msg, "case_in_words": prop.describe(&f.case)})),
    });
    std::fs::write(dir.join("result.json"), res.to_string()).expect("result");
    0
}

fn spawn_child(prop: &dyn Prop, tier: Tier, dir: &Path, log: &Path, hang: Option<u64>) -> (ExitStatus, bool) {
    let mut c = self_cmd(prop.id());
    if let Some(h) = hang {
        c.env("VP_HANG", h.to_string()).env("VP_BUDGET", (budget(tier).as_secs() * 3 / 5).to_string());
    }
    c.args(["--tier", if tier == Tier::Quick { "quick" } else { "thorough" }]);
    c.env("VP_MODE", "child").env("VP_DIR", dir).stdin(Stdio::null());
    let f = std::fs::File::create(log).expect("log");
    c.stdout(f.try_clone().expect("log"));
    if std::env::var_os("VP_VERBOSE").is_none() {
        c.stderr(f);
    }
    use std::os::unix::process::CommandExt;
    unsafe {
        c.pre_exec(|| {
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut p = c.spawn().expect("child");
    let t0 = Instant::now();
    let wall = budget(tier) + Duration::from_secs(180);
    loop {
        if let Some(s) = p.try_wait().expect("wait") {
            return (s, false);
        }
        if t0.elapsed() > wall {
            p.kill().ok();
            return (p.wait().expect("wait"), true);
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn parent(prop: &dyn Prop, tier: Tier, seed: u64) -> i32 {
    let id = prop.id();
    let t0 = Instant::now();
    let dir = scratch(id);
    let code = parent_in(prop, tier, seed, &dir, t0);
    std::fs::remove_dir_all(&dir).ok();
    if code == 2 {
        println!("ERROR property={id}: no verdict");
    }
    code
}

fn parent_in(prop: &dyn Prop, tier: Tier, seed: u64, dir: &Path, t0: Instant) -> i32 {
    let id = prop.id();
    let n = threads();
    let mut attempts = 0;
    // a call that took long in the exploration but returned when replayed alone is slow, not endless: the exploration is
    // repeated with more patience
    let mut patience = None;
    loop {
        attempts += 1;
        let slots = map_slots(&dir.join("slots"), n, true);
        std::fs::remove_file(dir.join("hang")).ok();
        let (st, timed_out) = spawn_child(prop, tier, dir, &dir.join("log"), patience);
        let result = std::fs::read_to_string(dir.join("result.json")).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok());
        if st.code() == Some(0) {
            let Some(r) = result else { return 2 };
            return verdict(prop, tier, seed, dir, t0, r);
        }
        if timed_out {
            eprintln!("exploration exceeded its wall limit");
            return 2;
        }
        // crash or hang inside the code under test?
        let mut cands: Vec<Vec<u8>> = vec![];
        for t in 0..n {
            let s = unsafe { &*((slots as *mut u8).add(t * SLOT_SIZE) as *const Slot) };
            if s.in_call.load(SeqCst) == 1 {
                cands.push(s.data[..s.len.load(SeqCst) as usize].to_vec());
            }
        }
        if let Some(t) = std::fs::read_to_string(dir.join("hang")).ok().and_then(|s| s.trim().parse::<usize>().ok()) {
            let s = unsafe { &*((slots as *mut u8).add(t * SLOT_SIZE) as *const Slot) };
            cands = vec![s.data[..s.len.load(SeqCst) as usize].to_vec()];
        }
        eprintln!("exploration process ended with {st}; {} call(s) in flight", cands.len());
        let log = std::fs::read_to_string(dir.join("log")).unwrap_or_default();
        eprintln!("{}", log.lines().rev().take(5).collect::<Vec<_>>().join("\n"));
        for c in &cands {
            if let One::Violated(m) = run_one(prop, c, dir, 4 * prop.hang_s()) {
                let known = known_file(id);
                if let Some((_, what)) = known.iter().find(|(k, _)| k == c) {
                    println!("KNOWN-FINDING: property={id} {what}");
                    // a crashing known finding cannot be stepped over
                    return 2;
                }
                let r = json!({"states": 0, "transitions": 0, "execs": 1, "steps": 0, "distinct_outcomes": 0, "classes": {}, "families": [], "samples": [prop.describe(c)], "known": {}, "notes": ["exploration ended by a crash or hang of the code under test; counts not available"], "capped": true,
                    "found": {"family": "crash", "index": 0, "case": hex(c), "msg": m, "case_in_words": prop.describe(c)}});
                return verdict(prop, tier, seed, dir, t0, r);
            }
        }
        let hung = dir.join("hang").exists();
        if hung && attempts == 1 {
            patience = Some(6 * prop.hang_s());
        }
        if attempts == 2 {
            if let Some(c) = cands.first() {
                // twice a crash inside a call into the code under test, depending on earlier calls
                let m = if hung { format!("the call does not return (more than {} s of CPU time); it depends on the calls made before", patience.unwrap_or(prop.hang_s())) } else { format!("the process crashes inside a call ({st}); it depends on the calls made before") };
                let r = json!({"states": 0, "transitions": 0, "execs": 1, "steps": 0, "distinct_outcomes": 0, "classes": {}, "families": [], "samples": [prop.describe(c)], "known": {}, "notes": ["crash reproduced by repeating the exploration, not by the single case"], "capped": true,
                    "found": {"family": "crash", "alone": "seen in the exploration, not reproduced by the single case: depends on earlier calls", "index": 0, "case": hex(c), "msg": m, "case_in_words": prop.describe(c)}});
                return verdict(prop, tier, seed, dir, t0, r);
            }
            return 2;
        }
    }
}

fn verdict(prop: &dyn Prop, tier: Tier, seed: u64, dir: &Path, t0: Instant, r: Value) -> i32 {
    let id = prop.id();
    if let Some(h) = r["harness"].as_str() {
        println!("machinery error: {h}");
        return 2;
    }
    let known = known_file(id);
    let mut violations = 0;
    let mut code = 0;
    if !r["found"].is_null() {
        let f = &r["found"];
        let case = unhex(f["case"].as_str().unwrap_or("")).unwrap_or_default();
        let alone = match if f["family"] == "crash" { One::Violated(String::new()) } else { run_one(prop, &case, dir, prop.hang_s()) } {
            One::Violated(_) if !f["alone"].is_null() => f["alone"].as_str().unwrap_or("").to_string(),
            One::Violated(_) => "reproduced by the single case in a fresh process".to_string(),
            One::Held => "seen in the exploration, not reproduced by the single case: depends on earlier calls".to_string(),
            One::Harness(m) => format!("single-case replay failed: {m}"),
        };
        let rd = root().join("out").join("replays");
        std::fs::create_dir_all(&rd).ok();
        let path = rd.join(format!("{id}-{}.json", if tier == Tier::Quick { "quick" } else { "thorough" }));
        let rep = json!({"property": id, "case": f["case"], "case_in_words": f["case_in_words"], "family": f["family"], "what_failed": f["msg"], "replayed": alone, "how_to_replay": format!("bash /verif/check.sh {id} --replay {}", path.display())});
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).expect("replay file");
        println!("case: {}", f["case_in_words"].as_str().unwrap_or(""));
        println!("what failed: {}", f["msg"].as_str().unwrap_or(""));
        println!("{alone}");
        println!("VIOLATION property={id} replay={}", path.display());
        violations = 1;
        code = 1;
    }
    if let Some(k) = r["known"].as_object() {
        for c in k.keys() {
            let what = known.iter().find(|(kc, _)| &hex(kc) == c).map(|(_, w)| w.as_str()).unwrap_or("");
            println!("KNOWN-FINDING: property={id} {what}");
        }
    }
    let mut notes = r["notes"].as_array().cloned().unwrap_or_default();
    notes.extend(std::env::var("VP_NOTE").ok().map(Value::from));
    let capped = r["capped"].as_bool().unwrap_or(false);
    let ev = json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": r["states"], "transitions": r["transitions"],
            "traces_validated_against_impl": r["execs"],
            "calls_or_choices_executed": r["steps"],
            "distinct_observed_outcomes": r["distinct_outcomes"],
            "outcome_classes": r["classes"],
            "families": r["families"],
            "samples": r["samples"],
            "bounds": prop.bounds(tier),
            "exhaustive": !capped && violations == 0,
            "notes": notes,
        },
        "assumptions": prop.assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let ed = root().join("evidence");
    std::fs::create_dir_all(&ed).ok();
    std::fs::write(ed.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!(
        "{} {}: states={} transitions={} executions={} outcomes={} classes={} {}{:.1}s",
        id,
        if code == 0 { "held" } else { "violated" },
        r["states"], r["transitions"], r["execs"], r["distinct_outcomes"], r["classes"],
        if capped { "CAPPED " } else { "" },
        t0.elapsed().as_secs_f64()
    );
    code
}

#[allow(unused)]
pub(crate) fn use_slot(s: *mut Slot) {
    set_slot(s)
}
