//! The search: many worlds in forked processes, minimisation of what fails,
//! replay files and evidence.
#![allow(static_mut_refs)]
use crate::core::{self, Mode, Sched};
use crate::exec;
use crate::judge::{self, Info, Viol, World};
use crate::spec::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Trial {
    pub viol: Option<Viol>,
    pub info: Info,
    pub world: Option<World>,
    pub timeout: bool,
}

static mut CHILD_FD: i32 = -1;
static mut COV: *mut u8 = std::ptr::null_mut();
static mut COV_LEN: usize = 0;

fn on_abort(why: &str) {
    let t = Trial { viol: Some(Viol { variant: 0, kind: "no progress".into(), msg: why.to_string() }), ..Trial::default() };
    let s = serde_json::to_vec(&t).unwrap_or_default();
    unsafe { core::raw_write_all(CHILD_FD, &s) };
}

fn merge_cov() {
    unsafe {
        if !COV.is_null() {
            for (i, e) in core::EDGES.iter().enumerate().take(COV_LEN) {
                if *e != 0 {
                    *COV.add(i) = 1;
                }
            }
        }
    }
}

/// Run `f` in a child process.
fn in_child(timeout: Duration, f: impl FnOnce() -> Trial) -> Trial {
    unsafe {
        let mut p = [0i32; 2];
        assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            core::raw3(libc::SYS_close, p[0] as i64, 0, 0);
            CHILD_FD = p[1];
            core::ON_ABORT = Some(on_abort);
            let lim = libc::rlimit { rlim_cur: 5 << 30, rlim_max: 5 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let nocore = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &nocore);
            judge::INFO = None;
            let mut t = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                Ok(t) => t,
                Err(_) => {
                    let why = exec::LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).last().cloned().unwrap_or_default();
                    Trial { viol: Some(Viol { variant: usize::MAX, kind: "crash".into(), msg: format!("panic outside of the operations: {why}") }), ..Trial::default() }
                }
            };
            t.info = judge::info().clone();
            merge_cov();
            let s = serde_json::to_vec(&t).unwrap();
            core::raw_write_all(p[1], &s);
            core::exit_group(0);
        }
        core::raw3(libc::SYS_close, p[1] as i64, 0, 0);
        let start = Instant::now();
        let mut out = vec![];
        let mut timed_out = false;
        loop {
            let left = timeout.saturating_sub(start.elapsed()).as_millis() as i32;
            let mut pf = libc::pollfd { fd: p[0], events: libc::POLLIN, revents: 0 };
            let n = libc::poll(&mut pf, 1, left.max(0));
            if n == 0 {
                timed_out = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            if n < 0 {
                continue;
            }
            let mut b = [0u8; 65536];
            let k = core::raw3(libc::SYS_read, p[0] as i64, b.as_mut_ptr() as i64, b.len() as i64);
            if k <= 0 {
                break;
            }
            out.extend_from_slice(&b[..k as usize]);
        }
        core::raw3(libc::SYS_close, p[0] as i64, 0, 0);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if timed_out {
            return Trial { timeout: true, ..Trial::default() };
        }
        if let Ok(t) = serde_json::from_slice::<Trial>(&out) {
            return t;
        }
        let why = if libc::WIFSIGNALED(st) {
            format!("the process was ended by signal {}", libc::WTERMSIG(st))
        } else {
            format!("the process ended with status {}", libc::WEXITSTATUS(st))
        };
        if std::env::var("DST_DEBUG").is_ok() {
            eprintln!("child: {why}; output {:?}", String::from_utf8_lossy(&out).chars().take(300).collect::<String>());
        }
        Trial { viol: Some(Viol { variant: usize::MAX, kind: "crash".into(), msg: why }), ..Trial::default() }
    }
}

fn judge_world(w: &World, thorough: bool) -> Trial {
    let mut t = Trial::default();
    let w2;
    let w = if w.progs.is_empty() {
        w2 = judge::prepare(&w.prop, w.seed, thorough);
        &w2
    } else {
        w
    };
    if let Err(v) = judge::judge(w) {
        t.viol = Some(v);
        t.world = Some(w.clone());
    }
    t
}
pub fn trial(w: &World) -> Trial {
    in_child(Duration::from_secs(120), || judge_world(w, false))
}
fn trial_seed(prop: &str, seed: u64, thorough: bool) -> Trial {
    let w = World { prop: prop.into(), seed, progs: vec![], variants: vec![] };
    let mut t = in_child(Duration::from_secs(if thorough { 300 } else { 120 }), || judge_world(&w, thorough));
    if t.viol.is_some() && t.world.is_none() {
        // It died; find out which world that was.
        let p = in_child(Duration::from_secs(120), || Trial { world: Some(judge::prepare(prop, seed, thorough)), ..Trial::default() });
        t.world = Some(p.world.unwrap_or(w));
    }
    t
}

#[derive(Default, Serialize, Deserialize)]
struct Tally {
    worlds: u64,
    timeouts: u64,
    info: Info,
    samples: Vec<String>,
    known: BTreeMap<String, u64>,
    determinism_checks: u64,
    determinism_failures: u64,
}
fn add(t: &mut Tally, i: &Info) {
    let a = &mut t.info;
    a.runs += i.runs;
    a.steps += i.steps;
    a.switches += i.switches;
    a.tasks += i.tasks;
    a.spurious += i.spurious;
    a.sim_ns += i.sim_ns;
    a.saves += i.saves;
    a.ops += i.ops;
    for (k, v) in &i.injected {
        *a.injected.entry(k.clone()).or_insert(0) += v;
    }
    for (k, v) in &i.io {
        *a.io.entry(k.clone()).or_insert(0) += v;
    }
    for (k, v) in &i.counts {
        *a.counts.entry(k.clone()).or_insert(0) += v;
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Known {
    pub property: String,
    pub id: String,
    pub what: String,
    /// Class and a part of the message of the violation.
    pub kind: String,
    pub contains: String,
    /// The replay file with the failing history, relative to /verif.
    pub replay: String,
}
fn known_list(prop: &str) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string("/verif/known_findings.jsonl") else { return vec![] };
    s.lines().filter(|l| l.starts_with('{')).filter_map(|l| serde_json::from_str::<Known>(l).ok()).filter(|k| k.property == prop).collect()
}
fn is_known(known: &[Known], v: &Viol) -> Option<String> {
    known.iter().find(|k| k.kind == v.kind && v.msg.contains(&k.contains)).map(|k| k.id.clone())
}

/// Worlds in a quick and in a thorough run.
fn budget(prop: &str) -> (u64, u64) {
    let q = match prop {
        "C01" => 4000,
        "C02" => 6000,
        "C03" => 3500,
        "C04" => 2500,
        "C05" => 12000,
        "C06" => 8000,
        "C07" => 5000,
        "C08" => 3000,
        "C11" => 12000,
        "C09" | "C10" | "C12" | "C13" | "C14" | "C22" | "C23" | "C24" => 24000,
        "C15" => 16000,
        "C16" => 3500,
        "C17" => 10000,
        "C18" => 5000,
        "C19" => 3500,
        "C20" => 8000,
        "C21" => 14000,
        _ => 4000,
    };
    (q, q * 40)
}

pub fn check(prop: &str, thorough: bool, seed: u64, worlds: Option<u64>) -> i32 {
    let start = Instant::now();
    let known = known_list(prop);
    let n_worlds = worlds.unwrap_or(if thorough { budget(prop).1 } else { budget(prop).0 });
    let cap = Duration::from_secs(if thorough { 720 } else { 150 });
    let workers: u64 = std::thread::available_parallelism().map_or(4, |n| n.get() as u64).clamp(1, 16);
    let dir = format!("/tmp/dst.{}", std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    unsafe {
        COV_LEN = core::n_guards() as usize + 1;
        COV = libc::mmap(std::ptr::null_mut(), COV_LEN + 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
    }
    // The last page holds the stop flag and the next world.
    let flag = unsafe { &*(COV.add((COV_LEN + 63) & !63) as *const std::sync::atomic::AtomicU64) };
    let next = unsafe { &*(COV.add(((COV_LEN + 63) & !63) + 8) as *const std::sync::atomic::AtomicU64) };
    use std::sync::atomic::Ordering::SeqCst;
    let mut pids = vec![];
    for k in 0..workers {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            let mut t = Tally::default();
            let mut sigs: HashSet<u64> = HashSet::new();
            let mut scheds: HashSet<u64> = HashSet::new();
            let mut bad: Vec<Trial> = vec![];
            loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= n_worlds || flag.load(SeqCst) > 2 || start.elapsed() > cap {
                    break;
                }
                let s = seed.wrapping_mul(1_000_003).wrapping_add(i);
                let r = trial_seed(prop, s, thorough);
                t.worlds += 1;
                if r.timeout {
                    t.timeouts += 1;
                    continue;
                }
                add(&mut t, &r.info);
                sigs.extend(r.info.sigs.iter());
                scheds.extend(r.info.scheds.iter());
                if t.samples.len() < 2 && !r.info.sample.is_empty() {
                    t.samples.push(r.info.sample.clone());
                }
                if i % 64 == 7 && r.viol.is_none() {
                    let again = trial_seed(prop, s, thorough);
                    t.determinism_checks += 1;
                    if again.info.sigs != r.info.sigs || again.info.scheds != r.info.scheds || again.info.steps != r.info.steps {
                        t.determinism_failures += 1;
                    }
                }
                if let Some(v) = &r.viol {
                    if let Some(id) = is_known(&known, v) {
                        *t.known.entry(id).or_insert(0) += 1;
                        continue;
                    }
                    bad.push(r);
                    flag.fetch_add(1, SeqCst);
                    if bad.len() >= 3 {
                        break;
                    }
                }
            }
            let bin = |v: &HashSet<u64>| v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
            std::fs::write(format!("{dir}/{k}.sig"), bin(&sigs)).unwrap();
            std::fs::write(format!("{dir}/{k}.sch"), bin(&scheds)).unwrap();
            std::fs::write(format!("{dir}/{k}.json"), serde_json::to_vec(&t).unwrap()).unwrap();
            std::fs::write(format!("{dir}/{k}.bad"), serde_json::to_vec(&bad).unwrap()).unwrap();
            core::exit_group(0);
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        while unsafe { libc::waitpid(p, &mut st, 0) } < 0 {}
    }
    let search_s = start.elapsed().as_secs_f64();
    let mut tot = Tally::default();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut scheds: HashSet<u64> = HashSet::new();
    let mut bad: Vec<Trial> = vec![];
    let mut lost = 0;
    for k in 0..workers {
        let rd = |e: &str| std::fs::read(format!("{dir}/{k}.{e}")).unwrap_or_default();
        match serde_json::from_slice::<Tally>(&rd("json")) {
            Ok(t) => {
                add(&mut tot, &t.info);
                tot.worlds += t.worlds;
                tot.timeouts += t.timeouts;
                tot.samples.extend(t.samples);
                tot.determinism_checks += t.determinism_checks;
                tot.determinism_failures += t.determinism_failures;
                for (k, v) in t.known {
                    *tot.known.entry(k).or_insert(0) += v;
                }
            }
            Err(_) => lost += 1,
        }
        for (e, set) in [("sig", &mut sigs), ("sch", &mut scheds)] {
            set.extend(rd(e).chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
        bad.extend(serde_json::from_slice::<Vec<Trial>>(&rd("bad")).unwrap_or_default());
    }
    let _ = std::fs::remove_dir_all(&dir);
    bad.sort_by_key(|b| b.world.as_ref().map_or(u64::MAX, |w| w.seed));

    // Known findings are demonstrated from their own history.
    for k in &known {
        let Ok(s) = std::fs::read(format!("/verif/{}", k.replay)) else { continue };
        let Ok(w) = serde_json::from_slice::<World>(&s) else { continue };
        let t = trial(&w);
        if t.viol.as_ref().is_some_and(|v| v.kind == k.kind && v.msg.contains(&k.contains)) {
            println!("KNOWN-FINDING: property={} {} ({})", k.property, k.what, k.id);
        }
    }

    // Report the violations, one for each class.
    let mut code = 0;
    let mut kinds = BTreeSet::new();
    let mut shown = 0;
    let _ = std::fs::create_dir_all("/verif/replays");
    let deadline = Instant::now() + Duration::from_secs(if thorough { 300 } else { 60 });
    for b in &bad {
        let (Some(v), Some(w)) = (&b.viol, &b.world) else { continue };
        if shown >= 2 || !kinds.insert(v.kind.clone()) {
            continue;
        }
        let mut w = w.clone();
        let first = trial(&w);
        if first.viol.as_ref().map(|x| &x.kind) != Some(&v.kind) {
            println!("note: seed {} gave {:?} ({}) once, but {:?} when repeated", w.seed, v.kind, v.msg, first.viol.map(|v| v.kind));
            continue;
        }
        let mut v = first.viol.unwrap();
        if !w.progs.is_empty() {
            (w, v) = minimise(w, v, deadline);
        }
        let path = format!("/verif/replays/{}-{}.json", prop, w.seed);
        let mut j = serde_json::to_value(&w).unwrap();
        j["expected"] = json!({"kind": v.kind, "msg": v.msg});
        std::fs::write(&path, serde_json::to_vec_pretty(&j).unwrap()).unwrap();
        println!("violation of {prop}: {}: {}", v.kind, v.msg);
        println!("VIOLATION property={prop} replay={path}");
        shown += 1;
        code = 1;
    }
    let cov = unsafe { (0..COV_LEN).filter(|i| *COV.add(*i) != 0).count() };
    let wall = start.elapsed().as_secs_f64();
    let level = level_of(prop);
    let i = &tot.info;
    let per_hour = |n: u64| (n as f64 / search_s.max(0.001) * 3600.0) as u64;
    let ev = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": level,
        "coverage": {
            "evaluations": i.runs,
            "distinct_nontrivial": sigs.len(),
            "rule": rule_of(prop),
            "samples": tot.samples.iter().take(4).collect::<Vec<_>>(),
            "worlds": tot.worlds,
            "worlds_planned": n_worlds,
            "timeouts": tot.timeouts,
            "workers_lost": lost,
            "simulated_runs_per_hour": per_hour(i.runs),
            "seeds_per_hour": per_hour(tot.worlds),
            "simulated_steps": i.steps,
            "simulated_time": format!("{} scheduling steps (one per executed basic block edge of the library, zip and tempfile code, and per simulated system call); the simulated wall clock only moves by injected jumps and ticks", i.steps),
            "context_switches": i.switches,
            "simulated_tasks": i.tasks,
            "spurious_wakeups": i.spurious,
            "distinct_interleavings": scheds.len(),
            "distinct_interleavings_measure": "distinct hashes of the sequence (step, task switched to) of a run",
            "library_calls": i.ops,
            "saves": i.saves,
            "faults_injected": i.injected,
            "simulated_io_operations": i.io,
            "outcomes": i.counts,
            "code_edges_reached": cov,
            "code_edges_total": core::n_guards(),
            "known_findings_met": tot.known,
            "determinism_checks": tot.determinism_checks,
            "determinism_failures": tot.determinism_failures,
            "real_components": "rust_xlsxwriter (all of it, from /repo's working tree), zip, tempfile, std (threads, locks, files, BufWriter)",
            "stubbed_components": "operating system interface below libc: files under /simfs, futex and thread scheduling, wall and monotonic clock, getrandom; user supplied writers",
            "search_s": search_s,
        },
        "assumptions": [
            "threads are preempted only at instrumented basic block edges and at simulated system calls; memory is sequentially consistent",
            "one simulated file system with POSIX semantics; close() does not report errors"
        ],
        "wall_s": wall,
        "violations": shown,
    });
    let _ = std::fs::create_dir_all("/verif/evidence");
    std::fs::write(format!("/verif/evidence/{prop}.json"), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    println!(
        "{prop}: {} worlds, {} runs, {} distinct, {} interleavings, {} of {} edges, {:.1} s, faults {:?}, outcomes {:?}{}",
        tot.worlds,
        i.runs,
        sigs.len(),
        scheds.len(),
        cov,
        core::n_guards(),
        wall,
        i.injected.values().sum::<u64>(),
        i.counts,
        if tot.timeouts + tot.determinism_failures + lost > 0 { format!(" timeouts {} nondeterministic {} lost {lost}", tot.timeouts, tot.determinism_failures) } else { String::new() }
    );
    code
}

pub fn level_of(_prop: &str) -> &'static str {
    "exploration"
}
fn rule_of(prop: &str) -> &'static str {
    match prop {
        "C01" => "A case is one execution of a generated history of calls under one schedule and one set of hash seeds; non-trivial if more than one task ran and at least one switch happened; distinct by trace and schedule hash.",
        "C02" => "A case is one execution of a generated history whose last save meets one fault plan of its destination; non-trivial if a fault was delivered; distinct by trace hash.",
        "C03" => "A case is one execution with short transfers and interrupted calls; non-trivial if at least one was delivered; distinct by trace hash.",
        "C04" => "A case is one history with at least one failed save, compared with the history without it; distinct by trace hash.",
        "C05" => "A case is one save after earlier saves, compared with the same edits without them; distinct by trace hash and position.",
        "C06" => "A case is one execution with one fault plan of the temporary storage; non-trivial if a fault was delivered; distinct by trace hash.",
        "C15" => "A case is one history with at least one rejected call, compared with the history without the rejected calls; distinct by trace hash.",
        "C16" => "A case is one media file, damaged or not, read with or without faults; distinct by its content and faults.",
        "C17" => "A case is one execution with or without faults up to the drop of the workbook; distinct by trace and schedule hash.",
        "C18" => "A case is one execution that saves through one or several entry points; distinct by trace hash.",
        "C19" => "A case is one joint execution of several workbooks; distinct by trace and schedule hash.",
        "C20" => "A case is one execution with one clock; distinct by trace hash and start time.",
        "C21" => "A case is one state of the destination after a crash; distinct by content.",
        _ => "A case is one saved file of a generated history, decoded and compared with the reference model; distinct by trace and schedule hash.",
    }
}

// ---------------------------------------------------------------------------
// Minimisation
// ---------------------------------------------------------------------------
fn minimise(mut w: World, mut v: Viol, deadline: Instant) -> (World, Viol) {
    let fails = |c: &World, v: &Viol| -> Option<Viol> {
        let t = trial(c);
        t.viol.filter(|x| x.kind == v.kind)
    };
    let out_of_time = || Instant::now() > deadline;
    // One execution is enough.
    if w.variants.len() > 1 && v.variant < w.variants.len() {
        let mut c = w.clone();
        c.variants = vec![w.variants[v.variant].clone()];
        if let Some(x) = fails(&c, &v) {
            w = c;
            v = x;
        }
    }
    // Fewer operations.
    for k in 0..w.progs.len() {
        let mut size = (w.progs[k].ops.len() / 2).max(1);
        loop {
            let mut any = false;
            let mut i = 0;
            while i < w.progs[k].ops.len() {
                if out_of_time() {
                    return (w, v);
                }
                let hi = (i + size).min(w.progs[k].ops.len());
                if let Some(c) = cut(&w, k, i, hi) {
                    if let Some(x) = fails(&c, &v) {
                        let shorter = w.progs[k].ops.len() - c.progs[k].ops.len();
                        w = c;
                        v = x;
                        any = true;
                        if shorter == hi - i {
                            continue;
                        }
                    }
                }
                i = hi;
            }
            if size > 1 {
                size /= 2;
            } else if !any {
                break;
            }
        }
        // Lists inside concurrent operations.
        for i in 0..w.progs[k].ops.len() {
            let Op::Par(l) = &w.progs[k].ops[i] else { continue };
            for a in 0..l.len() {
                let mut b = 0;
                loop {
                    let Op::Par(l) = &w.progs[k].ops[i] else { break };
                    if b >= l[a].1.len() || out_of_time() {
                        break;
                    }
                    let mut c = w.clone();
                    if let Op::Par(l) = &mut c.progs[k].ops[i] {
                        l[a].1.remove(b);
                    }
                    match fails(&c, &v) {
                        Some(x) => {
                            w = c;
                            v = x;
                        }
                        None => b += 1,
                    }
                }
            }
        }
        // Sheets that nothing refers to.
        while let Some(c) = drop_last_sheet(&w, k) {
            if out_of_time() {
                break;
            }
            match fails(&c, &v) {
                Some(x) => {
                    w = c;
                    v = x;
                }
                None => break,
            }
        }
    }
    // Fewer faults, simpler environment.
    for k in 0..w.variants.len() {
        let mut tries: Vec<Box<dyn Fn(&mut judge::Variant)>> = vec![
            Box::new(|v| v.sched = Sched::plain()),
            Box::new(|v| v.sched.spurious = 0),
            Box::new(|v| v.cfg.eintr = 0),
            Box::new(|v| v.cfg.eintr_dest = 0),
            Box::new(|v| v.cfg.dribble.clear()),
            Box::new(|v| v.cfg.tick_ns = 0),
        ];
        for i in (0..w.variants[k].arms.len()).rev() {
            tries.push(Box::new(move |v| {
                if i < v.arms.len() {
                    v.arms.remove(i);
                }
            }));
        }
        for i in (0..w.variants[k].cfg.dribble.len()).rev() {
            tries.push(Box::new(move |v| {
                if i < v.cfg.dribble.len() {
                    v.cfg.dribble.remove(i);
                }
            }));
        }
        for i in (0..w.variants[k].cfg.faults.len()).rev() {
            tries.push(Box::new(move |v| {
                if i < v.cfg.faults.len() {
                    v.cfg.faults.remove(i);
                }
            }));
        }
        for i in (0..w.variants[k].vias.len()).rev() {
            tries.push(Box::new(move |v| {
                if i < v.vias.len() && v.vias.len() > 1 {
                    v.vias.remove(i);
                }
            }));
        }
        for f in tries {
            if out_of_time() {
                return (w, v);
            }
            let mut c = w.clone();
            f(&mut c.variants[k]);
            if serde_json::to_string(&c).ok() == serde_json::to_string(&w).ok() {
                continue;
            }
            if let Some(x) = fails(&c, &v) {
                w = c;
                v = x;
            }
        }
        // Write the schedule down and remove switches.
        if !matches!(w.variants[k].sched.mode, Mode::Plain | Mode::Explicit(_)) && w.progs.len() == 1 {
            let p = w.progs[0].clone();
            let var = w.variants[k].clone();
            let t = in_child(Duration::from_secs(120), || {
                let r = judge::exec(&p, &var);
                let d: Vec<u64> = if r.stats.decisions_full { vec![] } else { r.stats.decisions.iter().flat_map(|d| [d.0, d.1 as u64]).collect() };
                let mut x = w.clone();
                x.variants = vec![judge::Variant { x: d, ..judge::Variant::default() }];
                Trial { world: Some(x), ..Trial::default() }
            });
            let d: Vec<(u64, u32)> = t.world.map(|w| w.variants[0].x.chunks_exact(2).map(|c| (c[0], c[1] as u32)).collect()).unwrap_or_default();
            if !d.is_empty() {
                let mut c = w.clone();
                c.variants[k].sched.mode = Mode::Explicit(d.clone());
                if let Some(x) = fails(&c, &v) {
                    w = c;
                    v = x;
                    let mut size = (d.len() / 2).max(1);
                    loop {
                        let mut i = 0;
                        let mut any = false;
                        loop {
                            let Mode::Explicit(cur) = &w.variants[k].sched.mode else { break };
                            if i >= cur.len() || out_of_time() {
                                break;
                            }
                            let mut n = cur.clone();
                            n.drain(i..(i + size).min(cur.len()));
                            let mut c = w.clone();
                            c.variants[k].sched.mode = Mode::Explicit(n);
                            match fails(&c, &v) {
                                Some(x) => {
                                    w = c;
                                    v = x;
                                    any = true;
                                }
                                None => i += size,
                            }
                        }
                        if size > 1 {
                            size /= 2;
                        } else if !any || out_of_time() {
                            break;
                        }
                    }
                }
            }
        }
    }
    (w, v)
}

/// Remove the operations `lo..hi` of program `k` except those that create
/// sheets; keep per-operation faults on their operations.
fn cut(w: &World, k: usize, lo: usize, hi: usize) -> Option<World> {
    let p = &w.progs[k];
    let gone: BTreeSet<usize> = (lo..hi).filter(|i| !matches!(p.ops[*i], Op::Add { .. })).collect();
    if gone.is_empty() {
        return None;
    }
    let mut c = w.clone();
    c.progs[k] = judge::without(p, &gone);
    for v in c.variants.iter_mut() {
        v.arms = v.arms.iter().filter(|a| !gone.contains(&a.0)).map(|a| (a.0 - gone.iter().filter(|g| **g < a.0).count(), a.1.clone())).collect();
    }
    Some(c)
}
fn drop_last_sheet(w: &World, k: usize) -> Option<World> {
    let p = &w.progs[k];
    let i = p.ops.iter().rposition(|o| matches!(o, Op::Add { .. }))?;
    let h = p.ops.iter().filter(|o| matches!(o, Op::Add { .. })).count() - 1;
    if h == 0 {
        return None;
    }
    let gone: BTreeSet<usize> = p
        .ops
        .iter()
        .enumerate()
        .filter(|(j, o)| *j == i || matches!(o, Op::S(g, _) if *g == h) || matches!(o, Op::Swap(a, b) if *a == h || *b == h))
        .map(|(j, _)| j)
        .collect();
    let mut c = w.clone();
    c.progs[k] = judge::without(p, &gone);
    for v in c.variants.iter_mut() {
        if v.arms.iter().any(|a| gone.contains(&a.0)) {
            return None;
        }
        v.arms = v.arms.iter().map(|a| (a.0 - gone.iter().filter(|g| **g < a.0).count(), a.1.clone())).collect();
    }
    Some(c)
}

pub fn replay(path: &str) -> i32 {
    let s = std::fs::read(path).expect("replay file");
    let w: World = serde_json::from_slice(&s).expect("replay file");
    let t = trial(&w);
    match &t.viol {
        Some(v) => {
            println!("violation of {}: {}: {}", w.prop, v.kind, v.msg);
            println!("VIOLATION property={} replay={path}", w.prop);
            1
        }
        None if t.timeout => {
            println!("no answer in time");
            2
        }
        None => {
            println!("no violation: {} runs", t.info.runs);
            0
        }
    }
}

/// Development: judge one seed and show what happens.
pub fn one(prop: &str, seed: u64, thorough: bool, show: bool) -> i32 {
    let w = judge::prepare(prop, seed, thorough);
    if show {
        for (k, p) in w.progs.iter().enumerate() {
            for (i, f) in p.fmts.iter().enumerate() {
                println!("prog {k} fmt {i} {f:?}");
            }
            for (i, o) in p.ops.iter().enumerate() {
                println!("prog {k} op {i} {o:?}");
            }
        }
        for (i, v) in w.variants.iter().enumerate() {
            println!("variant {i} {v:?}");
        }
    }
    let t = trial(&w);
    println!("{:?}", t.viol);
    println!("runs {} counts {:?} injected {:?}", t.info.runs, t.info.counts, t.info.injected);
    exec::LAST_PANIC.lock().unwrap().clear();
    t.viol.is_some() as i32
}
