//! Seeded search, minimisation, replay and evidence.
use crate::case::*;
use crate::props::Prop;
use crate::rng::*;
use crate::rt::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}

pub struct RunOut {
    pub o: Outcome,
    /// every file below the working directory that is not an input, after the run
    pub files: BTreeMap<String, Vec<u8>>,
    /// an input that is not what it was
    pub input_changed: Option<String>,
}

#[derive(Clone)]
pub struct Bins {
    pub sim: PathBuf,
    pub lib: PathBuf,
}

fn walk(root: &Path, dir: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
    if let Ok(rd) = fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(root, &p, out);
            } else if let Ok(b) = fs::read(&p) {
                out.insert(p.strip_prefix(root).unwrap().to_string_lossy().into_owned(), b);
            }
        }
    }
}

pub fn exec_case(slot: &mut Slot, bins: &Bins, case: &Case, trace: bool) -> Vec<RunOut> {
    slot.clear();
    let mut inputs = BTreeMap::new();
    for f in &case.files {
        let p = slot.cwd.join(&f.path);
        if let Some(d) = p.parent() {
            fs::create_dir_all(d).expect("mkdir");
        }
        if let Some(b) = f.bytes() {
            fs::write(&p, &b).expect("write input");
            inputs.insert(f.path.clone(), b);
        }
    }
    for (path, content) in &case.extra {
        let p = slot.cwd.join(path);
        if path.ends_with('/') {
            fs::create_dir_all(&p).expect("mkdir");
            continue;
        }
        if let Some(d) = p.parent() {
            fs::create_dir_all(d).expect("mkdir");
        }
        if let Some(to) = content.strip_prefix(crate::case::LINK) {
            std::os::unix::fs::symlink(to, &p).expect("symlink");
            continue;
        }
        fs::write(&p, content).expect("write extra");
    }
    for name in case.runs.iter().filter_map(|r| r.opts.tokenizer.as_ref()) {
        let (file, text) = crate::model::tokenizer_file(name);
        for (f, t) in [(file, text.as_str()), (crate::model::tokenizer_ref(name), "r")] {
            let p = slot.cwd.join(f);
            fs::create_dir_all(p.parent().unwrap()).expect("mkdir");
            fs::write(&p, t).expect("write tokenizer");
        }
    }
    let mut outs = vec![];
    for (i, run) in case.runs.iter().enumerate() {
        let mut env = vec![("TERM".to_string(), "dumb".to_string()), ("HF_HOME".to_string(), "hf".to_string())];
        if let Some(c) = run.chan_cap {
            env.push(("WIMBD_SIM_CHANNEL_CAPACITY".into(), c.to_string()));
        }
        let lib = run.opts.cmd.starts_with("lib:");
        let argv = if lib { run.opts.lib_args(&case.argv_paths()) } else { case.cmdline(i) };
        let o = slot.run(if lib { &bins.lib } else { &bins.sim }, &argv, &env, &run.sim, trace);
        let mut all = BTreeMap::new();
        walk(&slot.cwd, &slot.cwd, &mut all);
        all.retain(|p, _| !p.starts_with("hf/"));
        let mut changed = None;
        for (p, b) in &inputs {
            match all.remove(p) {
                Some(x) if &x == b => {}
                _ => changed = Some(p.clone()),
            }
        }
        outs.push(RunOut { o, files: all, input_changed: changed });
    }
    outs
}

fn judge(p: &dyn Prop, case: &Case, outs: &[RunOut]) -> Result<(), Viol> {
    for r in outs {
        if r.o.verdict == V_INTERNAL || r.o.code == 95 || r.o.code == 96 {
            return Err(Viol { class: "HARNESS".into(), msg: format!("simulator error: code {} {}", r.o.code, r.o.msg) });
        }
        if let Some(f) = &r.input_changed {
            return Err(Viol { class: "input_changed".into(), msg: format!("the input file {f} was changed") });
        }
    }
    p.check(case, outs)
}

pub struct Cfg {
    pub verif: PathBuf,
    pub bins: Bins,
    pub seed: u64,
    pub tier: String,
    pub workers: usize,
    pub scale: f64,
    pub quiet: bool,
    pub only: Option<usize>,
}

#[derive(Default)]
struct Tally {
    cases: usize,
    runs: usize,
    steps: u64,
    sim_ns: u64,
    switches: u64,
    ctr: BTreeMap<String, u64>,
    fault_runs: usize,
    scheds: HashSet<u64>,
    nontrivial: HashSet<u64>,
    probes: BTreeMap<String, u64>,
    kinds: BTreeMap<String, u64>,
    policies: BTreeMap<String, u64>,
    det_checked: usize,
    det_bad: usize,
    samples: Vec<Value>,
    max_threads: u32,
}

pub fn scratch_root() -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() && fs::write("/dev/shm/.wimbdsim-probe", b"x").is_ok() {
        let _ = fs::remove_file("/dev/shm/.wimbdsim-probe");
        PathBuf::from("/dev/shm")
    } else {
        PathBuf::from("/tmp")
    };
    base.join(format!("wimbdsim-{:07}", std::process::id()))
}
pub struct RootGuard(pub PathBuf);
impl Drop for RootGuard {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}
pub fn cpus() -> Vec<usize> {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut set);
        (0..1024).filter(|i| libc::CPU_ISSET(*i, &set)).collect()
    }
}

fn describe_case(case: &Case) -> Value {
    json!({
        "kind": case.kind,
        "command": (0..case.runs.len()).map(|i| if case.runs[i].opts.cmd.starts_with("lib:") { case.runs[i].opts.lib_args(&case.argv_paths()).join(" ") } else { case.cmdline(i).join(" ") }).collect::<Vec<_>>(),
        "files": case.files.iter().map(|f| json!({"path": f.path, "lines": f.lines.len(), "members": f.members, "damage": format!("{:?}", f.damage)})).collect::<Vec<_>>(),
        "world": case.runs.iter().map(|r| json!({"policy": r.sim.policy, "sched_seed": r.sim.sched_seed, "p_jump": r.sim.p_jump, "p_short": r.sim.p_short, "faults": r.sim.faults, "channel": r.chan_cap})).collect::<Vec<_>>(),
    })
}

pub fn case_seed(cfg_seed: u64, prop: &str, idx: usize) -> u64 {
    mix(mix(cfg_seed ^ 0x51a7) ^ hash_str(prop) ^ mix(idx as u64))
}

pub fn run_prop(cfg: &Cfg, p: &dyn Prop) -> i32 {
    let t0 = Instant::now();
    let (nq, nt) = p.budget();
    let total = (((if cfg.tier == "thorough" { nt } else { nq }) as f64) * cfg.scale).ceil() as usize;
    let wall_cap = if cfg.tier == "thorough" { 3600 } else { 420 };
    let root = RootGuard(scratch_root());
    fs::create_dir_all(&root.0).expect("scratch root");
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let found: Mutex<Vec<(usize, Case, Viol)>> = Mutex::new(vec![]);
    let known_hit: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());
    let tally = Mutex::new(Tally::default());
    let known = load_known(&cfg.verif, p.id());
    let cpu = cpus();
    let nw = cfg.workers.max(1);
    std::thread::scope(|s| {
        for w in 0..nw {
            let (next, stop, capped, found, tally, known, known_hit, root, cpu) =
                (&next, &stop, &capped, &found, &tally, &known, &known_hit, &root, &cpu);
            s.spawn(move || {
                let mut slot = Slot::new(&root.0, w, cpu[w % cpu.len()]);
                let mut t = Tally::default();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= total || stop.load(Ordering::SeqCst) {
                        break;
                    }
                    if t0.elapsed().as_secs() > wall_cap {
                        capped.store(true, Ordering::SeqCst);
                        break;
                    }
                    if let Some(o) = cfg.only {
                        if o != i {
                            continue;
                        }
                    }
                    let seed = case_seed(cfg.seed, p.id(), i);
                    let mut r = Rng::new(seed);
                    let mut case = p.gen(&mut r, i);
                    case.prop = p.id().into();
                    let t1 = Instant::now();
                    let outs = exec_case(&mut slot, &cfg.bins, &case, false);
                    let t2 = Instant::now();
                    let verdict = judge(p, &case, &outs);
                    if std::env::var_os("SIM_SLOW").is_some() && t1.elapsed().as_secs() >= 5 {
                        let steps: Vec<_> = outs.iter().map(|o| (o.o.steps, o.o.ctr.clone())).collect();
                        eprintln!("slow: case {i} {} run {:?} judged {:?} steps {steps:?}", case.kind, t2 - t1, t2.elapsed());
                    }
                    // tally
                    t.cases += 1;
                    *t.kinds.entry(case.kind.clone()).or_default() += 1;
                    let mut interesting = false;
                    for (ri, o) in outs.iter().enumerate() {
                        t.runs += 1;
                        t.steps += o.o.steps;
                        t.sim_ns += o.o.sim_ns;
                        t.max_threads = t.max_threads.max(o.o.nthreads);
                        if o.o.ctr.is_empty() {
                            continue;
                        }
                        t.switches += o.o.ctr[0];
                        let mut any_fault = false;
                        for (k, name) in CTR_NAMES {
                            let n = o.o.ctr[k];
                            if n > 0 {
                                *t.ctr.entry(name.into()).or_default() += n;
                                if !matches!(k, 1 | 4 | 5 | 21) {
                                    any_fault = true;
                                }
                            }
                        }
                        if any_fault {
                            t.fault_runs += 1;
                        }
                        if o.o.ctr[1] > 0 || any_fault {
                            interesting = true;
                        }
                        t.scheds.insert(o.o.sched_hash);
                        let pol = ["random", "pct", "burst", "starve", "io-only", "serial"][case.runs[ri].sim.policy.min(5) as usize];
                        *t.policies.entry(pol.into()).or_default() += 1;
                    }
                    for pr in p.probes(&case, &outs) {
                        *t.probes.entry(pr.into()).or_default() += 1;
                    }
                    if interesting {
                        let h = outs.iter().fold(seed_of_case(&case), |h, o| mix(h ^ o.o.ev_hash));
                        t.nontrivial.insert(h);
                    }
                    if i < 3 {
                        t.samples.push(describe_case(&case));
                    }
                    // determinism: the same case again must be the same execution
                    if i % 97 == 0 {
                        let again = exec_case(&mut slot, &cfg.bins, &case, false);
                        t.det_checked += 1;
                        for (a, b) in outs.iter().zip(again.iter()) {
                            if a.o.ev_hash != b.o.ev_hash || a.o.stdout != b.o.stdout || a.o.code != b.o.code {
                                t.det_bad += 1;
                                eprintln!("note: case {i} of {} is not deterministic", p.id());
                                break;
                            }
                        }
                    }
                    if let Err(v) = verdict {
                        if let Some(k) = known.iter().find(|k| k.matches(&v)) {
                            known_hit.lock().unwrap().insert(k.what.clone());
                        } else {
                            found.lock().unwrap().push((i, case, v));
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                }
                let mut g = tally.lock().unwrap();
                g.cases += t.cases;
                g.runs += t.runs;
                g.steps += t.steps;
                g.sim_ns += t.sim_ns;
                g.switches += t.switches;
                g.fault_runs += t.fault_runs;
                g.det_checked += t.det_checked;
                g.det_bad += t.det_bad;
                g.max_threads = g.max_threads.max(t.max_threads);
                for (k, n) in t.ctr {
                    *g.ctr.entry(k).or_default() += n;
                }
                for (k, n) in t.probes {
                    *g.probes.entry(k).or_default() += n;
                }
                for (k, n) in t.kinds {
                    *g.kinds.entry(k).or_default() += n;
                }
                for (k, n) in t.policies {
                    *g.policies.entry(k).or_default() += n;
                }
                g.scheds.extend(t.scheds);
                g.nontrivial.extend(t.nontrivial);
                g.samples.extend(t.samples);
            });
        }
    });
    let explore_s = t0.elapsed().as_secs_f64();
    for k in known_hit.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} {}", p.id(), k);
    }
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| f.0);
    let mut code = 0;
    let mut viol = 0;
    let mut replay_info = Value::Null;
    if let Some((i, case, v)) = found.into_iter().next() {
        if v.class == "HARNESS" {
            eprintln!("harness error in case {i} of {}: {}", p.id(), v.msg);
            return 2;
        }
        eprintln!("case {i} of {} violates it [{}]: {}", p.id(), v.class, v.msg);
        if std::env::var_os("SIM_NOMIN").is_some() {
            return 1;
        }
        let mut slot = Slot::new(&root.0, 90, cpu[0]);
        let (small, v2, stages) = minimise(&mut slot, cfg, p, case, v);
        let dir = cfg.verif.join("replays");
        fs::create_dir_all(&dir).expect("replays");
        let path = dir.join(format!("{}-seed{}-case{}.json", p.id(), cfg.seed, i));
        let outs = exec_case(&mut slot, &cfg.bins, &small, true);
        let fin = judge(p, &small, &outs).err();
        let doc = json!({
            "property": p.id(),
            "seed": cfg.seed,
            "case": i,
            "violation": fin.clone().unwrap_or(v2.clone()),
            "minimised": stages,
            "events": outs.iter().map(|o| json!({"ev_hash": format!("{:016x}", o.o.ev_hash), "steps": o.o.steps, "ends": o.o.describe(), "switches": o.o.trace.iter().take(400).map(|t| json!({"step": t.0, "from": t.1, "to": t.2, "kind": t.3, "pc": format!("{:#x}", t.4)})).collect::<Vec<_>>() })).collect::<Vec<_>>(),
            "setup": small,
        });
        fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("write replay");
        // a fresh process must see the same thing
        let me = std::env::current_exe().unwrap();
        let st = std::process::Command::new(me).arg("replay").arg(&path).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
        let reproduced = st.map(|s| s.code() == Some(1)).unwrap_or(false);
        replay_info = json!({"path": path, "reproduced_in_fresh_process": reproduced, "class": v2.class});
        println!("{}: {} [{}]", p.id(), fin.map(|f| f.msg).unwrap_or(v2.msg), v2.class);
        println!("VIOLATION property={} replay={}", p.id(), path.display());
        code = 1;
        viol = 1;
    }
    let g = tally.into_inner().unwrap();
    let ev = json!({
        "property": p.id(),
        "tier": cfg.tier,
        "seed": cfg.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": g.cases,
            "distinct_nontrivial": g.nontrivial.len(),
            "rule": format!("{} A case is non-trivial if the scheduler preempted a runnable thread or a fault fired in it; distinct by case content and the hash of the whole event sequence.", p.rule()),
            "samples": g.samples,
            "simulated_process_runs": g.runs,
            "seeds_per_hour": (g.cases as f64 / explore_s * 3600.0) as u64,
            "simulated_seconds": g.sim_ns as f64 / 1e9,
            "scheduling_points": g.steps,
            "context_switches": g.switches,
            "distinct_interleavings": g.scheds.len(),
            "distinct_interleavings_measure": "hash of the sequence of context switches (from, to, program counter) of one process run",
            "events_and_faults": g.ctr,
            "runs_with_a_fault": g.fault_runs,
            "case_kinds": g.kinds,
            "schedulers": g.policies,
            "probes": g.probes,
            "max_threads": g.max_threads,
            "determinism_rechecks": g.det_checked,
            "determinism_mismatches": g.det_bad,
            "stopped_by_wall_clock": capped.load(Ordering::SeqCst),
            "real_components": p.real(),
            "stub_components": p.stub(),
            "violation": replay_info,
        },
        "assumptions": p.assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": viol,
    });
    let evd = cfg.verif.join("evidence");
    fs::create_dir_all(&evd).expect("evidence");
    fs::write(evd.join(format!("{}.json", p.id())), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    if !cfg.quiet {
        eprintln!(
            "{}: {} cases, {} runs, {} distinct interleavings, {} runs with faults, {:.1}s, determinism {}/{} ok",
            p.id(), g.cases, g.runs, g.scheds.len(), g.fault_runs, explore_s, g.det_checked - g.det_bad, g.det_checked
        );
        if !g.probes.is_empty() {
            eprintln!("   probes {:?}", g.probes);
        }
        eprintln!("   kinds {:?} faults {:?}", g.kinds, g.ctr);
    }
    code
}

fn seed_of_case(c: &Case) -> u64 {
    hash_str(&serde_json::to_string(c).unwrap())
}

// ------------------------------------------------------------ known findings

#[derive(Deserialize)]
pub struct Known {
    pub property: String,
    pub class: String,
    #[serde(default)]
    pub contains: String,
    pub what: String,
}
impl Known {
    fn matches(&self, v: &Viol) -> bool {
        self.class == v.class && v.msg.contains(&self.contains)
    }
}
fn load_known(verif: &Path, id: &str) -> Vec<Known> {
    let mut k = vec![];
    if let Ok(s) = fs::read_to_string(verif.join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(j) = l.strip_prefix("finding: ") {
                if let Ok(x) = serde_json::from_str::<Known>(j) {
                    if x.property == id {
                        k.push(x);
                    }
                }
            }
        }
    }
    k
}

// -------------------------------------------------------------- minimisation

fn same(slot: &mut Slot, cfg: &Cfg, p: &dyn Prop, case: &Case, class: &str) -> Option<(Viol, Vec<RunOut>)> {
    let outs = exec_case(slot, &cfg.bins, case, false);
    match judge(p, case, &outs) {
        Err(v) if v.class == class => Some((v, outs)),
        _ => None,
    }
}

/// the case, or the case under one of a few other schedules
fn same_any(slot: &mut Slot, cfg: &Cfg, p: &dyn Prop, case: &Case, class: &str, tries: usize) -> Option<(Case, Viol)> {
    for k in 0..tries {
        let mut c = case.clone();
        if k > 0 {
            for r in &mut c.runs {
                r.sim.sched_seed = mix(r.sim.sched_seed ^ k as u64) >> 1;
            }
        }
        if let Some((v, _)) = same(slot, cfg, p, &c, class) {
            return Some((c, v));
        }
    }
    None
}

fn candidates(case: &Case) -> Vec<Case> {
    let mut out: Vec<Case> = vec![];
    let mut push = |c: Case| out.push(c);
    for i in 0..case.files.len() {
        if case.files.len() > 1 && (case.paths.is_empty() || !case.paths.contains(&case.files[i].path)) {
            let mut c = case.clone();
            c.files.remove(i);
            push(c);
        }
    }
    for i in 0..case.files.len() {
        let n = case.files[i].lines.len();
        if n > 1 {
            for (a, b) in [(0, n / 2), (n / 2, n)] {
                let mut c = case.clone();
                c.files[i].lines.drain(a..b);
                push(c);
            }
        }
        for j in 0..n.min(12) {
            let mut c = case.clone();
            c.files[i].lines.remove(j);
            push(c);
        }
        let f = &case.files[i];
        if !f.members.is_empty() || f.ragged || f.fancy_header || f.open_end || f.crlf || f.level != 6 {
            let mut c = case.clone();
            let g = &mut c.files[i];
            g.members.clear();
            g.ragged = false;
            g.fancy_header = false;
            g.open_end = false;
            g.crlf = false;
            g.level = 6;
            push(c);
        }
        for j in 0..n.min(12) {
            let words: Vec<String> = match &case.files[i].lines[j] {
                Line::Doc(Some(t)) | Line::Rich(t) | Line::Padded(t, _) => t.split_whitespace().map(|s| s.to_string()).collect(),
                _ => continue,
            };
            let m = words.len();
            if m > 1 {
                for (a, b) in [(0, m / 2), (m / 2, m), (0, 1), (m - 1, m)] {
                    let mut w = words.clone();
                    w.drain(a..b);
                    let mut c = case.clone();
                    c.files[i].lines[j] = Line::Doc(Some(w.join(" ")));
                    push(c);
                }
            }
        }
    }
    for i in 0..case.runs.len() {
        let r = &case.runs[i];
        if r.sim.p_short + r.sim.p_delay + r.sim.p_eintr + r.sim.p_jump + r.sim.p_spur > 0 {
            for k in 0..5 {
                let mut c = case.clone();
                let s = &mut c.runs[i].sim;
                match k {
                    0 => s.p_short = 0,
                    1 => s.p_delay = 0,
                    2 => s.p_eintr = 0,
                    3 => s.p_jump = 0,
                    _ => s.p_spur = 0,
                }
                push(c);
            }
        }
        for j in 0..r.sim.faults.len() {
            let mut c = case.clone();
            c.runs[i].sim.faults.remove(j);
            push(c);
        }
        if r.opts.workers > 1 {
            let mut c = case.clone();
            c.runs[i].opts.workers -= 1;
            push(c);
        }
        if !r.opts.quiet {
            let mut c = case.clone();
            c.runs[i].opts.quiet = true;
            push(c);
        }
        if r.chan_cap.is_some() {
            let mut c = case.clone();
            c.runs[i].chan_cap = None;
            push(c);
        }
        if r.opts.k > 1 && case.runs.len() == 1 {
            let mut c = case.clone();
            c.runs[i].opts.k -= 1;
            push(c);
        }
    }
    out
}

fn size_of(c: &Case) -> usize {
    c.files.iter().map(|f| 20 + f.lines.iter().map(|l| 5 + l.text().map(|t| t.len()).unwrap_or(0)).sum::<usize>()).sum::<usize>()
}

pub fn minimise(slot: &mut Slot, cfg: &Cfg, p: &dyn Prop, case: Case, v: Viol) -> (Case, Viol, Value) {
    let t0 = Instant::now();
    let class = v.class.clone();
    let size0 = size_of(&case);
    let (mut best, mut bv) = (case, v);
    if same(slot, cfg, p, &best, &class).is_none() {
        return (best, bv, json!({"note": "the violation did not repeat in the same process; the seeded case is kept as it is"}));
    }
    let mut tried = 0;
    if best.runs.iter().all(|r| r.sim.decisions.is_none()) {
        'outer: loop {
            for c in candidates(&best) {
                if t0.elapsed().as_secs() > 40 {
                    break 'outer;
                }
                if !p.valid(&c) {
                    continue;
                }
                tried += 1;
                if let Some((c2, v2)) = same_any(slot, cfg, p, &c, &class, 6) {
                    best = c2;
                    bv = v2;
                    continue 'outer;
                }
            }
            break;
        }
    }
    // pin every scheduling decision and every fault that fired
    let outs = exec_case(slot, &cfg.bins, &best, false);
    let mut pinned = best.clone();
    let mut over = false;
    for (r, o) in pinned.runs.iter_mut().zip(outs.iter()) {
        over |= o.o.log_over;
        let mut faults: Vec<Fault> = r.sim.faults.iter().filter(|f| f.cls == F_STEP).cloned().collect();
        faults.extend(o.o.flog.iter().cloned());
        over |= faults.len() > MAX_FAULTS;
        r.sim.faults = faults;
        r.sim.p_short = 0;
        r.sim.p_delay = 0;
        r.sim.p_eintr = 0;
        r.sim.decisions = Some(o.o.log.clone());
    }
    let n_dec0: usize = pinned.runs.iter().map(|r| r.sim.decisions.as_ref().unwrap().len()).sum();
    let n_f0: usize = pinned.runs.iter().map(|r| r.sim.faults.len()).sum();
    let mut n_dec1 = n_dec0;
    let mut pinned_ok = false;
    if !over {
        if let Some((v2, _)) = same(slot, cfg, p, &pinned, &class) {
            pinned_ok = true;
            bv = v2;
            best = pinned;
            for ri in 0..best.runs.len() {
                // faults first, then decisions, by delta debugging
                let t1 = Instant::now();
                let faults = best.runs[ri].sim.faults.clone();
                let keep = ddmin(faults.len(), |sel| {
                    if t1.elapsed().as_secs() > 15 {
                        return false;
                    }
                    let mut c = best.clone();
                    c.runs[ri].sim.faults = sel.iter().map(|i| faults[*i].clone()).collect();
                    p.valid(&c) && same(slot, cfg, p, &c, &class).is_some()
                });
                best.runs[ri].sim.faults = keep.iter().map(|i| faults[*i].clone()).collect();
                let decs = best.runs[ri].sim.decisions.clone().unwrap();
                let t1 = Instant::now();
                let keep = ddmin(decs.len(), |sel| {
                    if t1.elapsed().as_secs() > 30 {
                        return false;
                    }
                    let mut c = best.clone();
                    c.runs[ri].sim.decisions = Some(sel.iter().map(|i| decs[*i].clone()).collect());
                    same(slot, cfg, p, &c, &class).is_some()
                });
                best.runs[ri].sim.decisions = Some(keep.iter().map(|i| decs[*i].clone()).collect());
            }
            n_dec1 = best.runs.iter().map(|r| r.sim.decisions.as_ref().unwrap().len()).sum();
            if let Some((v2, _)) = same(slot, cfg, p, &best, &class) {
                bv = v2;
            }
        }
    }
    let n_f1: usize = best.runs.iter().map(|r| r.sim.faults.len()).sum();
    let st = json!({
        "workload_size": [size0, size_of(&best)],
        "workload_candidates_tried": tried,
        "decisions_pinned": pinned_ok,
        "scheduling_decisions": [n_dec0, n_dec1],
        "faults": [n_f0, n_f1],
        "seconds": t0.elapsed().as_secs_f64(),
    });
    (best, bv, st)
}

/// smallest subset found for which `bad` still holds; `bad` holds for the whole set
pub fn ddmin(n: usize, mut bad: impl FnMut(&[usize]) -> bool) -> Vec<usize> {
    let mut cur: Vec<usize> = (0..n).collect();
    if n == 0 || bad(&[]) {
        return vec![];
    }
    let mut parts = 2;
    while cur.len() >= 2 {
        let chunk = (cur.len() + parts - 1) / parts;
        let mut reduced = false;
        let mut i = 0;
        while i < cur.len() {
            let e = (i + chunk).min(cur.len());
            let rest: Vec<usize> = cur[..i].iter().chain(cur[e..].iter()).cloned().collect();
            if bad(&rest) {
                cur = rest;
                parts = parts.saturating_sub(1).max(2);
                reduced = true;
                break;
            }
            i = e;
        }
        if !reduced {
            if chunk == 1 {
                break;
            }
            parts = (parts * 2).min(cur.len());
        }
    }
    cur
}

pub fn replay(cfg: &Cfg, p: &dyn Prop, path: &Path) -> i32 {
    let doc: Value = serde_json::from_str(&fs::read_to_string(path).expect("read replay")).expect("parse replay");
    let case: Case = serde_json::from_value(doc["setup"].clone()).expect("replay setup");
    let root = RootGuard(scratch_root());
    fs::create_dir_all(&root.0).expect("scratch root");
    let mut slot = Slot::new(&root.0, 0, cpus()[0]);
    let outs = exec_case(&mut slot, &cfg.bins, &case, true);
    for (i, o) in outs.iter().enumerate() {
        println!("process {i}: {} after {} steps, event hash {:016x} (recorded {})", o.o.describe(), o.o.steps, o.o.ev_hash, doc["events"][i]["ev_hash"]);
        println!("  stdout: {}", o.o.stdout_s().trim_end());
        println!("  stderr: {}", o.o.stderr_s().trim_end());
    }
    match judge(p, &case, &outs) {
        Err(v) => {
            println!("{}: {} [{}]", p.id(), v.msg, v.class);
            println!("VIOLATION property={} replay={}", p.id(), path.display());
            let want: Viol = serde_json::from_value(doc["violation"].clone()).unwrap();
            if want.class != v.class {
                println!("note: the recorded violation was {}", want.class);
            }
            1
        }
        Ok(()) => {
            println!("the property holds in this replay");
            0
        }
    }
}

/// the same cases twice, in different slots and worker counts; event logs must agree
pub fn determinism(cfg: &Cfg, p: &dyn Prop, n: usize) -> usize {
    let root = RootGuard(scratch_root());
    fs::create_dir_all(&root.0).expect("scratch root");
    let cpu = cpus();
    let mut all: Vec<Vec<(usize, Vec<(u64, u64, i32, Vec<u8>)>)>> = vec![];
    for (round, nw) in [(0, 8usize), (1, 3)] {
        let next = AtomicUsize::new(0);
        let res = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for w in 0..nw {
                let (next, res, root, cpu) = (&next, &res, &root, &cpu);
                s.spawn(move || {
                    let mut slot = Slot::new(&root.0, round * 20 + w, cpu[(w + round) % cpu.len()]);
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n {
                            break;
                        }
                        let mut r = Rng::new(case_seed(cfg.seed, p.id(), i));
                        let case = p.gen(&mut r, i);
                        let outs = exec_case(&mut slot, &cfg.bins, &case, false);
                        let sig: Vec<_> = outs.iter().map(|o| (o.o.ev_hash, o.o.sched_hash, o.o.code, o.o.stdout.clone())).collect();
                        res.lock().unwrap().push((i, sig));
                    }
                });
            }
        });
        let mut v = res.into_inner().unwrap();
        v.sort_by_key(|x| x.0);
        all.push(v);
    }
    let mut bad = 0;
    for (a, b) in all[0].iter().zip(all[1].iter()) {
        if a != b {
            bad += 1;
            if bad < 5 {
                println!("{} case {} differs", p.id(), a.0);
            }
        }
    }
    println!("{}: {} cases twice, {} differ", p.id(), n, bad);
    bad
}
