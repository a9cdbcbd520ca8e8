//! The properties decided on the Rust tool: how cases are made and how they are judged.
use crate::case::*;
use crate::engine::RunOut;
use crate::model;
use crate::oracle::{self, bad, expect_fail, expect_ok, v, R};
use crate::rng::Rng;
use crate::rt::*;

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    fn budget(&self) -> (usize, usize);
    fn rule(&self) -> &'static str;
    fn gen(&self, r: &mut Rng, i: usize) -> Case;
    fn check(&self, case: &Case, outs: &[RunOut]) -> R;
    fn valid(&self, _case: &Case) -> bool {
        true
    }
    fn probes(&self, _case: &Case, _outs: &[RunOut]) -> Vec<&'static str> {
        vec![]
    }
    fn real(&self) -> Vec<&'static str> {
        vec![
            "the whole wimbd command line program built from /repo (argument parsing, executor, thread pool, channels, counters, gzip and JSON reading, output)",
            "Rust std, threadpool, indicatif, flate2, serde_json, ahash as shipped",
            "file contents: real files in a scratch directory",
        ]
    }
    fn stub(&self) -> Vec<&'static str> {
        vec![
            "thread scheduler, futex, clocks, sleep, getrandom, heap placement (simulated in process)",
            "the Hugging Face hub: tokenizers are found in its local cache; there is no network (getaddrinfo and socket fail)",
            "results of open, read, write, close, stat, mkdir, opendir, readdir on the scratch files (intercepted, faults by seed)",
        ]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "memory operations are sequentially consistent in the simulation: reorderings that a weaker memory model allows are not explored",
            "threads switch only at atomic operations, futex, I/O, thread and time calls; data races on plain memory are excluded by safe Rust",
            "no hash collision among the few n-grams of a case where exact counts are demanded (table of 2^18 cells, 4 to 6 hash functions: below 1e-8 per case)",
        ]
    }
}

pub struct Spec {
    id: &'static str,
    budget: (usize, usize),
    rule: &'static str,
    gen: fn(&mut Rng, usize) -> Case,
    check: fn(&Case, &[RunOut]) -> R,
    valid: fn(&Case) -> bool,
    probes: fn(&Case, &[RunOut]) -> Vec<&'static str>,
}
impl Prop for Spec {
    fn id(&self) -> &'static str {
        self.id
    }
    fn budget(&self) -> (usize, usize) {
        self.budget
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn gen(&self, r: &mut Rng, i: usize) -> Case {
        let mut c = (self.gen)(r, i);
        let text: usize = c.files.iter().flat_map(|f| f.lines.iter()).map(|l| if let Line::Padded(_, n) = l { *n } else { l.text().map_or(0, |t| t.len()) }).sum();
        if text > 30_000 {
            // long answers in pieces of a few bytes would take minutes
            for x in &mut c.runs {
                x.sim.p_short = x.sim.p_short.min(4000);
                x.sim.short_max = x.sim.short_max.max(300);
                // what a run may take grows with the work there is
                x.sim.max_steps += text as u64 * (10 + 6 * x.opts.hashes as u64);
                if text > 120_000 {
                    // nor are lists of more than 65536 locations worth it
                    x.opts.with_locations &= x.opts.locations_limit.is_some();
                    x.sim.p_short = x.sim.p_short.min(500);
                    x.sim.short_max = x.sim.short_max.max(3000);
                }
            }
        }
        c
    }
    fn check(&self, case: &Case, outs: &[RunOut]) -> R {
        (self.check)(case, outs)
    }
    fn valid(&self, case: &Case) -> bool {
        !case.files.is_empty() && (self.valid)(case)
    }
    fn probes(&self, case: &Case, outs: &[RunOut]) -> Vec<&'static str> {
        (self.probes)(case, outs)
    }
}

pub const CMDS: [&str; 6] = ["topk", "botk", "count", "search", "stats", "unique"];
const CORPUS: CorpusCfg = CorpusCfg { max_files: 5, max_docs: 6, max_words: 9, odd_lines: true };

fn case(kind: &str, files: Vec<FileSpec>, runs: Vec<Run>) -> Case {
    Case { prop: String::new(), kind: kind.into(), files, extra: vec![], paths: vec![], runs }
}
fn words_of(files: &[FileSpec]) -> Vec<String> {
    let mut w: Vec<String> = files
        .iter()
        .flat_map(|f| f.lines.iter())
        .filter_map(|l| l.text())
        .flat_map(|t| model::tokens(t))
        // one argument of a command line has its limits
        .filter(|t| t.len() < 4000)
        .collect();
    w.sort();
    w.dedup();
    if w.is_empty() {
        w.push("a".into());
    }
    w
}
fn cap(r: &mut Rng) -> Option<u32> {
    if r.chance(2, 5) {
        Some(*r.pick(&[1, 1, 2, 3, 8, 64]))
    } else if r.chance(9, 10) {
        // as good as unbounded for these inputs, and much cheaper to set up than the real one
        Some(4096)
    } else {
        None
    }
}
fn gen_seed(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        _ => r.next() >> 8,
    }
}
/// options of one command that give an exactly known answer
pub fn gen_opts(r: &mut Rng, cmd: &str, files: &[FileSpec]) -> Opts {
    let mut o = Opts::new(cmd);
    o.workers = r.range(1, 5);
    o.quiet = r.chance(3, 5);
    // many distinct n-grams: a larger table, so that exact counts stay exact
    let words: usize = files.iter().flat_map(|f| f.lines.iter()).filter_map(|l| l.text()).map(|t| t.len()).sum();
    let big = words > 1500;
    match cmd {
        "topk" | "botk" => {
            o.n = if r.chance(1, 10) { r.range(4, 12) } else { r.range(1, 3) };
            o.k = match r.below(20) {
                0..=3 => 1,
                4..=6 => 100,
                7 => 5000,
                _ => r.range(1, 8),
            };
            o.hashes = if big { 6 } else { r.range(4, 6) };
            // any table size must do, a power of two or not
            o.size = r.pick(if big { &["4MiB", "4MB", "4200001B"] } else { &["1MiB", "1MiB", "1MB", "1100001B"] }).to_string();
            if r.chance(1, 3) {
                o.seed = Some(gen_seed(r));
            }
            if cmd == "topk" {
                o.u64_ = r.chance(1, 3);
                if o.u64_ {
                    o.size = r.pick(if big { &["8MiB", "8MB", "8500001B"] } else { &["2MiB", "2MiB", "2MB", "2200001B"] }).to_string();
                }
                if r.chance(1, 2) {
                    o.threshold = Some(r.below(4) as u32);
                }
            } else if r.chance(1, 3) {
                o.threshold = Some(*r.pick(&[2, 3, 5, 20]));
            } 
            if cmd == "botk" && r.chance(1, 6) {
                o.p_keep = Some("1".into());
            }
        }
        "unique" => {
            o.n = if r.chance(1, 10) { r.range(4, 12) } else { r.range(1, 3) };
            o.hashes = r.range(1, 5);
            o.size = r.pick(if big { &["64KiB", "64KiB", "70KB"] } else { &["8KiB", "16KiB", "10KB", "12345B", "20001B"] }).to_string();
            if r.chance(1, 3) {
                o.seed = Some(gen_seed(r));
            }
        }
        "count" => {
            let mut w = words_of(files);
            if big {
                // the word a very long document repeats
                if let Some(x) = files.iter().flat_map(|f| f.lines.iter()).find_map(|l| match l {
                    Line::Doc(Some(t)) if t.len() > 60_000 => t.split(' ').next().filter(|x| !x.is_empty() && x.len() < 100).map(|x| x.to_string()),
                    _ => None,
                }) {
                    for _ in 0..w.len() {
                        w.push(x.clone());
                    }
                }
            }
            let np = if r.chance(1, 12) { r.range(4, 20) } else { r.range(1, 3) };
            let mut seen: Vec<Vec<String>> = vec![];
            for _ in 0..np {
                let len = if r.chance(1, 12) { r.range(4, 7) } else { r.range(1, 3) };
                let s: Vec<String> = (0..len).map(|_| r.pick(&w).clone()).collect();
                let s = s.join(" ");
                let t = model::tokens(&s);
                if !seen.contains(&t) && !t.is_empty() && !s.starts_with('-') {
                    seen.push(t);
                    o.patterns.push(s);
                }
            }
            if o.patterns.is_empty() {
                o.patterns.push("a".into());
            }
        }
        "search" => {
            let w = words_of(files);
            let np = if r.chance(1, 12) { r.range(4, 20) } else { r.range(1, 3) };
            for _ in 0..np {
                let p = match r.below(8) {
                    0 => "[ab]".to_string(),
                    1 => ".".into(),
                    2 => "a*".into(),
                    3 => "(?i)THE|x".into(),
                    4 => format!("{} {}", regex::escape(r.pick(&w)), regex::escape(r.pick(&w))),
                    5 => "\\w+".into(),
                    _ => regex::escape(r.pick(&w)),
                };
                if !o.patterns.contains(&p) {
                    o.patterns.push(p);
                }
            }
            o.with_locations = r.chance(2, 3);
        }
        _ => {}
    }
    // a pretrained tokenizer; only where the table is certain to hold what it yields
    if cmd != "search" && !big && r.chance(1, 4) {
        o.tokenizer = Some(model::TOKENIZERS[r.below(2)].into());
    }
    o
}
fn run(r: &mut Rng, o: Opts, w: World) -> Run {
    Run { sim: gen_sim(r, w), opts: o, chan_cap: cap(r) }
}
fn always(_: &Case) -> bool {
    true
}
fn basic_probes(case: &Case, outs: &[RunOut]) -> Vec<&'static str> {
    let mut p = vec![];
    if outs.iter().any(|o| o.o.nthreads > 2) {
        p.push("several_workers");
    }
    if case.runs.iter().any(|r| matches!(r.chan_cap, Some(c) if c <= 3)) {
        p.push("tiny_channel");
    }
    if case.files.iter().any(|f| !f.members.is_empty()) {
        p.push("multi_member_gzip");
    }
    if case.runs.iter().any(|r| r.opts.tokenizer.is_some()) {
        p.push("pretrained_tokenizer");
    }
    p
}

// ------------------------------------------------------------------ C01 .. : answers

/// sometimes, print the answer for people
fn people(r: &mut Rng, mut o: Opts) -> Opts {
    if r.chance(1, 8) {
        o.json = false;
        o.quiet = false;
    }
    o
}
/// two runs of one command line under two schedules and worker counts
fn gen_pair(r: &mut Rng, cmd: &str) -> Case {
    let files = gen_corpus(r, &CORPUS);
    let o = gen_opts(r, cmd, &files);
    let o = people(r, o);
    let mut o2 = o.clone();
    o2.workers = r.range(1, 5);
    o2.quiet = r.chance(1, 2);
    let a = run(r, o, FULL);
    let b = run(r, o2, FULL);
    case(cmd, files, vec![a, b])
}
fn check_all(case: &Case, outs: &[RunOut]) -> R {
    for (i, o) in outs.iter().enumerate() {
        expect_ok(&format!("run {i}"), o)?;
        oracle::result(case, &case.runs[i].opts, &o.o.stdout)?;
    }
    Ok(())
}
fn check_pair(case: &Case, outs: &[RunOut]) -> R {
    check_all(case, outs)?;
    if outs.len() == 2 && outs[0].o.stdout != outs[1].o.stdout && case.runs[0].opts.p_keep.is_none() {
        bad!("schedule_dependent", "the same command gives {:?} under one schedule and {:?} under another", outs[0].o.stdout_s(), outs[1].o.stdout_s());
    }
    Ok(())
}
/// few n-grams, one of them spread over all files, k small: contention on the same counters
fn gen_contended(r: &mut Rng, cmd: &str) -> Case {
    let nf = r.range(2, 4);
    let vocab: &[&str] = if r.chance(1, 2) { &["a", "b"] } else { &["a", "b", "c"] };
    let files: Vec<FileSpec> = (0..nf)
        .map(|i| {
            let mut f = gen_file(r, format!("f{i}.json.gz"), &CorpusCfg { max_files: 1, max_docs: 3, max_words: 5, odd_lines: false }, vocab);
            if f.lines.is_empty() {
                f.lines.push(Line::Doc(Some("a b a".into())));
            }
            f
        })
        .collect();
    let mut o = gen_opts(r, cmd, &files);
    o.n = r.range(1, 2);
    o.k = r.range(1, 3);
    o.workers = nf;
    if cmd == "topk" {
        o.threshold = Some(r.below(3) as u32);
    }
    let mut o2 = o.clone();
    o2.workers = 1;
    let a = run(r, o, World { sched: true, jumps: true, soft_io: false });
    let b = run(r, o2, World { sched: false, jumps: false, soft_io: false });
    case(&format!("{cmd}-contended"), files, vec![a, b])
}

fn c01_gen(r: &mut Rng, _: usize) -> Case {
    if r.chance(1, 2) {
        gen_contended(r, "topk")
    } else {
        gen_pair(r, "topk")
    }
}

fn small_table(r: &mut Rng, cmd: &str) -> Case {
    let mut c = if r.chance(1, 2) { gen_contended(r, cmd) } else { gen_pair(r, cmd) };
    let size = r.pick(&["16B", "40B", "64B", "256B", "1000B", "4KiB"]).to_string();
    let hashes = r.range(1, 6);
    for run in &mut c.runs {
        run.opts.size = size.clone();
        run.opts.hashes = hashes;
        run.opts.p_keep = None;
    }
    c.kind = format!("{}-small-table", c.kind);
    c
}
fn c02_gen(r: &mut Rng, _: usize) -> Case {
    small_table(r, "topk")
}
fn c02_check(case: &Case, outs: &[RunOut]) -> R {
    for (i, o) in outs.iter().enumerate() {
        expect_ok(&format!("run {i}"), o)?;
        oracle::topk_bound(case, &case.runs[i].opts, &o.o.stdout)?;
    }
    Ok(())
}
fn c03_gen(r: &mut Rng, _: usize) -> Case {
    match r.below(6) {
        0 | 1 => gen_contended(r, "botk"),
        2 => small_table(r, "botk"),
        3 => {
            let mut c = gen_pair(r, "botk");
            for x in &mut c.runs {
                x.opts.p_keep = Some("0.5".into());
            }
            c.kind = "botk-p-keep".into();
            c
        }
        _ => gen_pair(r, "botk"),
    }
}
fn c03_check(case: &Case, outs: &[RunOut]) -> R {
    if case.kind.ends_with("small-table") {
        for (i, o) in outs.iter().enumerate() {
            expect_ok(&format!("run {i}"), o)?;
            oracle::botk_bound(case, &case.runs[i].opts, &o.o.stdout)?;
        }
        return Ok(());
    }
    check_pair(case, outs)
}
fn one(r: &mut Rng, cmd: &str) -> Case {
    let files = gen_corpus(r, &CORPUS);
    let o = gen_opts(r, cmd, &files);
    let o = people(r, o);
    let a = run(r, o, FULL);
    case(cmd, files, vec![a])
}
fn c04_gen(r: &mut Rng, _: usize) -> Case {
    one(r, "count")
}
fn c05_gen(r: &mut Rng, _: usize) -> Case {
    one(r, "search")
}
fn c06_gen(r: &mut Rng, _: usize) -> Case {
    let mut c = one(r, "search");
    c.runs[0].opts.with_locations = true;
    c.runs[0].opts.json = true;
    c.runs[0].opts.locations_limit = Some(r.below(9));
    c.kind = "search-locations-limit".into();
    c
}
fn c07_gen(r: &mut Rng, _: usize) -> Case {
    let mut c = one(r, "stats");
    if r.chance(1, 2) {
        // documents of few different lengths: many ties for longest and shortest
        for f in &mut c.files {
            let n = r.range(1, 5);
            f.lines = (0..n).map(|_| Line::Doc(Some(vec!["a"; r.range(0, 3)].join(" ")))).collect();
        }
        c.kind = "stats-ties".into();
    }
    c
}
fn c08_gen(r: &mut Rng, _: usize) -> Case {
    let cmd = if r.chance(2, 3) { "unique" } else { "botk" };
    let mut c = gen_pair(r, cmd);
    let seed = Some(gen_seed(r));
    for x in &mut c.runs {
        x.opts.seed = seed;
        x.opts.json = true;
        x.opts.p_keep = None;
    }
    if c.runs[0].opts.cmd == "botk" {
        let size = r.pick(&["40B", "256B", "1000B", "4KiB"]).to_string();
        for x in &mut c.runs {
            x.opts.size = size.clone();
            x.opts.threshold = None;
        }
    } else if r.chance(1, 6) {
        // one n-gram often enough to pass the range of a small counter, from several files
        let reps = r.range(100, 300);
        for f in c.files.iter_mut().take(2) {
            f.lines.push(Line::Doc(Some(vec!["a"; reps].join(" "))));
        }
        for x in &mut c.runs {
            x.opts.n = 1;
        }
        c.kind = "unique-saturating".into();
    }
    c
}
fn c08_check(_: &Case, outs: &[RunOut]) -> R {
    for (i, o) in outs.iter().enumerate() {
        expect_ok(&format!("run {i}"), o)?;
    }
    if outs.len() == 2 && outs[0].o.stdout != outs[1].o.stdout {
        bad!("schedule_dependent", "the same command and seed give {:?} and {:?}", outs[0].o.stdout_s(), outs[1].o.stdout_s());
    }
    Ok(())
}
fn c09_gen(r: &mut Rng, _: usize) -> Case {
    let mut c = gen_pair(r, "unique");
    if r.chance(1, 25) {
        // every word exactly as often as a small counter can count, or twice that
        let (m, t) = (r.range(25, 40), r.range(1, 2));
        let mut left: Vec<usize> = vec![(256 * t).saturating_sub(r.below(5) / 4); m];
        let nf = r.range(1, 2);
        let mut texts: Vec<Vec<String>> = vec![vec![]; nf];
        while left.iter().any(|k| *k > 0) {
            for (w, k) in left.iter_mut().enumerate() {
                let b = (*k).min(r.range(1, 90));
                *k -= b;
                let at = r.below(nf);
                texts[at].extend(vec![format!("v{w}"); b]);
            }
        }
        c.files.truncate(1);
        let base = c.files.remove(0);
        for (i, t) in texts.iter().enumerate() {
            let lines = t.chunks(500).map(|x| Line::Doc(Some(x.join(" ")))).collect();
            c.files.push(FileSpec { path: format!("s{i}.json.gz"), lines, members: vec![], ..base.clone() });
        }
        for x in &mut c.runs {
            x.opts.n = 1;
            x.opts.tokenizer = None;
        }
        c.kind = "unique-exact-multiples".into();
        return c;
    }
    if r.chance(1, 6) {
        let reps = r.range(100, 300);
        for f in c.files.iter_mut().take(2) {
            f.lines.push(Line::Doc(Some(vec!["a"; reps].join(" "))));
        }
        for x in &mut c.runs {
            x.opts.n = 1;
        }
    }
    c.kind = "unique-accuracy".into();
    c
}

// ------------------------------------------------------------------ damaged and failing input

fn pick_cmd(r: &mut Rng) -> &'static str {
    CMDS[r.below(6)]
}
fn c10_gen(r: &mut Rng, _: usize) -> Case {
    let cmd = pick_cmd(r);
    let mut files = gen_corpus(r, &CORPUS);
    let i = r.below(files.len());
    let f = &mut files[i];
    if f.lines.is_empty() {
        f.lines.push(Line::Doc(Some("a b".into())));
    }
    let mut strict = false;
    let kind = match r.below(9) {
        8 if cmd != "search" => {
            let t = format!("a {} b", *r.pick(&["zebra", "mat", "q", "naive"]));
            let at = r.below(f.lines.len() + 1);
            f.lines.insert(at, Line::Doc(Some(t)));
            strict = true;
            "rejected_text"
        }
        0 | 1 => {
            f.damage = Damage::Cut(r.below(1001) as u32);
            "cut"
        }
        2 => {
            f.damage = Damage::Flip(r.below(1001) as u32, r.below(8) as u32);
            "flip"
        }
        3 => {
            f.damage = Damage::Garbage((0..r.range(12, 40)).map(|k| (k as u8).wrapping_mul(37).wrapping_add(1)).collect());
            "garbage"
        }
        4 => {
            f.damage = Damage::Missing;
            "missing"
        }
        5 => {
            f.damage = Damage::Plain;
            "plain"
        }
        _ => {
            let bad = *r.pick(&["{\"text\": \"a b", "not json", "{\"text\": 5}", "{\"text\": \"a\"} trailing", "", "{\"text\": [\"a\"]}", "17"]);
            let at = r.below(f.lines.len() + 1);
            f.lines.insert(at, match r.below(5) {
                0 => Line::Bin(match r.below(4) {
                    0 => b"{\"text\": \"a \xff b\"}".to_vec(),
                    1 => b"{\"text\": \"a \xc3\", \"id\": 1}".to_vec(),
                    2 => b"{\"text\": \"a\", \"id\": \"\xed\xa0\x80\"}".to_vec(),
                    _ => b"\xf8{\"text\": \"a\"}".to_vec(),
                }),
                1 => Line::Raw((*r.pick(&["{\"text\": \"\\ud800\"}", "\u{feff}{\"text\": \"a\"}", "{\"text\": \"a\tb\"}", "{'text': 'a'}", "{\"text\": \"a\"}{\"text\": \"b\"}", "{\"text\": true}"])).into()),
                _ => Line::Raw(bad.into()),
            });
            // an empty last line without a newline would be no line at all
            f.open_end = false;
            "bad_line"
        }
    };
    let mut o = gen_opts(r, cmd, &files);
    if strict {
        o.tokenizer = Some("sim/strict".into());
        let t = o.clone();
        o.patterns.retain(|p| model::toks(&t, p).is_some());
        if cmd == "count" && o.patterns.is_empty() {
            o.patterns.push("a".into());
        }
    }
    if r.chance(1, 4) && !matches!(cmd, "unique") {
        o.out = Some("out.jsonl".into());
    }
    o.json = kind == "flip" || r.chance(2, 3);
    let a = run(r, o, FULL);
    case(&format!("{cmd}-{kind}"), files, vec![a])
}
fn c10_check(case: &Case, outs: &[RunOut]) -> R {
    // a flipped bit can hit bits that carry no content (padding after the last block): then, and only
    // then, the full exact result is right as well
    let flip = case.files.iter().any(|f| matches!(f.damage, Damage::Flip(..)));
    let o = &case.runs[0].opts;
    if flip && outs[0].o.exited() && outs[0].o.code == 0 {
        let got = match &o.out {
            Some(p) => outs[0].files.get(p).cloned().unwrap_or_default(),
            None => outs[0].o.stdout.clone(),
        };
        if (o.out.is_some() && oracle::file_result(case, o, &got).is_ok()) || (o.json && o.out.is_none() && oracle::result(case, o, &got).is_ok()) {
            return Ok(());
        }
    }
    expect_fail("damaged input", &outs[0])?;
    no_results_in_file(case, &outs[0])
}
fn no_results_in_file(case: &Case, out: &RunOut) -> R {
    if let Some(p) = &case.runs[0].opts.out {
        if let Some(b) = out.files.get(p) {
            if !b.is_empty() {
                bad!("results_on_failure", "the run failed but {p} contains {:?}", String::from_utf8_lossy(b));
            }
        }
    }
    Ok(())
}
fn c10_valid(case: &Case) -> bool {
    case.files.iter().any(|f| (f.damage != Damage::None && !f.lines.is_empty()) || f.lines.iter().any(|l| matches!(l, Line::Raw(_) | Line::Bin(_))))
        || model::rejected(case, &case.runs[0].opts)
}

/// simrt: the call with this number and every later one
const NTH_FROM: u32 = 1 << 31;
const ERRS: [i32; 4] = [libc::EIO, libc::EACCES, libc::EMFILE, libc::ENOMEM];
fn fault(cls: u32, path: &str, nth: u32, action: u32, arg: i32) -> Fault {
    Fault { cls, path: path.into(), nth, action, arg }
}
fn c11_gen(r: &mut Rng, _: usize) -> Case {
    let cmd = pick_cmd(r);
    let files = gen_corpus(r, &CORPUS);
    let mut o = gen_opts(r, cmd, &files);
    if matches!(cmd, "topk" | "botk") {
        o.size = "1MiB".into();
        o.u64_ = false;
    }
    let nf = files.len();
    let mut a = run(r, o, FULL);
    let n = if r.chance(2, 3) { 1 } else { r.range(1, 4) };
    let mut kind = "read";
    for _ in 0..n {
        let p = files[r.below(nf)].path.clone();
        let e = *r.pick(&ERRS);
        match r.below(10) {
            0 | 1 => {
                a.sim.faults.push(fault(F_OPEN, &p, r.below(4) as u32, A_ERR, e));
                kind = "open";
            }
            2 => {
                a.sim.faults.push(fault(F_STAT, &p, r.below(3) as u32, A_ERR, e));
                kind = "stat";
            }
            3 => {
                a.sim.faults.push(fault(F_THREAD, "", r.below(4) as u32, A_ERR, libc::EAGAIN));
                kind = "thread";
            }
            5 if a.opts.tokenizer.is_some() => {
                let t = a.opts.tokenizer.clone().unwrap();
                let p = if r.chance(2, 3) { model::tokenizer_file(&t).0 } else { model::tokenizer_ref(&t) };
                a.sim.faults.push(fault(*r.pick(&[F_OPEN, F_READ, F_STAT]), &p, r.below(2) as u32, A_ERR, e));
                kind = "tokenizer";
            }
            4 if matches!(cmd, "topk" | "botk") => {
                a.sim.alloc_limit = 1 << 20;
                a.chan_cap = Some(8);
                kind = "alloc";
            }
            _ => {
                // small reads so that an error can land inside a file
                if r.chance(1, 2) {
                    a.sim.p_short = 65536;
                    a.sim.short_max = *r.pick(&[10, 30, 100]);
                    a.sim.p_eintr = 0;
                }
                a.sim.faults.push(fault(F_READ, &p, r.below(if a.sim.p_short > 0 { 12 } else { 3 }) as u32, A_ERR, libc::EIO));
            }
        }
    }
    // an error that stays, however often the call is repeated
    if r.chance(1, 3) {
        for f in &mut a.sim.faults {
            if matches!(f.cls, F_OPEN | F_READ | F_STAT) {
                f.nth |= NTH_FROM;
            }
        }
        kind = match kind {
            "read" => "read_persistent",
            "open" => "open_persistent",
            "stat" => "stat_persistent",
            k => k,
        };
    }
    case(&format!("{cmd}-{kind}"), files, vec![a])
}
fn hard_errors(o: &Outcome) -> usize {
    o.flog.iter().filter(|f| f.action == A_ERR && f.arg != libc::EINTR).count() + o.ctr[18] as usize
}
fn c11_check(case: &Case, outs: &[RunOut]) -> R {
    let o = &outs[0];
    if hard_errors(&o.o) == 0 {
        expect_ok("no fault fired", o)?;
        return oracle::result(case, &case.runs[0].opts, &o.o.stdout);
    }
    if !o.o.exited() {
        // Rust ends a program that runs out of memory; only the counter's table is allocated in a way
        // that can be reported
        let err = String::from_utf8_lossy(&o.o.stderr);
        let out_of_memory = o.o.ctr[18] > 0 && o.o.code == -libc::SIGABRT && err.contains("memory allocation of ") && !err.contains("memory allocation of 1048576 bytes");
        if !out_of_memory {
            bad!("abnormal_end", "after an injected error: {}", o.o.describe());
        }
    }
    if o.o.code == 0 {
        if let Err(e) = oracle::result(case, &case.runs[0].opts, &o.o.stdout) {
            bad!("wrong_result_exit_0", "an injected error was swallowed: exit 0 with a wrong result ({})", e.msg);
        }
        return Ok(());
    }
    if !o.o.stdout.is_empty() {
        bad!("results_on_failure", "exit {} but results were printed: {:?}", o.o.code, o.o.stdout_s());
    }
    Ok(())
}
fn c11_probes(case: &Case, outs: &[RunOut]) -> Vec<&'static str> {
    let mut p = vec![];
    if hard_errors(&outs[0].o) > 0 {
        p.push("error_fired");
        if outs[0].o.code == 0 {
            p.push("recovered");
        } else {
            p.push("failed");
        }
    }
    let _ = case;
    p
}

// stats survives up to two failures per file
fn c12_gen(r: &mut Rng, _: usize) -> Case {
    let mut c = one(r, "stats");
    let s = &mut c.runs[0].sim;
    s.p_eintr = 0;
    if r.chance(1, 2) {
        s.p_short = 65536;
        s.short_max = *r.pick(&[5, 20, 80]);
    }
    let span = if s.p_short > 0 { 14 } else { 5 };
    let nf = c.files.len();
    for i in 0..nf {
        let p = c.files[i].path.clone();
        if nf > 1 && r.chance(1, 3) {
            continue;
        }
        let n = r.range(0, 2);
        for _ in 0..n {
            let f = if r.chance(1, 4) {
                fault(F_OPEN, &p, r.below(3) as u32, A_ERR, *r.pick(&ERRS))
            } else {
                fault(F_READ, &p, r.below(span) as u32, A_ERR, libc::EIO)
            };
            if !s.faults.iter().any(|g| g.cls == f.cls && g.path == f.path && g.nth == f.nth) {
                s.faults.push(f);
            }
        }
    }
    c.kind = "stats-transient".into();
    c
}
fn c12_check(case: &Case, outs: &[RunOut]) -> R {
    expect_ok("at most two failed attempts per file", &outs[0])?;
    oracle::stats(case, &case.runs[0].opts, &outs[0].o.stdout)
}
fn c12_probes(_: &Case, outs: &[RunOut]) -> Vec<&'static str> {
    match hard_errors(&outs[0].o) {
        0 => vec!["no_failure"],
        1 => vec!["one_failure"],
        _ => vec!["several_failures"],
    }
}

// short reads, EINTR and delays are invisible
fn c13_gen(r: &mut Rng, _: usize) -> Case {
    let cmd = pick_cmd(r);
    let mut c = one(r, cmd);
    for f in &mut c.files {
        if r.chance(1, 2) && f.lines.len() > 1 {
            f.members = vec![1; r.range(1, f.lines.len())];
            f.ragged = r.chance(1, 2);
        }
    }
    let s = &mut c.runs[0].sim;
    s.p_short = *r.pick(&[65536, 65536, 20000]);
    s.short_max = *r.pick(&[1, 2, 11, 60]);
    s.p_eintr = *r.pick(&[0, 3000, 15000]);
    if r.chance(1, 2) {
        s.p_delay = 10000;
        s.delay_max_ms = *r.pick(&[50, 2500]);
    }
    c.kind = format!("{cmd}-soft-io");
    c
}

// every run ends
fn c14_gen(r: &mut Rng, _: usize) -> Case {
    let cmd = *r.pick(&["topk", "botk", "search", "topk", "search", "stats", "count", "unique"]);
    let mut files = gen_corpus(r, &CORPUS);
    let mut kind = "clean";
    if r.chance(1, 2) {
        let i = r.below(files.len());
        let at = r.below(files[i].lines.len() + 1);
        files[i].lines.insert(at, Line::Raw("{broken".into()));
        kind = "bad_line";
    }
    let mut o = gen_opts(r, cmd, &files);
    if cmd == "topk" {
        o.threshold = Some(0);
    }
    if cmd == "search" {
        o.with_locations = true;
    }
    let mut a = run(r, o, FULL);
    if r.chance(3, 4) {
        a.chan_cap = Some(*r.pick(&[1, 1, 2, 4]));
    }
    if r.chance(1, 4) {
        let p = files[r.below(files.len())].path.clone();
        a.sim.faults.push(fault(F_READ, &p, r.below(3) as u32, A_ERR, libc::EIO));
        kind = "read_error";
    }
    if r.chance(1, 12) {
        a.sim.faults.push(fault(F_THREAD, "", r.below(4) as u32, A_ERR, libc::EAGAIN));
        kind = "thread_failure";
    }
    case(&format!("{cmd}-{kind}"), files, vec![a])
}
fn c14_check(_: &Case, outs: &[RunOut]) -> R {
    for o in outs {
        if o.o.hang || o.o.verdict == V_DEADLOCK || o.o.verdict == V_STEPLIMIT || o.o.verdict == V_TIMELIMIT {
            bad!("no_end", "{}", o.o.describe());
        }
        if o.o.code < 0 {
            bad!("abnormal_end", "{}", o.o.describe());
        }
    }
    Ok(())
}

// limits
fn c15_gen(r: &mut Rng, _: usize) -> Case {
    let cmd = pick_cmd(r);
    let mut c = one(r, cmd);
    let o = &mut c.runs[0].opts;
    if r.chance(3, 4) {
        let longest = c.files.iter().map(|f| f.lines.len()).max().unwrap_or(0);
        o.limit = Some(if r.chance(1, 4) { r.below(longest + 2) } else { r.below(6) });
    }
    if o.limit.is_none() || r.chance(1, 2) {
        o.file_limit = Some(r.range(1, 6));
    }
    c.kind = format!("{cmd}-limits");
    if r.chance(1, 3) {
        // directories among the arguments: the limit counts the files, not the arguments
        for (i, f) in c.files.iter_mut().enumerate() {
            let d = *r.pick(&["", "p/", "p/", "q/", "p/s/"]);
            f.path = format!("{d}{}{i}.json.gz", *r.pick(&["f", "g"]));
        }
        let mut paths: Vec<String> = vec![];
        for f in &c.files {
            let p = match f.path.split_once('/') {
                Some((d, _)) => d.to_string(),
                None => f.path.clone(),
            };
            if !paths.contains(&p) {
                let at = r.below(paths.len() + 1);
                paths.insert(at, p);
            }
        }
        c.paths = paths;
        c.runs[0].opts.file_limit = Some(r.range(1, 4));
        c.kind = format!("{cmd}-limits-dirs");
    }
    c
}
fn c15_check(case: &Case, outs: &[RunOut]) -> R {
    if case.paths.is_empty() {
        return check_all(case, outs);
    }
    expect_ok("limits with directories", &outs[0])?;
    let o = &case.runs[0].opts;
    let n = o.file_limit.unwrap_or(usize::MAX);
    // the files in argument order; within a directory any order is as good as another
    let mut sets: Vec<Vec<FileSpec>> = vec![vec![]];
    let mut left = n;
    for p in &case.paths {
        let group: Vec<&FileSpec> = case.files.iter().filter(|f| &f.path == p || f.path.starts_with(&format!("{p}/"))).collect();
        let take = left.min(group.len());
        left -= take;
        let mut next = vec![];
        for mask in 0u32..1 << group.len() {
            if mask.count_ones() as usize == take {
                for s in &sets {
                    let mut s = s.clone();
                    s.extend(group.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, f)| (*f).clone()));
                    next.push(s);
                }
            }
        }
        sets = next;
    }
    let mut first = Ok(());
    for s in sets {
        let mut c = case.clone();
        c.files = s;
        c.paths.clear();
        c.runs[0].opts.file_limit = None;
        match oracle::result(&c, &c.runs[0].opts, &outs[0].o.stdout) {
            Ok(()) => return Ok(()),
            Err(e) => {
                if first.is_ok() {
                    first = Err(e)
                }
            }
        }
    }
    first.map_err(|e| v("limits", format!("with --file-limit {n} the result matches no choice of {n} files in argument order; for one of them: {}", e.msg)))
}
fn c15_valid(case: &Case) -> bool {
    case.paths.is_empty() || c19_valid(case)
}

// ------------------------------------------------------------------ output files

fn outcmd(r: &mut Rng) -> &'static str {
    ["topk", "botk", "count", "search", "stats"][r.below(5)]
}
/// the output path, how it is given, whether it exists
fn c16_gen(r: &mut Rng, _: usize) -> Case {
    let cmd = outcmd(r);
    let mut c = one(r, cmd);
    let o = &mut c.runs[0].opts;
    let mut name = "out.jsonl".to_string();
    let mut kind = "file";
    if matches!(cmd, "topk" | "botk") && r.chance(1, 3) {
        // a directory: the name is made from the options
        o.p_keep = None;
        let dir = *r.pick(&["results", "deep/er"]);
        o.out = Some(dir.into());
        let mut parts = vec![format!("n{}-k{}-h{}", o.n, o.k, o.hashes)];
        if let Some(s) = o.seed {
            parts.push(format!("-seed{s}"));
        }
        name = format!("{dir}/{}.jsonl", parts.join("-"));
        if r.chance(1, 2) {
            c.extra.push((format!("{dir}/"), String::new()));
        }
        kind = "dir";
    } else {
        if r.chance(1, 3) {
            name = "sub/dir/out.jsonl".into();
        }
        o.out = Some(name.clone());
    }
    let old = match r.below(5) {
        0 => None,
        4 => Some(String::new()),
        1 => Some("old\n".repeat(r.range(1, 400))),
        2 => Some("x".into()),
        _ => Some("{\"stale\": true}\n".repeat(r.range(1, 200))),
    };
    o.force = r.chance(1, 2);
    if let Some(s) = &old {
        if r.chance(1, 10) {
            // the output is a symbolic link to a file elsewhere
            c.extra.push(("elsewhere/old.txt".into(), s.clone()));
            c.extra.push((name.clone(), format!("{LINK}{}elsewhere/old.txt", "../".repeat(name.matches('/').count()))));
        } else {
            c.extra.push((name.clone(), s.clone()));
        }
    }
    c.kind = format!("{cmd}-{kind}-{}{}", if old.is_some() { "exists" } else { "new" }, if o.force { "-force" } else { "" });
    c
}
fn out_name(case: &Case) -> String {
    let o = &case.runs[0].opts;
    let out = o.out.clone().unwrap();
    if out.ends_with(".jsonl") {
        out
    } else {
        let mut parts = vec![format!("n{}-k{}-h{}", o.n, o.k, o.hashes)];
        if let Some(s) = o.seed {
            parts.push(format!("-seed{s}"));
        }
        format!("{out}/{}.jsonl", parts.join("-"))
    }
}
fn c16_check(case: &Case, outs: &[RunOut]) -> R {
    let o = &outs[0];
    let name = out_name(case);
    let at = |n: &str| case.extra.iter().find(|e| e.0 == n).map(|e| e.1.clone());
    let old = at(&name).and_then(|s| if s.starts_with(LINK) { at("elsewhere/old.txt") } else { Some(s) });
    if old.is_some() && !case.runs[0].opts.force {
        expect_fail("the output file exists and --force is not given", o)?;
        if o.files.get(&name).map(|b| b.as_slice()) != old.as_ref().map(|s| s.as_bytes()) {
            bad!("overwritten", "{name} was changed without --force");
        }
        return Ok(());
    }
    expect_ok("writing the output file", o)?;
    complete(case, o, &name)
}
fn complete(case: &Case, o: &RunOut, name: &str) -> R {
    let b = match o.files.get(name) {
        Some(b) => b,
        None => bad!("no_output", "exit 0 but {name} does not exist"),
    };
    oracle::file_result(case, &case.runs[0].opts, b).map_err(|e| v("output_file", format!("{name} is not the result: {}", e.msg)))?;
    if case.runs[0].opts.json && b != &o.o.stdout {
        bad!("output_file", "{name} differs from what was printed");
    }
    if !b.is_empty() && b.last() != Some(&b'\n') {
        bad!("output_file", "{name} does not end with a newline");
    }
    Ok(())
}
fn c17_gen(r: &mut Rng, i: usize) -> Case {
    if r.chance(1, 20) {
        let mut c = one(r, "unique");
        c.runs[0].opts.json = true;
        let stays = if r.chance(1, 2) { NTH_FROM } else { 0 };
        c.runs[0].sim.faults.push(fault(F_WRITE, "<stdout>", r.below(2) as u32 | stays, A_ERR, *r.pick(&[libc::EIO, libc::ENOSPC, libc::EPIPE])));
        c.kind = "unique-stdout_error".into();
        return c;
    }
    let mut c = c16_gen(r, i);
    c.runs[0].opts.force = true;
    let name = out_name(&c);
    let s = &mut c.runs[0].sim;
    let kind = match r.below(9) {
        0 => {
            s.faults.push(fault(F_WRITE, &name, r.below(5) as u32, A_ERR, *r.pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT])));
            "write_error"
        }
        1 => {
            s.faults.push(fault(F_WRITE, &name, r.below(5) as u32, A_FULL, r.below(60) as i32));
            "disk_full"
        }
        2 => {
            s.fs_capacity = r.range(1, 400) as u64;
            "small_disk"
        }
        3 => {
            let stays = if r.chance(1, 2) { NTH_FROM } else { 0 };
            s.faults.push(fault(F_WRITE, "<stdout>", r.below(4) as u32 | stays, A_ERR, *r.pick(&[libc::EIO, libc::ENOSPC, libc::EPIPE])));
            if r.chance(2, 3) {
                // nothing but standard output holds the answer
                c.runs[0].opts.out = None;
                c.runs[0].opts.json = true;
                c.extra.clear();
            }
            "stdout_error"
        }
        4 => {
            s.faults.push(fault(F_OPEN, &name, 0, A_ERR, *r.pick(&[libc::EACCES, libc::EROFS, libc::ENOSPC])));
            "open_error"
        }
        5 => {
            s.faults.push(fault(F_MKDIR, name.rsplit_once('/').map(|x| x.0).unwrap_or("x"), 0, A_ERR, libc::EACCES));
            "mkdir_error"
        }
        6 => {
            s.faults.push(fault(F_WRITE, &name, r.below(5) as u32, A_ERR, libc::EINTR));
            "eintr"
        }
        _ => {
            s.p_short = 65536;
            s.short_max = *r.pick(&[1, 5, 30]);
            "short_writes"
        }
    };
    c.kind = format!("{}-{kind}", c.runs[0].opts.cmd);
    c
}
fn c17_check(case: &Case, outs: &[RunOut]) -> R {
    let o = &outs[0];
    if !o.o.exited() {
        bad!("abnormal_end", "after a failing write: {}", o.o.describe());
    }
    if o.o.code == 0 && case.runs[0].opts.out.is_none() {
        return oracle::result(case, &case.runs[0].opts, &o.o.stdout).map_err(|e| v("exit_0_incomplete", format!("exit 0, but standard output does not hold the result: {}", e.msg)));
    }
    if o.o.code == 0 {
        return complete(case, o, &out_name(case)).map_err(|e| v("exit_0_incomplete", format!("exit 0, but {}", e.msg)));
    }
    if hard_errors(&o.o) == 0 && o.o.ctr[13] == 0 {
        bad!("bad_exit", "no write failed, but {}", o.o.describe());
    }
    Ok(())
}
fn c17_probes(_: &Case, outs: &[RunOut]) -> Vec<&'static str> {
    let mut p = vec![];
    if hard_errors(&outs[0].o) > 0 || outs[0].o.ctr[13] > 0 {
        p.push("write_failed");
    }
    if outs[0].o.code == 0 {
        p.push("completed");
    }
    p
}
// killed anywhere, then run again with --force
fn c18_gen(r: &mut Rng, i: usize) -> Case {
    let mut c = c16_gen(r, i);
    c.runs[0].opts.force = true;
    let name = out_name(&c);
    let mut second = c.runs[0].clone();
    second.sim = gen_sim(r, FULL);
    second.opts.workers = r.range(1, 4);
    let s = &mut c.runs[0].sim;
    let kind = match r.below(4) {
        0 => {
            s.faults.push(fault(F_WRITE, &name, r.below(4) as u32, A_CRASH, r.below(80) as i32));
            "torn_write"
        }
        1 => {
            s.faults.push(fault(*r.pick(&[F_OPEN, F_CLOSE]), &name, 0, A_CRASH, 0));
            "open_close"
        }
        2 => {
            let k = r.below(2).min(c.files.len() - 1);
            s.faults.push(fault(F_READ, &c.files[k].path.clone(), r.below(3) as u32, A_CRASH, 0));
            "reading"
        }
        _ => {
            s.faults.push(fault(F_STEP, "", r.range(1, 4000) as u32, A_CRASH, 0));
            "anywhere"
        }
    };
    c.runs.push(second);
    c.kind = format!("{}-killed-{kind}", c.runs[0].opts.cmd);
    c
}
fn c18_check(case: &Case, outs: &[RunOut]) -> R {
    if outs.len() < 2 {
        return Ok(());
    }
    let name = out_name(case);
    let (a, b) = (&outs[0], &outs[1]);
    if a.o.verdict != V_CRASH && !a.o.ok() {
        bad!("bad_exit", "first run: {}", a.o.describe());
    }
    // whatever a killed run left is the old content or a prefix of the result
    expect_ok("run again with --force after being killed", b)?;
    complete(case, b, &name)?;
    for f in b.files.keys() {
        let known = f == &name || case.extra.iter().any(|e| &e.0 == f);
        if !known {
            bad!("left_over", "after the second run there is an extra file {f}");
        }
    }
    Ok(())
}
fn c18_probes(_: &Case, outs: &[RunOut]) -> Vec<&'static str> {
    if outs[0].o.verdict == V_CRASH {
        vec!["killed"]
    } else {
        vec!["not_killed"]
    }
}

// ------------------------------------------------------------------ directories

fn c19_gen(r: &mut Rng, _: usize) -> Case {
    let cmd = pick_cmd(r);
    let vocab = *r.pick(&VOCAB);
    let cc = CorpusCfg { max_files: 1, max_docs: 4, max_words: 6, odd_lines: true };
    let dirs = ["d", "d/sub", "d/sub/deeper", "d/x.y", "e", "d/[a]", "we ird", "d*d", "d/.hid"];
    let names = ["a.json.gz", "b.jsonl.gz", "c.json.v2.gz", "zz.json.gz", "é.json.gz"];
    let odd = ["readme.txt", "a.json", "b.gz", "c.json.gz.tmp", "x.txt.gz"];
    let mut files: Vec<FileSpec> = vec![];
    let mut extra = vec![];
    let nf = r.range(1, 7);
    let root = *r.pick(&["d", "d", "d", "e", "we ird", "d*d", "d/[a]"]);
    for _ in 0..nf {
        let cand: Vec<&str> = dirs.iter().filter(|d| **d == root || d.starts_with(&format!("{root}/"))).cloned().collect();
        let d = *r.pick(&cand);
        if d == "d/.hid" || (root == "d" && d == "d/[a]" && r.chance(1, 2)) {
            continue;
        }
        let p = format!("{d}/{}", r.pick(&names));
        if files.iter().all(|f| f.path != p) {
            files.push(gen_file(r, p, &cc, vocab));
        }
    }
    if files.is_empty() {
        files.push(gen_file(r, format!("{root}/a.json.gz"), &cc, vocab));
    }
    for _ in 0..r.below(4) {
        let d = files[r.below(files.len())].path.rsplit_once('/').unwrap().0.to_string();
        extra.push((format!("{d}/{}", r.pick(&odd)), "not for wimbd".to_string()));
    }
    // another directory and a single file may be named too
    let mut paths = vec![root.to_string()];
    if r.chance(1, 3) {
        files.push(gen_file(r, "single.json.gz".into(), &cc, vocab));
        paths.push("single.json.gz".into());
    }
    if r.chance(1, 4) {
        files.push(gen_file(r, "other/q.json.gz".into(), &cc, vocab));
        paths.insert(r.below(2), "other".into());
    }
    let mut kind = "listing";
    let mut o = gen_opts(r, cmd, &files);
    o.limit = None;
    // a directory without any such file
    if r.chance(1, 7) {
        o.file_limit = None;
        match r.below(4) {
            0 => extra.push(("void/".into(), String::new())),
            1 => extra.push((format!("void/{}", r.pick(&odd)), "not for wimbd".into())),
            2 => extra.push((format!("void/sub/{}", r.pick(&odd)), "not for wimbd".into())),
            _ => extra.push(("void/a.json.gz.d/".into(), String::new())),
        }
        if r.chance(1, 3) {
            paths = vec![];
            files.clear();
        }
        let at = r.below(paths.len() + 1);
        paths.insert(at, "void".into());
        let a = run(r, o, FULL);
        let mut c = case(&format!("{cmd}-nothing-there"), files, vec![a]);
        c.extra = extra;
        c.paths = paths;
        return c;
    }
    let mut a = run(r, o, FULL);
    if r.chance(1, 3) {
        let d = files[r.below(files.len())].path.rsplit_once('/').map(|x| x.0).unwrap_or("d").to_string();
        let nth = r.below(4) as u32;
        a.sim.faults.push(if r.chance(1, 2) {
            fault(F_OPENDIR, &d, nth.min(1), A_ERR, *r.pick(&[libc::EACCES, libc::EIO, libc::EMFILE]))
        } else {
            fault(F_READDIR, &d, nth, A_ERR, libc::EIO)
        });
        kind = "listing-error";
    }
    let mut c = case(&format!("{cmd}-{kind}"), files, vec![a]);
    c.extra = extra;
    c.paths = paths;
    c
}
fn c19_check(case: &Case, outs: &[RunOut]) -> R {
    if case.kind.ends_with("nothing-there") {
        return expect_fail("a directory holds no JSON gzip file", &outs[0]);
    }
    c11_check(case, outs)
}
fn c19_valid(case: &Case) -> bool {
    if case.kind.ends_with("nothing-there") {
        return case.paths.iter().any(|p| p == "void") && case.extra.iter().any(|e| e.0.starts_with("void/"));
    }
    // every named path still has something below it
    case.paths.iter().all(|p| case.files.iter().any(|f| &f.path == p || f.path.starts_with(&format!("{p}/"))))
}

// ------------------------------------------------------------------ library: the reader

pub fn all() -> Vec<Box<dyn Prop>> {
    let mut v: Vec<Box<dyn Prop>> = vec![];
    let mut add = |id, budget, rule, gen, check, valid, probes| v.push(Box::new(Spec { id, budget, rule, gen, check, valid, probes }));
    add("C01", (7000, 250_000), "Random small corpora (1 to 5 gzip files of 0 to 6 documents over 2 to 10 words), topk options, each command line run under two drawn schedules or a drawn and a serial one.", c01_gen, check_pair, always, basic_probes);
    add("C02", (7000, 250_000), "As C01 with counter tables of 4 to 1024 cells and 1 to 6 hash functions, so that n-grams collide.", c02_gen, c02_check, always, basic_probes);
    add("C03", (7000, 250_000), "Random small corpora and botk options (thresholds, p-keep, small tables), each run under two drawn schedules.", c03_gen, c03_check, always, basic_probes);
    add("C04", (9000, 300_000), "Random small corpora and 1 to 3 search strings.", c04_gen, check_all, always, basic_probes);
    add("C05", (9000, 300_000), "Random small corpora and 1 to 3 regular expressions, with and without locations, channel capacities from 1 up.", c05_gen, check_all, always, basic_probes);
    add("C06", (9000, 300_000), "As C05 with a locations limit of 0 to 8.", c06_gen, check_all, always, basic_probes);
    add("C07", (9000, 300_000), "Random small corpora, half of them with many documents of equal length.", c07_gen, check_all, always, basic_probes);
    add("C08", (7000, 250_000), "Random small corpora; unique and botk with a fixed hash seed, twice under different schedules and worker counts.", c08_gen, c08_check, always, basic_probes);
    add("C09", (7000, 250_000), "Random small corpora; unique with tables far larger than the number of n-grams, 1 to 5 hash functions.", c09_gen, check_all, always, basic_probes);
    add("C10", (9000, 300_000), "Random small corpora with one damaged file (cut, bit flip, garbage, missing, not compressed, malformed line or bytes that are no text), every command.", c10_gen, c10_check, c10_valid, basic_probes);
    add("C11", (9000, 300_000), "Random small corpora, every command, 1 to 4 injected errors of read, open, stat, thread creation or memory allocation.", c11_gen, c11_check, always, c11_probes);
    add("C12", (9000, 300_000), "Random small corpora, stats, up to two failing opens or reads per file at drawn positions.", c12_gen, c12_check, always, c12_probes);
    add("C13", (9000, 300_000), "Random small corpora with many gzip members, every command, short reads, EINTR and slow reads.", c13_gen, check_all, always, basic_probes);
    add("C14", (11000, 400_000), "Random small corpora, every command, channel capacities from 1 up, malformed lines, read errors, thread creation failures, stalled threads, clock jumps.", c14_gen, c14_check, always, basic_probes);
    add("C15", (9000, 300_000), "Random small corpora, every command, line limits 0 to 5 or up to the length of the longest file and file limits 1 to 6, with plain files and with directories as arguments.", c15_gen, c15_check, c15_valid, basic_probes);
    add("C16", (7000, 250_000), "Random small corpora, every command with an output option: new, existing (also through a symbolic link) and existing-with-force files, file and directory arguments.", c16_gen, c16_check, always, basic_probes);
    add("C17", (9000, 300_000), "As C16 with --force and failing, short and interrupted writes, full disks, failing open and mkdir, and standard output that fails once or for good, also as the only output.", c17_gen, c17_check, always, c17_probes);
    add("C18", (7000, 250_000), "As C16 with --force, killed inside a write, around opening, while reading or at any scheduling point, then run again.", c18_gen, c18_check, always, c18_probes);
    add("C19", (7000, 250_000), "Random directory trees (nested, odd names, other files beside), every command, listing order drawn, listing errors, directories without such files.", c19_gen, c19_check, c19_valid, basic_probes);
    v
}
