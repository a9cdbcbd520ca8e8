//! A case: the files, the command line and the simulated world of every process run in it.
use crate::rng::Rng;
use crate::rt::*;
use flate2::write::GzEncoder;
use flate2::{Compression, GzBuilder};
use serde::{Deserialize, Serialize};
use std::io::Write;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Line {
    /// a document; None: the text is null
    Doc(Option<String>),
    /// an object without the text field
    NoText,
    /// a document with other fields around the text
    Rich(String),
    /// anything, written as it is
    Raw(String),
    /// bytes that are no text
    Bin(Vec<u8>),
    /// a document after a field of this many bytes
    Padded(String, usize),
}
impl Line {
    pub fn json(&self, i: usize) -> String {
        match self {
            Line::Doc(Some(t)) => serde_json::json!({ "text": t }).to_string(),
            Line::Doc(None) => "{\"text\":null}".into(),
            Line::NoText => format!("{{\"id\":{i}}}"),
            Line::Rich(t) => format!(
                "{{\"id\": {i}, \"meta\": {{\"text\": \"not this one\"}}, \"text\": {}, \"tags\": [1, null]}}",
                serde_json::to_string(t).unwrap()
            ),
            Line::Raw(s) => s.clone(),
            Line::Bin(b) => String::from_utf8_lossy(b).into_owned(),
            Line::Padded(t, n) => format!("{{\"pad\": \"{}\", \"text\": {}}}", "0123456789abcdef".repeat(n / 16), serde_json::to_string(t).unwrap()),
        }
    }
    pub fn text(&self) -> Option<&str> {
        match self {
            Line::Doc(Some(t)) | Line::Rich(t) | Line::Padded(t, _) => Some(t),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Damage {
    None,
    /// cut after this many per mille of the compressed bytes
    Cut(u32),
    /// flip one bit: position in per mille of the payload and trailer
    Flip(u32, u32),
    /// bytes after the last member that are not a gzip member
    Garbage(Vec<u8>),
    /// the file does not exist
    Missing,
    /// the bytes are not compressed at all
    Plain,
    /// member body replaced by a header alone
    HeaderOnly,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FileSpec {
    pub path: String,
    pub lines: Vec<Line>,
    /// number of lines in each gzip member, the rest goes in a last one
    pub members: Vec<usize>,
    /// split the members in the middle of a line
    pub ragged: bool,
    pub level: u32,
    /// the last line ends without a newline
    pub open_end: bool,
    /// lines end with a carriage return and a newline
    #[serde(default)]
    pub crlf: bool,
    /// extra gzip header fields
    pub fancy_header: bool,
    pub damage: Damage,
}

impl FileSpec {
    pub fn text_bytes(&self) -> Vec<Vec<u8>> {
        let n = self.lines.len();
        let mut v: Vec<Vec<u8>> = vec![];
        for (i, l) in self.lines.iter().enumerate() {
            let mut b = match l {
                Line::Bin(b) => b.clone(),
                l => l.json(i).into_bytes(),
            };
            if !(self.open_end && i + 1 == n) {
                if self.crlf {
                    b.push(b'\r');
                }
                b.push(b'\n');
            }
            v.push(b);
        }
        v
    }
    /// compressed members, before any damage
    pub fn members_bytes(&self) -> Vec<Vec<u8>> {
        let lines = self.text_bytes();
        let mut parts: Vec<Vec<u8>> = vec![];
        let mut at = 0;
        for m in &self.members {
            if at >= lines.len() {
                break;
            }
            let e = (at + m).min(lines.len());
            parts.push(lines[at..e].concat());
            at = e;
        }
        parts.push(lines[at..].concat());
        if self.ragged {
            for i in 1..parts.len() {
                let cut = parts[i].len().min(7);
                let head: Vec<u8> = parts[i].drain(..cut).collect();
                parts[i - 1].extend(head);
            }
        }
        parts
            .iter()
            .map(|p| {
                let mut out = Vec::new();
                if self.fancy_header {
                    let mut e = GzBuilder::new()
                        .filename("data.json")
                        .comment("a comment")
                        .extra(vec![1, 2, 3, 4])
                        .mtime(1234)
                        .write(&mut out, Compression::new(self.level));
                    e.write_all(p).unwrap();
                    e.finish().unwrap();
                } else {
                    let mut e = GzEncoder::new(&mut out, Compression::new(self.level));
                    e.write_all(p).unwrap();
                    e.finish().unwrap();
                }
                out
            })
            .collect()
    }
    /// the bytes on disk; None: no file
    pub fn bytes(&self) -> Option<Vec<u8>> {
        let members = self.members_bytes();
        let all = members.concat();
        Some(match &self.damage {
            Damage::None => all,
            Damage::Missing => return None,
            Damage::Plain => self.text_bytes().concat(),
            Damage::HeaderOnly => all[..10].to_vec(),
            Damage::Garbage(g) => {
                let mut a = all;
                a.extend_from_slice(g);
                a
            }
            Damage::Cut(pm) => {
                // strictly inside a member
                let mut cut = 1 + (all.len() - 2) * (*pm as usize).min(1000) / 1000;
                let mut end = 0;
                for m in &members {
                    end += m.len();
                    if cut == end {
                        cut = end - 1;
                    }
                }
                all[..cut.max(1)].to_vec()
            }
            Damage::Flip(pm, bit) => {
                // inside the deflate data or the trailer of the last member
                let last = members.last().unwrap();
                let base = all.len() - last.len();
                let hdr = if self.fancy_header { 10 + 6 + 10 + 10 } else { 10 };
                let body = last.len() - hdr;
                let pos = base + hdr + (body - 1) * (*pm as usize).min(1000) / 1000;
                let mut a = all;
                a[pos] ^= 1 << (bit & 7);
                a
            }
        })
    }
    pub fn used_lines(&self, limit: Option<usize>) -> &[Line] {
        match limit {
            Some(l) if l < self.lines.len() => &self.lines[..l],
            _ => &self.lines,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Opts {
    pub cmd: String,
    pub n: usize,
    pub k: usize,
    pub size: String,
    pub hashes: usize,
    pub seed: Option<u64>,
    pub limit: Option<usize>,
    pub file_limit: Option<usize>,
    pub workers: usize,
    pub threshold: Option<u32>,
    pub u64_: bool,
    pub json: bool,
    pub out: Option<String>,
    pub force: bool,
    pub quiet: bool,
    pub patterns: Vec<String>,
    pub with_locations: bool,
    pub locations_limit: Option<usize>,
    pub p_keep: Option<String>,
    pub tokenizer: Option<String>,
}
impl Opts {
    pub fn new(cmd: &str) -> Opts {
        Opts {
            cmd: cmd.into(),
            n: 2,
            k: 3,
            size: "1MiB".into(),
            hashes: 5,
            seed: None,
            limit: None,
            file_limit: None,
            workers: 2,
            threshold: None,
            u64_: false,
            json: true,
            out: None,
            force: false,
            quiet: true,
            patterns: vec![],
            with_locations: false,
            locations_limit: None,
            p_keep: None,
            tokenizer: None,
        }
    }
    pub fn args(&self, paths: &[String]) -> Vec<String> {
        let mut a: Vec<String> = vec![self.cmd.clone()];
        a.extend(paths.iter().cloned());
        let mut opt = |k: &str, v: String| {
            a.push(k.into());
            a.push(v);
        };
        opt("-j", self.workers.to_string());
        let ng = matches!(self.cmd.as_str(), "topk" | "botk" | "unique");
        if ng {
            opt("-n", self.n.to_string());
            opt("--size", self.size.clone());
            opt("-h", self.hashes.to_string());
            if let Some(s) = self.seed {
                opt("--seed", s.to_string());
            }
        }
        if matches!(self.cmd.as_str(), "topk" | "botk") {
            opt("-k", self.k.to_string());
            if let Some(t) = self.threshold {
                opt("--threshold", t.to_string());
            }
        }
        if let Some(p) = &self.p_keep {
            opt("--p-keep", p.clone());
        }
        if let Some(l) = self.limit {
            opt("--limit", l.to_string());
        }
        if let Some(l) = self.file_limit {
            opt("--file-limit", l.to_string());
        }
        for p in &self.patterns {
            opt(if self.cmd == "search" { "-p" } else { "-s" }, p.clone());
        }
        if let Some(o) = &self.out {
            opt("-o", o.clone());
        }
        if let Some(t) = &self.tokenizer {
            opt("--tokenizer", t.clone());
        }
        if let Some(l) = self.locations_limit {
            opt("--locations-limit", l.to_string());
        }
        if self.u64_ {
            a.push("--u64".into());
        }
        if self.with_locations {
            a.push("--with-locations".into());
        }
        if self.json {
            a.push("--json".into());
        }
        if self.force {
            a.push("-f".into());
        }
        if self.quiet {
            a.push("-q".into());
        }
        a
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Run {
    pub opts: Opts,
    pub sim: Sim,
    pub chan_cap: Option<u32>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub prop: String,
    pub kind: String,
    pub files: Vec<FileSpec>,
    /// other files put in place first: path and content
    pub extra: Vec<(String, String)>,
    /// what is given on the command line; empty: every file in order
    pub paths: Vec<String>,
    pub runs: Vec<Run>,
}
impl Case {
    pub fn argv_paths(&self) -> Vec<String> {
        if self.paths.is_empty() {
            self.files.iter().map(|f| f.path.clone()).collect()
        } else {
            self.paths.clone()
        }
    }
    pub fn cmdline(&self, i: usize) -> Vec<String> {
        self.runs[i].opts.args(&self.argv_paths())
    }
}

/// content of an extra file that is a symbolic link
pub const LINK: &str = "symlink to ";

// ------------------------------------------------------------- generation

pub const VOCAB: [&[&str]; 6] = [
    &["a", "b"],
    &["a", "b", "c", "d"],
    // the same letters when joined: "a ab" and "aa b"
    &["a", "aa", "b", "ab", "aab"],
    &["the", "cat", "sat", "on", "mat", "naïve", "42", "!"],
    &["3.14", "1,000", "e.g.", "👍🏽", "co2", "a_b", "can't", "שלום", "ไทย", "-"],
    &["x", "y", "zebra", "日本", "été", "don't", ",", "A", "Z", "q"],
];

pub struct CorpusCfg {
    pub max_files: usize,
    pub max_docs: usize,
    pub max_words: usize,
    pub odd_lines: bool,
}

pub fn gen_text(r: &mut Rng, vocab: &[&str], max_words: usize) -> String {
    let n = r.below(max_words + 1);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str(match r.below(24) {
                0 | 1 => "  ",
                2 | 3 => "\n",
                4 | 5 => "\t",
                6 => *r.pick(&["\u{a0}", "\u{3000}", "\u{2003}", "\u{85}", "\r\n", "\u{2028}"]),
                _ => " ",
            });
        }
        // skewed choice: few frequent words, some rare
        let k = if r.chance(1, 2) { r.below(2.min(vocab.len())) } else { r.below(vocab.len()) };
        s.push_str(vocab[k]);
    }
    s
}

pub fn gen_file(r: &mut Rng, path: String, c: &CorpusCfg, vocab: &[&str]) -> FileSpec {
    let nd = match r.below(8) {
        0 => 0,
        1 => 1,
        _ => r.range(1, c.max_docs),
    };
    let mut lines = vec![];
    for _ in 0..nd {
        let t = gen_text(r, vocab, c.max_words);
        lines.push(match if c.odd_lines { r.below(14) } else { 13 } {
            0 => Line::Doc(None),
            1 => Line::NoText,
            2 | 3 => Line::Rich(t),
            _ => Line::Doc(Some(t)),
        });
    }
    let mut members = vec![];
    if r.chance(1, 3) {
        let mut left = nd;
        while left > 0 && members.len() < 6 {
            let k = r.range(0, left.min(3));
            members.push(k);
            left -= k;
        }
    }
    FileSpec {
        path,
        lines,
        members,
        ragged: r.chance(1, 3),
        level: *r.pick(&[0, 1, 6, 9]),
        open_end: r.chance(1, 5),
        crlf: r.chance(1, 12),
        fancy_header: r.chance(1, 6),
        damage: Damage::None,
    }
}

pub fn gen_corpus(r: &mut Rng, c: &CorpusCfg) -> Vec<FileSpec> {
    let nf = 1 + r.below(c.max_files);
    let vocab = *r.pick(&VOCAB);
    let mut files: Vec<FileSpec> = (0..nf).map(|i| gen_file(r, format!("f{i}.json.gz"), c, vocab)).collect();
    if r.chance(1, 5) {
        // several directories, the same file names in them
        let dirs = ["", "x/", "y/", "x/y/", "y y/"];
        for i in 0..nf {
            let p = format!("{}f{}.json.gz", r.pick(&dirs), r.below(2));
            if files.iter().all(|f| f.path != p) {
                files[i].path = p;
            }
        }
    }
    match r.below(100) {
        // a document longer than the reader's buffers
        0 => {
            let i = r.below(nf);
            let n = r.range(300, 3000);
            let t: Vec<String> = (0..n).map(|k| if r.chance(1, 40) { format!("w{k}") } else { r.pick(vocab).to_string() }).collect();
            let at = r.below(files[i].lines.len() + 1);
            files[i].lines.insert(at, Line::Doc(Some(t.join(" "))));
        }
        // many documents in one file
        1 => {
            let i = r.below(nf);
            let n = r.range(50, 400);
            files[i].lines = (0..n).map(|_| Line::Doc(Some(gen_text(r, vocab, 3)))).collect();
        }
        // many files
        2 => {
            let small = CorpusCfg { max_files: 1, max_docs: 2, max_words: 4, odd_lines: c.odd_lines };
            for i in nf..nf + r.range(6, 30) {
                files.push(gen_file(r, format!("m{i}.json.gz"), &small, vocab));
            }
        }
        // a very long word
        3 => {
            let i = r.below(nf);
            let n = *r.pick(&[100, 300, 1000, 5000, 9000, 70_000]);
            let w = r.pick(&["w", "é", "ab", "日"]).repeat(n);
            let at = r.below(files[i].lines.len() + 1);
            let t = gen_text(r, vocab, 4);
            files[i].lines.insert(at, Line::Doc(Some(format!("{t} {w} {}", vocab[0]))));
        }
        // very many documents in one file, or a very long one
        4 if r.chance(1, 2) => {
            let i = r.below(nf);
            if r.chance(1, 2) {
                let n = if r.chance(1, 8) { r.range(65_530, 66_500) } else { r.range(1000, 2600) };
                files[i].lines = (0..n).map(|k| Line::Doc(Some(if k % 97 == 0 { format!("{} w{k}", vocab[0]) } else { vocab[k % 2].to_string() }))).collect();
            } else {
                // mostly one word, which then occurs more often than 16 bits can count
                let n = if r.chance(1, 4) { r.range(65_530, 140_000) } else { r.range(20_000, 40_000) };
                let other = *r.pick(&[1, 2, 4000]);
                let t: Vec<&str> = (0..n).map(|_| if r.chance(1, other) { *r.pick(vocab) } else { vocab[0] }).collect();
                files[i].lines.push(Line::Doc(Some(t.join(" "))));
            }
        }
        // a line longer than any buffer
        5 if r.chance(1, 3) => {
            let i = r.below(nf);
            let at = r.below(files[i].lines.len() + 1);
            let t = gen_text(r, vocab, 6);
            files[i].lines.insert(at, Line::Padded(t, *r.pick(&[70_000, 1_100_000, 2_200_000])));
            files[i].level = 6;
        }
        _ => {}
    }
    files
}

/// which parts of the simulated world may be unfriendly
#[derive(Clone, Copy)]
pub struct World {
    pub sched: bool,
    pub jumps: bool,
    pub soft_io: bool, // short reads and writes, EINTR, delays
}
pub const FULL: World = World { sched: true, jumps: true, soft_io: true };

pub fn gen_sim(r: &mut Rng, w: World) -> Sim {
    let mut s = Sim::serial();
    s.sched_seed = r.next() >> 1;
    s.io_seed = r.next() >> 1;
    s.sys_seed = r.next() >> 1;
    if w.sched {
        s.policy = [0, 1, 2, 3, 4, 5][r.weighted(&[30, 28, 14, 16, 9, 3])];
        match s.policy {
            0 => {
                s.p_switch = *r.pick(&[32768, 16384, 4096, 1024, 256]);
                if r.chance(1, 3) {
                    s.kind_mask = (1 << K_FUTEX_WAIT) | (1 << K_FUTEX_WAKE) | (1 << K_IO) | (1 << K_THREAD) | (1 << K_EXIT) | (1 << K_TIME);
                    s.p_switch = *r.pick(&[49152, 32768, 16384]);
                }
            }
            1 => {
                s.pct_depth = r.range(0, 6) as u32;
                s.pct_range = *r.pick(&[300, 1000, 3000, 10000]);
            }
            2 => s.burst_mean = *r.pick(&[3, 10, 40, 200, 1000]),
            3 => {
                s.starve_tid = r.below(5) as u32;
                s.starve_p = *r.pick(&[0, 64, 1024, 8192]);
                s.p_switch = *r.pick(&[8192, 1024, 128]);
            }
            4 => {
                s.kind_mask = (1 << K_IO) | (1 << K_THREAD) | (1 << K_EXIT);
                s.p_switch = *r.pick(&[60000, 32768, 8192]);
            }
            _ => {}
        }
        s.max_run = *r.pick(&[300, 2000, 20000]);
    }
    if w.jumps {
        if r.chance(2, 5) {
            s.p_jump = *r.pick(&[200, 2000, 20000]);
        }
        if r.chance(1, 4) {
            s.p_spur = *r.pick(&[20000, 200000]);
        }
    }
    if w.soft_io {
        if r.chance(1, 3) {
            s.p_short = *r.pick(&[4000, 20000, 65536]);
            s.short_max = *r.pick(&[1, 7, 40, 300]);
        }
        if r.chance(1, 4) {
            s.p_delay = *r.pick(&[2000, 20000]);
            s.delay_max_ms = *r.pick(&[5, 700, 3000]);
        }
        if r.chance(1, 6) {
            s.p_eintr = *r.pick(&[1000, 10000]);
        }
    }
    s
}

impl Opts {
    /// arguments of the library scenario binary
    pub fn lib_args(&self, paths: &[String]) -> Vec<String> {
        let mut a = vec![self.cmd.trim_start_matches("lib:").to_string()];
        a.extend(self.patterns.iter().cloned());
        a.extend(paths.iter().cloned());
        a
    }
}
