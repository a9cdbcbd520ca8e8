//! Reference models: what the commands must answer, computed from the documents alone.
use crate::case::*;
use std::collections::BTreeMap;
use unicode_segmentation::UnicodeSegmentation;

pub fn tokens(s: &str) -> Vec<String> {
    s.split_word_bounds()
        .filter(|w| w.chars().any(|c| !c.is_whitespace()))
        .map(|w| w.to_string())
        .collect()
}

// Pretrained tokenizers: three small ones, put into the cache of the Hugging Face client, so that no
// network is needed. All split at white space, and all would add [CLS] and [SEP] if asked to.
pub const TOKENIZERS: [&str; 3] = ["sim/lower", "sim/bpe", "sim/strict"];
const UNKNOWN: [&str; 5] = ["mat", "zebra", "q", "42", "don't"];

fn words() -> &'static Vec<String> {
    static W: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    W.get_or_init(all_words)
}
fn all_words() -> Vec<String> {
    let mut w: Vec<String> = VOCAB.iter().flat_map(|v| v.iter()).map(|s| s.to_string()).collect();
    w.extend(["w1", "w2", "w3"].map(String::from));
    w.retain(|s| !UNKNOWN.contains(&s.as_str()));
    w.sort();
    w.dedup();
    w
}
const CHARS: &str = "abcdehmnostxyzéwïA日,!1234";

pub fn tokenizer_file(name: &str) -> (String, String) {
    let mut vocab: Vec<String> = vec![];
    let model = match name {
        "sim/bpe" => {
            vocab.push("<unk>".into());
            vocab.extend(CHARS.chars().map(|c| c.to_string()));
            vocab.push("ab".into());
            vocab.push("at".into());
            serde_json::json!({"type": "BPE", "dropout": null, "unk_token": "<unk>", "continuing_subword_prefix": null, "end_of_word_suffix": null, "fuse_unk": false, "merges": ["a b", "a t"]})
        }
        "sim/strict" => {
            vocab.extend(words().iter().cloned());
            serde_json::json!({"type": "WordLevel", "unk_token": "<unk>"})
        }
        _ => {
            vocab.push("<unk>".into());
            vocab.extend(words().iter().map(|w| w.to_lowercase()));
            serde_json::json!({"type": "WordLevel", "unk_token": "<unk>"})
        }
    };
    let mut ids = serde_json::Map::new();
    for w in vocab {
        let n = ids.len();
        ids.entry(w).or_insert(serde_json::json!(n));
    }
    let special = |n: &str| {
        let mut m = serde_json::Map::new();
        m.insert(n.into(), serde_json::json!({"id": n, "ids": [ids.len()], "tokens": [n]}));
        m
    };
    let mut sp = special("[CLS]");
    sp.extend(special("[SEP]"));
    let mut model = model;
    model["vocab"] = serde_json::Value::Object(ids);
    let t = |n: &str| serde_json::json!({"SpecialToken": {"id": n, "type_id": 0}});
    let seq = |n: &str| serde_json::json!({"Sequence": {"id": n, "type_id": 0}});
    let j = serde_json::json!({
        "version": "1.0", "truncation": null, "padding": null, "added_tokens": [],
        "normalizer": if name == "sim/lower" { serde_json::json!({"type": "Lowercase"}) } else { serde_json::Value::Null },
        "pre_tokenizer": {"type": "WhitespaceSplit"},
        "post_processor": {"type": "TemplateProcessing", "single": [t("[CLS]"), seq("A"), t("[SEP]")], "pair": [seq("A"), seq("B")], "special_tokens": sp},
        "decoder": null, "model": model,
    });
    (format!("hf/hub/models--{}/snapshots/r/tokenizer.json", name.replace('/', "--")), j.to_string())
}
pub fn tokenizer_ref(name: &str) -> String {
    format!("hf/hub/models--{}/refs/main", name.replace('/', "--"))
}

/// None: the tokenizer cannot handle the text
pub fn toks(o: &Opts, s: &str) -> Option<Vec<String>> {
    let name = match &o.tokenizer {
        None => return Some(tokens(s)),
        Some(n) => n.as_str(),
    };
    let mut out = vec![];
    for w in s.split_whitespace() {
        match name {
            "sim/bpe" => {
                let mut last = None;
                for c in w.chars() {
                    if last == Some('a') && (c == 'b' || c == 't') {
                        out.pop();
                        out.push(format!("a{c}"));
                        last = None;
                        continue;
                    }
                    out.push(if CHARS.contains(c) { c.to_string() } else { "<unk>".into() });
                    last = Some(c);
                }
            }
            "sim/strict" => {
                if !words().iter().any(|x| x == w) {
                    return None;
                }
                out.push(w.to_string());
            }
            _ => {
                let w = w.to_lowercase();
                out.push(if words().iter().any(|x| x.to_lowercase() == w) { w } else { "<unk>".into() });
            }
        }
    }
    Some(out)
}
/// a document (or search string) that the tokenizer rejects is used
pub fn rejected(case: &Case, o: &Opts) -> bool {
    o.tokenizer.is_some()
        && (o.patterns.iter().any(|p| toks(o, p).is_none())
            || active(case, o).iter().any(|f| f.used_lines(o.limit).iter().any(|l| l.text().map_or(false, |t| toks(o, t).is_none()))))
}
fn must(o: &Opts, s: &str) -> Vec<String> {
    toks(o, s).unwrap_or_default()
}

pub type Grams = BTreeMap<Vec<String>, u64>;

pub fn active<'a>(case: &'a Case, o: &Opts) -> Vec<&'a FileSpec> {
    let n = o.file_limit.unwrap_or(usize::MAX);
    case.files.iter().take(n).collect()
}

pub fn ngrams(files: &[&FileSpec], o: &Opts) -> Grams {
    let mut g = Grams::new();
    for f in files {
        for l in f.used_lines(o.limit) {
            if let Some(t) = l.text() {
                for w in must(o, t).windows(o.n) {
                    *g.entry(w.to_vec()).or_default() += 1;
                }
            }
        }
    }
    g
}

pub fn count_tokens(files: &[&FileSpec], o: &Opts, search: &str) -> u64 {
    let s = must(o, search);
    let mut c = 0;
    for f in files {
        for l in f.used_lines(o.limit) {
            if let Some(t) = l.text() {
                let toks = must(o, t);
                if s.is_empty() || toks.len() < s.len() {
                    continue;
                }
                c += toks.windows(s.len()).filter(|w| *w == &s[..]).count() as u64;
            }
        }
    }
    c
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Loc {
    pub path: String,
    pub line: u64,
    pub text: String,
    pub subs: Vec<(u64, u64)>,
}
pub fn search(files: &[&FileSpec], o: &Opts, pattern: &str) -> (u64, Vec<Loc>) {
    let re = regex::Regex::new(pattern).unwrap();
    let mut n = 0;
    let mut locs = vec![];
    for f in files {
        for (i, l) in f.used_lines(o.limit).iter().enumerate() {
            if let Some(t) = l.text() {
                let subs: Vec<(u64, u64)> = re.find_iter(t).map(|m| (m.start() as u64, m.end() as u64)).collect();
                n += subs.len() as u64;
                if !subs.is_empty() {
                    locs.push(Loc { path: f.path.clone(), line: i as u64 + 1, text: t.into(), subs });
                }
            }
        }
    }
    locs.sort();
    (n, locs)
}

#[derive(Debug, Clone, PartialEq)]
pub struct Stats {
    pub tokens: u64,
    pub docs: u64,
    pub bytes: u64,
    pub max: u64,
    pub min: Option<u64>,
    pub max_docs: Vec<(String, u64, u64)>,
    pub min_docs: Vec<(String, u64, u64)>,
}
pub fn stats(files: &[&FileSpec], o: &Opts) -> Stats {
    let mut s = Stats { tokens: 0, docs: 0, bytes: 0, max: 0, min: None, max_docs: vec![], min_docs: vec![] };
    let mut all = vec![];
    for f in files {
        let tb = f.text_bytes();
        for (i, l) in f.used_lines(o.limit).iter().enumerate() {
            s.docs += 1;
            s.bytes += tb[i].len() as u64;
            if let Some(t) = l.text() {
                let n = must(o, t).len() as u64;
                s.tokens += n;
                all.push((f.path.clone(), i as u64 + 1, n));
            }
        }
    }
    s.max = all.iter().map(|x| x.2).max().unwrap_or(0);
    s.min = all.iter().map(|x| x.2).min();
    s.max_docs = all.iter().filter(|x| x.2 == s.max).cloned().collect();
    s.min_docs = all.iter().filter(|x| Some(x.2) == s.min).cloned().collect();
    s.max_docs.sort();
    s.min_docs.sort();
    s
}
