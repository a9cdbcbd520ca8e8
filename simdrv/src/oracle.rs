//! What a finished process must have printed, judged against the reference models.
use crate::case::*;
use crate::engine::{RunOut, Viol};
use crate::model;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

pub type R = Result<(), Viol>;

pub fn v(class: &str, msg: String) -> Viol {
    Viol { class: class.into(), msg }
}
macro_rules! bad {
    ($class:expr, $($a:tt)*) => { return Err(v($class, format!($($a)*))) };
}
pub(crate) use bad;

pub fn json_lines(b: &[u8]) -> Result<Vec<Value>, Viol> {
    let s = std::str::from_utf8(b).map_err(|_| v("garbled", "output is not UTF-8".into()))?;
    let mut out = vec![];
    for l in s.lines() {
        out.push(serde_json::from_str(l).map_err(|_| v("garbled", format!("output line is not JSON: {l:?}")))?);
    }
    Ok(out)
}

/// the answer, also when it is printed for people
pub fn values(o: &Opts, b: &[u8]) -> Result<Vec<Value>, Viol> {
    if o.json {
        return json_lines(b);
    }
    let s = std::str::from_utf8(b).map_err(|_| v("garbled", "output is not UTF-8".into()))?;
    human(&o.cmd, s).ok_or_else(|| v("garbled", format!("output not understood: {s:?}")))
}
fn number(s: &str) -> Option<u64> {
    s.replace(',', "").parse().ok()
}
/// the string that Rust shows as this
fn undebug(s: &str) -> Option<String> {
    let mut c = s.strip_prefix('"')?.strip_suffix('"')?.chars();
    let mut out = String::new();
    while let Some(x) = c.next() {
        if x != '\\' {
            out.push(x);
            continue;
        }
        out.push(match c.next()? {
            'n' => '\n',
            't' => '\t',
            'r' => '\r',
            '0' => '\0',
            'u' => {
                let hex: String = c.by_ref().skip_while(|x| *x == '{').take_while(|x| *x != '}').collect();
                char::from_u32(u32::from_str_radix(&hex, 16).ok()?)?
            }
            x @ ('\\' | '"' | '\'') => x,
            _ => return None,
        });
    }
    Some(out)
}
fn human(cmd: &str, s: &str) -> Option<Vec<Value>> {
    let mut out: Vec<Value> = vec![];
    match cmd {
        "stats" => {
            let mut x = serde_json::json!({});
            let mut list = "";
            for l in s.lines() {
                let (k, val) = l.split_once(':')?;
                let val = val.trim();
                match k.trim_start_matches("  - ").trim_start() {
                    "total tokens" => x["total_tokens"] = number(val)?.into(),
                    "total documents" => x["total_documents"] = number(val)?.into(),
                    "total bytes" => x["total_bytes"] = number(val)?.into(),
                    "max tokens per document" => x["document_max_tokens"] = number(val)?.into(),
                    "min tokens per document" => x["document_min_tokens"] = number(val)?.into(),
                    "max token documents" => list = "max_token_documents",
                    "min token documents" => list = "min_token_documents",
                    "path" => {
                        let d = serde_json::json!({"path": undebug(val)?});
                        if x[list].is_null() {
                            x[list] = Value::Array(vec![]);
                        }
                        x[list].as_array_mut()?.push(d);
                    }
                    "line" => x[list].as_array_mut()?.last_mut()?["line"] = number(val)?.into(),
                    "tokens" => x[list].as_array_mut()?.last_mut()?["num_tokens"] = number(val)?.into(),
                    _ => return None,
                }
            }
            out.push(x);
        }
        "unique" => {
            for l in s.lines() {
                out.push(serde_json::json!({"unique_count": number(l.rsplit_once(": ")?.1)?}));
            }
        }
        _ => {
            let n = s.lines().filter(|l| l.starts_with('[')).count() as u64;
            for l in s.lines() {
                if let Some(rest) = l.strip_prefix(" \u{2192} [") {
                    // a location of a search: path, line, number of matches and text
                    let (head, text) = rest.split_once(" matches] ")?;
                    let (head, k) = head.rsplit_once(", ")?;
                    let (path, line) = head.rsplit_once(", line ")?;
                    let m = &mut out.last_mut()?["matches"];
                    if m[path].is_null() {
                        m[path] = Value::Array(vec![]);
                    }
                    let subs: Vec<Value> = (0..number(k)?).map(|i| serde_json::json!({"start_col": i, "end_col": i})).collect();
                    m[path].as_array_mut()?.push(serde_json::json!({"line_num": number(line)?, "text": undebug(text)?, "submatches": subs}));
                    continue;
                }
                let (rank, rest) = l.strip_prefix('[')?.split_once("] ")?;
                let (rank, total) = rank.split_once('/')?;
                if number(total)? != n || number(rank)? != out.len() as u64 + 1 {
                    return None;
                }
                let (text, count) = rest.rsplit_once(" (count ")?;
                let count = number(count.strip_suffix(')')?.rsplit_once(' ')?.1)?;
                let text: String = undebug(text)?;
                let tokens: Vec<&str> = text.split(' ').collect();
                out.push(serde_json::json!({"tokens": tokens, "string": text, "pattern": text, "count": count, "rank": number(rank)?, "matches": {}}));
            }
        }
    }
    Some(out)
}

pub fn expect_ok(what: &str, o: &RunOut) -> R {
    if !o.o.ok() {
        let e = o.o.stderr_s();
        let tail: String = e.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect();
        bad!("bad_exit", "{what}: expected success, got {}; stderr ends with {tail:?}", o.o.describe());
    }
    Ok(())
}
/// a failing process: it ended by itself with an ordinary non-zero status, and gave no results
pub fn expect_fail(what: &str, o: &RunOut) -> R {
    if !o.o.exited() {
        bad!("abnormal_end", "{what}: expected an ordinary failure, got {}", o.o.describe());
    }
    if o.o.code == 0 {
        bad!("silent_success", "{what}: exit 0, stdout {:?}", o.o.stdout_s());
    }
    if !o.o.stdout.is_empty() {
        bad!("results_on_failure", "{what}: exit {} but results were printed: {:?}", o.o.code, o.o.stdout_s());
    }
    Ok(())
}

fn strs(x: &Value) -> Vec<String> {
    x.as_array().map(|a| a.iter().map(|t| t.as_str().unwrap_or("?").to_string()).collect()).unwrap_or_default()
}

pub struct Item {
    pub gram: Vec<String>,
    pub count: u64,
}
/// rank, form and order of an n-gram list; `desc`: topk
pub fn gram_list(vals: &[Value], o: &Opts, desc: bool) -> Result<Vec<Item>, Viol> {
    let mut items = vec![];
    let mut seen = BTreeSet::new();
    let mut last: Option<u64> = None;
    for (i, x) in vals.iter().enumerate() {
        let gram = strs(&x["tokens"]);
        let count = match x["count"].as_u64() {
            Some(c) => c,
            None => bad!("form", "no count in {x}"),
        };
        if x["rank"].as_u64() != Some(i as u64 + 1) {
            bad!("rank", "entry {} has rank {}", i + 1, x["rank"]);
        }
        if gram.len() != o.n {
            bad!("form", "entry {x} is not a {}-gram", o.n);
        }
        if x["string"].as_str() != Some(&gram.join(" ")) {
            bad!("form", "string and tokens differ in {x}");
        }
        if !seen.insert(gram.clone()) {
            bad!("duplicate", "n-gram {gram:?} is reported twice");
        }
        if let Some(l) = last {
            if (desc && count > l) || (!desc && count < l) {
                bad!("order", "counts are not sorted: {l} then {count}");
            }
        }
        last = Some(count);
        items.push(Item { gram, count });
    }
    if items.len() > o.k {
        bad!("too_many", "{} entries for k = {}", items.len(), o.k);
    }
    Ok(items)
}

pub fn topk_exact(case: &Case, o: &Opts, out: &[u8]) -> R {
    let g = model::ngrams(&model::active(case, o), o);
    let items = gram_list(&values(o, out)?, o, true)?;
    let th = o.threshold.unwrap_or(1) as u64;
    let mut el: Vec<u64> = g.values().cloned().filter(|c| *c > th).collect();
    el.sort_by(|a, b| b.cmp(a));
    exact("topk", &g, &items, el, o.k)
}
pub fn botk_exact(case: &Case, o: &Opts, out: &[u8]) -> R {
    let g = model::ngrams(&model::active(case, o), o);
    let items = gram_list(&values(o, out)?, o, false)?;
    let th = o.threshold.unwrap_or(u32::MAX) as u64;
    if let Some(p) = &o.p_keep {
        if p.parse::<f32>().unwrap() < 1.0 {
            for i in &items {
                match g.get(&i.gram) {
                    None => bad!("phantom", "botk reports {:?}, which is not in the corpus", i.gram),
                    Some(c) if *c != i.count => bad!("wrong_count", "botk reports {:?} {} times, it occurs {c} times", i.gram, i.count),
                    Some(c) if *c >= th => bad!("threshold", "botk reports {:?} with count {c} although the threshold is {th}", i.gram),
                    _ => {}
                }
            }
            return Ok(());
        }
    }
    let mut el: Vec<u64> = g.values().cloned().filter(|c| *c < th).collect();
    el.sort();
    exact("botk", &g, &items, el, o.k)
}
fn exact(what: &str, g: &model::Grams, items: &[Item], eligible: Vec<u64>, k: usize) -> R {
    for i in items {
        match g.get(&i.gram) {
            None => bad!("phantom", "{what} reports {:?}, which is not in the corpus", i.gram),
            Some(c) if *c != i.count => bad!("wrong_count", "{what} reports {:?} {} times, it occurs {c} times", i.gram, i.count),
            _ => {}
        }
    }
    let want: Vec<u64> = eligible.into_iter().take(k).collect();
    let got: Vec<u64> = items.iter().map(|i| i.count).collect();
    if want.len() != got.len() {
        bad!("missing", "{what} reports {} n-grams, {} qualify (counts {want:?})", got.len(), want.len());
    }
    if want != got {
        bad!("not_top", "{what} reports counts {got:?}, the right ones are {want:?}");
    }
    Ok(())
}

/// any table size: counts are upper bounds and nothing above the last entry is missing
pub fn topk_bound(case: &Case, o: &Opts, out: &[u8]) -> R {
    let g = model::ngrams(&model::active(case, o), o);
    let total: u64 = g.values().sum();
    let items = gram_list(&values(o, out)?, o, true)?;
    let th = o.threshold.unwrap_or(1) as u64;
    let mut have = BTreeSet::new();
    for i in &items {
        match g.get(&i.gram) {
            None => bad!("phantom", "topk reports {:?}, which is not in the corpus", i.gram),
            Some(c) if *c > i.count => bad!("undercount", "topk reports {:?} with count <= {}, it occurs {c} times", i.gram, i.count),
            _ => {}
        }
        // every occurrence adds 1 per hash function, at most all to the same cell
        if i.count > total * o.hashes as u64 {
            bad!("overcount", "topk reports count {} for {:?}; the corpus has {total} n-grams", i.count, i.gram);
        }
        if i.count <= th {
            bad!("threshold", "topk reports count {} with threshold {th}", i.count);
        }
        have.insert(&i.gram);
    }
    let floor = if items.len() < o.k { th } else { items.last().map(|i| i.count).unwrap_or(0) };
    for (gram, c) in &g {
        if *c > floor && *c > th && !have.contains(gram) {
            bad!("missing", "{gram:?} occurs {c} times but is not among the {} reported, the last of which has {floor}", items.len());
        }
    }
    Ok(())
}
pub fn botk_bound(case: &Case, o: &Opts, out: &[u8]) -> R {
    let g = model::ngrams(&model::active(case, o), o);
    let total: u64 = g.values().sum();
    let items = gram_list(&values(o, out)?, o, false)?;
    for i in &items {
        match g.get(&i.gram) {
            None => bad!("phantom", "botk reports {:?}, which is not in the corpus", i.gram),
            Some(c) if *c > i.count => bad!("undercount", "botk reports {:?} with count <= {}, it occurs {c} times", i.gram, i.count),
            _ => {}
        }
        // every occurrence adds 1 per hash function, at most all to the same cell
        if i.count > total * o.hashes as u64 {
            bad!("overcount", "botk reports count {} for {:?}; the corpus has {total} n-grams", i.count, i.gram);
        }
    }
    if items.len() != g.len().min(o.k) && o.threshold.is_none() {
        bad!("missing", "botk reports {} n-grams of {} for k = {}", items.len(), g.len(), o.k);
    }
    Ok(())
}

pub fn count(case: &Case, o: &Opts, out: &[u8]) -> R {
    let files = model::active(case, o);
    let vals = values(o, out)?;
    let mut got = BTreeMap::new();
    for x in &vals {
        if got.insert(strs(&x["tokens"]), x["count"].as_u64()).is_some() {
            bad!("duplicate", "two entries for {}", x["tokens"]);
        }
    }
    let want: BTreeMap<Vec<String>, Option<u64>> =
        o.patterns.iter().map(|p| (model::toks(o, p).unwrap_or_default(), Some(model::count_tokens(&files, o, p)))).collect();
    if got != want {
        bad!("wrong_count", "count reports {got:?}, the right answer is {want:?}");
    }
    Ok(())
}

/// one answer of a search; read without generic values, since there may be very many locations
#[derive(serde::Deserialize)]
struct Found {
    #[serde(default)]
    pattern: String,
    count: Option<u64>,
    matches: Option<BTreeMap<String, Vec<FoundLine>>>,
}
#[derive(serde::Deserialize)]
struct FoundLine {
    #[serde(default)]
    line_num: u64,
    #[serde(default)]
    text: String,
    #[serde(default)]
    submatches: Vec<FoundMatch>,
}
#[derive(serde::Deserialize)]
struct FoundMatch {
    start_col: u64,
    end_col: u64,
}
fn found(o: &Opts, out: &[u8]) -> Result<Vec<Found>, Viol> {
    if o.json {
        let s = std::str::from_utf8(out).map_err(|_| v("garbled", "output is not UTF-8".into()))?;
        return s.lines().map(|l| serde_json::from_str(l).map_err(|_| v("garbled", format!("output line is not JSON or lacks something: {l:?}")))).collect();
    }
    values(o, out)?.into_iter().map(|x| serde_json::from_value(x).map_err(|e| v("garbled", e.to_string()))).collect()
}
fn locs_of(x: Found) -> Result<Vec<model::Loc>, Viol> {
    let mut locs = vec![];
    let m = match x.matches {
        Some(m) => m,
        None => bad!("form", "no matches of {:?}", x.pattern),
    };
    for (path, ls) in m {
        for l in ls {
            let subs = l.submatches.iter().map(|s| (s.start_col, s.end_col)).collect();
            locs.push(model::Loc { path: path.clone(), line: l.line_num, text: l.text, subs });
        }
    }
    locs.sort();
    Ok(locs)
}
pub fn search(case: &Case, o: &Opts, out: &[u8]) -> R {
    let files = model::active(case, o);
    let mut left: BTreeSet<String> = o.patterns.iter().cloned().collect();
    for x in found(o, out)? {
        let p = x.pattern.clone();
        if !left.remove(&p) {
            bad!("duplicate", "unexpected entry for pattern {p:?}");
        }
        let (n, locs) = model::search(&files, o, &p);
        if x.count != Some(n) {
            bad!("wrong_count", "search reports {:?} matches of {p:?}, there are {n}", x.count);
        }
        if !o.with_locations {
            continue;
        }
        let mut got = locs_of(x)?;
        let mut locs = locs;
        if !o.json {
            // printed for people, only the number of matches is known
            for l in got.iter_mut().chain(locs.iter_mut()) {
                let n = l.subs.len() as u64;
                l.subs = (0..n).map(|i| (i, i)).collect();
            }
        }
        match o.locations_limit {
            None => {
                if got != locs {
                    bad!("locations", "locations of {p:?}: reported {got:?}, the right ones are {locs:?}");
                }
            }
            Some(lim) => {
                let want = n.min(lim as u64);
                let have: u64 = got.iter().map(|l| l.subs.len() as u64).sum();
                if have != want {
                    bad!("locations_limit", "{have} locations of {p:?} reported, limit {lim}, total {n}");
                }
                let real: std::collections::HashMap<_, _> = locs.iter().map(|r| ((&r.path, r.line), (&r.text, r.subs.iter().collect::<BTreeSet<_>>()))).collect();
                for l in &got {
                    let real = real.get(&(&l.path, l.line)).filter(|r| *r.0 == l.text);
                    let set: BTreeSet<_> = l.subs.iter().collect();
                    if real.is_none() || set.len() != l.subs.len() || !set.is_subset(&real.unwrap().1) {
                        bad!("locations", "location {l:?} of {p:?} is not a real match");
                    }
                }
                let keys: BTreeSet<_> = got.iter().map(|l| (&l.path, l.line)).collect();
                if keys.len() != got.len() {
                    bad!("locations", "a line is reported twice for {p:?}");
                }
            }
        }
    }
    if !left.is_empty() {
        bad!("missing", "no entry for {left:?}");
    }
    Ok(())
}

pub fn stats(case: &Case, o: &Opts, out: &[u8]) -> R {
    let s = model::stats(&model::active(case, o), o);
    let vals = values(o, out)?;
    if vals.len() != 1 {
        bad!("form", "stats printed {} lines", vals.len());
    }
    let x = &vals[0];
    for (k, want) in [("total_tokens", s.tokens), ("total_documents", s.docs), ("total_bytes", s.bytes), ("document_max_tokens", s.max)] {
        if x[k].as_u64() != Some(want) {
            bad!("wrong_total", "stats reports {k} = {}, it is {want}", x[k]);
        }
    }
    if let Some(m) = s.min {
        if x["document_min_tokens"].as_u64() != Some(m) {
            bad!("wrong_total", "stats reports document_min_tokens = {}, it is {m}", x["document_min_tokens"]);
        }
    }
    for (k, want) in [("max_token_documents", &s.max_docs), ("min_token_documents", &s.min_docs)] {
        let mut got: Vec<(String, u64, u64)> = x[k]
            .as_array()
            .unwrap_or(&vec![])
            .iter()
            .map(|d| (d["path"].as_str().unwrap_or("?").to_string(), d["line"].as_u64().unwrap_or(0), d["num_tokens"].as_u64().unwrap_or(u64::MAX)))
            .collect();
        got.sort();
        if &got != want {
            bad!("extremes", "stats reports {k} {got:?}, the right ones are {want:?}");
        }
    }
    Ok(())
}

pub fn unique_value(o: &Opts, out: &[u8]) -> Result<u64, Viol> {
    let vals = values(o, out)?;
    if vals.len() != 1 || vals[0]["unique_count"].as_u64().is_none() {
        bad!("form", "unique printed {:?}", String::from_utf8_lossy(out));
    }
    Ok(vals[0]["unique_count"].as_u64().unwrap())
}
pub fn unique(case: &Case, o: &Opts, out: &[u8]) -> R {
    let g = model::ngrams(&model::active(case, o), o);
    let got = unique_value(o, out)? as f64;
    let t = g.len() as f64;
    if (t == 0.0 && got != 0.0) || (got - t).abs() > 8.0 + 0.06 * t {
        bad!("estimate", "unique reports {got}, the corpus has {t} distinct n-grams");
    }
    Ok(())
}

/// the content of the output file, which is JSON however the answer is printed
pub fn file_result(case: &Case, o: &Opts, b: &[u8]) -> R {
    let mut o = o.clone();
    o.json = true;
    result(case, &o, b)
}
/// the whole answer of one fault-free process
pub fn result(case: &Case, o: &Opts, out: &[u8]) -> R {
    match o.cmd.as_str() {
        "topk" => topk_exact(case, o, out),
        "botk" => botk_exact(case, o, out),
        "count" => count(case, o, out),
        "search" => search(case, o, out),
        "stats" => stats(case, o, out),
        "unique" => unique(case, o, out),
        _ => Ok(()),
    }
}
